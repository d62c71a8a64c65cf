#import sub/part.c
#import fmt/delta
#import alpha

int main(int argc, char **argv) {
	part.table_t t = {};
	for (int i = 0; i < argc; i++) {
		part.add(&t, argv[i]);
	}
	alpha.item_t first = {.a = t.used, .name = "first"};
	char *s = delta.show(&first);
	printf("my tool: %s %d\n", s, part.total(&t));
	free(s);
	return 0;
}
