#import fmt/delta
#import os/gamma
#import alpha
#import util.c

int main(int argc, char **argv) {
	alpha.item_t i = {.a = argc, .name = argv[0]};
	char *t = delta.show(&i);
	puts(t);
	free(t);
	util.pair_t p = util.pair(gamma.pid(), 2);
	printf("%d\n", p.first);
	return util.sum(p);
}
