#import alpha
#import fmt/delta

typedef { int k; alpha.item_t *v; } slot_t;
typedef { slot_t slots[4]; int used; } bag_t;
enum { RED, GREEN, BLUE = 7 }

int main() {
	bag_t b = {.used = BLUE};
	alpha.item_t a = {.a = RED, .name = "a"};
	alpha.item_t c = {.a = GREEN, .name = "c"};
	b.slots[0].v = &a;
	b.slots[0].k = b.used;
	if (delta.less(b.slots[0].v, &c)) {
		puts("less");
	}
	return 0;
}
