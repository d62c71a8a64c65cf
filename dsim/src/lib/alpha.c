pub typedef { int a; char *name; } item_t;
pub typedef { double x, y; } point_t;
pub typedef { item_t *items; size_t n; } list_t;
pub typedef int cmp_t(item_t *, item_t *);

pub enum { ALPHA_ONE = 1, ALPHA_TWO, ALPHA_FOUR = 4 }

#define LIMIT 100

int counter = 0;
const char *names[] = {"zero", "one", "two"};

pub int next() {
	counter++;
	if (counter > LIMIT) counter = 0;
	return counter;
}

pub const char *name(int i) {
	if (i < 0 || i > 2) return "none";
	return names[i];
}

pub list_t *newlist(size_t n) {
	list_t *l = calloc!(1, sizeof(list_t));
	l->n = n;
	l->items = calloc!(n, sizeof(item_t));
	return l;
}

pub double norm(point_t p) {
	return sqrt(p.x * p.x + p.y * p.y);
}

pub void freelist(list_t *l) {
	free(l->items);
	free(l);
}
