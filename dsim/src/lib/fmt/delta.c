#import alpha

pub char *show(alpha.item_t *i) {
	char *buf = calloc!(100, 1);
	snprintf(buf, 100, "%d %s", i->a, i->name);
	return buf;
}

pub bool less(alpha.item_t *x, *y) {
	return x->a < y->a;
}
