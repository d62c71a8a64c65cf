#import alpha
#import os/gamma

pub typedef { alpha.list_t *l; gamma.clock_data_t c; } state_t;
typedef { int hidden; } private_t;

pub state_t *start() {
	state_t *s = calloc!(1, sizeof(state_t));
	private_t p = {.hidden = 3};
	s->l = alpha.newlist((size_t) p.hidden);
	gamma.tick(&s->c);
	return s;
}

pub void stop(state_t *s) {
	alpha.freelist(s->l);
	free(s);
}
