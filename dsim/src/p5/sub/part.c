#import os/gamma

enum { ROWS = 16 }
pub typedef { char *rows[ROWS]; int used; gamma.clock_data_t when; } table_t;

pub void add(table_t *t, char *row) {
	if (t->used == ROWS) {
		puts("part: table is full");
		return;
	}
	t->rows[t->used] = row;
	t->used++;
	gamma.tick(&t->when);
}

pub int total(table_t *t) {
	int sum = 0;
	for (int i = 0; i < t->used; i++) {
		char *p = t->rows[i];
		while (*p != '\0') {
			sum++;
			p++;
		}
	}
	return sum;
}
