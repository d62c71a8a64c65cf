#include "nat.h"
const char *scen_name = "multicut";
const char *scen_probes[] = {"long_value", "many_columns", "too_many_columns", "leading_space", "no_final_newline", "missing_column", "bad_argument", "blank_line", NULL};
const char *scen_rule = "a run = generated input through the program, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#include "conv.h"
static char args[12][24];
static void gen(void) {
	int sel[12], ns = 1 + (int) sim_choose_small(10), many = sim_flip(1, 12), badarg = 0;
	for (int i = 0; i < ns; i++) { sel[i] = sim_flip(1, 15) ? (int) sim_choose(3) - 1 : 1 + (int) sim_choose(many ? 101 : 6); snprintf(args[i], 24, "%d", sel[i]); }
	if (sim_flip(1, 25)) { sim_probe(6); badarg = 1; if (sim_flip(1, 2)) strcpy(args[sim_choose((u32) ns)], sim_flip(1, 2) ? "x" : ""); else { ns = 11; for (int i = 0; i < 11; i++) strcpy(args[i], "1"); } }
	for (int i = 0; i < ns; i++) argvv[argn++] = args[i];
	if (badarg) malformed = 1;
	for (u32 r = sim_choose(9); r; r--) {
		static bytes_t col[110]; int nc = 0, c = sim_flip(1, 10) ? 0 : 1 + (int) sim_choose(7); if (many && sim_flip(1, 2)) { c = 98 + (int) sim_choose(5); sim_probe(1); }
		size_t at = in.n;
		if (sim_flip(1, 6)) { sim_probe(3); bytes_str(&in, sim_flip(1, 2) ? " \t " : "\t"); col[nc++].n = 0; }
		if (!c) { sim_probe(7); if (!nc) col[nc++].n = 0; else if (in.n > at) { } }
		for (int i = 0; i < c; i++) {
			bytes_t *v = &col[nc++]; v->n = 0;
			u32 n = many ? 1 + sim_choose(4) : 1 + anylen(); if (n > 4000) sim_probe(0);
			for (u32 k = 0; k < n; k++) ch(v, sim_flip(1, 8) ? 128 + (int) sim_choose(128) : 33 + (int) ((k * 7 + n) % 94));
			if (i) for (u32 k = 1 + sim_choose_small(3); k; k--) ch(&in, " \t\v\f\r"[sim_choose(5)]);
			bytes_add(&in, v->p, v->n);
		}
		int last = r == 1 && sim_flip(1, 3) && in.n > at; if (last) sim_probe(4);
		if (!last) bytes_str(&in, sim_flip(1, 4) ? " \r\n" : "\n");
		if (nc > 100 && !malformed) { sim_probe(2); malformed = 1; want_before_bad = want.n; }
		for (int i = 0; i < ns; i++) { if (i) ch(&want, '\t'); if (sel[i] >= 1 && sel[i] <= nc) bytes_add(&want, col[sel[i] - 1].p, col[sel[i] - 1].n); else sim_probe(5); }
		ch(&want, '\n');
	}
}
