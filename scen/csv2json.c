#include "nat.h"
const char *scen_name = "csv2json";
const char *scen_probes[] = {"quoted", "newline_in_value", "long_value", "many_columns", "more_columns_than_names", "no_header", "empty_last_value", "malformed", "no_final_newline", "blank_lines", "control_characters", NULL};
const char *scen_rule = "a run = a generated table through the program, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#include "conv.h"
static bytes_t name[200]; static int names, nohead;
static void value(bytes_t *v) {
	text(v, anylen(), sim_flip(1, 2) ? ",\"\n\r\t\\/ '" : "\"\\");
	if (sim_flip(1, 10)) { sim_probe(10); ch(v, 1 + (int) sim_choose(31)); }
	if (v->n > 4000) sim_probe(2);
}
static void put(const bytes_t *v, int alone) {
	int q = sim_flip(1, 3) || (alone && v->n == 0) || (v->n && v->p[0] == '"');
	for (size_t i = 0; i < v->n; i++) if (strchr(",\r\n", v->p[i])) q = 1;
	if (!q) { bytes_add(&in, v->p, v->n); return; }
	sim_probe(0); ch(&in, '"');
	for (size_t i = 0; i < v->n; i++) { if (v->p[i] == '"') ch(&in, '"'); ch(&in, v->p[i]); if (v->p[i] == '\n') sim_probe(1); }
	ch(&in, '"');
}
static void eol(int blank) { bytes_str(&in, sim_flip(1, 3) ? "\r\n" : "\n"); if (blank && sim_flip(1, 8)) { sim_probe(9); bytes_str(&in, sim_flip(1, 2) ? "\r\n" : "\n\n"); } }
static void gen(void) {
	int rows = sim_choose(8), cols = 1 + sim_choose_small(7), many = sim_flip(1, 20);
	nohead = sim_flip(1, 4); if (nohead) { sim_probe(5); argvv[argn++] = "-n"; }
	if (many) { cols = 97 + sim_choose(8); sim_probe(3); }
	for (int r = nohead ? 0 : -1; r < rows; r++) {
		int c = sim_flip(3, 4) ? cols : 1 + (int) sim_choose(8); if (many && r > 0) c = 1 + sim_choose(3); if (r < 0) c = cols;
		int bad = r == rows - 1 && sim_flip(1, 6) && !malformed;
		if (c > 100 && !malformed) { malformed = 1; want_before_bad = want.n; }
		if (r >= 0) bytes_str(&want, "{");
		for (int i = 0; i < c; i++) {
			bytes_t v = {0}; if (many) text(&v, sim_choose(4), ""); else value(&v);
			if (i) ch(&in, ',');
			put(&v, c == 1);
			if (v.n == 0 && i == c - 1 && i) sim_probe(6);
			if (r < 0) { name[names++] = v; continue; }
			if (i) bytes_str(&want, ",");
			if (i < names) json_str(&want, name[i].p, name[i].n, 0); else { if (names) sim_probe(4); bytes_fmt(&want, "\"col%d\"", i); }
			bytes_str(&want, ":"); json_str(&want, v.p, v.n, 0);
			free(v.p);
		}
		if (bad) {
			if (!malformed) { malformed = 1; sim_probe(7); size_t k = want.n; while (k && want.p[k - 1] != '\n') k--; want_before_bad = r < 0 ? 0 : k; }
			bytes_str(&in, sim_flip(1, 2) ? ",\"abc" : ",\"abc\"d\n");
			return;
		}
		if (r >= 0) bytes_str(&want, "}\n");
		if (r == rows - 1 && sim_flip(1, 3)) sim_probe(8); else eol(1);
	}
}
