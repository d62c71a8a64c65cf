#include "nat.h"
const char *scen_name = "json-table";
const char *scen_probes[] = {"table", "inline_table", "plain", "many_columns", "long_line", "no_final_newline", "table_at_the_end", "looks_like_json", "missing_keys", "large_number", "escapes", "empty_array", "empty_object", NULL};
const char *scen_rule = "a run = generated input through the program, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#define OWN_COMPARE
#include "conv.h"
static int same_out(const char *o, size_t on, const bytes_t *w) { return on == w->n && (!on || !memcmp(o, w->p, on)); }
// a table: keys of the longest row
static bytes_t cell[12][130]; static int has[12][130], len[12];
static void value(bytes_t *v) { // JSON text to in, shown text to v
	v->n = 0;
	switch (sim_choose(6)) {
	case 0: { u32 x = sim_choose(sim_flip(1, 3) ? 2000000000 : 10001); bytes_fmt(v, "%u", x); bytes_add(&in, v->p, v->n);
		if (x > 10000) { char t[20]; size_t n = v->n; memcpy(t, v->p, n); v->n = 0; for (size_t i = 0; i < n; i++) { if (i && (n - i) % 3 == 0) ch(v, '`'); ch(v, t[i]); } } break; }
	case 1: { sim_probe(9); unsigned long long x = 4000000000ull + (unsigned long long) sim_choose(1000000000) * 900; char t[30]; size_t n = (size_t) snprintf(t, 30, "%llu", x); bytes_str(&in, t); for (size_t i = 0; i < n; i++) { if (i && (n - i) % 3 == 0) ch(v, '`'); ch(v, t[i]); } break; }
	case 2: bytes_str(v, sim_flip(1, 3) ? "true" : sim_flip(1, 2) ? "false" : "null"); bytes_add(&in, v->p, v->n); break;
	case 3: bytes_str(v, sim_flip(1, 2) ? "[1,2]" : "-17"); bytes_add(&in, v->p, v->n); break;
	default: {
		u32 n = sim_flip(1, 30) ? anylen() : sim_choose(12); if (n > 4000) sim_probe(4);
		for (u32 i = 0; i < n; i++) ch(v, sim_flip(1, 8) ? "\"\\/ "[sim_choose(4)] : 33 + (int) ((i * 11 + n) % 94));
		if (n && sim_flip(1, 5)) sim_probe(10);
		json_str(&in, v->p, v->n, 0); }
	}
}
static void row(int r, int k, int many) {
	ch(&in, '{'); len[r] = 0; memset(has[r], 0, sizeof has[r]); int first = 1;
	for (int i = 0; i < k; i++) {
		if (!many && sim_flip(1, 6)) { sim_probe(8); continue; }
		if (!first) bytes_str(&in, sim_flip(1, 4) ? ", " : ",");
		first = 0;
		bytes_fmt(&in, "\"k%d\":", i); value(&cell[r][i]); has[r][i] = 1; len[r]++;
	}
	ch(&in, '}'); if (!len[r]) sim_probe(12);
}
static void show(int n) {
	int best = 0; for (int i = 1; i < n; i++) if (len[i] > len[best]) best = i;
	size_t w[130] = {0}, tot = 0; int cols = 0;
	for (int c = 0; c < 130; c++) if (has[best][c]) { char t[8]; w[c] = (size_t) snprintf(t, 8, "k%d", c); for (int r = 0; r < n; r++) if (has[r][c] && cell[r][c].n > w[c]) w[c] = cell[r][c].n; tot += w[c] + (cols++ ? 3 : 0); }
	bytes_fmt(&want, "%d rows\n", n);
#define LINE for (size_t i = 0; i < tot; i++) ch(&want, '-'); ch(&want, '\n');
	LINE
	for (int r = -1; r < n; r++) {
		int k = 0;
		for (int c = 0; c < 130; c++) if (has[best][c]) { if (k++) bytes_str(&want, " | "); size_t at = want.n; if (r < 0) bytes_fmt(&want, "k%d", c); else if (has[r][c]) bytes_add(&want, cell[r][c].p, cell[r][c].n); while (want.n - at < w[c]) ch(&want, ' '); }
		ch(&want, '\n'); if (r < 0) { LINE }
	}
	LINE
}
static void gen(void) {
	int blocks = (int) sim_choose(5), after_table = 0, many = sim_flip(1, 12);
	for (int b = 0; b < blocks; b++) {
		int last = b == blocks - 1; int k = many ? 95 + (int) sim_choose(12) : (int) sim_choose(6); if (many) sim_probe(3);
		switch (sim_choose(3)) {
		case 0: if (!after_table) {
			int n = 1 + (int) sim_choose(many ? 2 : 7); sim_probe(0); if (last) sim_probe(6);
			for (int r = 0; r < n; r++) { row(r, k, many); if (last && r == n - 1 && sim_flip(1, 2)) sim_probe(5); else bytes_str(&in, sim_flip(1, 4) ? "\r\n" : "\n"); }
			show(n); after_table = 1; break;
		} // fall through
		case 1: {
			int n = (int) sim_choose(many ? 3 : 6); size_t at = in.n; sim_probe(n ? 1 : 11); if (last) sim_probe(6); ch(&in, '[');
			for (int r = 0; r < n; r++) { if (r) ch(&in, ','); row(r, k, many); }
			ch(&in, ']'); if (last && sim_flip(1, 2)) sim_probe(5); else ch(&in, '\n');
			if (n) show(n); else bytes_add(&want, in.p + at, in.n - at);
			after_table = 0; break; }
		default: {
			size_t at = in.n; sim_probe(2); static const char *odd[] = {"{invalid", "[1]", "[{\"a\":1},2]", "{\"a\":1} x", "[", "{", "{\"a\":}", "17", "\"s\"", "null", "[[]]"};
			if (sim_flip(1, 3)) { sim_probe(7); bytes_str(&in, odd[sim_choose(11)]); } else { ch(&in, 'a' + (int) sim_choose(26)); u32 n = anylen(); if (n > 4000) sim_probe(4); text(&in, n, "{}[]\","); }
			if (last && sim_flip(1, 2)) sim_probe(5); else ch(&in, '\n');
			bytes_add(&want, in.p + at, in.n - at); after_table = 0; }
		}
	}
}
