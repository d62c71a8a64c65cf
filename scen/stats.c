#include "nat.h"
const char *scen_name = "stats";
const char *scen_probes[] = {"ten_columns", "too_many_columns", "uneven_rows", "long_line", "no_final_newline", "empty", "many_rows", "blank_line", "one_row", NULL};
const char *scen_rule = "a run = generated input through the program, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#define OWN_COMPARE
#include "conv.h"
#include <math.h>
static double *val[10]; static u32 rows, cols;
static int cmp(const void *a, const void *b) { double x = *(double *) a, y = *(double *) b; return x < y ? -1 : x > y; }
static int close_to(double a, double b, double unit) { return fabs(a - b) <= unit * .5001 + 1e-9 * fabs(b); }
// the numbers of the output, whatever their layout
static int same_out(const char *o, size_t on, const bytes_t *w) {
	(void) w; char *s = malloc(on + 1); memcpy(s, o, on); s[on] = 0; int ok = 1; char *p = s;
	static const char *lab[] = {"avg", "min", "max", "N", "sum", "0.05", "0.25", "0.33", "0.50", "0.66", "0.75", "0.95", "0.99"}; static const int pc[] = {5, 25, 33, 50, 66, 75, 95, 99};
	for (int l = 0; l < 13 && ok; l++) {
		if (strncmp(p, lab[l], strlen(lab[l]))) { ok = 0; break; }
		p += strlen(lab[l]);
		for (u32 c = 0; c < cols && ok; c++) {
			double *x = val[c], sum = 0, sd = 0; for (u32 i = 0; i < rows; i++) sum += x[i];
			char *q; if (*p != '\t') { ok = 0; break; } double got = strtod(p, &q); if (q == p) { ok = 0; break; } p = q;
			if (l == 0) {
				ok = close_to(got, sum / rows, .01); for (u32 i = 0; i < rows; i++) sd += (x[i] - sum / rows) * (x[i] - sum / rows);
				if (strncmp(p, " \xc2\xb1 ", 4)) { ok = 0; break; } p += 4; got = strtod(p, &q); if (q == p) { ok = 0; break; } p = q;
				if (rows > 1 && !close_to(got, sqrt(sd / (rows - 1)), .01)) ok = 0;
			} else if (l == 1) ok = close_to(got, x[0], .01);
			else if (l == 2) ok = close_to(got, x[rows - 1], .01);
			else if (l == 3) ok = got == rows;
			else if (l == 4) ok = close_to(got, sum, 1e-6);
			else { u32 k = rows * (u32) pc[l - 5] / 100; ok = close_to(got, x[k], .1); }
		}
		if (ok && *p++ != '\n') ok = 0;
	}
	if (ok && *p) ok = 0;
	free(s); return ok;
}
static void gen(void) {
	rows = sim_flip(1, 15) ? 0 : sim_flip(1, 15) ? 500 + sim_choose(2000) : 1 + sim_choose(40); cols = sim_flip(1, 6) ? 8 + sim_choose(3) : 1 + sim_choose(5);
	if (rows > 400) sim_probe(6);
	if (rows == 1) sim_probe(8);
	if (cols == 10) sim_probe(0);
	int over = rows && sim_flip(1, 15), uneven = rows && sim_flip(1, 12), blank = sim_flip(1, 15);
	if (!rows) { sim_probe(5); malformed = 1; if (sim_flip(1, 2)) bytes_str(&in, sim_flip(1, 2) ? "\n" : "abc\n"); }
	u32 where = rows ? sim_choose(rows) : 0;
	for (u32 i = 0; i < 10; i++) val[i] = malloc((rows + 1) * sizeof(double));
	for (u32 r = 0; r < rows; r++) {
		u32 c = cols;
		if (over && r == where) { c = 11 + sim_choose(4); sim_probe(1); malformed = 1; }
		else if (uneven && r == where && rows > 1) { c = cols > 1 && sim_flip(1, 2) ? cols - 1 : cols + 1; if (c > 10) sim_probe(1); sim_probe(2); malformed = 1; }
		else if (blank && r == where) { c = 0; sim_probe(7); malformed = 1; }
		for (u32 i = 0; i < c; i++) {
			double x = sim_flip(1, 3) ? (double) sim_choose(20) : ((double) sim_choose(2000001) - 1000000) / (sim_flip(1, 2) ? 4 : 1);
			if (i) ch(&in, " \t"[sim_choose(2)]);
			if (sim_flip(1, 60)) { sim_probe(3); u32 k = 4080 + sim_choose(30); while (k--) ch(&in, ' '); }
			bytes_fmt(&in, sim_flip(1, 5) ? "%+.3f" : sim_flip(1, 5) ? "%.8e" : "%.2f", x);
			if (i < 10) val[i][r] = x;
		}
		if (r == rows - 1 && c && sim_flip(1, 3)) sim_probe(4); else bytes_str(&in, sim_flip(1, 6) ? " \r\n" : "\n");
	}
	for (u32 i = 0; i < cols; i++) qsort(val[i], rows, sizeof(double), cmp);
	for (u32 i = 0; i < 100; i++) ch(&want, 'x'); // at least this much has to be written
}
