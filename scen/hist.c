#include "nat.h"
const char *scen_name = "hist";
const char *scen_probes[] = {"equal_values", "negative", "narrow", "many_bins", "malformed", "empty", "one_value", "raw", "bars", "zero", NULL};
const char *scen_rule = "a run = generated input through the program, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#define OWN_COMPARE
#include "conv.h"
static int *val, rawm, width = 30, bins = 10; static u32 n;
static int same_out(const char *o, size_t on, const bytes_t *w) {
	(void) w; char *s = malloc(on + 1); memcpy(s, o, on); s[on] = 0; int ok = 1; char *p = s; static double lo[200]; static u32 cnt[200]; int k = 0; u32 max = 0; static int bar[200];
	if (!rawm) { char *e = strchr(p, '\n'); if (!e || strncmp(p, "value (>=)", 10)) { free(s); return 0; } p = e + 1; }
	while (ok && *p && k < 200) {
		char *q; lo[k] = strtod(p, &q); if (q == p) { ok = 0; break; } p = q; bar[k] = 0;
		if (!rawm) {
			if (strncmp(p, " |", 2)) { ok = 0; break; } p += 2;
			int w2 = 0; while (!strncmp(p, "\xe2\x96\x88", 3)) { p += 3; bar[k]++; w2++; }
			while (w2 < width && *p == ' ') { p++; w2++; }
			if (w2 != width || *p++ != ' ') ok = 0;
		} else if (*p++ != '\t') ok = 0;
		if (ok && (*p < '0' || *p > '9')) ok = 0;
		cnt[k] = (u32) strtoul(p, &q, 10); p = q; if (*p++ != '\n') { ok = 0; break; } if (cnt[k] > max) max = cnt[k]; k++;
	}
	if (rawm && k != bins) ok = 0;
	if (!k || k > bins) ok = 0;
	for (int i = 1; i < k && ok; i++) if (lo[i] < lo[i - 1]) ok = 0;
	for (int i = 0; i < k && ok; i++) {
		u32 c = 0; for (u32 j = 0; j < n; j++) if ((i == 0 || val[j] >= lo[i]) && (i == k - 1 || val[j] < lo[i + 1])) c++;
		if (c != cnt[i]) { printf("bin %d: %u values, %u counted\n", i, c, cnt[i]); ok = 0; }
		if (!rawm && (bar[i] > (int) cnt[i] || (max <= (u32) width && bar[i] != (int) cnt[i]))) ok = 0;
	}
	if (ok) for (u32 j = 0; j < n; j++) if (val[j] < lo[0]) ok = 0;
	free(s); return ok;
}
static char bs[16], ws[16];
static void gen(void) {
	n = sim_flip(1, 20) ? 0 : sim_flip(1, 10) ? 1 : 1 + sim_choose(sim_flip(1, 6) ? 300 : 30); val = malloc((n + 1) * sizeof(int));
	if (!n) { sim_probe(5); malformed = 1; }
	if (n == 1) sim_probe(6);
	int range = sim_flip(1, 6) ? 1 : 1 + (int) sim_choose(sim_flip(1, 2) ? 12 : 900), base = sim_flip(1, 4) ? 0 : (int) sim_choose((u32) (1900 - range)) - 950 ; if (range == 1) sim_probe(0); if (base < 0) sim_probe(1); if (!base) sim_probe(9);
	if (base + range > 999) base = 999 - range;
	if (range > 1 && range < 5) sim_probe(2);
	if (sim_flip(1, 2)) { rawm = 1; sim_probe(7); argvv[argn++] = "-r"; } else sim_probe(8);
	if (sim_flip(1, 2)) { bins = 2 + (int) sim_choose(sim_flip(1, 2) ? 20 : 5); snprintf(bs, 16, "%d", bins); argvv[argn++] = "-n"; argvv[argn++] = bs; if (bins > 12) sim_probe(3); }
	if (sim_flip(1, 2)) { width = 1 + (int) sim_choose(60); snprintf(ws, 16, "%d", width); argvv[argn++] = "-w"; argvv[argn++] = ws; }
	u32 bad = n && sim_flip(1, 12) ? sim_choose(n) : n;
	for (u32 i = 0; i < n; i++) {
		val[i] = base + (int) sim_choose((u32) range);
		if (i == bad) { sim_probe(4); malformed = 1; bytes_str(&in, "abc\n"); }
		bytes_fmt(&in, sim_flip(1, 6) ? "%d.0" : "%d", val[i]); if (i < n - 1 || sim_flip(2, 3)) bytes_str(&in, sim_flip(1, 8) ? "\r\n" : "\n");
	}
	for (u32 i = 0; i < 8; i++) ch(&want, 'x');
}
