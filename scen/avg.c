#include "nat.h"
const char *scen_name = "avg";
const char *scen_probes[] = {"window_1", "window_over_input", "malformed", "no_final_newline", "window_0", "large_values", NULL};
const char *scen_rule = "a run = generated input through the program, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#include "conv.h"
static char ws[16];
static void gen(void) {
	static int v[400]; static char ts[400][40]; u32 n = sim_flip(1, 10) ? 0 : 1 + sim_choose(sim_flip(1, 5) ? 200 : 20), w = 5;
	if (sim_flip(2, 3)) { w = sim_flip(1, 15) ? 0 : 1 + sim_choose(12); snprintf(ws, 16, "%u", w); argvv[argn++] = "-w"; argvv[argn++] = ws; }
	if (w == 0) { sim_probe(4); malformed = 1; }
	if (w == 1) sim_probe(0);
	if (w > n) sim_probe(1);
	u32 bad = n && sim_flip(1, 10) ? sim_choose(n) : n;
	for (u32 i = 0; i < n; i++) {
		int ms = (int) sim_choose(1000), m = sim_flip(1, 2), big = sim_flip(1, 6); if (big) sim_probe(5);
		snprintf(ts[i], 40, "%04u-%02u-%02uT%02u:%02u:%02u", 1970 + sim_choose(100), 1 + sim_choose(12), 1 + sim_choose(28), sim_choose(24), sim_choose(60), sim_choose(60));
		bytes_fmt(&in, "%s", ts[i]); if (m) bytes_fmt(&in, ".%03d", ms); else ms = 0;
		snprintf(ts[i] + strlen(ts[i]), 10, ".%03dZ", ms);
		v[i] = (int) sim_choose(big ? 2147483647 : 100000) - (sim_flip(1, 6) ? 50000 : 0);
		if (i == bad && !malformed) {
			sim_probe(2); malformed = 1; want_before_bad = want.n;
			switch (sim_choose(4)) { case 0: bytes_str(&in, "Z"); break; case 1: bytes_str(&in, "Z\tnone"); break; case 2: bytes_str(&in, "Z 12"); break; default: bytes_str(&in, "?\t12"); }
		} else bytes_fmt(&in, "Z\t%d", v[i]);
		if (i < n - 1 || sim_flip(2, 3)) bytes_str(&in, sim_flip(1, 8) ? "\r\n" : sim_flip(1, 8) ? "\tmore\n" : "\n"); else sim_probe(3);
		if (w && i + 1 >= w) { double s = 0; for (u32 k = i + 1 - w; k <= i; k++) s += v[k]; bytes_fmt(&want, "%s\t%.1f\n", ts[i + 1 - w + w / 2], s / w); }
	}
}
