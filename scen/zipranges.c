#include "nat.h"
const char *scen_name = "zipranges";
const char *scen_probes[] = {"long_run", "many_ranges", "limits", "malformed", "no_final_newline", "empty", NULL};
const char *scen_rule = "a run = generated input through the program, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#include "conv.h"
static void gen(void) {
	u32 n = sim_flip(1, 12) ? 0 : sim_flip(1, 15) ? 3990 + sim_choose(3000) : 1 + sim_choose(60); if (!n) sim_probe(5);
	long long v = sim_flip(1, 8) ? 2147483600LL + (long long) sim_choose(40) : (long long) sim_choose(1000) - 500, a = 0, b = 0; int have = 0; u32 nr = 0;
	if (v > 2000000) sim_probe(2);
	u32 bad = sim_flip(1, 10) ? sim_choose(n + 1) : n + 1, den = n > 1000 && sim_flip(1, 2) ? 1 : 2 + sim_choose(10);
	for (u32 i = 0; i <= n; i++) {
		if (i == bad) { sim_probe(3); malformed = 1; bytes_str(&in, sim_flip(1, 2) ? "x\n" : "seven"); if (i == n) break; ch(&in, '\n'); }
		if (i == n) break;
		if (i) v = sim_flip(1, den) ? (sim_flip(1, 4) ? v : sim_flip(1, 6) ? (sim_flip(1, 2) ? -2147483648LL : 2147483647LL) : v + (long long) sim_choose(40) - 20) : v + 1;
		if (v > 2147483647LL) v = -2147483648LL;
		if (v < -2147483648LL) v = -2147483648LL;
		bytes_fmt(&in, "%lld", v); if (i < n - 1 || sim_flip(2, 3)) bytes_str(&in, sim_flip(1, 8) ? "  " : sim_flip(1, 8) ? "\r\n" : "\n"); else sim_probe(4);
		if (have && v == b + 1) b = v; else { if (have) bytes_fmt(&want, "%lld-%lld ", a, b); nr++; a = b = v; have = 1; }
		if (b - a > 20) sim_probe(0);
	}
	if (have) bytes_fmt(&want, "%lld-%lld ", a, b);
	if (nr > 4000) sim_probe(1);
	ch(&want, '\n');
}
