#include "nat.h"
const char *scen_name = "vtt2jsonl";
const char *scen_probes[] = {"tags", "long_line", "settings", "crlf", "malformed", "no_final_newline", "ends_without_blank_line", "no_text", "headers", NULL};
const char *scen_rule = "a run = generated captions through the program, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#include "conv.h"
static int crlf;
static void nl(void) { bytes_str(&in, crlf ? "\r\n" : "\n"); }
static void stamp(bytes_t *o) { bytes_fmt(o, "%02u:%02u:%02u.%03u", sim_choose(100), sim_choose(60), sim_choose(60), sim_choose(1000)); }
static void gen(void) {
	int cues = sim_choose(8), bad = sim_flip(1, 6) ? 1 + (int) sim_choose(5) : 0; crlf = sim_flip(1, 3); if (crlf) sim_probe(3);
	if (bad) { malformed = 1; sim_probe(4); }
	bytes_str(&in, bad == 1 ? "WEBVTX" : "WEBVTT"); nl();
	int heads = sim_choose(3); if (heads) sim_probe(8);
	for (int i = 0; i < heads; i++) { bytes_str(&in, i ? "Language: de" : "Kind: captions"); nl(); }
	if (bad == 2) { bytes_str(&in, "no header"); nl(); }
	if (bad == 3) { return; }
	nl();
	for (int k = 0; k < cues; k++) {
		int last = k == cues - 1;
		bytes_t range = {0}, t = {0};
		stamp(&range); bytes_str(&range, " --> "); stamp(&range);
		if (last && bad == 4) { want_before_bad = want.n; static const char *b[] = {"00:00:01.000 -> 00:00:02.000", "1", "00:00:01,000 --> 00:00:02.000", "some text", "00:00:01.000 --> 00:0:02.000"}; bytes_str(&in, b[sim_choose(5)]); nl(); bytes_str(&in, "text"); nl(); nl(); return; }
		bytes_add(&in, range.p, range.n);
		if (sim_flip(1, 3)) { sim_probe(2); bytes_str(&in, " align:start position:0%"); ch(&range, ' '); }
		nl();
		int lines = last ? 1 + (int) sim_choose(3) : (int) sim_choose(4); if (!lines) sim_probe(7);
		for (int i = 0; i < lines; i++) {
			bytes_t l = {0}; ch(&l, 'a' + i); text(&l, anylen(), sim_flip(1, 2) ? "\"\\ \t" : "'&");
			if (sim_flip(1, 3)) { sim_probe(0); static const char *tg[] = {"<c>", "</c>", "<00:00:01.000>", "<v Fred>", "<"}; bytes_str(&l, tg[sim_choose(5)]); text(&l, sim_choose(20), ""); if (sim_flip(1, 2)) bytes_str(&l, "</c>."); }
			if (sim_flip(1, 8)) { static u32 full[] = {4093, 4094, 4095, 4096, 8190, 8191, 8192}; u32 to = full[sim_choose(7)]; while (l.n < to) ch(&l, 'z'); }
			if (l.n > 4000) sim_probe(1);
			bytes_add(&in, l.p, l.n);
			if (t.n) ch(&t, '\n');
			int tag = 0; for (size_t j = 0; j < l.n; j++) if (tag) { if (l.p[j] == '>') tag = 0; } else if (l.p[j] == '<') tag = 1; else ch(&t, l.p[j]);
			free(l.p);
			if (last && i == lines - 1 && sim_flip(1, 3)) { sim_probe(5); goto out; }
			nl();
		}
		if (last && sim_flip(1, 3)) { sim_probe(6); goto out; }
		nl(); while (sim_flip(1, 6)) nl();
	out:;
		size_t a = 0, z = t.n; while (a < z && strchr(" \t\n", t.p[a])) a++; while (z > a && strchr(" \t\n", t.p[z - 1])) z--;
		bytes_str(&want, "{\"range\":"); json_str(&want, range.p, range.n, 0); bytes_str(&want, ",\"text\":"); json_str(&want, t.p + a, z - a, 0); bytes_str(&want, "}\n");
		free(range.p); free(t.p);
	}
	if (bad >= 4) { malformed = 0; }
}
