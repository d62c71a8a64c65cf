// Generates subtitles; block_out is told what each block is.
static void block_out(int n, const char *range, const bytes_t *text, long begin, long end);
static int crlf;
static void nl(void) { bytes_str(&in, crlf ? "\r\n" : "\n"); }
static long stamp(char *b) { long h = sim_choose(sim_flip(1, 8) ? 100 : 3), m = sim_choose(60), s = sim_choose(60), ms = sim_choose(sim_flip(1, 3) ? 12 : 1000); sprintf(b, "%02ld:%02ld:%02ld,%03ld", h, m, s, ms); return ((h * 60 + m) * 60 + s) * 1000 + ms; }
static void gen_srt(void) {
	int blocks = sim_choose(8), n = 0; crlf = sim_flip(1, 3); if (crlf) sim_probe(2);
	if (!blocks) sim_probe(5);
	for (int k = 0; k < blocks; k++) {
		int last = k == blocks - 1, bad = last && sim_flip(1, 5) ? 1 + (int) sim_choose(4) : 0;
		n += 1 + sim_choose_small(100);
		bytes_fmt(&in, "%d", n); nl();
		char b[20], e[20], range[200]; long tb = stamp(b), te = stamp(e);
		snprintf(range, sizeof range, "%s --> %s%s", b, e, sim_flip(1, 8) ? " X1:1" : sim_flip(1, 8) ? " 456789" : "");
		if (bad) { malformed = 1; want_before_bad = want.n; sim_probe(4); }
		if (bad == 1) { if (sim_flip(1, 2)) bytes_str(&in, "nonsense"), nl(); return; }
		// too long for the buffers: refused, or right
		if (bad == 2) { size_t fill = 40 - strlen(range) + (sim_flip(1, 2) ? 0 : sim_choose(40)), at = strlen(range); memset(range + at, 'x', fill); range[at + fill] = 0; either = 1; bytes_str(&in, range); nl(); bytes_t none = {0}; block_out(n, range, &none, tb, te); return; }
		if (bad == 3) { bytes_str(&in, "00:01:02 --> 00:02:03,001"); nl(); bytes_str(&in, "text"); nl(); return; }
		bytes_str(&in, range); nl();
		// the text: lines that are not plain numbers, with an end of line each
		bytes_t raw = {0}; int lines = sim_choose(4); u32 len = 0;
		if (bad == 4) { lines = 1; len = sim_flip(1, 2) ? 998 + sim_choose(3) : 1000 + sim_choose(9000); }
		else if (sim_flip(1, 12)) { lines = 1; len = 970 + sim_choose(26); sim_probe(3); }
		if (!lines) sim_probe(8);
		if (lines > 1) sim_probe(0);
		for (int i = 0; i < lines; i++) {
			if (i && sim_flip(1, 8)) { sim_probe(1); ch(&raw, '\n'); }
			bytes_t l = {0};
			switch (len ? 4 : sim_choose(6)) { case 0: bytes_str(&l, "12 monkeys"); sim_probe(7); break; case 1: bytes_str(&l, "x"); text(&l, sim_choose(60), "\"\\\t "); break; case 2: bytes_str(&l, "0"); break; default: bytes_str(&l, "-"); text(&l, len ? len : sim_choose(100), "\"\\/ "); }
			bytes_add(&raw, l.p, l.n); free(l.p); ch(&raw, '\n');
		}
		int cut = last && lines && !bad && sim_flip(1, 3); if (cut) sim_probe(6);
		for (size_t i = 0; i < raw.n; i++) if (raw.p[i] == '\n') { if (!(cut && i == raw.n - 1)) nl(); } else ch(&in, raw.p[i]);
		if (!cut) { nl(); if (sim_flip(1, 6)) nl(); }
		if (bad) either = 1;
		size_t a = 0, z = raw.n; while (a < z && strchr(" \t\n", raw.p[a])) a++; while (z > a && strchr(" \t\n", raw.p[z - 1])) z--;
		bytes_t t = {raw.p + a, z - a, 0};
		block_out(n, range, &t, tb, te);
	}
}
