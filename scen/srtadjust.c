#include "nat.h"
const char *scen_name = "srtadjust";
const char *scen_probes[] = {"several_lines", "blank_line_in_text", "crlf", "text_limit", "malformed", "empty_input", "no_final_newline", "number_in_text", "no_text", "shifted", "stretched", "bad_arguments", NULL};
const char *scen_rule = "a run = generated subtitles through the program with seeded reference points, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#define OWN_COMPARE
#include "conv.h"
#include "srt.h"
static char a[4][40]; static long h1, w1, h2, w2;
static void put_t(bytes_t *o, long t) { bytes_fmt(o, "%02ld:%02ld:%02ld,%03ld", t / 3600000, t / 60000 % 60, t / 1000 % 60, t % 1000); }
static long conv(long t) { __int128 x = (__int128) (t - h1) * (w2 - w1); return w1 + (long) (x / (h2 - h1)); }
static void block_out(int n, const char *range, const bytes_t *t, long b, long e) {
	(void) range;
	bytes_fmt(&want, "%d\n", n); put_t(&want, conv(b)); bytes_str(&want, " --> "); put_t(&want, conv(e)); ch(&want, '\n'); bytes_add(&want, t->p, t->n); bytes_str(&want, "\n\n");
}
static long parse_t(const char *s, size_t n) { char b[20]; int h, m, x, ms; if (n < 12) return -1; memcpy(b, s, 12); b[12] = 0; for (int i = 0; i < 12; i++) if (i == 2 || i == 5 ? b[i] != ':' : i == 8 ? b[i] != ',' : b[i] < '0' || b[i] > '9') return -1; sscanf(b, "%d:%d:%d,%d", &h, &m, &x, &ms); return ((h * 60l + m) * 60 + x) * 1000 + ms; }
// equal but for one millisecond of rounding in the times
static int same_out(const char *o, size_t on, const bytes_t *w) {
	if (on != w->n) return 0;
	for (size_t i = 0; i < on; i++) {
		const char *x = (const char *) w->p;
		if (i + 29 <= on && (i == 0 || x[i - 1] == '\n') && !memcmp(x + i + 12, " --> ", 5) && parse_t(x + i, on - i) >= 0 && parse_t(x + i + 17, on - i - 17) >= 0) {
			for (int k = 0; k < 18; k += 17) { long d = parse_t(x + i + k, 12), g = parse_t(o + i + k, 12); if (g < 0 || g - d > 1 || d - g > 1) return 0; }
			if (memcmp(o + i + 12, " --> ", 5)) return 0;
			i += 28; continue;
		}
		if (o[i] != x[i]) return 0;
	}
	return 1;
}
static void fmt(char *b, long t) { sprintf(b, "%02ld:%02ld:%02ld,%03ld", t / 3600000, t / 60000 % 60, t / 1000 % 60, t % 1000); }
static void gen(void) {
	// times of the input go up to 100 hours: keep the results positive and below 100 hours
	h1 = sim_choose(3600000); h2 = h1 + 1 + sim_choose(7200000);
	if (sim_flip(1, 2)) { long s = sim_choose(600000); w1 = h1 + s; w2 = h2 + s; sim_probe(9); }
	else { h1 = 0; w1 = sim_choose(60000); long d = h2 - h1; w2 = w1 + d - (long) sim_choose((u32) d / 4 + 1) ; if (w2 <= w1) w2 = w1 + d; sim_probe(10); }
	fmt(a[0], h1); fmt(a[1], w1); fmt(a[2], h2); fmt(a[3], w2);
	int bad = sim_flip(1, 10);
	gen_srt();
	if (bad) {
		sim_probe(11); malformed = 1; want_before_bad = 0; want.n = 0;
		switch (sim_choose(3)) { case 0: strcpy(a[2], a[0]); break; case 1: strcpy(a[sim_choose(4)], "00:10"); break; case 2: for (int i = 0; i < 3; i++) argvv[argn++] = a[i]; return; }
	}
	for (int i = 0; i < 4; i++) argvv[argn++] = a[i];
}
