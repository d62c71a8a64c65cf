#include "nat.h"
// prog/wavcue: the tracks between silences of over a second, for the whole of the recording.
const char *scen_name = "wavcue";
const char *scen_probes[] = {"several_tracks", "leading_silence", "only_silence", "ends_in_silence", "short_pauses", "24_bits", "mono", "stream", "malformed", "positions", "level", "hours", "missing", "empty", "one_channel", NULL};
const char *scen_rule = "a run = one generated recording, with failing opens, reads and writes; non-trivial: a fault fired, the file is malformed or has several tracks; distinct by the hash of input, schedule and output";
static void ch(bytes_t *b, int c) { u8 x = (u8) c; bytes_add(b, &x, 1); }
#include "wavgen.h"
#include <math.h>
static wave_t w; static int refuse, sinkfail, cum, nt; static long sinkafter; static proc_t *app; static char *argvv[12], lev_[16]; static int argn; static u32 track[400];
void scen_note(int a, long b, long c) { (void) a; (void) b; (void) c; }
void scen_bytes(int a, const void *p, size_t n) { (void) a; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
static u32 cap;
static void seg(u32 n, int loud, double limit) {
	if (w.n + n > cap) { cap = (w.n + n) * 2 + 64; w.l = realloc(w.l, cap * sizeof(int)); w.r = realloc(w.r, cap * sizeof(int)); }
	double m = (1 << (w.bits - 1)) - 1, lo = limit * m; int one = loud && w.ch == 2 && sim_flip(1, 4); if (one) sim_probe(14);
	int a = loud ? (int) (lo * (one ? 1.9 : 1.3)) + 2 : (int) (lo * 0.8); if (a > (int) m) a = (int) m;
	int b = one ? 0 : a, alt = sim_choose(3); if (one && sim_flip(1, 2)) { b = a; a = 0; }
	for (u32 i = 0; i < n; i++) { int s = alt == 0 ? 1 : alt == 1 ? -1 : i % 2 ? 1 : -1; w.l[w.n] = s * a; w.r[w.n] = (alt == 2 ? -s : s) * b; w.n++; }
}
void scen_setup(void) {
	sim_set_preempt(0); sim_set_step_limit(60000000); static u32 bufs[] = {4096, 4096, 1000, 64}; sim_set_iobuf(bufs[sim_choose(4)]);
	static u32 fr[] = {1, 10, 50, 100, 333, 1000, 8000}; w.freq = fr[sim_choose(sim_flip(1, 20) ? 7 : 6)]; w.ch = 1 + (int) sim_choose(2); w.bits = sim_flip(1, 3) ? 24 : 16; w.stream = sim_flip(1, 4);
	if (w.bits == 24) sim_probe(5); if (w.ch == 1) sim_probe(6); if (w.stream) sim_probe(7);
	argvv[argn++] = "wavcue"; int level = 37; if (sim_flip(1, 3)) { sim_probe(10); level = 8 + (int) sim_choose(45); snprintf(lev_, 16, "%d", level); argvv[argn++] = "-l"; argvv[argn++] = lev_; }
	if (sim_flip(1, 3)) { sim_probe(9); cum = 1; argvv[argn++] = "-c"; }
	argvv[argn++] = "a.wav"; double limit = pow(10, -level / 20.0);
	u32 parts = sim_flip(1, 15) ? 0 : 1 + sim_choose(sim_flip(1, 4) ? 24 : 6), cur = 0, any = 0, F = w.freq; int loud = sim_flip(2, 3), hours = F <= 10 && sim_flip(1, 6), wait = 0;
	if (!parts) sim_probe(13);
	for (u32 i = 0; i < parts; i++, loud = !loud) {
		u32 n;
		if (loud) { n = 1 + sim_choose(hours ? F * 2000 + 1 : F * 3 + 1); if (hours) sim_probe(11); }
		else { int lng = sim_flip(1, 2); u32 most = F - F / 100 - 1; if (!lng && most < 1) lng = 1; n = lng ? F + F / 100 + 1 + sim_choose(F * 2 + 1) : 1 + sim_choose(most); if (!lng) sim_probe(4); wait = lng; }
		if (loud && wait && any) { track[nt++] = cur; cur = 0; wait = 0; }
		if (loud) { any = 1; wait = 0; } else if (!any) sim_probe(1);
		seg(n, loud, limit); cur += n;
		if (i + 1 == parts && !loud) sim_probe(3);
	}
	if (cur) track[nt++] = cur; if (nt > 1) sim_probe(0); if (parts && !any) sim_probe(2);
	int b = sim_flip(1, 6) ? 1 + (int) sim_choose(W_KINDS - 1) : W_FINE; if (b) { sim_probe(8); refuse = 1; if (b == W_SHORT || b == W_ODD) w.stream = 0; }
	wave_file(&w, b); int f = (int) sim_choose(8); fs_mkdir("/w");
	if (f == 7 && sim_flip(1, 2)) { refuse = 1; sim_probe(12); } else fs_put("/w/a.wav", w.f.p, w.f.n);
	if (f == 6 && w.f.n) { size_t o = sim_choose((u32) w.f.n); if (o < w.data + w.n * (u32) (w.ch * w.bits / 8)) refuse = 1; fs_bad_from("/w/a.wav", o); }
	if (f == 0) sim_enable_once(F_OPEN_FAIL, 1);
	if (f == 1) { sinkfail = 1; sinkafter = (long) sim_choose((u32) (nt ? nt : 1) * 20); }
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 300); sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 300);
	sim_hash(hash_bytes((u64) cum, w.f.p, w.f.n)); sim_detail("freq=%u samples=%u tracks=%d malformed=%d fault=%d", w.freq, w.n, nt, b, f);
	app = sim_app("wavcue", argn, argvv, NULL); sim_proc_cwd(app, "/w");
	if (sinkfail) sim_stdio_sink_fail(app, 1, sinkafter);
}
void scen_end(void) {
	int st; size_t on, en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "wavcue does not end: %s", sim_blocked_report());
	const char *o = sim_stdout_of(app, &on), *e = sim_stderr_of(app, &en);
	if ((st & 0x7f) && (st & 0x7f) != SIGABRT) sim_violation("crash", "wavcue died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	sim_hash(hash_bytes((u64) st, o, on));
	int io = sim_fired(F_READ_EIO) || sim_fired(F_OPEN_FAIL) || sinkfail;
	if (st) { if (!en) sim_violation("silent", "failed without a message"); if (!io && !refuse) sim_violation("refused", "failed (%d) although nothing is wrong: %s", st >> 8, esc(e, en > 200 ? 200 : en)); }
	else {
		if (refuse) sim_violation("accepted", "the file is missing, cannot be read or is malformed; exit status 0");
		if (sim_fired(F_OPEN_FAIL)) sim_violation("status", "the file could not be opened; exit status 0");
	}
	if (!nt) return;
	size_t p = 0; int i = 0; double at = 0;
	while (p < on) {
		const char *q = memchr(o + p, '\n', on - p); if (!q) { if (!st) sim_violation("output", "the last line is not complete"); break; }
		char b[100]; size_t k = (size_t) (q - o) - p; if (k > 90) k = 90; memcpy(b, o + p, k); b[k] = 0;
		if (i >= nt) { if (refuse && st) break; sim_violation("extra", "more than %d tracks: '%s'", nt, b); }
		double len = (double) track[i] / w.freq, want; at += len; want = cum ? at : len;
		if (refuse && st && i == nt - 1) break;
		int used = 0, h = 0, m, s, ms; double got = -1; char pre[40]; snprintf(pre, 40, "%02d. track %02d\t", i + 1, i + 1);
		if (!strncmp(b, pre, strlen(pre))) {
			const char *t = b + strlen(pre);
			if (sscanf(t, "%d:%2d:%2d.%3d%n", &h, &m, &s, &ms, &used) == 4 && !t[used]) got = h * 3600 + m * 60 + s + ms / 1000.0;
			else { h = 0; if (sscanf(t, "%d:%2d.%3d%n", &m, &s, &ms, &used) == 3 && !t[used]) got = m * 60 + s + ms / 1000.0; }
		}
		if (got < 0 || fabs(got - want) > 0.0021 + want * 5e-5) sim_violation("output", "line %d is '%s' instead of '%s%.3f s'", i + 1, b, pre, want);
		i++; p = (size_t) (q - o) + 1;
	}
	if (!st && i != nt) sim_violation("lost", "%d of %d tracks are shown", i, nt);
}
