#include "nat.h"
// prog/wav: every sample of the inputs is in the output, or the failure is reported.
const char *scen_name = "wav";
const char *scen_probes[] = {"info", "dump", "mix", "trans", "24_bits", "mono", "stream", "malformed", "several_files", "different_lengths", "empty", "large", "missing", "other_rate", "bad_factor", NULL};
const char *scen_rule = "a run = one subcommand on generated files, with failing opens, reads and writes; non-trivial: a fault fired or the input is malformed; distinct by the hash of input, schedule and output";
static void ch(bytes_t *b, int c) { u8 x = (u8) c; bytes_add(b, &x, 1); }
#include "wavgen.h"
#include <math.h>
static wave_t w[5]; static int nw, cmd, refuse, sinkfail; static long sinkafter; static size_t due; static proc_t *app; static char *argvv[12], name[5][16], fac[32]; static double ratio; static int argn;
void scen_note(int a, long b, long c) { (void) a; (void) b; (void) c; }
void scen_bytes(int a, const void *p, size_t n) { (void) a; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
static u32 rv; static int rval(int bits) { rv = rv * 1664525u + 1013904223u; int m = 1 << (bits - 1); if ((rv >> 20) % 16 == 0) return (rv >> 10) & 1 ? m - 1 : -m; return (int) ((rv >> 4) & (u32) (2 * m - 1)) - m; }
void scen_setup(void) {
	cmd = (int) sim_choose(4); sim_probe(cmd); nw = cmd == 2 || cmd == 0 ? 1 + (int) sim_choose(4) : 1; if (nw > 1) sim_probe(8);
	sim_set_preempt(0); sim_set_step_limit(60000000); static u32 bufs[] = {4096, 4096, 1000, 64}; sim_set_iobuf(bufs[sim_choose(4)]);
	fs_mkdir("/w"); argvv[argn++] = "wav"; argvv[argn++] = (char *[]) {"info", "dump", "mix", "trans"}[cmd];
	u32 big = sim_flip(1, 150) ? 65000 + sim_choose(2000) : 0; if (big) sim_probe(11);
	int f = (int) sim_choose(8), bad = sim_flip(1, 5) ? (int) sim_choose((u32) nw) : -1, mis = f == 7 ? (int) sim_choose((u32) nw) : -1; rv = sim_choose(1u << 30);
	if (cmd == 3) {
		int k = 1 + (int) sim_choose(256); ratio = k / 64.0; snprintf(fac, sizeof fac, "%.10g", ratio);
		if (sim_flip(1, 12)) { sim_probe(14); refuse = 1; strcpy(fac, sim_flip(1, 3) ? "0" : sim_flip(1, 2) ? "-1.5" : "x"); if (fac[0] == '-') strcpy(fac, "0.0"); }
		argvv[argn++] = fac;
	}
	u64 h = 1; u32 longest = 0;
	for (int i = 0; i < nw; i++) {
		wave_t *v = &w[i]; v->ch = 1 + (int) sim_choose(2); v->bits = sim_flip(1, 3) ? 24 : 16; v->stream = sim_flip(1, 4); v->freq = 44100; if (v->bits == 24) sim_probe(4); if (v->ch == 1) sim_probe(5); if (v->stream) sim_probe(6);
		v->n = sim_flip(1, 8) ? 0 : sim_choose(sim_flip(1, 3) ? 1500 : 60); if (big) v->n = big + (u32) i; if (!v->n) sim_probe(10); if (i && v->n != w[0].n) sim_probe(9); if (v->n > longest) longest = v->n;
		v->l = malloc(v->n * sizeof(int) + 4); v->r = malloc(v->n * sizeof(int) + 4);
		for (u32 k = 0; k < v->n; k++) { v->l[k] = rval(v->bits); v->r[k] = rval(v->bits); }
		int b = W_FINE; if (i == bad) { b = 1 + (int) sim_choose(W_KINDS - 1); if (b == W_ODD && v->ch * v->bits == 16 && 0) b = W_CUT; sim_probe(7); if (b == W_SHORT || b == W_ODD) v->stream = 0; if (!(cmd == 0 && (b == W_SHORT || b == W_ODD))) refuse = 1; }
		if (sim_flip(1, 10)) { static u32 fr[] = {48000, 8000, 22050, 96000}; v->freq = fr[sim_choose(4)]; sim_probe(13); if (cmd >= 2) refuse = 1; }
		wave_file(v, b); h = hash_bytes(h, v->f.p, v->f.n);
		snprintf(name[i], 16, "f%d.wav", i); char p[32]; snprintf(p, 32, "/w/%s", name[i]);
		if (i == mis) { sim_probe(12); refuse = 1; } else fs_put(p, v->f.p ? v->f.p : (u8 *) "", v->f.n);
		if (f == 6 && i == 0 && v->f.n) { size_t o = sim_choose((u32) v->f.n); if (o < (cmd ? v->data + v->n * (u32) (v->ch * v->bits / 8) : v->data)) refuse = 1; fs_bad_from(p, o); }
		argvv[argn++] = name[i];
	}
	due = cmd == 0 ? 20 : cmd == 1 ? w[0].n * 17 : 44 + 4 * (cmd == 2 ? longest : (size_t) (w[0].n * ratio));
	if (f == 0) sim_enable_once(F_OPEN_FAIL, 1 + sim_choose(2));
	if (f == 1 && due) { sinkfail = 1; sinkafter = (long) sim_choose((u32) due); }
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 300); sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 300);
	sim_hash(h + (u64) cmd); sim_detail("%s files=%d samples=%u malformed=%d refuse=%d fault=%d", argvv[1], nw, w[0].n, bad, refuse, f);
	app = sim_app("wav", argn, argvv, NULL); sim_proc_cwd(app, "/w");
	if (sinkfail) sim_stdio_sink_fail(app, 1, sinkafter);
}
static void frame_at(u32 i, double *l, double *r) {
	*l = *r = 0;
	if (cmd == 2) { for (int k = 0; k < nw; k++) if (i < w[k].n) { *l += wave_val(&w[k], i, 0); *r += wave_val(&w[k], i, 1); } *l /= nw; *r /= nw; }
	else { double t = i / ratio; u32 a = (u32) t, b = a + 1 < w[0].n ? a + 1 : a; double x = t - a; *l = wave_val(&w[0], a, 0) * (1 - x) + wave_val(&w[0], b, 0) * x; *r = wave_val(&w[0], a, 1) * (1 - x) + wave_val(&w[0], b, 1) * x; }
}
static int near(int got, double want) { double d = got - want * 32767; return d > -1.01 && d < 1.01; }
void scen_end(void) {
	int st; size_t on, en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "wav %s does not end: %s", argvv[1], sim_blocked_report());
	const char *o = sim_stdout_of(app, &on), *e = sim_stderr_of(app, &en);
	if ((st & 0x7f) && (st & 0x7f) != SIGABRT) sim_violation("crash", "wav %s died of signal %d: %s", argvv[1], st & 0x7f, esc(e, en > 200 ? 200 : en));
	sim_hash(hash_bytes((u64) st, o, on));
	int io = sim_fired(F_READ_EIO) || sim_fired(F_OPEN_FAIL) || sinkfail;
	if (st) {
		if (!en) sim_violation("silent", "failed without a message");
		if (!io && !refuse) sim_violation("refused", "failed (%d) although nothing is wrong: %s", st >> 8, esc(e, en > 200 ? 200 : en));
	} else {
		if (refuse) sim_violation("accepted", "a file is missing, cannot be read or is malformed, or an argument wrong; exit status 0");
		if (sim_fired(F_OPEN_FAIL)) sim_violation("status", "a file could not be opened; exit status 0");
		if (sinkfail && on < due) sim_violation("status", "the output could not be written; exit status 0");
	}
	if (cmd == 0) {
		bytes_t x = {0}; for (int i = 0; i < nw; i++) { bytes_fmt(&x, "format: 1\nchannels: %d\nfrequency: %u\nbits_per_sample: %d\n", w[i].ch, w[i].freq, w[i].bits); if (i < nw - 1 && !st && on <= x.n) sim_violation("lost", "not all files are shown"); }
		if (!st && (on != x.n || memcmp(o, x.p, on))) sim_violation("output", "'%s' instead of '%s'", esc(o, on > 200 ? 200 : on), esc(x.p, x.n > 200 ? 200 : x.n)); free(x.p); return;
	}
	if (cmd == 1) {
		u32 i = 0; size_t p = 0;
		while (p < on) {
			const char *q = memchr(o + p, '\n', on - p); if (!q) { if (!st) sim_violation("output", "the last line is not complete"); break; }
			double l, r; char b[100]; size_t k = (size_t) (q - o) - p; if (k > 90) k = 90; memcpy(b, o + p, k); b[k] = 0;
			if (i >= w[0].n) { if (!w[0].ok && st) break; sim_violation("extra", "there are more than %u samples in the output", w[0].n); }
			if (sscanf(b, "%lf\t%lf", &l, &r) != 2 || fabs(l - wave_val(&w[0], i, 0)) > 1e-6 || fabs(r - wave_val(&w[0], i, 1)) > 1e-6) sim_violation("output", "sample %u is '%s' instead of %f %f", i, b, wave_val(&w[0], i, 0), wave_val(&w[0], i, 1));
			i++; p = (size_t) (q - o) + 1;
		}
		if (!st && i != w[0].n) sim_violation("lost", "%u of %u samples are in the output", i, w[0].n);
		return;
	}
	if (st && on < 44) return;
	if (on < 44 || memcmp(o, "RIFF", 4) || memcmp(o + 8, "WAVEfmt \x10\0\0\0\1\0\2\0\x44\xac\0\0\x10\xb1\2\0\4\0\x10\0data", 32)) sim_violation("output", "the output does not begin with the right headers: %s", esc(o, on > 44 ? 44 : on));
	u32 total = 0; if (cmd == 2) { for (int i = 0; i < nw; i++) if (w[i].n > total) total = w[i].n; } else total = (u32) (w[0].n * ratio);
	u32 dl = (u8) o[40] | (u32) (u8) o[41] << 8 | (u32) (u8) o[42] << 16 | (u32) (u8) o[43] << 24;
	if (!st && dl != 0xffffffff && dl != total * 4) sim_violation("output", "the header says %u bytes of data instead of %u", dl, total * 4);
	u32 got = (u32) (on - 44) / 4;
	if (!st && (got != total || (on - 44) % 4)) sim_violation(got > total ? "extra" : "lost", "%zu bytes of samples instead of %u", on - 44, total * 4);
	if (got > total && refuse) got = total;
	if (got > total) sim_violation("extra", "%u samples instead of %u", got, total);
	for (u32 i = 0; i < got; i++) {
		double l, r; frame_at(i, &l, &r); const u8 *x = (const u8 *) o + 44 + 4 * (size_t) i; short a, b; a = (short) (x[0] | x[1] << 8); b = (short) (x[2] | x[3] << 8);
		if (!near(a, l) || !near(b, r)) sim_violation("output", "sample %u is %d %d instead of %.1f %.1f", i, a, b, l * 32767, r * 32767);
	}
}
