// Shared by the converters (stdin to stdout): whole right output or a reported failure.
#include "nat.h"
static bytes_t in, want;          // input; the output it must give
static size_t want_before_bad;    // malformed input: output of what comes before
static int malformed, either;     // either: refused or right
static proc_t *app; static char *argvv[20]; static int argn;
static int sinkfail, stdinbad; static size_t badoff; static long sinkafter;
static int messages_expected;     // lines that must be reported although the run succeeds
static void gen(void);            // fills the above
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
__attribute__((unused)) static void json_str(bytes_t *o, const u8 *s, size_t n, int slash) {
	bytes_str(o, "\"");
	for (size_t i = 0; i < n; i++) switch (s[i]) {
		case '\n': bytes_str(o, "\\n"); break; case '\r': bytes_str(o, "\\r"); break; case '\t': bytes_str(o, "\\t"); break;
		case '\\': bytes_str(o, "\\\\"); break; case '"': bytes_str(o, "\\\""); break;
		default: if (s[i] < 32) bytes_fmt(o, "\\u%04x", s[i]); else { if (slash && s[i] == '/') bytes_str(o, "\\"); bytes_add(o, s + i, 1); }
	}
	bytes_str(o, "\"");
}
static void ch(bytes_t *b, int c) { u8 x = (u8) c; bytes_add(b, &x, 1); }
// printable text and bytes over 0x7f; kind of special characters given by the caller
__attribute__((unused)) static void text(bytes_t *b, u32 n, const char *special) {
	u32 k = (u32) strlen(special); int sp = k && sim_flip(1, 2);
	for (u32 i = 0; i < n; i++) { if (sp && sim_flip(1, 4)) ch(b, special[sim_choose(k)]); else { u8 c = (u8) (32 + (i * 13 + n * 7) % 95); if (sim_flip(1, 16)) c = (u8) (128 + sim_choose(128)); ch(b, c); } }
}
__attribute__((unused)) static u32 anylen(void) { static u32 l[] = {1, 12, 60, 300}; static u32 e[] = {63, 64, 65, 127, 128, 255, 999, 4094, 4095, 4096, 4097, 8191, 8192, 9000}; return sim_flip(1, 12) ? e[sim_choose(14)] : sim_choose(l[sim_choose(4)] + 1); }
static int same_out(const char *o, size_t on, const bytes_t *w); // whole output
#ifndef OWN_COMPARE
static int same_out(const char *o, size_t on, const bytes_t *w) { return on == w->n && (!on || !memcmp(o, w->p, on)); }
#endif
void scen_setup(void) {
	argvv[argn++] = (char *) scen_name;
	gen();
	static u32 bufs[] = {4096, 4096, 1, 7, 100, 1024};
	sim_set_iobuf(bufs[sim_choose(6)]);
	sim_set_preempt(0);
	sim_set_step_limit(4000000);
	app = sim_app(scen_name, argn, argvv, NULL);
	sim_set_stdin(app, in.p ? (void *) in.p : "", in.n);
	if (sim_flip(1, 2)) sim_stdin_frag(app, 1 + sim_choose(200));
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 1000);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 1000);
	int f = sim_choose(5);
	if (f == 0) { sinkfail = 1; sinkafter = (long) (want.n && sim_flip(3, 4) ? sim_choose((u32) want.n) : sim_choose(2)); sim_stdio_sink_fail(app, 1, sinkafter); }
	if (f == 1 && in.n) { stdinbad = 1; badoff = sim_choose((u32) in.n); sim_stdin_bad(app, badoff); }
	sim_detail("input=%zu output=%zu malformed=%d fault=%d", in.n, want.n, malformed, f);
	// the tape of a run that nobody has disturbed differs by its input
	sim_hash(hash_bytes(in.n, in.p, in.n));
}
void scen_end(void) {
	int st; size_t on, en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "%s does not end: %s", scen_name, sim_blocked_report());
	const char *o = sim_stdout_of(app, &on), *e = sim_stderr_of(app, &en);
	if ((st & 0x7f) && (st & 0x7f) != SIGABRT) sim_violation("crash", "%s died of signal %d: %s", scen_name, st & 0x7f, esc(e, en > 200 ? 200 : en));
	int cannot = sinkfail && (long) want.n > sinkafter;
	if (st == 0) {
		if (malformed && !either) sim_violation("accepted", "malformed input was accepted: '...%s'", esc(in.p + (in.n > 60 ? in.n - 60 : 0), in.n > 60 ? 60 : in.n));
		if (stdinbad) sim_violation("status", "the input cannot be read from byte %zu of %zu on; exit status 0", badoff, in.n);
		if (cannot) sim_violation("status", "only %ld of %zu bytes could be written; exit status 0", sinkafter, want.n);
		if (!same_out(o, on, &want)) { size_t i = 0; while (i < on && i < want.n && o[i] == (char) want.p[i]) i++; sim_violation("output", "at byte %zu of %zu: '%s' instead of '%s'", i, on, esc(o + i, on - i > 50 ? 50 : on - i), esc(want.p + i, want.n - i > 50 ? 50 : want.n - i)); }
	} else {
		if (!malformed && !stdinbad && !sinkfail) sim_violation("refused", "%zu bytes of proper input were refused (%d): %s", in.n, st >> 8, esc(e, en > 200 ? 200 : en));
		if (!en) sim_violation("silent", "%s failed without a message", scen_name);
		// what came before
		size_t upto = on, due = malformed ? want_before_bad : want.n;
		if (stdinbad) { while (upto && o[upto - 1] != '\n') upto--; if (upto) upto--; while (upto && o[upto - 1] != '\n') upto--; }
		if (upto > due) upto = due;
#ifndef OWN_COMPARE
		if (upto && memcmp(o, want.p, upto)) sim_violation("output", "what was written before the failure is not the beginning of the right output");
		if (malformed && !stdinbad && !sinkfail && on < want_before_bad) sim_violation("lost", "%zu bytes of output were due before the malformed part, %zu came", want_before_bad, on);
#endif
	}
	int lines = 0; for (size_t i = 0; i < en; i++) if (e[i] == '\n') lines++;
	if (!stdinbad && !sinkfail && !malformed && lines < messages_expected) sim_violation("silent", "%d lines could not be used, %d messages", messages_expected, lines);
	sim_hash(hash_bytes((u64) st, o, on));
}
