#include "nat.h"
#include <ctype.h>
// prog/decompose: every line of a live docker-compose log comes out under the name of its container, in order and at once.
const char *scen_name = "decompose";
const char *scen_probes[] = {"colored", "object", "empty_object", "empty_message", "no_bar", "no_space", "empty_line", "long_name", "long_line", "line_in_pieces", "no_final_newline", "half_a_color", "sink_failed", "input_failed", NULL};
const char *scen_rule = "a run = 1-10 groups of generated log lines pushed to a live stdin, in pieces, with failing reads and writes; non-trivial: a fault fired or a line came in pieces; distinct by the hash of input, schedule and output";
static proc_t *app; static bytes_t want, all; static int ended; static int base_blocks = -1;
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
static void ch(bytes_t *b, int c) { u8 x = (u8) c; bytes_add(b, &x, 1); }
static void color(bytes_t *b) { sim_probe(0); bytes_str(b, (char *[]) {"\033[36m", "\033[0m", "\033[36;1m", "\033[1;32m", "\033[m", "\033[38m", "\033[100m", "\033[1;107m", "\033[;5m", "\033[001;0m"}[sim_choose(10)]); }
static void blanks(bytes_t *b, int min) { u32 n = (u32) min + sim_choose(sim_flip(1, 4) ? 12 : 2); while (n--) ch(b, sim_flip(1, 10) ? '\t' : ' '); }
static void text(bytes_t *b, u32 n) { for (u32 i = 0; i < n; i++) { int c = sim_flip(1, 20) ? 128 + (int) sim_choose(128) : 33 + (int) sim_choose(94); if (i && sim_flip(1, 8)) c = ' '; if (!i && c == '{') c = 'x'; ch(b, c); } }
static void line(bytes_t *b, int last) {
	bytes_t name = {0}, rest = {0};
	int kind = (int) sim_choose(14), obj = 0;
	u32 n = sim_flip(1, 25) ? (sim_probe(7), 90 + sim_choose(300)) : 1 + sim_choose(14);
	for (u32 i = 0; i < n; i++) ch(&name, "abcdefghijklmnopqrstuvwxyz0123456789-_."[sim_choose(39)]);
	u32 len = sim_flip(1, 30) ? (sim_probe(8), 4000 + sim_choose(5000)) : sim_choose(40);
	switch (kind) {
	case 0: sim_probe(6); name.n = 0; if (sim_flip(1, 2)) blanks(b, 0); break; // nothing
	case 1: sim_probe(5); bytes_add(b, name.p, name.n); break; // one word
	case 2: sim_probe(4); len++; text(&rest, len); if (rest.p[0] == '|' || rest.p[0] == ' ') rest.p[0] = 'x'; bytes_add(b, name.p, name.n); blanks(b, 1); bytes_add(b, rest.p, rest.n); break; // no bar
	default:
		if (kind == 3) { sim_probe(11); bytes_t h = {0}; bytes_str(&h, (char *[]) {"\033[36", "\033", "\033[1;", "\033[1;2;3m", "\033]0m", "\0339m", "\033[38:5m"}[sim_choose(7)]); bytes_add(b, h.p, h.n); bytes_add(&h, name.p, name.n); free(name.p); name = h; if (name.p[name.n - n] == 'm') name.p[name.n - n] = 'n'; for (u32 i = 0; i < n && isdigit(name.p[name.n - n + i]); i++) name.p[name.n - n + i] = 'x'; bytes_add(b, name.p + name.n - n, n); }
		else { if (sim_flip(1, 2)) color(b); bytes_add(b, name.p, name.n); }
		blanks(b, 1); ch(b, '|'); if (sim_flip(1, 2)) color(b);
		blanks(b, 0);
		if (kind == 4) { sim_probe(3); break; }
		if (kind >= 5 && kind <= 8) { obj = 1; sim_probe(1); bytes_fmt(&rest, "{%s\"msg\":\"", sim_flip(1, 3) ? " " : ""); text(&rest, len); bytes_str(&rest, "\"}"); break; }
		if (kind == 9) { obj = 2; sim_probe(2); bytes_str(&rest, (char *[]) {"{}", "{ }", "{\t}", "{}"}[sim_choose(4)]); break; }
		text(&rest, 1 + len); if (rest.p[0] == ' ') rest.p[0] = 'x';
	}
	if (kind > 2) bytes_add(b, rest.p, rest.n);
	if (!last) { if (sim_flip(1, 6)) { ch(b, '\r'); if (rest.n) ch(&rest, '\r'); } ch(b, '\n'); ch(&rest, '\n'); } else sim_probe(10);
	if (b->n) { // nothing is no line
		if (obj) { bytes_str(&want, "{\"container\":\""); bytes_add(&want, name.p, name.n); bytes_str(&want, "\""); if (obj == 1) ch(&want, ','); bytes_add(&want, rest.p + 1, rest.n - 1); }
		else { ch(&want, '['); bytes_add(&want, name.p, name.n); bytes_str(&want, "] "); bytes_add(&want, rest.p, rest.n); }
	}
	free(name.p); free(rest.p);
}
static int gone(void) { int st; return sim_proc_exited(app, &st); }
static void compare(int whole, const char *when) {
	size_t on; const char *op = sim_stdout_of(app, &on); struct { const char *p; size_t n; } plain = {op, on};
	size_t i = 0; while (i < plain.n && i < want.n && (u8) plain.p[i] == want.p[i]) i++;
	if (i < plain.n && i < want.n) sim_violation("output", "%s, at byte %zu: '%s' instead of '%s'", when, i, esc(plain.p + i, plain.n - i > 60 ? 60 : plain.n - i), esc(want.p + i, want.n - i > 60 ? 60 : want.n - i));
	if (plain.n > want.n) sim_violation("output", "%s: %zu bytes too many: '%s'", when, plain.n - want.n, esc(plain.p + i, plain.n - i > 60 ? 60 : plain.n - i));
	if (whole && plain.n < want.n) sim_violation("lost", "%s: the output ends at byte %zu of %zu, before '%s'", when, plain.n, want.n, esc(want.p + i, want.n - i > 60 ? 60 : want.n - i));
}
static void feeder(void *a) {
	(void) a; int groups = 1 + (int) sim_choose(10);
	for (int g = 0; g < groups && !gone(); g++) {
		int lines = 1 + (int) sim_choose(4);
		for (int l = 0; l < lines; l++) {
			int last = g == groups - 1 && l == lines - 1 && sim_flip(1, 3);
			bytes_t b = {0}; size_t w0 = want.n; line(&b, last);
			if (last && !b.n) { want.n = w0; }
			bytes_add(&all, b.p, b.n);
			if (b.n > 2 && sim_flip(1, 4)) { u32 c = 1 + sim_choose((u32) b.n - 1); sim_set_stdin(app, b.p, c); sim_sleep(sim_choose(3) * 100 * MS); if (gone()) return; sim_set_stdin(app, b.p + c, b.n - c); sim_probe(9); }
			else if (b.n) sim_set_stdin(app, b.p, b.n);
			free(b.p);
			if (last) goto over;
		}
		sim_sleep(2 * SEC);
		if (gone()) return;
		if (sim_stdin_left(app)) sim_violation("stalled", "decompose does not read its input");
		if (sim_fired(F_ENOSPC)) continue;
		compare(1, "while the log is idle");
		if (base_blocks < 0) base_blocks = sim_proc_live_blocks(app); else if (sim_proc_live_blocks(app) > base_blocks) sim_violation("leak", "%d blocks are allocated, after the first lines it were %d", sim_proc_live_blocks(app), base_blocks);
	}
over:
	ended = 1; sim_stdin_open(app, 0);
}
void scen_setup(void) {
	static u32 bufs[] = {4096, 4096, 1, 16, 512};
	sim_set_iobuf(bufs[sim_choose(5)]);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 1000);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 1000);
	int f = sim_choose(8);
	sim_set_preempt(0); sim_set_step_limit(4000000);
	sim_detail("fault=%d", f);
	app = sim_app("decompose", 1, (char *[]) {"decompose", NULL}, NULL);
	sim_stdin_open(app, 1);
	if (f == 0) { sim_probe(12); sim_stdio_sink_fail(app, 1, sim_choose(3000)); }
	if (f == 1) { sim_probe(13); sim_stdin_bad(app, sim_choose(2000)); }
	sim_task("feeder", feeder, NULL);
}
void scen_end(void) {
	int st; size_t en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "decompose does not end: %s", sim_blocked_report());
	const char *e = sim_stderr_of(app, &en);
	if ((st & 0x7f)) sim_violation("crash", "decompose died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	if (st == 0) {
		if (!ended) sim_violation("status", "exit status 0 before the input ended");
		if (sim_fired(F_READ_EIO)) sim_violation("status", "the input could not be read; exit status 0");
		if (sim_fired(F_ENOSPC)) sim_violation("status", "the output could not be written; exit status 0");
		compare(1, "at the end");
	} else {
		if (!sim_fired(F_READ_EIO) && !sim_fired(F_ENOSPC)) sim_violation("refused", "decompose ended with %d although nothing failed: %s", st >> 8, esc(e, en > 200 ? 200 : en));
		if (!en) sim_violation("silent", "decompose failed without a message");
		// a line cut off by the failure is shown as it is
		if (!sim_fired(F_READ_EIO)) compare(0, "after the failure");
	}
	size_t on; const char *op = sim_stdout_of(app, &on); sim_hash(hash_bytes(hash_bytes(1, all.p, all.n), op, on));
}
