#include "nat.h"
// formats/conf: every pair of a file is read once and in order, anything else is refused.
const char *scen_name = "conf";
const char *scen_probes[] = {"comment", "blank_line", "comment_after_value", "no_final_newline", "longest_key", "longest_value", "longest_line", "high_bytes", "key_too_long", "value_too_long", "line_too_long", "no_value", "read_failed", "open_failed", "equals_in_value", NULL};
const char *scen_rule = "a run = one generated configuration file of 0-12 lines, possibly with a bad line, read to its end; non-trivial: a fault fired; distinct by the hash of the file";
enum { KEY = 1, VAL, END };
static proc_t *app; static bytes_t doc; static struct { bytes_t k, v; } P[16]; static int np, got, finished, bad, unread, gotkey;
long scen_arg(int i) { (void) i; return 0; }
static void ch(bytes_t *b, int c) { u8 x = (u8) c; bytes_add(b, &x, 1); }
static void sp(bytes_t *b, u32 min) { u32 n = min + (sim_flip(1, 2) ? sim_choose(3) : 0); while (n--) ch(b, ' '); }
static void txt(bytes_t *b, u32 n, int key) { for (u32 i = 0; i < n; i++) { int c = 33 + (int) sim_choose(94); if (sim_flip(1, 12)) { c = sim_flip(1, 3) ? 255 : 128 + (int) sim_choose(128); sim_probe(7); } if (!key && i && i + 1 < n && sim_flip(1, 8)) c = ' '; if (c == '#' || (c == '=' && (key || !i))) c = 'h'; if (c == '=') sim_probe(14); ch(b, c); } }
void scen_note(int w, long a, long b) { (void) a; (void) b; if (w == END) finished = 1; }
void scen_bytes(int w, const void *p, size_t n) {
	if (w == KEY) { if (got >= np) { sim_violation("extra", "a pair '%s' that is not in the file (it has %d)", esc(p, n), np); } }
	bytes_t *x = w == KEY ? &P[got].k : &P[got].v;
	if (n != x->n || memcmp(p, x->p, n)) sim_violation("different", "the %s of pair %d is '%s' instead of '%s'", w == KEY ? "key" : "value", got, esc(p, n), esc(x->p, x->n));
	gotkey = w == KEY; if (w == VAL) got++;
}
void scen_setup(void) {
	fs_mkdir("/w");
	int n = (int) sim_choose(13), badat = sim_flip(1, 4) && n ? (int) sim_choose((u32) n) : -1;
	for (int i = 0; i < n; i++) {
		u32 kind = sim_choose(6); int last = i == n - 1 && sim_flip(1, 3); if (last) sim_probe(3);
		if (i == badat) {
			bad = 1;
			switch (sim_choose(5)) {
			case 0: { sim_probe(8); u32 k = sim_flip(1, 2) ? 100 : 100 + sim_choose(140); txt(&doc, k, 1); bytes_str(&doc, "=1"); break; }
			case 1: { sim_probe(9); bytes_str(&doc, "k="); txt(&doc, sim_flip(1, 2) ? 200 : 200 + sim_choose(53), 0); break; }
			case 2: { sim_probe(10); bytes_str(&doc, "k="); txt(&doc, sim_flip(1, 2) ? 254 : 254 + sim_choose(9000), 0); break; }
			case 3: { sim_probe(10); u32 pad = 3 + sim_choose(8), all = sim_flip(1, 2) ? 256 : 256 + sim_choose(9); txt(&doc, 80, 1); ch(&doc, '='); for (u32 k = 0; k < pad; k++) ch(&doc, ' '); txt(&doc, all - 81 - pad, 0); break; }
			default: sim_probe(11); txt(&doc, 1 + sim_choose(9), 1); if (sim_flip(1, 2)) sp(&doc, 1); if (sim_flip(1, 2)) ch(&doc, '='); sp(&doc, 0); if (sim_flip(1, 4)) bytes_str(&doc, "# x");
			}
			if (!last) ch(&doc, '\n');
			continue;
		}
		if (kind == 0) { sim_probe(1); static char *s[] = {"", " ", "\t", "  \r", "\v"}; bytes_str(&doc, s[sim_choose(5)]); if (!last) ch(&doc, '\n'); continue; }
		if (kind == 1) { sim_probe(0); sp(&doc, 0); ch(&doc, '#'); u32 m = sim_flip(1, 10) ? 300 + sim_choose(600) : sim_choose(30); for (u32 k = 0; k < m; k++) ch(&doc, sim_flip(1, 20) ? 255 : 32 + (int) sim_choose(90)); if (!last) ch(&doc, '\n'); continue; }
		bytes_t *k = &P[np].k, *v = &P[np].v;
		u32 kn = sim_flip(1, 12) ? (sim_probe(4), 99) : 1 + sim_choose(12), vn = sim_flip(1, 12) ? (sim_probe(5), 199) : 1 + sim_choose(20);
		if (kn == 99 && vn > 150) vn = sim_flip(1, 2) ? (sim_probe(6), 155) : 20;
		txt(k, kn, 1); txt(v, vn, 0); if (!bad) np++;
		sp(&doc, 0); if (sim_flip(1, 6)) ch(&doc, '\t');
		bytes_add(&doc, k->p, k->n); u32 room = 255 - kn - vn;
		if (room > 8) { if (sim_flip(1, 12)) sp(&doc, 1); else { sp(&doc, 0); ch(&doc, '='); sp(&doc, 0); } } else ch(&doc, '=');
		bytes_add(&doc, v->p, v->n);
		if (sim_flip(1, 5)) { sim_probe(2); bytes_str(&doc, "#"); txt(&doc, sim_choose(9), 0); if (sim_flip(1, 10)) txt(&doc, 300, 0); }
		if (bad) { k->n = v->n = 0; }
		if (!last) ch(&doc, '\n');
	}
	fs_put("/w/a.conf", doc.p, doc.n);
	int f = (int) sim_choose(6);
	if (f == 0) { unread = 1; sim_probe(12); fs_bad_from("/w/a.conf", doc.n ? sim_choose((u32) doc.n) : 0); }
	if (f == 1) { sim_probe(13); sim_enable(F_OPEN_FAIL, 1, 1); }
	static u32 bufs[] = {4096, 1, 16, 512}; sim_set_iobuf(bufs[sim_choose(4)]);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 3000);
	sim_set_step_limit(2000000); sim_set_preempt(0);
	sim_hash(hash_bytes(5, doc.p, doc.n));
	sim_detail("bytes=%zu lines=%d pairs=%d bad=%d fault=%d", doc.n, n, np, bad, f);
	app = sim_app("conf", 1, (char *[]) {"conf", NULL}, NULL);
}
void scen_end(void) {
	int st; size_t en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "does not end: %s", sim_blocked_report());
	const char *e = sim_stderr_of(app, &en);
	if ((st & 0x7f) && (st & 0x7f) != SIGABRT) sim_violation("crash", "died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	if (st) {
		if (!bad && !sim_fired(F_READ_EIO) && !sim_fired(F_OPEN_FAIL)) sim_violation("refused", "a good file of %zu bytes: %s", doc.n, esc(e, en > 200 ? 200 : en));
		if (!en) sim_violation("silent", "failed without a message");
		if (bad && !sim_fired(F_READ_EIO) && !sim_fired(F_OPEN_FAIL) && got < np) sim_violation("lost", "%d of the %d pairs before the bad line were read", got, np);
		return;
	}
	if (!finished) sim_violation("died", "ended early");
	if (sim_fired(F_OPEN_FAIL)) sim_violation("success", "read a file that cannot be opened");
	if (sim_fired(F_READ_EIO)) sim_violation("success", "a file that cannot be read to its end was read without an error");
	if (bad) sim_violation("accepted", "a bad line was read without an error");
	if (got < np) sim_violation("lost", "%d of %d pairs were read", got, np);
	if (sim_proc_live_blocks(app)) sim_violation("leak", "%d blocks are still allocated", sim_proc_live_blocks(app));
}
