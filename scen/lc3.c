#include "nat.h"
#include <termios.h>
// prog/emu run x.lc3: the program does what an LC-3 does (refinement against a reference machine), whenever keys and signals come.
const char *scen_name = "lc3";
const char *scen_probes[] = {"halt", "illegal", "interrupt", "keys_polled", "keys_trapped", "typeahead", "interactive", "end_of_input", "loops", "calls", "strings", "wrap_around", "malformed", "full_memory", "missing", "no_terminal", NULL};
const char *scen_rule = "a run = one generated program with its keys, signals and faults; non-trivial: it reads keys, is interrupted, malformed or disturbed; distinct by the hash of program, schedule and output";
void scen_note(int a, long b, long c) { (void) a; (void) b; (void) c; }
void scen_bytes(int a, const void *p, size_t n) { (void) a; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
typedef uint16_t u16;
static u16 M[65536]; static u32 pc; // being assembled
static u8 keys[300]; static int nkeys, eofkeys;
static bytes_t want; static size_t keyat[400]; static int nread, illegal, ends; static u16 origin;
static proc_t *app; static char *argvv[5]; static int refuse, intr, interactive, tty, sinkfail; static long sinkafter;
// ------------------------------------------------------------------ assembler
static void em(int w) { M[pc++] = (u16) w; }
static int rr(void) { return (int) sim_choose(6); }
static int rel(u32 to, int bits) { return (int) (to - (pc + 1)) & ((1 << bits) - 1); }
static u32 vars, DUMP;
static u16 ptrs[] = {0x5000, 0x5040, 0x0003, 0xfffc, 0x8000, 0xfd00};
static void simple(int loop) {
	int d = rr(), a = rr(), b = rr(), im = (int) sim_choose(32); (void) loop;
	switch (sim_choose(12)) {
	case 0: case 1: em(0x1000 | d << 9 | a << 6 | b); break;
	case 2: em(0x1020 | d << 9 | a << 6 | im); break;
	case 3: em(0x5000 | d << 9 | a << 6 | b); break;
	case 4: em(0x5020 | d << 9 | a << 6 | im); break;
	case 5: em(0x903f | d << 9 | a << 6); break;
	case 6: em(0x2000 | d << 9 | rel(vars + 8 + sim_choose(8), 9)); break;
	case 7: em(0x3000 | d << 9 | rel(vars + 8 + sim_choose(8), 9)); break;
	case 8: em(0xa000 | d << 9 | rel(vars + sim_choose(6), 9)); break;
	case 9: em(0xb000 | d << 9 | rel(vars + sim_choose(6), 9)); break;
	case 10: em(0x2000 | a << 9 | rel(vars + sim_choose(6), 9)); { int o = (int) sim_choose(64); em((sim_flip(1, 2) ? 0x6000 : 0x7000) | d << 9 | a << 6 | o); } break;
	default: em(0xe000 | d << 9 | (sim_flip(1, 2) ? (int) sim_choose(512) : rel(vars + sim_choose(16), 9))); break;
	}
}
static void text_at(u32 cell, int packed) { // a string in the data area, its address in the cell
	sim_probe(10);
	static u16 at; u32 n = sim_choose(20); int wrap = sim_flip(1, 40); if (!at) at = 0x6000;
	if (!n || M[0xffff]) wrap = 0;
	u16 p = wrap ? (u16) (0x10000 - n) : at; if (wrap) sim_probe(11);
	M[cell] = p; for (u32 i = 0; i < n; i++) { u16 c = (u16) (1 + sim_choose(255)); if (packed) { c |= (u16) (sim_choose(256) << 8); } else if (sim_flip(1, 6)) c |= 0x4100; M[(u16) (p + i)] = c; } if (n && packed && sim_flip(1, 2)) M[(u16) (p + n - 1)] &= 0xff;
	M[(u16) (p + n)] = 0; if (!wrap) at = (u16) (at + n + 1);
}
static int wantkeys;
static void piece(void) {
	switch (sim_choose(13)) {
	case 0: case 1: case 2: simple(0); break;
	case 3: { u32 at = pc, n = 1 + sim_choose(4), k = 0; em(0); while (k++ < n) simple(0); u32 e = pc; pc = at; em((int) sim_choose(8) << 9 | rel(e, 9)); pc = e; break; }
	case 4: { sim_probe(8); em(0x5da0); em(0x1da0 | (int) (1 + sim_choose(9))); u32 l = pc, n = 1 + sim_choose(4); while (n--) simple(1); em(0x1dbf); int c = sim_flip(1, 2) ? 1 : 5; em(c << 9 | rel(l, 9)); break; }
	case 5: sim_probe(9); em(0x4800 | rel(DUMP, 11)); break;
	case 6: { sim_probe(9); int r = sim_flip(1, 3) ? 7 : rr(); em(0x2000 | r << 9 | rel(vars + 6, 9)); em(0x4000 | r << 6); break; } // JSRR
	case 7: { u32 at = pc, n = sim_choose(5); int r = rr(); em(0); em(0xc000 | r << 6); while (n--) em(0xd000 | (int) sim_choose(4096)); u32 e = pc; M[vars + 7] = 0; pc = at; em(0xe000 | r << 9 | rel(e, 9)); pc = e; break; } // LEA, JMP over data
	case 8: em(0xf021); break;
	case 9: { u32 c = vars + 16 + sim_choose(8); if (M[c]) break; int p = sim_flip(1, 2); text_at(c, p); em(0x2000 | rel(c, 9)); em(p ? 0xf024 : 0xf022); break; }
	case 10: sim_probe(4); em(sim_flip(1, 2) ? 0xf020 : 0xf023); wantkeys++; break;
	case 11: { sim_probe(3); u32 l = pc; int r = rr(); em(0xa000 | r << 9 | rel(vars + 24, 9)); em(3 << 9 | rel(l, 9)); em(0xa000 | rr() << 9 | rel(vars + 25, 9)); wantkeys++; break; }
	default: em(0xf021); simple(0); break;
	}
}
static void dump(void) {
	DUMP = pc; u32 sav = pc + 40, zero = sav + 8, nl = sav + 9;
	for (int i = 0; i < 8; i++) em(0x3000 | i << 9 | rel(sav + (u32) i, 9));
	em(0xe000 | 4 << 9 | rel(sav, 9)); em(0x5b60); em(0x1b68); u32 l1 = pc;
	em(0x6300); em(0x1921); em(0x54a0); em(0x14af); em(0x14a1); u32 l2 = pc;
	em(0x2000 | rel(zero, 9)); em(0x1260); em(3 << 9 | 1); em(0x1021); em(0xf021); em(0x1241); em(0x14bf); em(1 << 9 | rel(l2, 9));
	em(0x2000 | rel(nl, 9)); em(0xf021); em(0x1b7f); em(1 << 9 | rel(l1, 9));
	for (int i = 0; i < 8; i++) em(0x2000 | i << 9 | rel(sav + (u32) i, 9));
	em(0xc1c0); pc = zero; em('0'); em('\n');
}
// ------------------------------------------------------------------ reference machine
static int fuel;
static void out(int c) { u8 b = (u8) c; bytes_add(&want, &b, 1); }
static u16 key(void) { if (nread < 400) keyat[nread] = want.n; if (nread < nkeys) return keys[nread++]; nread++; eofkeys = 1; return 0xffff; }
static u16 sx(int v, int bits) { return (u16) (v & 1 << (bits - 1) ? v | (int) (0xffffffffu << bits) : v); }
static void reference(void) {
	static u16 m[65536]; memcpy(m, M, sizeof m); u16 r[8] = {0}, p = 0x3000; int cc = 2;
	#define RD(a) ({ u16 a_ = (u16) (a); if (a_ == 0xfe00) { m[0xfe00] = 0x8000; m[0xfe02] = key(); } m[a_]; })
	#define FL(x) (cc = r[x] == 0 ? 2 : r[x] >> 15 ? 4 : 1)
	for (fuel = 400000; fuel; fuel--) {
		u16 w = RD(p); p++; int d = w >> 9 & 7, a = w >> 6 & 7; u16 o9 = sx(w & 511, 9), v = w & 32 ? sx(w & 31, 5) : r[w & 7];
		switch (w >> 12) {
		case 0: if (d & cc) p = (u16) (p + o9); break;
		case 1: r[d] = (u16) (r[a] + v); FL(d); break;
		case 2: r[d] = RD(p + o9); FL(d); break;
		case 3: m[(u16) (p + o9)] = r[d]; break;
		case 4: { u16 t = p; p = w & 0x800 ? (u16) (p + sx(w & 0x7ff, 11)) : r[a]; r[7] = t; break; }
		case 5: r[d] = r[a] & v; FL(d); break;
		case 6: r[d] = RD(r[a] + sx(w & 63, 6)); FL(d); break;
		case 7: m[(u16) (r[a] + sx(w & 63, 6))] = r[d]; break;
		case 9: r[d] = (u16) ~r[a]; FL(d); break;
		case 10: { u16 t = RD(p + o9); r[d] = RD(t); FL(d); break; }
		case 11: { u16 t = RD(p + o9); m[t] = r[d]; break; }
		case 12: p = r[a]; break;
		case 14: r[d] = (u16) (p + o9); FL(d); break;
		case 15: r[7] = p;
			switch (w & 255) {
			case 0x20: r[0] = key(); FL(0); break;
			case 0x21: out(r[0]); break;
			case 0x22: for (u16 x = r[0]; m[x]; x++) out(m[x]); break;
			case 0x23: { bytes_str(&want, "Enter a character: "); u16 k = key(); if (k != 0xffff) out(k); r[0] = k; FL(0); break; }
			case 0x24: for (u16 x = r[0]; m[x]; x++) { out(m[x]); if (m[x] >> 8) out(m[x] >> 8); } break;
			case 0x25: bytes_str(&want, "HALT\n"); ends = 1; return;
			default: sim_harness_error("trap %x", w & 255);
			}
			break;
		default: illegal = ends = 1; return;
		}
	}
}
// ------------------------------------------------------------------ keyboard
static void keyboard(void *a) {
	(void) a; int i = 0;
	sim_sleep((u64) sim_choose(1000) * 1000);
	while (i < nkeys) {
		if (interactive) {
			// the next key is typed when all that comes before it is to be seen
			u64 until = sim_now() + 20 * SEC; size_t on = 0; int st;
			while (!sim_proc_exited(app, &st)) { sim_stdout_of(app, &on); if (on >= keyat[i] || i >= nread) break; if (sim_now() > until) sim_violation("waiting", "%zu of the %zu bytes that come before key %d are to be seen", on, keyat[i], i); sim_sleep(20 * 1000); }
			sim_sleep((1 + sim_choose(5)) * 100 * 1000);
			if (tty && !intr && i < nread && keyat[i] && !sim_proc_exited(app, &st) && (sim_tty_mode(app) & (ICANON | ECHO))) sim_violation("terminal", "the terminal is in line or echo mode while the program waits for a key");
			sim_set_stdin(app, &keys[i++], 1);
		} else { int n = 1 + (int) sim_choose(sim_flip(1, 2) ? 2 : 8); if (n > nkeys - i) n = nkeys - i; sim_set_stdin(app, keys + i, (size_t) n); i += n; sim_sleep((u64) sim_choose(600) * 1000); }
	}
	if (eofkeys) sim_stdin_open(app, 0);
}
static int ttyn, ttyat; static u32 ttydelay; static void interrupt(void *a);
static void ttyset(proc_t *p) { if (p == app && ++ttyn == ttyat) { if (ttydelay) sim_at(sim_now() + ttydelay * 1000, interrupt, NULL); else interrupt(NULL); } }
static void interrupt(void *a) { (void) a; sim_proc_signal(app, 2); }
static u64 SECS(u32 x) { return (u64) x * SEC; }
void scen_setup(void) {
	sim_set_preempt(25); sim_set_step_limit(2000000);
	// program
	origin = sim_flip(1, 6) ? (u16) (0x3000 - sim_choose(300)) : 0x3000; pc = 0x3000;
	u32 b = 1 + sim_choose(3), last = 0; pc = 0x3000; em(0); dump(); u32 e = pc; pc = 0x3000; em(7 << 9 | rel(e, 9)); pc = e;
	while (b--) {
		em(0x0e1a); vars = pc; for (int i = 0; i < 6; i++) em(ptrs[i]); em((int) DUMP); em(0); for (int i = 0; i < 8; i++) em((int) sim_choose(65536)); for (int i = 0; i < 8; i++) em(0); em(0xfe00); em(0xfe02);
		if (pc - vars != 26) sim_harness_error("cells");
		u32 n = 1 + sim_choose(18); while (n-- && pc - vars < 200) piece();
		if (sim_flip(1, 2)) em(0x4800 | rel(DUMP, 11));
	}
	if (sim_flip(1, 10)) { em(sim_flip(1, 2) ? 0xd000 : 0x8000); } else em(0xf025);
	for (u32 i = 0; i < 65536; i++) if (M[i]) last = i; // strings and all
	u32 top = last + 1; int full = 0;
	// what is above 0x7000 (wrapped strings) needs an image that fills the memory
	if (top > 0x7000) full = 1; else if (sim_flip(1, 200)) { full = 1; top = 65536; } if (top > 0x7000) top = 65536;
	if (full) sim_probe(13);
	// keys
	nkeys = wantkeys; if (sim_flip(1, 6) && nkeys) nkeys = (int) sim_choose((u32) nkeys); if (nkeys > 250) nkeys = 250; for (int i = 0; i < nkeys; i++) keys[i] = (u8) (sim_flip(1, 5) ? sim_choose(256) : 32 + sim_choose(95));
	reference();
	if (eofkeys) sim_probe(7);
	interactive = sim_flip(1, 2); if (nkeys) sim_probe(interactive ? 6 : 5); tty = !sim_flip(1, 6); if (!tty) sim_probe(15);
	intr = !ends || sim_flip(1, 5); if (intr) sim_probe(2); else sim_probe(illegal ? 1 : 0);
	// image
	bytes_t f = {0}; u8 x[2] = {(u8) (origin >> 8), (u8) origin}; bytes_add(&f, x, 2); for (u32 i = origin; i < top; i++) { x[0] = (u8) (M[i] >> 8); x[1] = (u8) M[i]; bytes_add(&f, x, 2); }
	int bad = sim_flip(1, 10) ? 1 + (int) sim_choose(3) : 0; if (bad) { sim_probe(12); refuse = 1; if (bad == 1) f.n--; else if (bad == 2) f.n = sim_choose(2); else { for (u32 i = top; i < 65536 + 1 + sim_choose(3); i++) bytes_add(&f, "\0\1", 2); } }
	fs_mkdir("/w"); int flt = (int) sim_choose(9); if (flt == 0 && sim_flip(1, 2)) { refuse = 1; sim_probe(14); } else fs_put("/w/a.lc3", f.p, f.n);
	if (flt == 1 && f.n) { fs_bad_from("/w/a.lc3", sim_choose((u32) f.n)); refuse = 1; }
	if (flt == 2) sim_enable_once(F_OPEN_FAIL, 1);
	if (flt == 3 && want.n) { sinkfail = 1; sinkafter = (long) sim_choose((u32) want.n); interactive = 0; }
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 300); sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 300);
	argvv[0] = "emu"; argvv[1] = "run"; argvv[2] = "a.lc3";
	sim_hash(hash_bytes(hash_bytes(1, f.p, f.n), keys, (size_t) nkeys)); sim_detail("words=%zu keys=%d/%d interrupt=%d malformed=%d fault=%d%s", f.n / 2, nread, nkeys, intr, bad, flt, ends ? "" : " endless");
	app = sim_app("emu", 3, argvv, NULL); sim_proc_cwd(app, "/w"); sim_stdin_open(app, 1); if (tty) sim_set_tty(app);
	if (sinkfail) sim_stdio_sink_fail(app, 1, sinkafter);
	sim_task("keyboard", keyboard, NULL);
	if (intr && ends && tty && sim_flip(1, 3)) { sim_tty_hook = ttyset; ttyat = 1 + (int) sim_choose(2); ttydelay = sim_choose(6); }
	else if (intr) sim_at(sim_flip(1, 3) ? (u64) sim_choose(300) * 1000 : ends ? (u64) sim_choose(4000) * 1000 : SECS(1) / 50 + sim_choose(3000) * 1000, interrupt, NULL);
	free(f.p);
}
void scen_end(void) {
	int st; size_t on, en; static const char msg[] = "exit on signal 2\n";
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "emu does not end (%d of %d keys not read): %s", (int) sim_stdin_left(app), nkeys, sim_blocked_report());
	const char *o = sim_stdout_of(app, &on), *e = sim_stderr_of(app, &en);
	if (tty && sim_tty_mode(app) != (ICANON | ECHO | ISIG)) sim_violation("terminal", "the terminal was not set back (%x), status %x", sim_tty_mode(app), st);
	if ((st & 0x7f) == 2 && intr && on == 0) return; // before anything had been done
	if (st & 0x7f) sim_violation("crash", "emu died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	sim_hash(hash_bytes((u64) st, o, on));
	int opened = !sim_fired(F_OPEN_FAIL);
	size_t k = on, ml = sizeof msg - 1; int stopped = 0;
	// the message may have been cut by a short write
	if (intr && st) for (size_t c = ml < on ? ml : on; c; c--) if (!memcmp(o + on - c, msg, c)) { stopped = 1; k = on - c; break; }
	if (intr && st >> 8 == 254) stopped = 1;
	if (stopped) { if (!st) sim_violation("status", "interrupted; exit status 0"); }
	else if (st) {
		if (intr && sinkfail) return;
		if (!en) sim_violation("silent", "failed without a message, status %d", st >> 8);
		if (!refuse && !illegal && !sinkfail && opened) sim_violation("refused", "failed (%d) although nothing is wrong: %s", st >> 8, esc(e, en > 200 ? 200 : en));
	} else {
		if (refuse || !opened) sim_violation("accepted", "the image is missing, cannot be read or is malformed; exit status 0");
		if (illegal) sim_violation("accepted", "the program ends in an illegal instruction; exit status 0");
		if (sinkfail && (long) want.n > sinkafter) sim_violation("status", "the output could not be written; exit status 0");
	}
	if ((refuse || !opened) && k) sim_violation("output", "a malformed program was executed");
	if (refuse || !opened) return;
	if (k > want.n || memcmp(o, want.p, k)) { size_t i = 0; while (i < k && i < want.n && o[i] == (char) want.p[i]) i++; if (!ends && i == want.n) return; sim_violation("output", "at byte %zu of %zu: '%s' instead of '%s'", i, k, esc(o + i, k - i > 50 ? 50 : k - i), esc(want.p + i, want.n - i > 50 ? 50 : want.n - i)); }
	if (!stopped && !sinkfail && ends && k != want.n) sim_violation("lost", "%zu of %zu bytes of output", k, want.n);
}
