#include "nat.h"
// Packing: what was packed comes out again, in whatever pieces it is read and written; failures are reported.
const char *scen_name = "pack";
const char *scen_probes[] = {"lzw", "huffman", "empty", "long_run", "dictionary_reset", "end_at_width_change", "deep_tree", "one_symbol", "sink_failed", "out_failed", "truncated", "damaged", "stranger", "odd_alphabet", "hostile", NULL};
const char *scen_rule = "a run = one message packed and unpacked over sources and sinks with seeded pieces, failures and damage; non-trivial: a fault fired; distinct by the hash of message, schedule and result";
enum { PACKED = 1, CHAR, END, WROTE };
static proc_t *app; static int mod, kind, alphabet = 256, stranger = -1, packed = -1, finished; static bytes_t in, out, mid;
static long cap1 = -1, cap3 = -1; static int damage; // 1: cut, 2: bits changed, 3: something else
long scen_arg(int i) {
	switch (i) { case 0: return mod; case 1: return kind; case 2: return alphabet; case 3: return (long) in.n; case 4: return packed == 1; case 5: return stranger; }
	return 0;
}
size_t scen_str(int id, void *buf, size_t n) { (void) id; if (n > in.n) n = in.n; if (n) memcpy(buf, in.p, n); return n; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
static void bit(bytes_t *b, size_t *pos, int v) { if (*pos % 8 == 0) { u8 z = 0; bytes_add(b, &z, 1); } if (v) b->p[b->n - 1] |= (u8) (1 << *pos % 8); ++*pos; }
void scen_note(int w, long a, long b) {
	(void) b;
	if (w == WROTE && a) sim_violation("accepted", "huffman wrote a byte that has no code: %d", stranger);
	if (w == CHAR) { u8 c = (u8) a; if (a < 0 && !damage) sim_violation("lost", "the message of %zu bytes ends at %zu", in.n, out.n); bytes_add(&out, &c, 1); }
	if (w == END) finished = 1;
	if (w != PACKED) return;
	const bytes_t *c = sim_stream_data(1);
	int failed = cap1 >= 0 && c->n >= (size_t) cap1;
	if (a && cap1 >= 0 && sim_stream_bad(1)) sim_violation("unreported", "the sink took only %zu bytes and failed; packing reported success", c->n);
	if (!a && !failed) sim_violation("refused", "packing %zu bytes failed", in.n);
	packed = a && !sim_stream_bad(1);
	bytes_add(&mid, c->p, c->n);
	if (packed && damage == 1) { if (!mid.n) damage = 0; else { mid.n -= 1 + sim_choose_small((u32) mid.n); sim_probe(10); } }
	if (packed && damage == 2) { if (!mid.n) damage = 0; else { sim_probe(11); int k = 1 + (int) sim_choose(4); while (k--) mid.p[sim_choose((u32) mid.n)] ^= (u8) (1 << sim_choose(8)); } }
	if (packed && damage == 3) {
		sim_probe(14); mid.n = 0; size_t pos = 0; int size = alphabet + 2;
		if (sim_flip(1, 3)) { for (u32 k = sim_choose(400); k; k--) { u8 x = (u8) sim_choose(256); bytes_add(&mid, &x, 1); } }
		else { // codes as another program would choose them: always the longest possible word, or any
			int ladder = sim_flip(2, 3), have = 0;
			for (u32 k = 1 + sim_choose(ladder ? 9000 : 600); k; k--) {
				int wd = 1, m = 1, e = size + have; while (m < e - 1) { wd++; m *= 2; }
				int code = !have ? (int) sim_choose((u32) alphabet) : ladder ? size : sim_flip(1, 20) ? alphabet : (int) sim_choose((u32) size + 1);
				if (sim_flip(1, 3000)) code = alphabet;
				for (int j = 0; j < wd; j++) bit(&mid, &pos, code >> j & 1);
				if (code == alphabet) { size = alphabet + 2; continue; }
				if (have) { if (size == 4096) size = alphabet + 2; size++; }
				have = 1;
			}
		}
	}
	sim_stream(2, mid.p, mid.n, sim_flip(1, 2) ? 0 : -1);
}
static void add(int c, u32 n) { u8 x = (u8) c; while (n--) bytes_add(&in, &x, 1); }
static void message(void) {
	int a0 = mod ? 1 : 0, span = mod ? 255 : alphabet;
	if (sim_flip(1, 30)) { sim_probe(2); return; }
	switch (sim_choose(mod ? 5 : 6)) {
	case 0: { u32 n = 1 + sim_choose(sim_flip(1, 4) ? 6000 : 300); while (n--) add(a0 + (int) sim_choose((u32) span), 1); break; }
	case 1: { int k = 1 + (int) sim_choose(3); if (k == 1) sim_probe(mod ? 7 : 3); u32 n = 1 + sim_choose(sim_flip(1, 3) ? 20000 : 40); if (k == 1 && !mod && sim_flip(1, 4)) n = 30000 + sim_choose(40000); int c[3]; for (int i = 0; i < 3; i++) c[i] = a0 + (int) sim_choose((u32) span); while (n) { u32 q = 1 + sim_choose(sim_flip(1, 3) ? 3000 : 3); if (q > n) q = n; add(c[sim_choose((u32) k)], q); n -= q; } break; }
	case 2: { bytes_t w = {0}; u32 l = 1 + sim_choose(9); for (u32 i = 0; i < l; i++) { u8 x = (u8) (a0 + (int) sim_choose((u32) span)); bytes_add(&w, &x, 1); } u32 n = 1 + sim_choose(400); while (n--) { if (sim_flip(1, 9)) add(a0 + (int) sim_choose((u32) span), 1); else bytes_add(&in, w.p, w.n); } free(w.p); break; }
	case 3: { // counts that make a deep tree
		u32 x = 1, y = 1; int k = 3 + (int) sim_choose(18); if (k > span) k = span; int from = a0 + (int) sim_choose((u32) (span - k + 1)); if (k >= 18) sim_probe(6);
		for (int i = 0; i < k; i++) { add(from + i, x); u32 z = x + y; x = y; y = z; } break; }
	case 4: add(a0 + (int) sim_choose((u32) span), 1); sim_probe(mod ? 7 : 3); break;
	default: { // as many codes as bring the dictionary to a width's limit: no pair of bytes twice
		u32 lim = 1u << (3 + sim_choose(10)); long n = (long) lim - alphabet - 2 + (long) sim_choose(5); if (n < 1) n = 1 + (long) sim_choose(40); if (n > 5000) n = 5000;
		if (lim == 4096 && span > 60) sim_probe(4); else sim_probe(5);
		u32 step = 1, c = sim_choose((u32) span); for (long i = 0; i < n; i++) { add((int) c, 1); c = (c + step) % (u32) span; if (i % span == span - 1) step++; } break; }
	}
}
void scen_setup(void) {
	mod = sim_flip(1, 4); sim_probe(mod);
	if (!mod) { static int al[] = {256, 256, 256, 128, 10, 2, 3, 7, 15, 31, 63, 127, 255, 64, 16, 100}; alphabet = al[sim_choose(16)]; if (sim_flip(1, 8)) alphabet = 1 + (int) sim_choose(256); if (alphabet & (alphabet + 1) ? 0 : 1) sim_probe(13); kind = sim_choose(4); }
	message();
	if (mod && sim_flip(1, 4)) { stranger = 1 + (int) sim_choose(255); if (in.n && memchr(in.p, stranger, in.n)) stranger = -1; else sim_probe(12); }
	fs_put("/data", in.p ? in.p : (u8 *) "", in.n);
	sim_stream(0, in.p, in.n, sim_flip(1, 2) ? 0 : -1);
	int f = sim_choose(6);
	if (f == 0) { cap1 = (long) sim_choose_small((u32) in.n + 4); sim_probe(8); }
	if (f == 1 && !mod && in.n) { cap3 = (long) sim_choose((u32) in.n); sim_probe(9); }
	if (f == 2) damage = 1 + (int) sim_choose(mod ? 2 : 3);
	if (mod && damage == 1 && !in.n) damage = 0;
	sim_stream_cap(1, cap1); sim_stream_cap(3, cap3);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 3000);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(4), 3000);
	sim_set_iobuf(sim_flip(1, 2) ? 4096 : 1 + sim_choose(100));
	sim_set_step_limit(3000000); sim_set_preempt(0);
	sim_hash(hash_bytes(9, in.p, in.n));
	sim_detail("module=%d kind=%d alphabet=%d input=%zu fault=%d damage=%d", mod, kind, alphabet, in.n, f, damage);
	app = sim_app("pack", 1, (char *[]) {"pack", NULL}, NULL);
	sim_set_stdin(app, in.p, in.n);
	if (sim_flip(1, 2)) sim_stdin_frag(app, 1 + sim_choose(sim_flip(1, 2) ? 12 : 5000));
}
void scen_end(void) {
	int st; size_t en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "the program does not end: %s", sim_blocked_report());
	const char *e = sim_stderr_of(app, &en);
	if ((st & 0x7f) && (st & 0x7f) != SIGABRT) sim_violation("crash", "died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	int failed = sim_stream_bad(1) || sim_stream_bad(3);
	if (st) {
		if (!damage && !failed) sim_violation("refused", "a message of %zu bytes (alphabet %d) does not come back (%zu bytes packed): %s", in.n, alphabet, mid.n, esc(e, en > 200 ? 200 : en));
		if (!en) sim_violation("silent", "failed without a message");
	} else {
		if (!finished) sim_violation("died", "ended early");
		const bytes_t *o = mod ? &out : sim_stream_data(3);
		if (sim_stream_bad(3)) sim_violation("unreported", "only %zu bytes could be written; unpacking reported success", o->n);
		if (packed == 1 && !damage && (o->n != in.n || (in.n && memcmp(o->p, in.p, in.n)))) { size_t i = 0; while (i < o->n && i < in.n && o->p[i] == in.p[i]) i++; sim_violation("changed", "a message of %zu bytes (alphabet %d) came back different at byte %zu of %zu", in.n, alphabet, i, o->n); }
		if (!mod && damage == 1) sim_violation("accepted", "packed data without its end was accepted");
		if (sim_proc_live_blocks(app)) sim_violation("leak", "%d blocks are still allocated", sim_proc_live_blocks(app));
		sim_hash(hash_bytes((u64) st, o->p, o->n));
	}
}
