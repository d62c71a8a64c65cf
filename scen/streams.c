#include "nat.h"
// The byte stream layer: whatever pieces a source gives or a sink takes, the layers above see and produce one and the same byte sequence.
#include <ctype.h>
const char *scen_name = "streams";
const char *scen_probes[] = {"tokenizer", "endian", "bits_in", "linereader", "bytereader", "writers", "bits_out", "literal_split", "end_in_token", "stream_error", "stream_cut", "buffer_too_small", "long_token", "sink_full", "high_byte", "bad_sector", NULL};
const char *scen_rule = "a run = a sequence of operations of one module on one kind of source or sink with seeded content, pieces, ends and errors; non-trivial: a fault fired; distinct by the hash of the schedule and history";
enum { RESULT = 1, POS, END, NUL };
enum { B_BUF = 1, B_STR, B_VAL, B_DEST };
enum { TOK, NUM, BITS, LINES, BYTES, WRITES, WBITS };
static proc_t *app; static int mod, kind, order, finished, stop, nops, done;
static bytes_t in, lit, want; // the input, the literal of the operation, what the sink must have got
static long size; // capacity of a static buffer
static size_t pos, bitpos, row, col; // where the model is
static int op, arg; static long len;
static u8 got[(1 << 19) + 16]; static size_t ngot; static int have; // bytes reported with the operation
static int seen_pos, bits_failed;
static bytes_t bitbuf; // bits given to the bit writer
static long badfrom = -1; // where a file or stdin cannot be read
static size_t limit(void) { return badfrom >= 0 && kind >= 1 && kind <= 3 ? (size_t) badfrom : kind == 0 && sim_stream_bad(0) ? sim_stream_pos(0) : in.n; }
static int peekc(void) { return pos < limit() ? in.p[pos] : -1; }
static int getc_(void) { int c = peekc(); if (c < 0) return c; pos++; if (c == '\n') { row++; col = 0; } else col++; return c; }
static int inset(int c) { return c > 0 && memchr(lit.p, c, lit.n) != NULL; }
static int follows(void) { return limit() - pos >= lit.n && !memcmp(in.p + pos, lit.p, lit.n); }
static const char *ops[7][16] = {
	{"peek", "get", "more", "skip_literal", "literal_follows", "read_until", "id", "num", "spaces", "hspaces", "buf_skip", "buf_skip_set", "buf_read_set", "buf_skip_until", "tail", "posstr"},
	{"reader.read", "read1", "read2le", "read2be", "read3le", "read4be", "read4le", "reader.skip"},
	{"read1", "readn"}, {"line"}, {"readc", "peekc", "read16", "read32", "ended"},
	{"write", "writebyte", "write1", "write2le", "write4be", "write4le"}, {"write1", "write"}};
static const char *at(void) { return xsprintf("%s at byte %zu of %zu (source %d)", ops[mod][op], mod == BITS ? bitpos / 8 : pos, in.n, kind); }
#define WANT(cond, ...) do { if (!(cond)) { const char *m_ = xsprintf(__VA_ARGS__); sim_violation("result", "operation %d, %s: %s", done, at(), m_); } } while (0)
static void inlit(size_t n) { lit.n = 0; if (n) bytes_add(&lit, in.p + pos, n > in.n - pos ? in.n - pos : n); }
static int next_op(void) {
	if (stop || nops-- <= 0) return -1;
	have = 0; lit.n = 0; arg = 0; len = 1;
	switch (mod) {
	case TOK:
		op = sim_choose(16);
		int c = pos < in.n ? in.p[pos] : 0;
		if (op == 3 || op == 4) {
			if (sim_flip(3, 4)) { inlit(1 + sim_choose_small(sim_flip(1, 10) ? 100 : 12)); if (lit.n > 1) sim_probe(7); if (lit.n && sim_flip(1, 4)) lit.p[sim_choose((u32) lit.n)] ^= 1; }
			else bytes_str(&lit, "abc");
			if (!lit.n) bytes_str(&lit, "x");
			for (size_t i = 0; i < lit.n; i++) if (!lit.p[i]) lit.p[i] = 'x';
		}
		if (op == 5) { arg = " \nxe.-"[sim_choose(6)]; len = sim_flip(1, 3) ? 1 + sim_choose(8) : 1 + sim_choose(300); }
		if (op == 6) len = sim_flip(1, 3) ? 1 + sim_choose(6) : 1 + sim_choose(200);
		if (op == 7) len = sim_flip(1, 3) ? 1 + sim_choose(8) : 1 + sim_choose(200);
		if (op == 10) arg = sim_flip(1, 2) && c && c < 128 ? c : 'q';
		if (op == 11 || op == 12) bytes_str(&lit, sim_flip(1, 2) ? "0123456789" : sim_flip(1, 2) ? "abcdefghijklmnopqrstuvwxyzXY_" : " \t\n-.\xff");
		if (op == 13) bytes_str(&lit, sim_flip(1, 2) ? "\n" : sim_flip(1, 2) ? "zz" : " -");
		if (op == 14) len = sim_flip(1, 12) ? 90 + sim_choose(300) : 1 + sim_choose(30);
		break;
	case NUM: op = sim_choose(8); if (op == 0) len = sim_flip(1, 8) ? 1 + sim_choose(5000) : 1 + sim_choose(40); if (op == 7) len = sim_choose(20); break;
	case BITS: op = sim_choose(2); if (op) len = sim_choose(25); break;
	case BYTES: do op = sim_choose(5); while ((op == 2 && limit() - pos < 2) || (op == 3 && limit() - pos < 4)); break;
	case WRITES: op = sim_choose(6); arg = (int) sim_choose(0x7fffffff); if (op == 0) { len = sim_flip(1, 8) ? sim_choose(6000) : 1 + sim_choose(40); for (long i = 0; i < len; i++) { u8 b = patt(done, i); bytes_add(&lit, &b, 1); } } break;
	case WBITS: op = sim_choose(2); if (!op) { static const int v[] = {0, 1, 1, 2, 128, 255}; arg = v[sim_choose(6)]; } else { len = sim_choose(60); for (long i = 0; i < len; i++) { u8 b = sim_flip(1, 2) ? (sim_flip(1, 10) ? 7 : 1) : 0; bytes_add(&lit, &b, 1); } } break;
	}
	return op;
}
long scen_arg(int i) {
	switch (i) { case 0: return mod; case 1: return kind; case 2: return order; case 3: return size; case 4: return next_op(); case 5: return arg; case 6: return len; }
	return 0;
}
size_t scen_str(int id, void *buf, size_t n) { bytes_t *b = id ? &lit : &in; if (n > b->n) n = b->n; if (n) memcpy(buf, b->p, n); return n; }
void scen_bytes(int what, const void *p, size_t n) {
	have = what;
	if (n > sizeof got - 16) sim_harness_error("too much text");
	memcpy(got, p, n); ngot = n;
	if (what == B_BUF) for (size_t i = (size_t) len; i < n; i++) if (got[i] != 0xA5) sim_violation("overflow", "operation %d, %s: wrote past the buffer of %ld bytes", done, at(), len);
	if (what == B_DEST) {
		for (size_t i = (size_t) size; i < n; i++) if (got[i] != 0xA5) sim_violation("overflow", "the static buffer of %ld bytes was overrun", size);
		if (want.n > (size_t) size || memcmp(got, want.p ? want.p : (u8 *) "", want.n)) sim_violation("output", "the static buffer of %ld bytes does not have the %zu bytes written", size, want.n);
	}
}
static void text_is(const u8 *w, size_t n) { // the string in got
	size_t l = strnlen((char *) got, ngot);
	WANT(l == n && !memcmp(got, w, n), "gave '%s' (%zu bytes), not '%s' (%zu bytes)", esc(got, l > 50 ? 50 : l), l, esc(w, n > 50 ? 50 : n), n);
}
static void tok(long r) {
	static u8 t[1 << 19]; size_t n = 0; int e = 0; size_t p0 = pos;
	if (peekc() >= 128) sim_probe(14);
	switch (op) {
	case 0: e = peekc(); WANT(r == e, "gave %ld, not %d", r, e); break;
	case 1: e = getc_(); WANT(r == e, "gave %ld, not %d", r, e); break;
	case 2: WANT(!!r == (peekc() >= 0), "gave %ld", r); break;
	case 3: e = follows(); WANT(!!r == e, "gave %ld for '%s'", r, esc(lit.p, lit.n)); if (e) for (size_t i = 0; i < lit.n; i++) getc_(); break;
	case 4: e = follows(); WANT(!!r == e, "gave %ld for '%s'", r, esc(lit.p, lit.n)); break;
	case 5: {
		size_t q = pos; while (q < limit() && in.p[q] != arg) q++;
		n = q - pos; e = n <= (size_t) len - 1;
		WANT(!!r == e, "gave %ld with %zu bytes before the character and a buffer of %ld", r, n, len);
		if (!e) { stop = 1; sim_probe(11); break; }
		text_is(in.p + pos, n); while (pos < q) getc_();
		break;
	}
	case 6:
		if (!(isalpha(peekc()) || peekc() == '_')) { WANT(!r, "gave an identifier"); break; }
		while (peekc() >= 0 && (isalnum(peekc()) || peekc() == '_')) t[n++] = (u8) getc_();
		WANT(r, "gave no identifier"); if (n > (size_t) len - 1) { n = (size_t) len - 1; sim_probe(11); }
		text_is(t, n); break;
	case 7: {
		size_t q = pos, L = limit(); int bad = 0;
#define C(i) ((i) < L ? in.p[i] : -1)
		if (C(q) == '-') q++;
		if (!isdigit(C(q))) bad = 1;
		while (isdigit(C(q))) q++;
		if (!bad && C(q) == '.') { q++; if (!isdigit(C(q))) bad = 1; while (isdigit(C(q))) q++; }
		if (!bad && (C(q) == 'e' || C(q) == 'E')) { q++; if (C(q) == '-' || C(q) == '+') q++; if (!isdigit(C(q))) bad = 1; while (isdigit(C(q))) q++; }
		n = q - pos;
		if (bad || n > (size_t) len - 1) { if (!bad) sim_probe(11); WANT(!r, "gave the number '%s' for '%s' in a buffer of %ld", esc(got, strnlen((char *) got, ngot) > 40 ? 40 : strnlen((char *) got, ngot)), esc(in.p + pos, n > 40 ? 40 : n), len); stop = 1; break; }
		WANT(r, "gave no number for '%s'", esc(in.p + pos, n)); text_is(in.p + pos, n); while (pos < q) getc_();
		break;
	}
	case 8: while (isspace(peekc())) { e = 1; getc_(); } WANT(!!r == e, "gave %ld", r); break;
	case 9: while (peekc() == ' ' || peekc() == '\t') getc_(); break;
	case 10: e = peekc() == arg; WANT(!!r == e, "gave %ld for '%c'", r, arg); if (e) getc_(); break;
	case 11: while (inset(peekc())) getc_(); break;
	case 12: { size_t q = pos; while (q < limit() && inset(in.p[q])) q++; got[ngot] = 0; ngot++; n = q - pos; if (n > 9999) sim_probe(12); text_is(in.p + pos, n); while (pos < q) getc_(); break; }
	case 13: { size_t L = limit(), q = pos; while (q < L && !(L - q >= lit.n && !memcmp(in.p + q, lit.p, lit.n))) q++; got[ngot] = 0; ngot++; n = q - pos; if (n > 9999) sim_probe(12); text_is(in.p + pos, n); while (pos < q) getc_(); break; }
	case 14: { size_t l = strnlen((char *) got, (size_t) len), L = limit(); WANT(l < (size_t) len, "gave a string without an end"); WANT(l <= L - pos && !memcmp(got, in.p + pos, l), "gave '%s', not what follows", esc(got, l > 50 ? 50 : l)); if (len > 1 && pos < L) WANT(l > 0, "gave nothing with %zu bytes left", L - pos); break; }
	case 15: { char s[60]; snprintf(s, sizeof s, "%zu:%zu", row + 1, col + 1); s[9] = 0; got[ngot] = 0; ngot++; text_is((u8 *) s, strlen(s)); break; }
	}
	if (p0 != pos && pos == limit()) sim_probe(8);
}
static void num(long r) {
	size_t av = limit() - pos; static const int w[] = {0, 1, 2, 2, 3, 4, 4};
	if (op == 7) { pos += (size_t) len < av ? (size_t) len : av; if ((size_t) len > av) stop = 1; return; }
	if (op == 0) {
		if (r <= 0) { WANT(av == 0, "gave %ld with %zu bytes left", r, av); if (kind == 0 ? sim_stream_bad(0) == 1 : badfrom >= 0 && kind < 4) WANT(r < 0, "a failing source looks like its end"); return; }
		WANT((size_t) r <= av && r <= len, "gave %ld bytes of %zu into a buffer of %ld", r, av, len); WANT(!memcmp(got, in.p + pos, (size_t) r), "gave other bytes than the source has");
		if (kind == 4) WANT((size_t) r == (av < (size_t) len ? av : (size_t) len), "gave %ld bytes of %zu", r, av);
		pos += (size_t) r; return;
	}
	size_t n = (size_t) w[op];
	if (av < n) { WANT(r <= 0, "succeeded (%ld) with %zu bytes left", r, av); stop = 1; sim_probe(8); return; }
	WANT(r == (long) n, "gave %ld with %zu bytes left", r, av);
	u32 v = 0, g = 0;
	for (size_t i = 0; i < n; i++) if (op == 3 || op == 5) v = v * 256 + in.p[pos + i]; else v |= (u32) in.p[pos + i] << 8 * i;
	for (size_t i = 0; i < ngot; i++) g |= (u32) got[i] << 8 * i;
	WANT(g == v, "gave %u, not %u", g, v);
	pos += n;
}
static int bit(size_t i) { u8 b = in.p[i / 8]; return order ? b >> (i % 8) & 1 : b >> (7 - i % 8) & 1; }
static void rbits(long r) {
	size_t n = op ? (size_t) len : 1, L = limit() * 8;
	if (L - bitpos < n) { WANT(r == -1, "gave %ld with %zu bits left of %zu wanted", r, L - bitpos, n); stop = 1; sim_probe(8); return; }
	long v = 0;
	for (size_t i = 0; i < n; i++) v = v * 2 + bit(bitpos + i);
	WANT(r == v, "gave %ld, not %ld, for %zu bits at bit %zu", r, v, n, bitpos);
	bitpos += n;
}
static int eof_seen;
static void rbytes(long r) {
	u32 v = 0; size_t n = op == 0 ? 1 : op == 2 ? 2 : op == 3 ? 4 : 0;
	if (op == 4) { WANT(!!r == eof_seen, "gave %ld %s", r, eof_seen ? "after the end was read" : "although nothing was read past the end"); return; }
	if (op == 1) { int e = peekc(); WANT(r == e, "gave %ld, not %d", r, e); if (e < 0) eof_seen = 1; return; }
	if (limit() - pos < n) { WANT(r == -1, "gave %ld at the end", r); eof_seen = 1; return; }
	for (size_t i = 0; i < n; i++) v = v * 256 + in.p[pos++];
	WANT((u32) r == v, "gave %ld, not %u", r, v);
}
static void lines(long r) {
	if (!r) { WANT(pos == limit(), "ended after %zu of %zu bytes", pos, limit()); return; }
	size_t q = pos; while (q < limit() && in.p[q] != '\n') q++;
	if (q < limit()) q++;
	WANT(pos < limit(), "gave a line after the end");
	got[ngot] = 0; ngot++; text_is(in.p + pos, q - pos);
	if (q - pos > 4096) sim_probe(12);
	pos = q;
}
static void writes(long r) {
	u8 t[8]; u32 v = (u32) arg; size_t n = 0;
	if (op == 1 || op == 2) t[n++] = (u8) v;
	if (op == 3) { t[n++] = (u8) v; t[n++] = (u8) (v >> 8); }
	if (op == 4) for (int i = 3; i >= 0; i--) t[n++] = (u8) (v >> 8 * i);
	if (op == 5) for (int i = 0; i < 4; i++) t[n++] = (u8) (v >> 8 * i);
	if (op != 0) { lit.n = 0; bytes_add(&lit, t, n); }
	WANT(r <= (long) lit.n, "reports %ld of %zu bytes written", r, lit.n);
	if (r > 0) bytes_add(&want, lit.p, (size_t) r);
	size_t room = kind == 4 ? (size_t) size - (want.n - (r > 0 ? (size_t) r : 0)) : lit.n;
	if (kind == 0) { if (r < 0) WANT(sim_stream_bad(1), "failed although the sink took everything"); }
	else if (kind == 4) { if (room < lit.n) sim_probe(13); if (room == 0 && lit.n) WANT(r < 0, "reports %ld with a full buffer", r); else WANT((size_t) r == (room < lit.n ? room : lit.n), "reports %ld of %zu bytes with room for %zu", r, lit.n, room); }
	else if (kind != 3) WANT(r == (long) lit.n, "reports %ld of %zu bytes", r, lit.n);
	else if (lit.n) WANT(r > 0, "failed: %ld", r);
	if (kind == 0) { const bytes_t *o = sim_stream_data(1); WANT(o->n == want.n && (!o->n || !memcmp(o->p, want.p, o->n)), "the sink got %zu bytes, %zu were reported", o->n, want.n); }
}
static void wbits(long r) {
	if (op < 0) return;
	int sinkbad = kind == 0 ? sim_stream_bad(1) : 0;
	if (op == 0) { u8 b = arg != 0; bytes_add(&bitbuf, &b, 1); }
	else for (size_t i = 0; i < lit.n; i++) { u8 b = lit.p[i] != 0; bytes_add(&bitbuf, &b, 1); }
	if (kind == 4 && bitbuf.n / 8 > (size_t) size) sinkbad = 1;
	if (sinkbad) { sim_probe(13); }
	if (bits_failed && r && !(op == 1 && !lit.n)) WANT(0, "succeeded after a failure");
	if (!r) { WANT(sinkbad, "failed although the sink took everything"); bits_failed = 1; }
	else WANT(!sinkbad || (op == 1 && !lit.n), "succeeded although the sink failed");
}
static void packed(void) {
	for (size_t i = 0; i < bitbuf.n; i += 8) { u8 b = 0; for (size_t k = 0; k < 8 && i + k < bitbuf.n; k++) if (bitbuf.p[i + k]) b |= order ? 1 << k : 0x80 >> k; bytes_add(&want, &b, 1); }
	if (kind == 4 && want.n > (size_t) size) want.n = (size_t) size;
}
void scen_note(int what, long a, long b) {
	(void) b;
	if (kind == 0 && mod < LINES && sim_stream_bad(0)) sim_probe(sim_stream_bad(0) == 1 ? 9 : 10);
	switch (what) {
	case RESULT:
		sim_hash((u64) a);
		switch (mod) {
		case TOK: tok(a); break; case NUM: num(a); break; case BITS: rbits(a); break; case LINES: op = 0; lines(a); break;
		case BYTES: rbytes(a); break; case WRITES: writes(a); break;
		case WBITS:
			if (nops >= 0) { wbits(a); break; }
			packed();
			int full = kind == 0 ? sim_stream_bad(1) : kind == 4 && (bitbuf.n + 7) / 8 > (size_t) size;
			if (full) sim_probe(13);
			if (!!a == !!full) sim_violation("result", "closing the bit writer reports %ld with a sink that %s", a, full ? "failed" : "took everything");
			break;
		}
		done++; break;
	case POS: {
		seen_pos = 1;
		if (mod < LINES) { size_t low = mod == BITS ? (bitpos + 7) / 8 : pos; if ((size_t) a < low || (size_t) a > limit()) sim_violation("position", "the reader counts %ld bytes; %zu were used, %zu were there", a, low, limit()); if (kind == 0 && (size_t) a != sim_stream_pos(0)) sim_violation("position", "the reader counts %ld bytes; the source gave %zu", a, sim_stream_pos(0)); if (mod == NUM && !stop && (size_t) a != pos) sim_violation("position", "the reader counts %ld bytes; %zu were read", a, pos); }
		else { size_t w = kind == 0 ? sim_stream_data(1)->n : want.n; if ((size_t) a != w) sim_violation("position", "the writer counts %ld bytes; %zu were written", a, w); if (mod == WBITS && kind == 0) { const bytes_t *o = sim_stream_data(1); if (o->n > want.n || (o->n && memcmp(o->p, want.p, o->n)) || (!sim_stream_bad(1) && o->n != want.n)) sim_violation("output", "the sink has %zu bytes that are not the %zu packed ones", o->n, want.n); } }
		break;
	}
	case NUL: sim_harness_error("the driver could not open its file");
	case END: finished = 1; break;
	}
}
static void text(size_t n) {
	static const char base[] = "abcdexXY_zz0123456789 \t-.e\n\r\xff\x80\xe9";
	while (in.n < n) {
		u32 k = sim_choose(8);
		if (k == 0) bytes_fmt(&in, "%s%u.%ue%s%u", sim_flip(1, 2) ? "-" : "", sim_choose(1000), sim_choose(100), sim_flip(1, 2) ? "-" : "+", sim_choose(30));
		else if (k == 1) bytes_fmt(&in, "name_%u", sim_choose(100000));
		else if (k == 2) bytes_str(&in, "\n");
		else if (k == 3) bytes_str(&in, " -");
		else { char c = base[sim_choose(sizeof base - 1)]; size_t r = sim_flip(1, 8) ? 1 + sim_choose(sim_flip(1, 6) ? 150 : 12) : 1; while (r--) bytes_add(&in, &c, 1); }
	}
	if (sim_flip(1, 10)) { size_t r = sim_flip(1, 2) ? 9990 + sim_choose(20) : sim_choose(30000); char c = "7a \xff"[sim_choose(4)]; while (r--) bytes_add(&in, &c, 1); if (sim_flip(1, 2)) bytes_str(&in, "\nzz -end"); }
}
void scen_setup(void) {
	mod = sim_flip(1, 3) ? TOK : (int) sim_choose(7);
	nops = 1 + (int) (sim_flip(1, 4) ? sim_choose_small(60) : sim_choose(80)); order = sim_choose(2);
	sim_probe(mod);
	size_t n = sim_flip(1, 4) ? sim_choose_small(400) : sim_choose(400);
	if (mod == TOK) { kind = sim_flip(2, 3) ? 0 : sim_choose(6); text(n); }
	else if (mod == NUM || mod == BITS) { kind = sim_flip(1, 2) ? 0 : sim_choose(5); if (sim_flip(1, 10)) n = 4000 + sim_choose(9000); for (size_t i = 0; i < n; i++) { u8 b = sim_flip(1, 6) ? "\xff\x00\x80\x7f"[sim_choose(4)] : patt(3, (long) i); bytes_add(&in, &b, 1); } }
	else if (mod == LINES) { kind = 1 + sim_choose(2); text(n); for (int z = 0; z < 12 && sim_flip(1, 3); z++) { static const int at[] = {4095, 8191, 12000}; int m = at[sim_choose(3)] - 4 + (int) sim_choose(8); for (int i = 0; i < m; i++) bytes_str(&in, "q"); if (sim_flip(2, 3)) bytes_str(&in, "\n"); } }
	else if (mod == BYTES) { kind = 1; for (size_t i = 0; i < n; i++) { u8 b = sim_flip(1, 6) ? "\xff\x00\x80\x7f"[sim_choose(4)] : patt(3, (long) i); bytes_add(&in, &b, 1); } }
	else { kind = mod == WBITS && sim_flip(1, 2) ? 0 : sim_choose(5); size = sim_choose_small(mod == WBITS ? 60 : 9000); }
	if (mod < WRITES && (kind == 4 || kind == 5)) size = (long) in.n;
	fs_put("/data", in.p ? in.p : (u8 *) "", in.n);
	sim_stream(0, in.p, in.n, sim_flip(1, 2) ? 0 : -1);
	sim_stream_cap(1, sim_flip(1, 3) ? (long) sim_choose(mod == WBITS ? 40 : 400) : -1);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 3000);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(4), 3000);
	int f = sim_choose(5);
	if (f == 0 && kind == 0) sim_enable_once(F_STREAM_ERR, 1 + (u32) (mod < LINES ? in.n : 60));
	if (f == 1 && kind == 0) sim_enable_once(F_STREAM_EOF, 1 + (u32) in.n);
	if (f < 2 && kind >= 1 && kind <= 3 && in.n && mod < WRITES) { badfrom = sim_choose((u32) in.n); fs_bad_from("/data", (size_t) badfrom); sim_probe(15); }
	sim_set_iobuf(sim_flip(1, 2) ? 4096 : 1 + sim_choose(100));
	sim_set_step_limit(3000000); sim_set_preempt(0);
	sim_hash(hash_bytes(9, in.p, in.n));
	sim_detail("module=%d kind=%d input=%zu ops=%d fault=%d", mod, kind, in.n, nops, f);
	app = sim_app("streams", 1, (char *[]) {"streams", NULL}, NULL);
	sim_set_stdin(app, in.p, in.n); if (badfrom >= 0) sim_stdin_bad(app, (size_t) badfrom);
	if (sim_flip(1, 2)) sim_stdin_frag(app, 1 + sim_choose(12));
}
void scen_proc_exit(proc_t *p, int st) {
	if (p != app) return;
	if (st) sim_violation("died", "the program ended with status %x: %s", st, esc(sim_stderr_of(app, NULL), strlen(sim_stderr_of(app, NULL))));
	if (sim_proc_live_blocks(app) != 0) sim_violation("leak", "%d blocks are still allocated", sim_proc_live_blocks(app));
	if (mod >= WRITES && (kind == 1 || kind == 2 || kind == 3)) {
		size_t n; const void *o = kind == 1 ? (const void *) fs_get("/out", &n) : sim_stdout_of(app, &n);
		if (n != want.n || (n && memcmp(o, want.p, n))) sim_violation("output", "%zu bytes arrived, %zu were reported written", n, want.n);
	}
}
void scen_end(void) { if (!finished) sim_violation("stuck", "the program did not end: %s", sim_blocked_report()); }
