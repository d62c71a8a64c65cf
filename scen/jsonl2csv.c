#include "nat.h"
const char *scen_name = "jsonl2csv";
const char *scen_probes[] = {"escapes", "missing_key", "nested", "long_line", "junk_line", "too_many_columns", "no_objects", "permuted_keys", "repeated_key", "no_final_newline", "number", "unicode_escape", NULL};
const char *scen_rule = "a run = generated JSON lines through the program, in seeded pieces, with failing reads and writes; non-trivial: a fault fired or the input came in pieces; distinct by the hash of input, schedule and output";
#include "conv.h"
static bytes_t key[200]; static int cols, simple;
static void spaces(void) { if (sim_flip(1, 6)) bytes_str(&in, sim_flip(1, 2) ? " " : "\t  "); }
static void put_str(const bytes_t *v) {
	ch(&in, '"');
	for (size_t i = 0; i < v->n; i++) {
		int c = v->p[i];
		static const struct { const char *u, *e; } U[] = {{"\xe2\x82\xac", "\\u20AC"}, {"\xc3\xa9", "\\u00e9"}, {"\xf0\x9f\x98\x80", "\\ud83d\\uDE00"}, {"\xef\xbf\xbf", "\\uffff"}, {"\xdf\xbf", "\\u07ff"}, {"\xe0\xa0\x80", "\\u0800"}, {"\x1f", "\\u001f"}, {"\x7f", "\\u007F"}};
		int esc_ = 0;
		for (int k = 0; k < 8; k++) if (i + strlen(U[k].u) <= v->n && !memcmp(v->p + i, U[k].u, strlen(U[k].u)) && (c < 32 || sim_flip(2, 3))) { bytes_str(&in, U[k].e); i += strlen(U[k].u) - 1; esc_ = 1; sim_probe(11); break; }
		if (esc_) continue;
		const char *from = "\n\t\r\b\f\"\\", *to = "ntrbf\"\\", *x = strchr(from, c);
		if (x) { sim_probe(0); ch(&in, '\\'); ch(&in, to[x - from]); } else if (c == '/' && sim_flip(1, 2)) bytes_str(&in, "\\/"); else ch(&in, c);
	}
	ch(&in, '"');
}
static void some_text(bytes_t *v, u32 n) { if (n > 3 && sim_flip(1, 4)) { static const char *u[] = {"\xe2\x82\xac", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xef\xbf\xbf", "\xdf\xbf", "\xe0\xa0\x80", "\x1f", "\x7f"}; bytes_str(v, u[sim_choose(8)]); n -= 3; } text(v, n, sim_flip(1, 2) ? "\n\t\r\"\\/,:{}[]" : "\b\f\",'"); }
// writes a value to the input and its column text to v
static void put_val(bytes_t *v, int depth) {
	spaces();
	switch (sim_choose(depth > 2 || simple ? 5 : 8)) {
	case 0: bytes_str(&in, "true"); bytes_str(v, "true"); break;
	case 1: bytes_str(&in, "false"); bytes_str(v, "false"); break;
	case 2: bytes_str(&in, "null"); if (depth) bytes_str(v, "null"); break;
	case 3: {
		sim_probe(10);
		static const char *n[] = {"0", "1", "-7", "123456789", "1.5", "-0.25", "1000000000000", "3.125", "9007199254740991", "0.5", "0.1", "1.23456789", "0.30000000000000004", "1e-7", "2.5E+3", "-1.5e-300", "1e22"}, *o[] = {"0", "1", "-7", "123456789", "1.5", "-0.25", "1000000000000", "3.125", "9007199254740991", "0.5", "0.1", "1.23456789", "0.30000000000000004", "1e-07", "2500", "-1.5e-300", "10000000000000000000000"};
		if (sim_flip(1, 12)) { static const char *big[] = {"1e300", "-1e308", "999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999", "1e99", "1e100"}; const char *x = big[sim_choose(5)]; double d = strtod(x, NULL); bytes_str(&in, x); bytes_fmt(v, "%.0f", d); break; }
		int i = sim_choose(17); bytes_str(&in, n[i]); bytes_str(v, o[i]); break;
	}
	case 5: {
		sim_probe(2); int n = sim_choose(4); ch(&in, '['); ch(v, '[');
		for (int i = 0; i < n; i++) { if (i) { ch(&in, ','); ch(v, ','); } put_val(v, depth + 1); spaces(); }
		ch(&in, ']'); ch(v, ']'); break;
	}
	case 6: {
		sim_probe(2); int n = sim_choose(4); ch(&in, '{'); ch(v, '{');
		for (int i = 0; i < n; i++) { if (i) { ch(&in, ','); ch(v, ','); } bytes_t k = {0}; bytes_fmt(&k, "k%d", i); if (sim_flip(1, 4)) bytes_str(&k, "\"\n"); put_str(&k); json_str(v, k.p, k.n, 1); free(k.p); spaces(); ch(&in, ':'); ch(v, ':'); put_val(v, depth + 1); spaces(); }
		ch(&in, '}'); ch(v, '}'); break;
	}
	default: {
		bytes_t s = {0}; some_text(&s, depth ? sim_choose(10) : anylen());
		// no escapes for these inside of formatted values
		if (depth) for (size_t i = 0; i < s.n; i++) if (s.p[i] == '\b' || s.p[i] == '\f') s.p[i] = '.';
		put_str(&s); if (depth) json_str(v, s.p, s.n, 1); else bytes_add(v, s.p, s.n); free(s.p);
	}
	}
	spaces();
}
static void gen(void) {
	int lines = sim_choose(8), seen = 0;
	for (int l = 0; l < lines; l++) {
		size_t start = in.n;
		if (sim_flip(1, 6)) {
			static const char *junk[] = {"not json", "{\"a\":", "{\"a\" 1}", "[1, 2", "\"abc", "", "{a:1}", "}", "{\"a\":1,\"b\":[1,}", "[1, 2]", "17", "\"abc\"", "{\"a\":1} x", "12 monkeys", "{\"a\":\"\\ud83d\"}", "{\"a\":\"\\u12g4\"}", "null"};
			bytes_str(&in, junk[sim_choose(17)]); messages_expected++; sim_probe(4);
		} else {
			int n = 1 + (int) sim_choose(6), own[210], from = 0;
			if (!seen) {
				cols = sim_flip(1, 25) ? 98 + (int) sim_choose(6) : n;
				int alike = sim_flip(1, 4);
				for (int i = 0; i < cols; i++) { if (alike) bytes_str(&key[i], "the first thirty-odd bytes of the key"); bytes_fmt(&key[i], "%d", i); some_text(&key[i], sim_flip(1, 10) ? 70 : sim_choose(8)); own[i] = i; }
				n = cols;
				if (cols > 100) { malformed = 1; want_before_bad = 0; sim_probe(5); }
			} else {
				// a part of the keys, from anywhere on, and one nobody asked for
				n = sim_flip(1, 2) ? cols : (int) sim_choose((u32) cols + 1); from = sim_flip(1, 2) ? 0 : (int) sim_choose((u32) cols); if (from) sim_probe(7); if (n < cols) sim_probe(1);
				for (int i = 0; i < n; i++) own[i] = (from + i) % cols;
				if (n < 200 && sim_flip(1, 4)) own[n++] = -1;
			}
			seen = 1;
			bytes_t val[210]; int has[210] = {0};
			ch(&in, '{');
			for (int i = 0; i < n; i++) {
				if (i) ch(&in, ',');
				int reps = own[i] >= 0 && sim_flip(1, 30) ? 2 : 1;
				for (int r = 0; r < reps; r++) {
					if (r) { ch(&in, ','); sim_probe(8); }
					bytes_t v = {0}; spaces();
					if (own[i] < 0) bytes_str(&in, "\"other\""); else put_str(&key[own[i]]);
					spaces(); ch(&in, ':'); simple = cols > 90; put_val(&v, 0);
					if (own[i] >= 0) { val[own[i]] = v; has[own[i]] = 1; } else free(v.p);
				}
			}
			ch(&in, '}');
			for (int i = 0; i < cols; i++) {
				if (i) ch(&want, ',');
				ch(&want, '"');
				if (has[i]) { for (size_t k = 0; k < val[i].n; k++) { if (val[i].p[k] == '"') ch(&want, '"'); ch(&want, val[i].p[k]); } free(val[i].p); }
				ch(&want, '"');
			}
			ch(&want, '\n');
		}
		// a line that just fills a buffer
		if (sim_flip(1, 5)) { static u32 full[] = {4094, 4095, 4096, 4097, 8190, 8191, 8192}; u32 to = full[sim_choose(7)]; while (in.n - start < to) ch(&in, ' '); }
		if (in.n - start > 4090) sim_probe(3);
		if (l == lines - 1 && in.n > start && sim_flip(1, 3)) sim_probe(9); else bytes_str(&in, sim_flip(1, 4) ? "\r\n" : "\n");
	}
	if (!seen) { malformed = 1; want_before_bad = 0; sim_probe(6); }
}
