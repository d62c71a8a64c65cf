#include "nat.h"
#include <time.h>
#include <ctype.h>
// prog/logfmt: every line of a live log comes out, formatted or as it is, in order and at once.
const char *scen_name = "logfmt";
const char *scen_probes[] = {"plain_line", "looks_like_json", "nested", "long_key", "long_line", "zone", "bad_timestamp", "fraction", "excluded", "many_excluded", "data", "line_in_pieces", "no_final_newline", "unicode_escape", "sink_failed", "input_failed", NULL};
const char *scen_rule = "a run = 1-10 groups of generated log lines pushed to a live stdin, in pieces, with failing reads and writes, in a seeded time zone; non-trivial: a fault fired or a line came in pieces; distinct by the hash of input, schedule and output";
static proc_t *app; static bytes_t want, all, plain; static int ended, sinkfail, badin; static char *argvv[6]; static int argn; static int ex[12]; static int base_blocks = -1;
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
static void ch(bytes_t *b, int c) { u8 x = (u8) c; bytes_add(b, &x, 1); }
// a string in JSON and as it is
static void str(bytes_t *j, bytes_t *v, u32 n) {
	ch(j, '"');
	int sp = sim_flip(1, 3);
	for (u32 i = 0; i < n; i++) {
		if (sp && sim_flip(1, 8)) {
			static const char *e[] = {"\\n", "\\t", "\\\"", "\\\\", "\\/", "\\u00e9", "\\u20AC", "\\ud83d\\ude00", "\\u0041", "\\u001f"}, *o[] = {"\n", "\t", "\"", "\\", "/", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "A", "\x1f"};
			int k = sim_choose(10); if (k > 4) sim_probe(13); bytes_str(j, e[k]); bytes_str(v, o[k]); continue;
		}
		int c = sim_flip(1, 20) ? 0xc0 + (int) (i % 40) : 32 + (int) ((i * 13 + n * 7) % 90); if (c == '"' || c == '\\') c = 'q';
		ch(j, c); ch(v, c);
	}
	ch(j, '"');
}
static u32 len(void) { static u32 l[] = {4, 12, 60, 300}; return sim_flip(1, 40) ? 4000 + sim_choose(5000) : sim_choose(l[sim_choose(4)] + 1); }
static void sp(bytes_t *j) { if (sim_flip(1, 8)) ch(j, ' '); }
// a value as printval shows it
static void val(bytes_t *j, bytes_t *v, int depth) {
	sp(j);
	switch (sim_choose(depth > 2 ? 5 : 7)) {
	case 0: bytes_str(j, "true"); bytes_str(v, "true"); break;
	case 1: bytes_str(j, "false"); bytes_str(v, "false"); break;
	case 2: bytes_str(j, "null"); bytes_str(v, "null"); break;
	case 3: { static const char *n[] = {"0", "-7", "1.5", "0.25", "123456789012", "42"}; const char *x = n[sim_choose(6)]; bytes_str(j, x); bytes_str(v, x); break; }
	case 5: { ch(j, '['); int n = sim_choose(3); bytes_t z = {0}; for (int i = 0; i < n; i++) { if (i) ch(j, ','); val(j, &z, depth + 1); } free(z.p); ch(j, ']'); bytes_str(v, "(array)"); break; }
	case 6: { sim_probe(2); ch(j, '{'); int n = sim_choose(4); for (int i = 0; i < n; i++) { if (i) { ch(j, ','); ch(v, ';'); } bytes_t k = {0}; bytes_fmt(&k, "k%d", i); bytes_fmt(j, "\"%s\":", k.p ? "k" : ""); j->n -= 2; bytes_fmt(j, "%d\":", i); bytes_add(v, k.p, k.n); ch(v, ':'); free(k.p); val(j, v, depth + 1); } ch(j, '}'); break; }
	default: str(j, v, depth ? sim_choose(10) : len());
	}
	sp(j);
}
// a field: objects become path=value lists
static void kv(bytes_t *j, bytes_t *v, const char *path, int depth) {
	if (depth < 4 && sim_flip(1, 4)) {
		sim_probe(2); ch(j, '{'); int n = sim_choose(4);
		for (int i = 0; i < n; i++) {
			char name[200]; snprintf(name, sizeof name, "%s%d", sim_flip(1, 5) ? "a_rather_long_key_that_goes_on_for_sixty_bytes_or_so_and_more" : "k", i);
			if (i) { ch(j, ','); ch(v, ' '); }
			bytes_t p = {0}; bytes_str(&p, path); ch(&p, '.'); bytes_str(&p, name); if (p.n > 100) sim_probe(3); ch(&p, 0);
			bytes_fmt(j, "\"%s\":", name); kv(j, v, (char *) p.p, depth + 1); free(p.p);
		}
		ch(j, '}'); return;
	}
	bytes_t x = {0}; size_t at = j->n; u32 kind = sim_choose(6);
	(void) at; bytes_str(v, path); ch(v, '=');
	switch (kind) { case 0: bytes_str(j, "true"); bytes_str(v, "true"); break; case 1: bytes_str(j, "null"); bytes_str(v, "null"); break; case 2: bytes_str(j, "-12.5"); bytes_str(v, "-12.5"); break; case 3: bytes_str(j, "[1,{\"a\":[]}]"); bytes_str(v, "(array)"); break; default: str(j, v, len()); }
	free(x.p);
}
// a timestamp: JSON and the shown time
static int stamp(bytes_t *j, bytes_t *v) {
	if (sim_flip(1, 8)) { bytes_str(j, "1736000000"); return 0; } // not a string
	if (sim_flip(1, 6)) { sim_probe(6); static const char *bad[] = {"yesterday", "2026-01-16", "2026-01-16T20:01:17", "", "T", "2026-13-01T00:00:00Z", "2026-01-16T20:01Z", "2026-01-16T20:01:17Zulu", "--T::Z", "2026-01-16T20:01:17+2", "99999999999999999999-01-01T00:00:00Z"}; const char *b = bad[sim_choose(11)]; bytes_fmt(j, "\"%s\"", b); bytes_str(v, b); return 1; }
	static long long around[] = {0, 951782400, 1709164800, 1767225600, 4102444800, 1743296400, 1761440400, 1615705200};
	time_t t = (time_t) (around[sim_choose(8)] + (long long) sim_choose(200000) - 100000);
	int off = sim_flip(1, 2) ? 0 : (int) sim_choose(53) * 30 - 12 * 60; if (off) sim_probe(5);
	time_t w = t + off * 60; struct tm g; gmtime_r(&w, &g);
	bytes_fmt(j, "\"%04d-%02d-%02dT%02d:%02d:%02d", g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec);
	int ms = 0;
	if (sim_flip(2, 3)) { int d = 1 + (int) sim_choose(9), unit = 100; sim_probe(7); ch(j, '.'); for (int i = 0; i < d; i++) { int x = (int) sim_choose(10); ch(j, '0' + x); ms += x * unit; unit /= 10; } }
	if (off == 0 && sim_flip(2, 3)) bytes_str(j, "Z\""); else bytes_fmt(j, "%c%02d:%02d\"", off < 0 ? '-' : '+', abs(off) / 60, abs(off) % 60);
	struct tm l; localtime_r(&t, &l);
	bytes_fmt(v, "%02d:%02d:%02d.%03d", l.tm_hour, l.tm_min, l.tm_sec, ms);
	return 1;
}
static void object(bytes_t *j) {
	int first = 1, F[12], n = 0; bytes_t lev = {0}, tm[3] = {{0}, {0}, {0}}, msg[2] = {{0}, {0}}, fields = {0}, data = {0}; int hastm[3] = {0}, hasmsg[2] = {0}, hasdata = 0, haslev = 0;
	// which fields, in which order
	for (int i = 0; i < 12; i++) if (i < 1 ? sim_flip(3, 4) : i < 4 ? sim_flip(1, 2) : i < 6 ? sim_flip(1, 2) : i == 6 ? sim_flip(1, 4) : sim_flip(1, 3)) F[n++] = i;
	for (int i = n - 1; i > 0; i--) { int k = (int) sim_choose((u32) i + 1), x = F[i]; F[i] = F[k]; F[k] = x; }
	ch(j, '{'); sp(j);
	for (int i = 0; i < n; i++) {
		static const char *names[] = {"level", "t", "timestamp", "@timestamp", "msg", "message", "data", "f0", "f1", "pid", "a field", "trace_id"};
		if (!first) ch(j, ',');
		first = 0; sp(j); bytes_fmt(j, "\"%s\"", names[F[i]]); sp(j); ch(j, ':'); sp(j);
		switch (F[i]) {
		case 0: if (sim_flip(1, 8)) bytes_str(j, "30"); else { haslev = 1; static const char *lv[] = {"info", "INFO", "error", "ERROR", "Warning", "debug", ""}; const char *x = lv[sim_choose(7)]; bytes_fmt(j, "\"%s\"", x); for (; *x; x++) ch(&lev, tolower(*x)); } break;
		case 1: case 2: case 3: hastm[F[i] - 1] = stamp(j, &tm[F[i] - 1]); break;
		case 4: case 5: hasmsg[F[i] - 4] = 1; val(j, &msg[F[i] - 4], 0); break;
		case 6: hasdata = 1; sim_probe(10); val(j, &data, 0); break;
		default: { bytes_t v = {0}; kv(j, &v, names[F[i]], 0); if (ex[F[i]]) sim_probe(8); else { ch(&fields, ' '); bytes_add(&fields, v.p, v.n); } free(v.p); }
		}
		sp(j);
	}
	ch(j, '}'); sp(j);
	if (haslev) bytes_add(&want, lev.p, lev.n); else bytes_str(&want, "none");
	ch(&want, ' ');
	for (int i = 0; i < 3; i++) if (hastm[i]) { bytes_add(&want, tm[i].p, tm[i].n); break; }
	ch(&want, ' ');
	for (int i = 0; i < 2; i++) if (hasmsg[i]) { bytes_add(&want, msg[i].p, msg[i].n); break; }
	ch(&want, ' '); bytes_add(&want, fields.p, fields.n);
	if (hasdata) { ch(&want, '\n'); bytes_add(&want, data.p, data.n); }
	ch(&want, '\n');
	free(lev.p); for (int i = 0; i < 3; i++) free(tm[i].p); free(msg[0].p); free(msg[1].p); free(fields.p); free(data.p);
}
static void line(bytes_t *b, int last) {
	if (sim_flip(1, 3)) {
		static const char *junk[] = {"12:30:01 starting", "2026-01-16 20:01:17 INFO up", "{\"a\":1} and more", "[1, 2, 3]", "\"text\"", "true", "null", "{\"a\":", "{\"msg\" 1}", "", "plain text", "-", "{\"msg\":\"\\ud83d\"}", "{\"a\":1}{\"b\":2}", "17", "panic: {\"x\":1}"};
		sim_probe(0); u32 k = sim_choose(16); if (k != 0 && k != 10) sim_probe(1);
		bytes_str(b, junk[k]); if (sim_flip(1, 30)) { sim_probe(4); for (u32 i = 0; i < 9000; i++) ch(b, 'x'); if (junk[k][0] != 'p') { b->n = 0; bytes_str(b, "x"); for (u32 i = 0; i < 4093 + sim_choose(4); i++) ch(b, 'y'); } }
		if (!last) bytes_str(b, sim_flip(1, 6) ? "\r\n" : "\n");
		bytes_add(&want, b->p, b->n);
	} else { object(b); if (b->n > 4000) sim_probe(4); if (!last) bytes_str(b, sim_flip(1, 6) ? "\r\n" : "\n"); }
	if (last) sim_probe(12);
}
static int gone(void) { int st; return sim_proc_exited(app, &st); }
// the output without colours
static void strip(void) {
	size_t n; const char *o = sim_stdout_of(app, &n); plain.n = 0;
	for (size_t i = 0; i < n; i++) {
		if (o[i] == '\033' && i + 1 < n && o[i + 1] == '[') { size_t k = i + 2; while (k < n && isdigit((u8) o[k])) k++; if (k < n && o[k] == 'm') { i = k; continue; } if (k == n) return; }
		if (o[i] == '\033' && i + 1 == n) return; // cut off by a failure
		ch(&plain, o[i]);
	}
}
static void compare(int whole, const char *when) {
	strip();
	size_t i = 0; while (i < plain.n && i < want.n && plain.p[i] == want.p[i]) i++;
	if (i < plain.n && i < want.n) sim_violation("output", "%s, at byte %zu: '%s' instead of '%s'", when, i, esc(plain.p + i, plain.n - i > 60 ? 60 : plain.n - i), esc(want.p + i, want.n - i > 60 ? 60 : want.n - i));
	if (plain.n > want.n) sim_violation("output", "%s: %zu bytes too many: '%s'", when, plain.n - want.n, esc(plain.p + i, plain.n - i > 60 ? 60 : plain.n - i));
	if (whole && plain.n < want.n) sim_violation("lost", "%s: the output ends at byte %zu of %zu, before '%s'", when, plain.n, want.n, esc(want.p + i, want.n - i > 60 ? 60 : want.n - i));
}
static void feeder(void *a) {
	(void) a; int groups = 1 + (int) sim_choose(10);
	for (int g = 0; g < groups && !gone(); g++) {
		int lines = 1 + (int) sim_choose(4);
		for (int l = 0; l < lines; l++) {
			int last = g == groups - 1 && l == lines - 1 && sim_flip(1, 3);
			bytes_t b = {0}; size_t w0 = want.n; line(&b, last);
			if (last && !b.n) { want.n = w0; }
			bytes_add(&all, b.p, b.n);
			if (b.n > 2 && sim_flip(1, 4)) { u32 c = 1 + sim_choose((u32) b.n - 1); sim_set_stdin(app, b.p, c); sim_sleep(sim_choose(3) * 100 * MS); if (gone()) return; sim_set_stdin(app, b.p + c, b.n - c); sim_probe(11); }
			else if (b.n) sim_set_stdin(app, b.p, b.n);
			free(b.p);
			if (last) goto over;
		}
		sim_sleep(2 * SEC);
		if (gone()) return;
		if (sim_stdin_left(app)) sim_violation("stalled", "logfmt does not read its input");
		if (sim_fired(F_ENOSPC)) continue;
		compare(1, "while the log is idle");
		if (base_blocks < 0) base_blocks = sim_proc_live_blocks(app); else if (sim_proc_live_blocks(app) > base_blocks) sim_violation("leak", "%d blocks are allocated, after the first lines it were %d", sim_proc_live_blocks(app), base_blocks);
	}
over:
	ended = 1; sim_stdin_open(app, 0);
}
void scen_setup(void) {
	static const char *zones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "NST3:30NDT,M3.2.0,M11.1.0", "<+14>-14"};
	setenv("TZ", zones[sim_choose(6)], 1); tzset();
	static char list[6000]; list[0] = 0;
	argvv[argn++] = "logfmt";
	if (sim_flip(1, 2)) {
		if (sim_flip(1, 2)) { strcat(list, "pid"); ex[9] = 1; }
		if (sim_flip(1, 2)) { if (list[0]) strcat(list, ","); strcat(list, "a field"); ex[10] = 1; }
		if (sim_flip(1, 6)) { sim_probe(9); for (int i = 0; i < 120; i++) { char z[20]; snprintf(z, sizeof z, "%sq%d", list[0] ? "," : "", i); strcat(list, z); } }
		argvv[argn++] = "-x"; argvv[argn++] = list;
	}
	static u32 bufs[] = {4096, 4096, 1, 16, 512};
	sim_set_iobuf(bufs[sim_choose(5)]);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 1000);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 1000);
	int f = sim_choose(8);
	sim_set_preempt(0); sim_set_step_limit(4000000);
	sim_detail("fault=%d excluded=%s zone=%s", f, list[0] ? "yes" : "no", getenv("TZ"));
	app = sim_app("logfmt", argn, argvv, NULL);
	sim_stdin_open(app, 1);
	if (f == 0) { sinkfail = 1; sim_probe(14); sim_stdio_sink_fail(app, 1, sim_choose(3000)); }
	if (f == 1) { badin = 1; sim_probe(15); sim_stdin_bad(app, sim_choose(2000)); }
	sim_task("feeder", feeder, NULL);
}
void scen_end(void) {
	int st; size_t en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "logfmt does not end: %s", sim_blocked_report());
	const char *e = sim_stderr_of(app, &en);
	if ((st & 0x7f)) sim_violation("crash", "logfmt died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	if (st == 0) {
		if (!ended) sim_violation("status", "exit status 0 before the input ended");
		if (sim_fired(F_READ_EIO)) sim_violation("status", "the input could not be read; exit status 0");
		if (sim_fired(F_ENOSPC)) sim_violation("status", "the output could not be written; exit status 0");
		compare(1, "at the end");
	} else {
		if (!sim_fired(F_READ_EIO) && !sim_fired(F_ENOSPC)) sim_violation("refused", "logfmt ended with %d although nothing failed: %s", st >> 8, esc(e, en > 200 ? 200 : en));
		if (!en) sim_violation("silent", "logfmt failed without a message");
		// a line cut off by the failure is shown as it is
		if (!sim_fired(F_READ_EIO)) compare(0, "after the failure");
	}
	sim_hash(hash_bytes(hash_bytes(1, all.p, all.n), plain.p, plain.n));
}
