#include "nat.h"
// protocols/http: messages are read and written exactly, however the bytes arrive; what does not fit or is incomplete is refused.
const char *scen_name = "http";
const char *scen_probes[] = {"pipelined", "at_limit", "over_limit", "many_headers", "truncated", "stream_error", "response_length", "response_close", "body_too_long", "written", "write_failed", "short_writes", "malformed", NULL};
const char *scen_rule = "a run = a sequence of requests read from, a response read from, or a request written to a stream with seeded pieces, ends and errors; non-trivial: a fault fired; distinct by the hash of the schedule and history";
enum { REQ = 1, NOREQ, RES, NORES, WROTE, END, NH };
enum { B_METHOD = 1, B_URI, B_PATH, B_QUERY, B_FILENAME, B_VERSION, B_NAME, B_VALUE, B_BODY, B_LOOKUP };
static long args[16]; static bytes_t S[1000];
typedef struct { char *s; size_t n; } str_t;
typedef struct { str_t method, uri, version; int nh; str_t hn[140], hv[140]; int ok; size_t end; } msg_t;
static msg_t M[6]; static int nm, cur, mode, finished;
static bytes_t in; static proc_t *app;
static int status, how, toolong; static bytes_t body; // response
static int gi, nhdr; static char seen[16];
long scen_arg(int i) { return args[i]; }
size_t scen_str(int id, void *buf, size_t n) { if (n > S[id].n) n = S[id].n; if (n) memcpy(buf, S[id].p, n); return n; }
static str_t word(size_t n, const char *stop) {
	str_t r = {malloc(n + 1), n};
	static const char base[] = "abcXYZ019-_/.?&=%#~:;, \"\xff\x80\xe9\t\n{}";
	for (size_t i = 0; i < n; i++) { do r.s[i] = base[sim_choose(sizeof base - 1)]; while (strchr(stop, r.s[i])); }
	r.s[n] = 0;
	return r;
}
// a length: mostly short, sometimes right around the limit
static size_t len(size_t max, int *ok) {
	if (sim_flip(1, 24)) { sim_probe(1); return max - sim_choose(2); }
	if (sim_flip(1, 60)) { sim_probe(2); *ok = 0; return max + 1 + sim_choose(sim_flip(1, 2) ? 2 : 1500); }
	return sim_choose_small(max > 40 ? 40 : (u32) max);
}
static size_t len1(size_t max, int *ok) { size_t n = len(max, ok); return n ? n : 1; }
static void put(str_t s) { bytes_add(&in, s.s, s.n); }
static void headers(msg_t *m, int fixed) {
	int nh = sim_flip(1, 12) ? 96 + (int) sim_choose(10) : (int) sim_choose(5);
	if (nh > 90) sim_probe(3);
	m->nh = 0;
	for (int i = 0; i < nh; i++) {
		int one = 1, k = m->nh;
		m->hn[k] = word(len1(1023, &one), ":\r\n"); m->hv[k] = word(len(1023, &one), "\r\n");
		if (m->nh + fixed >= 100) one = 0;
		if (!one) m->ok = 0;
		put(m->hn[k]); bytes_str(&in, ": "); put(m->hv[k]); bytes_str(&in, "\r\n");
		m->nh++;
	}
}
static void gen_requests(void) {
	nm = 1 + sim_choose(4);
	if (nm > 1) sim_probe(0);
	for (int i = 0; i < nm; i++) {
		msg_t *m = &M[i]; m->ok = 1;
		m->method = word(len1(9, &m->ok), " "); m->uri = word(len1(1023, &m->ok), " "); m->version = word(len1(9, &m->ok), "\r");
		if (sim_flip(1, 2)) m->uri.s[0] = '/';
		put(m->method); bytes_str(&in, " "); put(m->uri); bytes_str(&in, " "); put(m->version); bytes_str(&in, "\r\n");
		headers(m, 0);
		if (i == nm - 1 && sim_flip(1, 30)) { m->ok = 0; sim_probe(12); bytes_str(&in, "NoColonHere\r\n\r\n"); }
		else bytes_str(&in, "\r\n");
		m->end = in.n;
	}
}
static void gen_response(void) {
	msg_t *m = &M[0]; m->ok = 1; nm = 1;
	m->version = word(8, ""); strcpy(m->version.s, sim_flip(1, 2) ? "HTTP/1.1" : "HTTP/1.0");
	status = 100 + sim_choose(500);
	int bad = sim_flip(1, 20) ? 1 + sim_choose(3) : 0;
	if (bad) { m->ok = 0; sim_probe(12); }
	bytes_fmt(&in, bad == 1 ? "HTTP/2.0 %d %s\r\n" : bad == 2 ? "HTTP/1.1%d %s\r\n" : bad == 3 ? "HTTP/1.1 x%d %s\r\n" : "%3$s %1$d %2$s\r\n", status, sim_flip(1, 2) ? "OK" : "Some Longer Reason", m->version.s);
	how = sim_choose(4); // 0,1 length, 2 close, 3 neither
	headers(m, how < 3);
	size_t n = sim_flip(1, 4) ? 996 + sim_choose(8) : sim_flip(1, 20) ? 1000 + sim_choose(3000) : sim_choose_small(990);
	for (size_t i = 0; i < n; i++) { u8 c = sim_flip(1, 30) ? sim_choose(256) : patt(5, i); bytes_add(&body, &c, 1); }
	if (how < 2) { bytes_fmt(&in, "Content-Length: %zu\r\n", n); m->nh++; m->hn[m->nh - 1] = word(14, ""); strcpy(m->hn[m->nh - 1].s, "Content-Length"); m->hv[m->nh - 1].s = xsprintf("%zu", n); m->hv[m->nh - 1].n = strlen(m->hv[m->nh - 1].s); sim_probe(6); }
	if (how == 2) { bytes_str(&in, "Connection: close\r\n"); m->nh++; m->hn[m->nh - 1].s = "Connection"; m->hn[m->nh - 1].n = 10; m->hv[m->nh - 1].s = "close"; m->hv[m->nh - 1].n = 5; sim_probe(7); }
	if (how == 3) m->ok = 0;
	if (n > 999) { toolong = 1; sim_probe(8); }
	if (m->nh > 100) m->ok = 0;
	bytes_str(&in, "\r\n");
	m->end = in.n; // end of the head
	bytes_add(&in, body.p, body.n);
	if (how < 2 && sim_flip(1, 3)) bytes_str(&in, "HTTP/1.1 200 OK\r\n"); // the next response
}
static bytes_t expect_out;
static void gen_send(void) {
	int dummy = 1;
	static const char *ms[] = {"", "GET", "POST", "HEAD"};
	args[3] = 1 + sim_choose(3);
	bytes_t *e = &expect_out;
	size_t l = len1(1023, &dummy); if (l > 1023) l = 1023;
	str_t u = word(l, " "); bytes_add(&S[0], u.s, u.n);
	bytes_fmt(e, "%s ", ms[args[3]]); bytes_add(e, u.s, u.n);
	args[1] = sim_flip(1, 8) ? 95 + sim_choose(6) : sim_choose(4);
	for (int i = 0; i < args[1]; i++) {
		size_t a = len1(1023, &dummy), b = sim_flip(1, 8) ? 300 + sim_choose(725) : len(1024, &dummy); if (a > 1023) a = 1023; if (b > 1024) b = 1024;
		str_t n = word(a, " "), v = word(b, "");
		if (sim_flip(1, 4)) for (size_t k = 0; k < b; k++) v.s[k] = (char) sim_choose(256);
		bytes_add(&S[100 + i], n.s, n.n); bytes_add(&S[300 + i], v.s, v.n);
		bytes_str(e, i ? "&" : "?"); bytes_add(e, n.s, n.n); bytes_str(e, "=");
		for (size_t k = 0; k < b; k++) { u8 c = v.s[k]; if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) bytes_add(e, &c, 1); else bytes_fmt(e, "%%%02X", c); }
	}
	bytes_str(e, " HTTP/1.0\r\n");
	args[2] = sim_flip(1, 8) ? 95 + sim_choose(6) : sim_choose(4);
	for (int i = 0; i < args[2]; i++) {
		size_t a = len1(1023, &dummy), b = len(1023, &dummy); if (a > 1023) a = 1023; if (b > 1023) b = 1023;
		str_t n = word(a, ":\r\n"), v = word(b, "\r\n");
		bytes_add(&S[500 + i], n.s, n.n); bytes_add(&S[700 + i], v.s, v.n);
		bytes_add(e, n.s, n.n); bytes_str(e, ": "); bytes_add(e, v.s, v.n); bytes_str(e, "\r\n");
	}
	bytes_str(e, "\r\n");
}
static void same(const char *what, str_t want, const void *p, size_t n) {
	if (want.n != n || memcmp(want.s, p, n)) sim_violation("field", "message %d: %s is '%s' (%zu bytes), not '%s' (%zu bytes)", cur, what, esc(p, n > 60 ? 60 : n), n, esc(want.s, want.n > 60 ? 60 : want.n), want.n);
}
static str_t part(const char *s, size_t n) { return (str_t) {(char *) s, n}; }
void scen_bytes(int what, const void *p, size_t n) {
	if (cur >= nm) sim_violation("phantom", "a message was read that was not sent");
	msg_t *m = &M[cur]; seen[what] = 1;
	const char *q = m->uri.s ? strchr(m->uri.s, '?') : NULL;
	switch (what) {
	case B_METHOD: same("method", m->method, p, n); break;
	case B_URI: same("uri", m->uri, p, n); break;
	case B_PATH: same("path", part(m->uri.s, q ? (size_t) (q - m->uri.s) : m->uri.n), p, n); break;
	case B_QUERY: same("query", q ? part(q + 1, m->uri.n - (size_t) (q + 1 - m->uri.s)) : part("", 0), p, n); break;
	case B_FILENAME: {
		size_t pl = q ? (size_t) (q - m->uri.s) : m->uri.n, k = pl;
		while (k > 0 && m->uri.s[k - 1] != '/') k--;
		same("filename", k ? part(m->uri.s + k, pl - k) : part("", 0), p, n); break;
	}
	case B_VERSION: same("version", m->version, p, n); break;
	case B_NAME: if (gi >= m->nh) sim_violation("field", "message %d has more than %d headers", cur, m->nh); same("header name", m->hn[gi], p, n); break;
	case B_VALUE: same("header value", m->hv[gi], p, n); gi++; break;
	case B_LOOKUP: { int k = 0; while (m->hn[k].n != m->hn[gi - 1].n || memcmp(m->hn[k].s, m->hn[gi - 1].s, m->hn[k].n)) k++; same("looked up header", m->hv[k], p, n); break; }
	case B_BODY: {
		size_t want = body.n;
		if (how == 2) { size_t got = sim_stream_pos(0) - m->end; if (sim_stream_bad(0) == 0 && got != body.n) sim_violation("body", "only %zu of %zu bytes were read", got, body.n); want = got; }
		if (want > 999) break;
		if (memcmp(p, body.p ? body.p : (u8 *) "", want) || ((u8 *) p)[want]) sim_violation("body", "the body is not the %zu bytes sent", want);
		break;
	}
	}
}
void scen_note(int what, long a, long b) {
	msg_t *m = &M[cur < nm ? cur : 0];
	int bad = sim_stream_bad(0);
	if (bad) sim_probe(bad == 1 ? 5 : 4);
	switch (what) {
	case NH: nhdr = (int) a; break;
	case REQ:
		if (cur >= nm) sim_violation("phantom", "a request was read that was not sent");
		if (!m->ok) sim_violation("accepted", "request %d is malformed or over the limits, but was accepted", cur);
		if (sim_stream_pos(0) != m->end) sim_violation("position", "request %d was read with %zu bytes instead of %zu", cur, sim_stream_pos(0), m->end);
		if (nhdr != m->nh || gi != m->nh) sim_violation("field", "request %d has %d headers, %d were read", cur, m->nh, nhdr);
		for (int k = B_METHOD; k <= B_VERSION; k++) if (!seen[k]) sim_harness_error("field %d missing", k);
		gi = 0; cur++; sim_hash(cur);
		break;
	case NOREQ:
		if (cur < nm && m->ok && !bad) sim_violation("refused", "request %d (%zu bytes, %d headers) was refused", cur, m->end, m->nh);
		break;
	case RES:
		if (!m->ok || (toolong && (how < 2 || !bad || sim_stream_pos(0) - m->end > 999))) sim_violation("accepted", "a malformed or oversized response was accepted");
		if (a != status) sim_violation("field", "status %ld instead of %d", a, status);
		if (how < 2 && b != (long) body.n) sim_violation("field", "content length %ld instead of %zu", b, body.n);
		if (nhdr != m->nh || gi != m->nh) sim_violation("field", "the response has %d headers, %d were read", m->nh, nhdr);
		if (how < 2 && sim_stream_pos(0) != m->end + body.n) sim_violation("position", "a response of %zu bytes was read as %zu", m->end + body.n, sim_stream_pos(0));
		break;
	case NORES:
		if (m->ok && !toolong && !bad) sim_violation("refused", "a good response (%d headers, body %zu) was refused", m->nh, body.n);
		break;
	case WROTE: {
		const bytes_t *o = sim_stream_data(1);
		int wbad = sim_stream_bad(1);
		if (wbad) sim_probe(10); else sim_probe(9);
		if (sim_fired(F_SHORT_WRITE)) sim_probe(11);
		if (o->n > expect_out.n || memcmp(o->p ? o->p : (u8 *) "", expect_out.p, o->n)) sim_violation("output", "the written request differs from what was asked for");
		if (a >= 0 && (wbad || o->n != expect_out.n)) sim_violation("output", "success was reported with %zu of %zu bytes written", o->n, expect_out.n);
		if (a < 0 && !wbad) sim_violation("refused", "writing failed although the stream took everything");
		if (a >= 0 && a != (long) o->n) sim_violation("output", "%zu bytes written, %ld reported", o->n, a);
		if (b != (long) o->n) sim_violation("output", "the writer counts %ld of %zu bytes", b, o->n);
		break;
	}
	case END: finished = 1; break;
	}
}
void scen_setup(void) {
	mode = sim_choose(3); args[0] = mode;
	if (mode == 0) gen_requests();
	if (mode == 1) gen_response();
	if (mode == 2) gen_send();
	sim_stream(0, in.p, in.n, sim_flip(1, 2) ? 0 : -1);
	sim_hash(hash_bytes(2, expect_out.p, expect_out.n));
	sim_stream_cap(1, mode == 2 && sim_flip(1, 4) ? (long) sim_choose((u32) expect_out.n) : -1);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(20), 3000);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(3), 3000);
	int f = sim_choose(6);
	if (f == 0) sim_enable_once(F_STREAM_ERR, mode == 2 ? 3 : (u32) in.n + 1);
	if (f == 1 && mode != 2) sim_enable_once(F_STREAM_EOF, (u32) in.n + 1);
	sim_set_step_limit(2000000);
	sim_detail("mode=%d messages=%d input=%zu output=%zu fault=%d", mode, nm, in.n, expect_out.n, f);
	app = sim_app("http", 1, (char *[]) {"http", NULL}, NULL);
}
void scen_proc_exit(proc_t *p, int st) {
	if (p != app) return;
	if (st) sim_violation("died", "the program ended with status %x: %s", st, esc(sim_stderr_of(app, NULL), strlen(sim_stderr_of(app, NULL))));
	if (sim_proc_live_blocks(app) != 0) sim_violation("leak", "%d blocks are still allocated", sim_proc_live_blocks(app));
}
void scen_end(void) { if (!finished) sim_violation("stuck", "the program did not end: %s", sim_blocked_report()); }
