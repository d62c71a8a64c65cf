#include "nat.h"
// prog/webserver: every request of a well-behaved client gets its own complete, well-framed answer,
// whatever the other clients do; nothing outside the home directory is sent; nothing leaks.
const char *scen_name = "web";
const char *scen_probes[] = {"pipelined", "garbage_client", "quitter", "staller", "slow_reader", "cgi", "cgi_500", "outside_path", "big_file", "listing", "many_headers", "io_fault_answer", "unreadable", "connection_lost", NULL};
const char *scen_rule = "a run = the real webserver with up to 6 seeded clients (good, pipelining, garbage, quitting, stalling, slow reading), scripts, fragmentation, delays and one class of failing calls; non-trivial: a fault or preemption fired; distinct by the hash of the schedule and history";
#define SECRET "@@SECRET@@"
#define SOURCE "#!/bin/sh @@SOURCE@@"
static char home[64];
static proc_t *app;
static int fds0, blocks0, stall, slow_send, nclients, done_clients, finished;
static int io_fault, net_fault, proc_fault, focus[2] = {-1, -1};
static bytes_t big;
static struct { int port, kind; } C[8];
enum { LIST, FILE_, NF, CGI_OK, CGI_500, CGI_STATUS, CGI_BIN };
typedef struct { const char *path; int kind; const char *file; const char *type; } tmpl_t;
static tmpl_t T[] = {
	{"/a.txt", FILE_, "a.txt", "text/plain"}, {"/index.html", FILE_, "index.html", "text/html"}, {"/", LIST, 0, "text/html"}, {"/empty.css", FILE_, "empty.css", "text/css"},
	{"/big.bin", FILE_, "big.bin", "application/octet-stream"}, {"/sub/page.html", FILE_, "sub/page.html", "text/html"}, {"/sub/deep/x.json", FILE_, "sub/deep/x.json", "application/json"},
	{"/a.txt?x=1&y=2", FILE_, "a.txt", "text/plain"}, {"//a.txt", FILE_, "a.txt", "text/plain"}, {"/./a.txt", FILE_, "a.txt", "text/plain"}, {"/sub/../a.txt", FILE_, "a.txt", "text/plain"},
	{"/link.txt", FILE_, "a.txt", "text/plain"}, {"/noext", FILE_, "noext", "text/plain"}, {"/x.unknownext", FILE_, "x.unknownext", "text/plain"}, {"/four.bin", FILE_, "four.bin", "application/octet-stream"},
	{"/nosuch", NF, 0, 0}, {"/nosuch.html?x", NF, 0, 0}, {"/sub", NF, 0, 0}, {"/sub/", NF, 0, 0}, {"/cgi-bin", NF, 0, 0}, {"/cgi-bin/", NF, 0, 0}, {"/cgi-bin/nosuch", NF, 0, 0}, {"/secret.txt", NF, 0, 0}, {"/a.txt/", NF, 0, 0}, {"/a.txt/x", NF, 0, 0},
	{"/out.txt", NF, 0, 0}, {"/dirlink/s.txt", NF, 0, 0}, {"/../secret/s.txt", NF, 0, 0}, {"/../www-private/p.txt", NF, 0, 0}, {"/sub/../../www-private/p.txt", NF, 0, 0}, {"/../www2/p.txt", NF, 0, 0},
	{"/../../../secret/s.txt", NF, 0, 0}, {"/sub/deep/../../../secret/s.txt", NF, 0, 0}, {"/..", NF, 0, 0}, {"/../", NF, 0, 0}, {"/cgi-bin/../../secret/s.txt", NF, 0, 0}, {"/privlink/p.txt", NF, 0, 0}, {"//../secret/s.txt", NF, 0, 0},
	{"/cgi-bin/../../secret/evil", NF, 0, 0}, {"/../secret/evil", NF, 0, 0}, {"/cgi-bin/evillink", NF, 0, 0},
	{"/../www/a.txt", FILE_, "a.txt", "text/plain"}, {"/cgi-bin/../a.txt", FILE_, "a.txt", "text/plain"}, {"/cgi-binx/tool", FILE_, "cgi-binx/tool", "text/plain"},
	{"/cgi-bin/ok", CGI_OK, "ok", 0}, {"/cgi-bin/ok", CGI_OK, "ok", 0}, {"/sub/../cgi-bin/ok", CGI_OK, "ok", 0}, {"//cgi-bin/ok", CGI_OK, "ok", 0}, {"/runme", CGI_OK, "ok", 0}, {"/cgi-bin/status", CGI_STATUS, "status", 0}, {"/cgi-bin/bin", CGI_BIN, "bin", 0},
	{"/cgi-bin/fail", CGI_500, 0, 0}, {"/cgi-bin/killed", CGI_500, 0, 0}, {"/cgi-bin/bad", CGI_500, 0, 0}, {"/cgi-bin/empty", CGI_500, 0, 0}, {"/cgi-bin/data.txt", CGI_500, 0, 0}, {"/cgi-bin/longhead", CGI_500, 0, 0},
};
#define NT ((int) (sizeof T / sizeof T[0]))
typedef struct { int t; char uri[1100], method[8], version[12], host[64], query[200], path[1100]; int id; } req_t;
static char *hpath(const char *f) { return xsprintf("%s/%s", home, f); }

// ------------------------------------------------------------------ scripts
static const char *envof(char **env, const char *k) {
	size_t n = strlen(k); const char *r = NULL; int seen = 0;
	for (; *env; env++) if (!strncmp(*env, k, n) && (*env)[n] == '=') { r = *env + n + 1; seen++; }
	if (seen != 1) sim_violation("cgi-env", "the script's environment has %d times %s", seen, k);
	return r;
}
static void say(const char *s, size_t n) {
	size_t i = 0;
	while (i < n) {
		size_t k = n - i; if (k > 1 && sim_flip(1, 3)) k = 1 + sim_choose((u32) k);
		if (nat_write_all(1, s + i, k)) return;
		i += k;
		if (i < n && sim_flip(1, 6)) sim_sleep(sim_choose(50) * MS);
	}
}
static size_t filler(int id) { static int sz[] = {0, 10, 4000, 4096, 9000, 30000}; return sz[id % 6]; }
static void ok_body(bytes_t *b, const char *q, const char *script, const char *uri, const char *host, int id) {
	bytes_fmt(b, "q=%s;m=GET;s=%s;u=%s;h=%s;\n", q, script, uri, host);
	for (size_t i = 0; i < filler(id); i++) { u8 c = patt(id, i); bytes_add(b, &c, 1); }
}
static int qid(const char *q) { const char *p = strstr(q, "id="); return p ? atoi(p + 3) : -1; }
static void check_fds(int client) {
	extern int sim_getpeername(int, struct sockaddr *, socklen_t *);
	for (int fd = 3; fd < 128; fd++) {
		int st = sim_tcp_state(fd);
		if (st == 2) sim_violation("cgi-descriptors", "a script has inherited the listening socket");
		if (st < 3) continue;
		struct sockaddr_in a; socklen_t n = sizeof a;
		if (sim_getpeername(fd, (void *) &a, &n) == 0 && client >= 0 && client < 8 && ntohs(a.sin_port) == C[client].port) sim_violation("cgi-descriptors", "a script has inherited the connection of its client");
	}
}
static int cgi(int argc, char **argv, char **env) {
	const char *q = envof(env, "QUERY_STRING"), *m = envof(env, "REQUEST_METHOD"), *s = envof(env, "SCRIPT_NAME"), *u = envof(env, "REQUEST_URI"), *h = envof(env, "HTTP_HOST"), *f = envof(env, "SCRIPT_FILENAME");
	const char *name = strrchr(argv[0], '/') + 1;
	if (argc != 1) sim_violation("cgi-args", "a script got %d arguments", argc);
	if (strcmp(f, argv[0]) || strncmp(f, hpath("cgi-bin/"), strlen(hpath("cgi-bin/")))) sim_violation("contain-script", "the script %s was run as '%s'", f, argv[0]);
	if (strcmp(m, "GET")) sim_violation("cgi-env", "method '%s'", m);
	int id = qid(q);
	check_fds(id / 100);
	char c; if (sim_read(0, &c, 1) != 0) sim_violation("cgi-stdin", "the script's input does not end");
	bytes_t b = {0};
	if (sim_flip(1, 8)) sim_sleep(sim_choose(4) * SEC);
	if (!strcmp(name, "fail")) { say("Content-Type: text/plain\n\nhalf", 29); return 3; }
	if (!strcmp(name, "killed")) { say("Content-Type: text/plain\n\nhalf", 29); sim_kill(sim_getpid(), SIGKILL); return 0; }
	if (!strcmp(name, "bad")) { say("hello world", 11); return 0; }
	if (!strcmp(name, "empty")) return 0;
	if (!strcmp(name, "longhead")) { char x[5000]; memset(x, 'x', 5000); if (id & 1) x[id % 999 + 1] = ':'; say(x, 5000); return 0; }
	if (!strcmp(name, "status")) { say("Status: 404 Gone Away\nX-A: b\n\nno such thing", 43); return 0; }
	if (!strcmp(name, "bin")) { say("Content-Type: image/x\r\nX-B: 1\r\n\r\n\0\1\2\n\n\0\xff", 33 + 7); return 0; }
	if (id & 1) nat_write_all(2, "diagnostics\n", 12);
	bytes_fmt(&b, "Content-Type: text/x-ok\n");
	if (id & 2) bytes_fmt(&b, "Content-Length: 3\n");
	if (id & 4) bytes_fmt(&b, "Status: 200\n");
	bytes_fmt(&b, "\n");
	ok_body(&b, q, s, u, h, id);
	say((char *) b.p, b.n);
	return 0;
}
static int evil(int argc, char **argv, char **env) { (void) argc; (void) env; sim_violation("contain-executed", "the server has run '%s'", argv[0]); }

// ------------------------------------------------------------------ clients
static int conn(int i) {
	for (int k = 0; ; k++) {
		int fd = sim_socket(AF_INET, SOCK_STREAM, 0);
		struct sockaddr_in a = {.sin_family = AF_INET, .sin_port = htons(8000), .sin_addr.s_addr = htonl(0x7f000001)};
		if (sim_connect(fd, (void *) &a, sizeof a) == 0) {
			struct sockaddr_in me; socklen_t ml = sizeof me;
			extern int sim_getsockname(int, struct sockaddr *, socklen_t *);
			sim_getsockname(fd, (void *) &me, &ml);
			C[i].port = ntohs(me.sin_port);
			return fd;
		}
		sim_close(fd);
		if (k > 20) sim_violation("unreachable", "the server does not accept connections: %s", sim_blocked_report());
		sim_sleep(10 * SEC);
	}
}
static int push(int fd, const void *p, size_t n) {
	size_t i = 0;
	u64 dl = sim_now() + 500 * SEC;
	while (i < n) {
		size_t k = n - i; if (k > 1 && sim_flip(1, 4)) k = 1 + sim_choose((u32) k);
		ssize_t r = sim_send(fd, (const u8 *) p + i, k, MSG_NOSIGNAL | MSG_DONTWAIT);
		if (r < 0 && errno == EAGAIN && sim_now() < dl) { sim_sleep(20 * MS); continue; }
		if (r <= 0) return -1;
		i += (size_t) r;
		if (sim_flip(1, 10)) sim_sleep(sim_choose(100) * MS);
	}
	return 0;
}
static void mkreq(req_t *r, int i, int j) {
	memset(r, 0, sizeof *r);
	r->t = focus[0] >= 0 && sim_flip(7, 8) ? focus[sim_choose(2)] : (int) sim_choose(NT);
	r->id = i * 100 + j;
	strcpy(r->method, "GET");
	strcpy(r->version, sim_flip(1, 2) ? "HTTP/1.1" : "HTTP/1.0");
	tmpl_t *t = &T[r->t];
	snprintf(r->path, sizeof r->path, "%s", t->path);
	if (t->kind == FILE_ && sim_flip(1, 20)) { // a long way to say it
		char *p = r->path; *p = 0; while (strlen(r->path) < 900) strcat(p, "/."); strcat(p, t->path);
		if (strchr(r->path, '?')) *strchr(r->path, '?') = 0;
	}
	if (t->kind == LIST && sim_flip(1, 4)) snprintf(r->query, sizeof r->query, "x=%d", j);
	if (t->kind >= CGI_OK) snprintf(r->query, sizeof r->query, "id=%d%s", r->id, sim_flip(1, 3) ? "&long=aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?b" : "");
	snprintf(r->uri, sizeof r->uri, "%s%s%s", r->path, r->query[0] ? "?" : "", r->query);
	if (strchr(r->path, '?')) *strchr(r->path, '?') = 0;
	snprintf(r->host, sizeof r->host, "host-%d", r->id);
}
static void fmtreq(req_t *r, bytes_t *b) {
	bytes_fmt(b, "%s %s %s\r\n", r->method, r->uri, r->version);
	int nh = sim_flip(1, 10) ? 50 + (int) sim_choose(40) : (int) sim_choose(4), at = sim_choose(nh + 1);
	if (nh > 40) sim_probe(10);
	for (int i = 0; i <= nh; i++) {
		if (i == at) bytes_fmt(b, "Host: %s\r\n", r->host);
		else { bytes_fmt(b, "X-H%d: ", i); int n = sim_flip(1, 20) ? 1000 : (int) sim_choose(30); for (int k = 0; k < n; k++) bytes_add(b, "v", 1); bytes_str(b, "\r\n"); }
	}
	bytes_str(b, "\r\n");
}
typedef struct { bytes_t in; size_t pos; int end; } stream_t;
static int fill(int fd, stream_t *s, u64 dl) {
	u8 buf[4096];
	while (1) {
		ssize_t r = sim_recv(fd, buf, sim_flip(1, 4) ? 1 + sim_choose(sizeof buf) : sizeof buf, MSG_DONTWAIT);
		if (r > 0) { bytes_add(&s->in, buf, (size_t) r); return 1; }
		if (r == 0 || errno != EAGAIN) { s->end = 1; return 0; }
		if (sim_now() > dl) return -1;
		sim_sleep(20 * MS);
	}
}
static u64 patience = 400 * SEC;
static int lost_ok(void) { return net_fault && (sim_fired(F_ACCEPT_FAIL) || sim_fired(F_RESET) || sim_fired(F_SEND_FAIL) || sim_fired(F_RECV_FAIL)); }
static int io_ok(void) { return io_fault && (sim_fired(F_OPEN_FAIL) || sim_fired(F_STAT_FAIL) || sim_fired(F_READ_EIO)); }
static int proc_ok(void) { return proc_fault && (sim_fired(F_PIPE_FAIL) || sim_fired(F_FORK_FAIL) || sim_fired(F_EXEC_FAIL) || sim_fired(F_DUP_FAIL)); }
static int outside(const char *p) { return strstr(p, "..") || strstr(p, "link/") || !strcmp(p, "/out.txt") || strstr(p, "evil"); }
// Reads one response and judges it. Returns 0 if the connection has ended legitimately.
static int judge(int fd, stream_t *s, req_t *r) {
	tmpl_t *t = &T[r->t];
	u64 dl = sim_now() + patience;
	size_t h = 0; // end of head
	while (!h) {
		for (size_t i = s->pos; i < s->in.n; i++) {
			if (s->in.p[i] != '\n') continue;
			if (i + 1 < s->in.n && s->in.p[i + 1] == '\n') { h = i + 2; break; }
			if (i + 2 < s->in.n && s->in.p[i + 1] == '\r' && s->in.p[i + 2] == '\n') { h = i + 3; break; }
		}
		if (h) break;
		if (s->end) {
			if (lost_ok()) { sim_probe(13); return 0; }
			if (io_ok() || proc_ok()) return 0;
			sim_violation("no-response", "the connection ended without a response to '%s %s' (got %zu bytes of it)", r->method, r->uri, s->in.n - s->pos);
		}
		if (fill(fd, s, dl) < 0) sim_violation("stuck", "no response to '%s %s' in %llu s: %s", r->method, r->uri, (unsigned long long) (patience / SEC), sim_blocked_report());
	}
	char *head = xsprintf("%.*s", (int) (h - s->pos), (char *) s->in.p + s->pos);
	if (strlen(head) != h - s->pos) sim_violation("head", "a zero byte in the response head to '%s'", r->uri);
	char ver[32] = ""; int status = 0;
	if (sscanf(head, "%31s %d", ver, &status) != 2 || strcmp(ver, r->version)) sim_violation("head", "bad status line in answer to '%s %s': '%s'", r->uri, r->version, esc(head, strlen(head)));
	char ctype[100] = ""; long clen = -1; int ncl = 0, nct = 0;
	for (char *l = strchr(head, '\n'); l && l[1]; l = strchr(l + 1, '\n')) {
		if (!strncasecmp(l + 1, "Content-Length:", 15)) { clen = atol(l + 16); ncl++; }
		if (!strncasecmp(l + 1, "Content-Type:", 13)) { sscanf(l + 14, " %99[^\r\n]", ctype); nct++; }
	}
	if (ncl != 1 || clen < 0) sim_violation("head", "%d content lengths (%ld) in the answer to '%s'", ncl, clen, r->uri);
	s->pos = h;
	while ((long) (s->in.n - s->pos) < clen) {
		if (s->end) {
			if (lost_ok() || (io_ok() && (sim_fired(F_READ_EIO) || sim_fired(F_STAT_FAIL)))) return 0;
			sim_violation("truncated", "'%s': the connection ended after %zu of %ld bytes", r->uri, s->in.n - s->pos, clen);
		}
		if (fill(fd, s, dl) < 0) sim_violation("stuck", "'%s': only %zu of %ld bytes came: %s", r->uri, s->in.n - s->pos, clen, sim_blocked_report());
	}
	u8 *body = s->in.p + s->pos; size_t n = (size_t) clen;
	s->pos += n;
	if (memmem(body, n, SECRET, strlen(SECRET))) sim_violation("contain-disclosure", "'%s' was answered with a file outside the home directory", r->uri);
	if (memmem(body, n, SOURCE, strlen(SOURCE))) sim_violation("contain-source", "'%s' was answered with the text of a script", r->uri);
	if (t->kind == NF && status == 200 && outside(t->path)) sim_violation("contain-outside", "'%s' is outside the home directory and was answered with 200", r->uri);
	sim_hash(status);
	int exp = 200; bytes_t w = {0}; const char *et = t->type;
	switch (t->kind) {
	case LIST: {
		sim_probe(9);
		if (io_ok() && status != 200) { sim_probe(11); return 1; }
		if (status != 200) sim_violation("status", "'/': %d", status);
		char *txt = xsprintf("%.*s", (int) n, (char *) body);
		static const char *names[] = {"a.txt", "index.html", "sub", "cgi-bin", "big.bin", "empty.css", "link.txt", "noext"};
		if (!(io_ok() && sim_fired(F_READ_EIO))) for (int i = 0; i < 8; i++) {
			const char *x = strstr(txt, xsprintf(">%s<", names[i]));
			if (!x || strstr(x + 1, xsprintf(">%s<", names[i]))) sim_violation("listing", "'%s' is listed %s", names[i], x ? "twice" : "not at all");
		}
		if (strstr(txt, ">..<") || strstr(txt, ">.<")) sim_violation("listing", "the listing has dot entries");
		if (strcmp(ctype, "text/html")) sim_violation("type", "'/' has type '%s'", ctype);
		return 1;
	}
	case FILE_: {
		size_t fn; const u8 *fp = fs_get(hpath(t->file), &fn);
		bytes_add(&w, fp, fn);
		if (!strcmp(t->file, "big.bin")) sim_probe(8);
		if (io_ok() && status == 404) { sim_probe(11); return 1; }
		break;
	}
	case NF: exp = 404; if (outside(t->path)) sim_probe(7); if (strstr(r->uri, "secret.txt")) sim_probe(12);
		if (status == 500 && io_ok() && sim_fired(F_STAT_FAIL)) return 1;
		if (status != 404) sim_violation("status", "'%s' was answered with %d instead of 404", r->uri, status);
		return 1;
	case CGI_500: exp = 500; sim_probe(6);
		if ((io_ok() && status == 404)) return 1;
		if (status != 500) sim_violation("status", "the failed script '%s' was answered with %d instead of 500", r->uri, status);
		return 1;
	case CGI_OK: sim_probe(5); ok_body(&w, r->query, r->path, r->uri, r->host, r->id); et = "text/x-ok"; break;
	case CGI_STATUS: sim_probe(5); exp = 404; bytes_str(&w, "no such thing"); if (status == 404 && n == w.n && !strstr(head, "X-A: b")) sim_violation("cgi-header", "a header of the script is missing"); break;
	case CGI_BIN: sim_probe(5); bytes_add(&w, "\0\1\2\n\n\0\xff", 7); et = "image/x"; break;
	}
	if (t->kind >= CGI_OK && ((proc_ok() && status == 500) || (io_ok() && status == 404))) return 1;
	if (t->kind >= CGI_OK && io_ok() && sim_fired(F_STAT_FAIL)) return 1;
	if (status != exp) sim_violation("status", "'%s' was answered with %d instead of %d", r->uri, status, exp);
	if (w.n != n || memcmp(w.p ? w.p : (u8 *) "", body, n)) sim_violation("content", "'%s': %zu bytes, expected %zu; %s", r->uri, n, w.n, esc(body, n < 80 ? n : 80));
	if (et && (nct != 1 || strcmp(ctype, et))) sim_violation("type", "'%s': %d types, '%s' instead of '%s'", r->uri, nct, ctype, et);
	return 1;
}
static void good(int i, int reqs, int slow) {
	int fd = conn(i);
	stream_t s = {0};
	int pipe = sim_flip(1, 3);
	req_t *r = calloc(reqs, sizeof *r);
	if (pipe && reqs > 1) sim_probe(0);
	for (int j = 0; j < reqs; ) {
		int k = pipe ? 1 + (int) sim_choose(reqs - j) : 1;
		bytes_t b = {0};
		for (int q = 0; q < k; q++) {
			mkreq(&r[j + q], i, j + q);
			if (slow) { r[j + q].t = 4; strcpy(r[j + q].uri, "/big.bin"); }
			fmtreq(&r[j + q], &b);
		}
		if (b.n > 3000 && k > 1) { b.n = 0; fmtreq(&r[j], &b); k = 1; } // what is not sent yet must fit the buffers
		if (push(fd, b.p, b.n)) { if (!lost_ok() && !io_ok()) sim_violation("refused", "the server closed a connection with a request on it ('%s')", r[j].uri); s.end = 1; }
		if (slow) { sim_probe(4); sim_sleep(900 * SEC); }
		for (int q = 0; q < k; q++) if (!judge(fd, &s, &r[j + q])) { sim_close(fd); return; }
		if (s.pos != s.in.n) sim_violation("framing", "%zu bytes more than the answers after '%s'", s.in.n - s.pos, r[j + k - 1].uri);
		j += k;
		if (sim_flip(1, 5)) sim_sleep(sim_choose(2000) * MS);
		if (!s.end && sim_recv(fd, (char[1]) {0}, 1, MSG_DONTWAIT | MSG_PEEK) > 0) sim_violation("framing", "more bytes than the answers after '%s'", r[j - 1].uri);
	}
	if (sim_flip(1, 4)) sim_shutdown(fd, SHUT_WR); // half-close: the server must close its side
	else { sim_close(fd); return; }
	u64 dl = sim_now() + patience;
	while (!s.end) if (fill(fd, &s, dl) < 0) sim_violation("not-closed", "the server does not close a connection whose client is gone: %s", sim_blocked_report());
	if (s.pos != s.in.n) sim_violation("framing", "bytes after the last answer");
	sim_close(fd);
}
static void garbage(int i) {
	int fd = conn(i);
	bytes_t b = {0};
	sim_probe(1);
	switch (sim_choose(11)) {
	case 0: bytes_str(&b, "GARBAGE\r\n\r\n"); break;
	case 1: bytes_str(&b, "GET /a.txt\r\n\r\n"); break;
	case 2: bytes_str(&b, "GET /"); for (int k = sim_choose(4000) + 1019; k > 0; k--) bytes_str(&b, "a"); bytes_str(&b, " HTTP/1.0\r\n\r\n"); break;
	case 3: bytes_str(&b, "GETGETGETGETGETGETGETGET / HTTP/1.0\r\n\r\n"); break;
	case 4: bytes_str(&b, "GET / HTTP/1.0\r\n"); for (int k = sim_choose(100) + 101; k > 0; k--) bytes_str(&b, "A: b\r\n"); bytes_str(&b, "\r\n"); break;
	case 5: bytes_str(&b, "GET / HTTP/1.0\r\nA: "); for (int k = sim_choose(6000) + 1024; k > 0; k--) bytes_str(&b, "b"); bytes_str(&b, "\r\n\r\n"); break;
	case 6: bytes_str(&b, "GET / HTTP/1.0\r\n"); for (int k = sim_choose(6000) + 1024; k > 0; k--) bytes_str(&b, "b"); bytes_str(&b, ": 1\r\n\r\n"); break;
	case 7: bytes_str(&b, "GET / HTTP/1.0\r\nNoColon\r\n\r\n"); break;
	case 8: { int n = 1 + sim_choose(3000); for (int k = 0; k < n; k++) { u8 c = sim_flip(1, 2) ? sim_choose(256) : "\r\n :/?.%GET"[sim_choose(11)]; bytes_add(&b, &c, 1); } break; }
	case 9: bytes_str(&b, "GET / HTTP/1.0000000000000000000000\r\n\r\n"); break;
	case 10: { req_t r; mkreq(&r, i, 0); fmtreq(&r, &b); b.n = sim_choose((u32) b.n); break; }
	}
	push(fd, b.p, b.n);
	if (sim_flip(1, 4)) { sim_close(fd); return; }
	sim_shutdown(fd, SHUT_WR);
	stream_t s = {0};
	u64 dl = sim_now() + patience;
	while (!s.end) if (fill(fd, &s, dl) < 0) sim_violation("not-closed", "the server does not close a connection with garbage on it: %s", sim_blocked_report());
	if (memmem(s.in.p ? s.in.p : (u8 *) "", s.in.n, SECRET, strlen(SECRET))) sim_violation("contain-disclosure", "a file outside the home directory was sent");
	sim_close(fd);
}
static void quitter(int i) {
	int fd = conn(i);
	sim_probe(2);
	sim_count_fault(F_PEER_CLOSE);
	bytes_t b = {0}; req_t r;
	int k = 1 + sim_choose(4);
	for (int q = 0; q < k; q++) { mkreq(&r, i, q); if (sim_flip(1, 2)) { r.t = 4; strcpy(r.uri, "/big.bin"); } fmtreq(&r, &b); if (b.n > 3000) break; }
	push(fd, b.p, b.n);
	u8 buf[300];
	for (int q = sim_choose(4); q > 0; q--) if (sim_recv(fd, buf, 1 + sim_choose(sizeof buf), MSG_DONTWAIT) < 0) sim_sleep(sim_choose(200) * MS);
	if (sim_flip(1, 2)) net_drop_conn(sim_ofd(fd));
	sim_close(fd);
}
static void staller(int i) {
	int fd = conn(i);
	sim_probe(3);
	sim_count_fault(F_STALL);
	bytes_t b = {0}; req_t r; mkreq(&r, i, 0); fmtreq(&r, &b);
	size_t n = sim_choose((u32) b.n);
	push(fd, b.p, n);
	sim_sleep(1200 * SEC);
	stream_t s = {0};
	if (sim_flip(1, 2)) { if (!push(fd, b.p + n, b.n - n)) judge(fd, &s, &r); } // it was only slow
	sim_close(fd);
}
static void client(void *a) {
	int i = (int) (long) a;
	sim_sleep(1 * SEC + (focus[0] >= 0 ? sim_choose(50) * MS : sim_choose(300) * 10 * MS));
	switch (C[i].kind) {
	case 0: good(i, 1 + sim_choose(5), 0); break;
	case 1: garbage(i); break;
	case 2: quitter(i); break;
	case 3: staller(i); break;
	case 4: good(i, 1 + sim_choose(2), 1); break;
	}
	done_clients++;
}
static void director(void *a) {
	(void) a;
	sim_sleep(900 * MS);
	fds0 = sim_proc_openfds(app); blocks0 = sim_proc_live_blocks(app);
	if (slow_send) sim_enable(F_SLOW_SEND, slow_send, 40);
	if (stall) sim_enable(F_STALL, stall, 4); // threads that do not run for a while
	while (done_clients < nclients) sim_sleep(500 * MS);
	// faults stop: the server is still as good as new
	for (int k = 0; k < F_NKINDS; k++) if (k != F_SHORT_READ && k != F_SHORT_WRITE && k != F_FRAGMENT) sim_disable(k);
	sim_sleep(100 * SEC);
	io_fault = net_fault = proc_fault = 0;
	patience = 60 * SEC;
	good(7, 3, 0);
	sim_sleep(60 * SEC);
	finished = 1;
	int st;
	if (sim_proc_exited(app, &st)) return;
	if (sim_proc_openfds(app) != fds0) sim_violation("fd-leak", "%d descriptors are open after all clients have gone, %d before", sim_proc_openfds(app), fds0);
	if (sim_threads_live(app) != 1) sim_violation("thread-leak", "%d threads are left after all clients have gone", sim_threads_live(app));
	if (sim_proc_live_blocks(app) != blocks0) sim_violation("leak", "%d blocks are allocated after all clients have gone, %d before", sim_proc_live_blocks(app), blocks0);
	for (int i = 0; i < sim_nprocs(); i++) { proc_t *p = sim_proc_at(i); if (sim_proc_parent(p) == app && !sim_proc_exited(p, &st)) sim_violation("process-leak", "a script is still running"); }
	sim_finish();
}
void scen_setup(void) {
	strcpy(home, sim_flip(1, 2) ? "/srv/www" : "/x/www");
	char *up = strdup(home); *strrchr(up, '/') = 0;
	fs_put(hpath("a.txt"), "contents of a\n", 14);
	fs_put(hpath("index.html"), "<html>index</html>", 18);
	fs_put(hpath("empty.css"), "", 0);
	static int sizes[] = {5000, 4096, 4097, 8192, 70000, 20000};
	int n = sizes[sim_choose(6)];
	for (int i = 0; i < n; i++) { u8 c = patt(3, i); bytes_add(&big, &c, 1); }
	fs_put(hpath("big.bin"), big.p, big.n);
	fs_put(hpath("four.bin"), big.p, 4096);
	fs_put(hpath("sub/page.html"), "<p>page", 7);
	fs_put(hpath("sub/deep/x.json"), "{\"a\":1}", 7);
	fs_put(hpath("noext"), "no extension", 12);
	fs_put(hpath("x.unknownext"), "unknown\0ext", 11);
	fs_put(hpath("cgi-binx/tool"), "just a file", 11); fs_register_prog(hpath("cgi-binx/tool"), evil);
	fs_put(hpath("secret.txt"), SECRET, 10); fs_chmod(hpath("secret.txt"), 0);
	fs_symlink(hpath("link.txt"), "a.txt");
	fs_symlink(hpath("out.txt"), xsprintf("%s/secret/s.txt", up));
	fs_symlink(hpath("dirlink"), "../secret");
	fs_symlink(hpath("privlink"), "../www-private");
	fs_put(xsprintf("%s/secret/s.txt", up), SECRET, 10);
	fs_put("/secret/s.txt", SECRET, 10);
	fs_put(xsprintf("%s/www-private/p.txt", up), SECRET, 10);
	fs_put(xsprintf("%s/www2/p.txt", up), SECRET, 10);
	fs_register_prog(xsprintf("%s/secret/evil", up), evil);
	static const char *scripts[] = {"ok", "status", "bin", "fail", "killed", "bad", "empty", "longhead"};
	for (int i = 0; i < 8; i++) { fs_put(hpath(xsprintf("cgi-bin/%s", scripts[i])), SOURCE, strlen(SOURCE)); fs_register_prog(hpath(xsprintf("cgi-bin/%s", scripts[i])), cgi); }
	fs_symlink(hpath("runme"), "cgi-bin/ok");
	fs_put(hpath("cgi-bin/data.txt"), "not a script", 12);
	fs_symlink(hpath("cgi-bin/evillink"), "../../secret/evil");
	sim_set_step_limit(40000000);
	if (sim_flip(1, 2)) { focus[0] = sim_choose(NT); focus[1] = sim_choose(NT); } // the clients meet in the same code
	nclients = 1 + sim_choose(6);
	static u32 caps[] = {65536, 4096, 8192};
	net_set_capacity(caps[sim_choose(3)]);
	sim_set_pipe_cap(sim_flip(1, 2) ? 65536 : 1024); // a script's diagnostics fit
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(20), 200);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(20), 200);
	sim_enable_some(F_FRAGMENT, 1 + sim_choose(20), 100);
	sim_enable_some(F_DELAY, 1 + sim_choose(20), 20);
	slow_send = sim_flip(1, 2) ? 1 + sim_choose(6) : 0;
	sim_enable_some(F_READDIR_ORDER, 1, 10);
	stall = sim_flip(1, 3) ? 1 + sim_choose(300) : 0;
	if (sim_flip(1, 8)) sim_set_mem_preempt(20 + sim_choose(300));
	int f = sim_choose(14);
	if (f == 0) { net_fault = 1; sim_enable(F_ACCEPT_FAIL, 3, 6); }
	if (f == 1) { net_fault = 1; sim_enable(F_RESET, 20, 4); }
	if (f == 2) { net_fault = 1; sim_enable(F_SEND_FAIL, 10, 4); }
	if (f == 3) { net_fault = 1; sim_enable(F_RECV_FAIL, 200, 4); }
	if (f == 4) { io_fault = 1; sim_enable(F_OPEN_FAIL, 4, 6); }
	if (f == 5) { io_fault = 1; sim_enable(F_STAT_FAIL, 6, 6); }
	if (f == 6) { io_fault = 1; sim_enable(F_READ_EIO, 6, 6); }
	if (f == 7) { proc_fault = 1; sim_enable(F_PIPE_FAIL, 3, 4); }
	if (f == 8) { proc_fault = 1; sim_enable(F_FORK_FAIL, 2, 4); }
	if (f == 9) { proc_fault = 1; sim_enable(F_EXEC_FAIL, 2, 4); }
	if (f == 10) { proc_fault = 1; sim_enable(F_DUP_FAIL, 4, 4); }
	char kinds[16] = "";
	for (int i = 0; i < nclients; i++) {
		int k = sim_choose(10);
		C[i].kind = k < 5 ? 0 : k < 7 ? 1 : k - 5;
		sprintf(kinds + i, "%d", C[i].kind);
	}
	sim_detail("home=%s clients=%s big=%d fault=%d", home, kinds, n, f);
	app = sim_app("webserver", 1, (char *[]) {"webserver", NULL}, NULL);
	sim_proc_cwd(app, home);
	for (int i = 0; i < nclients; i++) sim_task("client", client, (void *) (long) i);
	sim_task("director", director, NULL);
}
void scen_proc_exit(proc_t *p, int status) {
	if (p == app) sim_violation("server-died", "the server ended with status %x: %s", status, esc(sim_stderr_of(app, NULL), strlen(sim_stderr_of(app, NULL))));
}
void scen_end(void) { if (!finished) sim_violation("deadlock", "nothing moves any more: %s", sim_blocked_report()); }
