#include "nat.h"
// prog/exab: makes exactly the requests asked for, reports each one once and right.
const char *scen_name = "exab";
const char *scen_probes[] = {"all_answered", "some_failed", "all_failed", "concurrent", "more_than_the_queue", "no_content_length", "malformed", "cut", "reset", "too_long_url", "slow", "no_requests", NULL};
const char *scen_rule = "a run = exab with a seeded number of requests and workers against a server that answers, delays, cuts, resets or garbles seeded ones, with failing socket calls, fragmentation and thread preemption; non-trivial: a fault or preemption fired; distinct by the hash of the schedule and history";
#define MAXC 400
static struct { int fd, kind, status, bytes, delay, good, row, sent_all; } S[MAXC];
static int ns, N, C, badurl; static proc_t *app; static char path[200], url[400], nstr[20], cstr[20], want[500];
static int maxopen, badreq, lenmul;
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
enum { OK, OKCLOSE, GARBAGE, CUT, RESET };
static void conn(void *a) {
	int i = (int) (long) a; char b[2000]; size_t n = 0;
	while (n < sizeof b - 1) {
		ssize_t r = sim_recv(S[i].fd, b + n, sizeof b - 1 - n, 0);
		if (r <= 0) { if (!sim_fired(F_SEND_FAIL) && !sim_fired(F_RECV_FAIL) && !sim_fired(F_RESET)) sim_violation("request", "a connection was closed after %zu bytes of the request", n); goto out; }
		n += (size_t) r; b[n] = 0;
		if (n >= strlen(want)) break;
	}
	if (n != strlen(want) || memcmp(b, want, n)) sim_violation("request", "the request is '%s' instead of '%s'", esc(b, n), esc(want, strlen(want)));
	bytes_t r = {0};
	if (S[i].delay) sim_sleep(S[i].delay * MS);
	int len = i * lenmul; // the length tells the responses apart
	if (S[i].kind == GARBAGE) { sim_probe(6); static const char *g[] = {"", "HTTP/1.0", "SSH-2.0-x\r\n", "HTTP/1.1 2x0 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n", "HTTP/1.1 200 OK\r\nNo colon\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 2000\r\n\r\n"}; bytes_str(&r, g[sim_choose(7)]); }
	else {
		bytes_fmt(&r, "HTTP/1.%d %d Some text\r\nServer: ", (int) sim_choose(2), S[i].status);
		char l[40]; snprintf(l, sizeof l, "Content-Length: %d\r\n", len);
		for (size_t k = S[i].kind == OKCLOSE ? strlen("Connection: close\r\n") : strlen(l); k < 40; k++) bytes_str(&r, "x");
		bytes_str(&r, "\r\n");
		if (S[i].kind == OKCLOSE) { sim_probe(5); bytes_str(&r, "Connection: close\r\n"); } else bytes_str(&r, l);
		bytes_str(&r, "\r\n");
		for (int k = 0; k < len; k++) bytes_add(&r, &(u8) {(u8) (32 + (k * 7 + i) % 90)}, 1);
	}
	if (S[i].kind == CUT) { sim_probe(7); r.n = sim_choose((u32) r.n); }
	S[i].bytes = (int) r.n;
	size_t at = 0;
	while (at < r.n) {
		size_t m = 1 + sim_choose(400); if (m > r.n - at) m = r.n - at;
		if (nat_write_all(S[i].fd, r.p + at, m) < 0) break;
		at += m;
		if (sim_flip(1, 6)) sim_sleep(sim_choose(500) * MS);
		if (S[i].kind == RESET && sim_flip(1, 2)) break;
	}
	if (S[i].kind == RESET) { sim_probe(8); sim_count_fault(F_RESET); net_drop_conn(sim_ofd(S[i].fd)); goto out; }
	S[i].sent_all = at == r.n;
	S[i].good = S[i].kind <= OKCLOSE && at == r.n;
	// some servers keep the connection open
	if (S[i].kind == OK && sim_flip(1, 2)) { while (sim_recv(S[i].fd, b, sizeof b, 0) > 0) {} }
out:
	sim_close(S[i].fd);
}
static int opens(void) { int n = sim_proc_openfds(app) - 3; if (n > maxopen) maxopen = n; return n; }
static char *argvv[10];
static void server(void *a) {
	(void) a;
	int l = sim_socket(AF_INET, SOCK_STREAM, 0);
	struct sockaddr_in sa = {.sin_family = AF_INET, .sin_port = htons(8080), .sin_addr.s_addr = htonl(0x7f000001)};
	if (sim_bind(l, (void *) &sa, sizeof sa) || sim_listen(l, 50)) sim_harness_error("server");
	app = sim_app("exab", 6, argvv, NULL);
	for (;;) {
		int fd = sim_accept(l, NULL, NULL);
		if (fd < 0) continue;
		if (ns == MAXC) sim_violation("requests", "more than %d connections for %d requests", MAXC, N);
		if (opens() > C) sim_violation("concurrency", "%d connections at once instead of %d", opens(), C);
		int i = ns++; S[i].fd = fd;
		S[i].kind = sim_flip(badreq, 8) ? (int) sim_choose(5) : (int) sim_choose(2);
		static int st[] = {200, 404, 500, 301}; S[i].status = st[sim_choose(4)];
		S[i].delay = sim_flip(1, 3) ? (int) sim_choose(3000) : 0; if (S[i].delay > 1000) sim_probe(10);
		if (ns > N) sim_violation("requests", "%d connections for %d requests", ns, N);
		sim_task_in(sim_cur_proc(), "conn", conn, (void *) (long) i);
	}
}
void scen_setup(void) {
	static int ns_[] = {1, 5, 20, 60};
	N = 1 + (int) sim_choose(ns_[sim_choose(4)]); if (sim_flip(1, 40)) { N = 0; sim_probe(11); }
	C = 1 + sim_choose_small(8); if (N > 32) sim_probe(4); if (C > 1 && N > 1) sim_probe(3);
	lenmul = 1 + (int) sim_choose(16);
	badreq = sim_flip(1, 2) ? 0 : 1 + (int) sim_choose(8);
	static int pl[] = {1, 10, 97, 98, 99, 100, 150};
	int n = sim_flip(2, 3) ? (int) sim_choose(40) : pl[sim_choose(7)];
	badurl = n > 98;
	if (badurl) sim_probe(9);
	path[0] = '/'; for (int i = 0; i < n; i++) path[1 + i] = (char) ('a' + i % 26);
	path[n + 1] = 0;
	int bare = !badurl && n == 0 && sim_flip(1, 2);
	snprintf(url, sizeof url, "http://127.0.0.1:8080%s", bare ? "" : path);
	if (sim_flip(1, 30)) { static const char *u[] = {"verylongschema://127.0.0.1:8080/", "http:127.0.0.1", "http://127.0.0.1:8080808080/", "http", "https://127.0.0.1:8080/", ""}; strcpy(url, u[sim_choose(6)]); badurl = 2; }
	snprintf(want, sizeof want, "GET %s HTTP/1.0\r\nHost: 127.0.0.1\r\nUser-Agent: exab\r\n\r\n", path);
	snprintf(nstr, sizeof nstr, "%d", N); snprintf(cstr, sizeof cstr, "%d", C);
	int k = 0; argvv[k++] = "exab"; argvv[k++] = "-n"; argvv[k++] = nstr; argvv[k++] = "-c"; argvv[k++] = cstr; argvv[k++] = url;
	sim_task("server", server, NULL);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 1000);
	sim_enable_some(F_FRAGMENT, 1 + sim_choose(6), 1000);
	sim_enable_some(F_DELAY, 2 + sim_choose(8), 60);
	int f = sim_choose(10), ks[] = {F_CONNECT_FAIL, F_RECV_FAIL, F_SEND_FAIL, F_SOCKET_FAIL, F_RESET};
	if (f < 5) sim_enable(ks[f], 2 + sim_choose(f == 1 ? 300 : 10), 1 + sim_choose(20));
	if (f == 5) for (int i = 0; i < 5; i++) sim_enable_some(ks[i], 5 + sim_choose(60), 3);
	sim_enable_some(F_SPURIOUS, 3 + sim_choose(10), 20);
	sim_set_preempt(1 + sim_choose(8));
	if (sim_flip(1, 3)) sim_set_mem_preempt(20 + sim_choose(300));
	sim_set_step_limit(6000000);
	sim_detail("requests=%d workers=%d fault=%d bad=%d", N, C, f, badreq);
	(void) k;
}
void scen_end(void) {
	int st, fails = 0;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "exab does not end: %s", sim_blocked_report());
	size_t on, en; const char *o = sim_stdout_of(app, &on); const char *e = sim_stderr_of(app, &en);
	int faults = sim_fired(F_CONNECT_FAIL) + sim_fired(F_RECV_FAIL) + sim_fired(F_SEND_FAIL) + sim_fired(F_SOCKET_FAIL) + sim_fired(F_RESET) > 0;
	if (st & 0x7f) sim_violation("crash", "exab died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	if (badurl) {
		if (st == 0) sim_violation("url", "exab accepted '%s'", url);
		if (!en) sim_violation("silent", "exab failed without a message");
		if (ns) sim_violation("url", "exab made requests with '%s'", url);
		return;
	}
	static const char head[] = "#\tstatus\tconnecting_ms\tsending_ms\treceiving_ms\ttotaltime_ms\tsent_bytes\treceived_bytes\n";
	if (on < strlen(head) || memcmp(o, head, strlen(head))) sim_violation("rows", "the header is missing: '%s'", esc(o, on > 80 ? 80 : on));
	size_t at = strlen(head); int rows = 0; static int odd[600]; int last[64]; memset(last, -1, sizeof last);
	while (at < on) {
		const char *x = memchr(o + at, '\n', on - at);
		if (!x) sim_violation("rows", "the last row is incomplete");
		char b[300]; size_t len = (size_t) (x - (o + at)); if (len > 290) len = 290; memcpy(b, o + at, len); b[len] = 0; at = (size_t) (x - o) + 1;
		int w, num, status; long ct, wt, rt, tt; int sent, recv, end = 0;
		if (sscanf(b, "%d/%d\t%d\t%ld\t%ld\t%ld\t%ld\t%d\t%d%n", &w, &num, &status, &ct, &wt, &rt, &tt, &sent, &recv, &end) != 9 || (size_t) end != len) sim_violation("rows", "not a row: '%s'", esc(b, len));
		rows++;
		if (w < 0 || w >= C || num <= last[w] || num >= N) sim_violation("rows", "row '%s': worker %d of %d, request %d after %d", esc(b, len), w, C, num, w >= 0 && w < 64 ? last[w] : -1);
		last[w] = num;
		if (sent != (int) strlen(want)) sim_violation("rows", "row '%s': %zu bytes were sent", esc(b, len), strlen(want));
		if (ct < 0 || wt < 0 || rt < 0 || ct + wt + rt != tt) sim_violation("times", "row '%s': the times do not add up", esc(b, len));
		if (tt > (long) (sim_now() / MS) + 1) sim_violation("times", "row '%s': the whole run took %llu ms", esc(b, len), (unsigned long long) (sim_now() / MS));
		int i; for (i = 0; i < ns; i++) if (!S[i].row && S[i].kind != GARBAGE && S[i].kind != CUT && S[i].status == status && S[i].bytes == recv) break;
		// a response without a length that is cut by a failure cannot be told from a short one
		if (i == ns) { if (!faults) sim_violation("rows", "row '%s' is not that of any response", esc(b, len)); if (status > 0 && status < 600) odd[status]++; continue; }
		S[i].row = 1;
		if (!faults && tt + 2 < S[i].delay) sim_violation("times", "row '%s': response %d (kind %d, %d bytes) came after %d ms", esc(b, len), i, S[i].kind, S[i].bytes, S[i].delay);
	}
	for (int i = 0; i < ns; i++) if (!S[i].row && S[i].kind == OKCLOSE && odd[S[i].status]) odd[S[i].status]--;
	for (int i = 0; i < 600; i++) if (odd[i]) sim_violation("rows", "%d rows with status %d are not those of any response", odd[i], i);
	fails = N - rows;
	int good = 0, plain = 0; for (int i = 0; i < ns; i++) { if (S[i].good) good++; if (S[i].kind <= OKCLOSE) plain++; }
	if (rows > N) sim_violation("rows", "%d rows for %d requests", rows, N);
	if (!faults && ns != N) sim_violation("requests", "%d requests were made instead of %d", ns, N);
	if (!faults) for (int i = 0; i < ns; i++) if (S[i].good && !S[i].row) sim_violation("rows", "the response with status %d and %d bytes has no row", S[i].status, S[i].bytes);
	if (!faults && plain == N && fails) sim_violation("rows", "%d requests failed although all were answered: %s", fails, esc(e, en > 200 ? 200 : en));
	int lines = 0; for (size_t i = 0; i < en; i++) if (e[i] == '\n') lines++;
	if (lines < fails) sim_violation("silent", "%d requests failed, %d messages", fails, lines);
	if ((st != 0) != (fails != 0)) sim_violation("status", "exab exited with %d, %d requests failed", st >> 8, fails);
	sim_probe(fails == 0 ? 0 : rows ? 1 : 2);
	sim_hash(hash_bytes(rows, o, on > 2000 ? 2000 : on));
}
