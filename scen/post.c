#include "nat.h"
// prog/post: a mail is handed over whole, or the failure is reported.
const char *scen_name = "post";
const char *scen_probes[] = {"accepted", "refused", "multi_line_reply", "long_reply", "cut_reply", "garbage", "closed", "dots", "long_line", "crlf", "no_final_newline", "empty", "bad_input", "line_break_in_arguments", "many_lines", "refused_at_the_end", NULL};
const char *scen_rule = "a run = one mail posted to a server that answers, refuses, splits, garbles or breaks off at a seeded point, with failing socket calls and reads; non-trivial: a fault fired or the server did not accept; distinct by the hash of the mail, the schedule and the history";
static proc_t *app; static bytes_t in, want, got; static char from[300], to[300], subj[300], *argvv[10]; static int inject, accepted, replied, badin, quit_seen, conns; static int plan[6], served = -1, netfault; static size_t badat;
enum { GOOD, MULTI, LONG, REFUSE, GARBAGE, CUT, CLOSE, RESET };
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
static void ch(bytes_t *b, int c) { u8 x = (u8) c; bytes_add(b, &x, 1); }
static bytes_t rx; static int sfd;
// a line of the client without its end; 0 if there is none
static int take(bytes_t *l) {
	for (;;) {
		u8 *e = rx.n ? memmem(rx.p, rx.n, "\r\n", 2) : NULL;
		if (e) { l->n = 0; bytes_add(l, rx.p, (size_t) (e - rx.p)); ch(l, 0); l->n--; size_t k = (size_t) (e - rx.p) + 2; memmove(rx.p, rx.p + k, rx.n - k); rx.n -= k; return 1; }
		u8 b[5000]; ssize_t r = sim_recv(sfd, b, sizeof b, 0);
		if (r <= 0) return 0;
		bytes_add(&rx, b, (size_t) r);
	}
}
static int out(const bytes_t *b) { size_t at = 0; while (at < b->n) { size_t m = sim_flip(1, 3) ? b->n : 1 + sim_choose(20); if (m > b->n - at) m = b->n - at; if (nat_write_all(sfd, b->p + at, m) < 0) return 0; at += m; if (sim_flip(1, 5)) sim_sleep(sim_choose(2000) * MS); } return 1; }
// answers step s; 1 if with the code
static int reply(int s) {
	static const int code[] = {220, 250, 250, 250, 354, 250}; bytes_t b = {0}; int ok = 1;
	switch (plan[s]) {
	case MULTI: sim_probe(2); for (u32 k = 1 + sim_choose(4); k; k--) bytes_fmt(&b, "%d-%s\r\n", code[s], sim_flip(1, 3) ? "550 not an error" : "more"); bytes_fmt(&b, "%d end\r\n", code[s]); break;
	case LONG: sim_probe(3); bytes_fmt(&b, "%d ", code[s]); for (u32 k = 200 + sim_choose(1000); k; k--) ch(&b, 'x'); bytes_str(&b, "\r\n"); break;
	case REFUSE: { sim_probe(1); if (s == 5) sim_probe(15); static const char *r[] = {"550 no\r\n", "421 busy\r\n", "554-no\r\n554 no\r\n", "500 250 ok\r\n", "452 250\r\n"}; bytes_str(&b, r[sim_choose(5)]); ok = 0; break; }
	case GARBAGE: { sim_probe(5); static const char *r[] = {"\r\n", "hello\r\n", "2\r\n", "ok 250\r\n", "HTTP/1.1 250 OK\r\n", "2500 x\r\n", "-250 x\r\n"}; bytes_str(&b, r[sim_choose(7)]); ok = 0; break; }
	case CUT: sim_probe(4); bytes_fmt(&b, "%d it is fi", code[s]); b.n = sim_choose((u32) b.n); out(&b); free(b.p); return -1;
	case CLOSE: sim_probe(6); free(b.p); return -1;
	case RESET: sim_probe(6); sim_count_fault(F_RESET); net_drop_conn(sim_ofd(sfd)); free(b.p); return -1;
	default: bytes_fmt(&b, "%d %s\r\n", code[s], sim_flip(1, 3) ? "OK" : "it is fine"); if (sim_flip(1, 8)) { b.n -= 2; bytes_str(&b, "\n"); }
	}
	if (sim_flip(1, 4)) sim_sleep(sim_choose(20000) * MS);
	served = s;
	if (s == 5) accepted += ok;
	int w = out(&b); free(b.p);
	if (s == 5 && w) replied = ok;
	return w ? ok : -1;
}
static void session(void) {
	bytes_t l = {0}; char c[700]; int r = reply(0);
	const char *w[] = {"", "HELO ", "MAIL FROM:<%s>", "RCPT TO:<%s>", "DATA"};
	for (int s = 1; s <= 4; s++) {
		if (r < 0) return;
		if (!take(&l)) { if (r && !sim_fired(F_SEND_FAIL) && !sim_fired(F_RECV_FAIL) && !sim_fired(F_RESET)) sim_violation("hang-up", "post left after a good reply, before command %d", s); return; }
		if (!r) { if (strcmp((char *) l.p, "QUIT") && strcmp((char *) l.p, "RSET")) sim_violation("protocol", "after a reply that is no consent post goes on with '%s'", esc(l.p, l.n > 100 ? 100 : l.n)); return; }
		snprintf(c, sizeof c, w[s], s == 2 ? from : to);
		if (s == 1 ? strncmp((char *) l.p, c, 5) || l.n < 6 : strcmp((char *) l.p, c) != 0) sim_violation("protocol", "command %d is '%s'", s, esc(l.p, l.n > 100 ? 100 : l.n));
		if (rx.n) sim_violation("protocol", "post does not wait for the reply to command %d", s);
		r = reply(s);
	}
	if (r < 0) return;
	if (r == 0) { if (take(&l) && strcmp((char *) l.p, "QUIT") && strcmp((char *) l.p, "RSET")) sim_violation("protocol", "after DATA was refused post sends '%s'", esc(l.p, l.n > 100 ? 100 : l.n)); return; }
	for (;;) {
		if (sim_flip(1, 60)) sim_sleep(sim_choose(3000) * MS);
		if (!take(&l)) { if (!badin && !sim_fired(F_SEND_FAIL) && !sim_fired(F_RECV_FAIL) && !sim_fired(F_RESET)) sim_violation("hang-up", "post left in the middle of the mail"); return; }
		if (l.n == 1 && l.p[0] == '.') break;
		if (l.n && l.p[0] == '.') { bytes_add(&got, l.p + 1, l.n - 1); } else bytes_add(&got, l.p, l.n);
		bytes_str(&got, "\r\n");
	}
	if (badin) sim_violation("incomplete", "the input could not be read; the mail was sent all the same");
	if (got.n != want.n || memcmp(got.p, want.p, got.n)) { size_t i = 0; while (i < got.n && i < want.n && got.p[i] == want.p[i]) i++; sim_violation("mail", "the mail differs at byte %zu of %zu: '%s' instead of '%s'", i, want.n, esc(got.p + i, got.n - i > 60 ? 60 : got.n - i), esc(want.p + i, want.n - i > 60 ? 60 : want.n - i)); }
	r = reply(5); if (r < 0) return;
	if (take(&l)) {
		if (strcmp((char *) l.p, "QUIT")) sim_violation("protocol", "after the mail: '%s'", esc(l.p, l.n > 100 ? 100 : l.n));
		quit_seen = 1; bytes_t b = {0}; if (sim_flip(1, 8)) bytes_str(&b, "500 never\r\n"); else if (sim_flip(7, 8)) bytes_str(&b, "221 bye\r\n"); out(&b); free(b.p);
	}
	free(l.p);
}
static void server(void *a) {
	(void) a;
	int l = sim_socket(AF_INET, SOCK_STREAM, 0);
	struct sockaddr_in sa = {.sin_family = AF_INET, .sin_port = htons(2525), .sin_addr.s_addr = htonl(0x7f000001)};
	if (sim_bind(l, (void *) &sa, sizeof sa) || sim_listen(l, 50)) sim_harness_error("server");
	app = sim_app("post", 7, argvv, NULL); sim_set_stdin(app, in.p ? in.p : (u8 *) "", in.n);
	if (sim_flip(1, 2)) sim_stdin_frag(app, 1 + sim_choose(50));
	if (badin) sim_stdin_bad(app, badat);
	for (;;) { sfd = sim_accept(l, NULL, NULL); if (sfd < 0) continue; if (++conns > 1) sim_violation("protocol", "a second connection"); session(); sim_close(sfd); }
}
static void word(char *d, size_t max) { static const char *odd[] = {".", "@", "%s", " ", "-", "\xc3\xa9", "\"", "="}; size_t n = 0, k = sim_flip(1, 12) ? 200 : 1 + sim_choose(20); while (n < k && n < max - 4) { if (sim_flip(1, 6)) { const char *o = odd[sim_choose(8)]; strcpy(d + n, o); n += strlen(o); } else d[n++] = (char) ('a' + sim_choose(26)); d[n] = 0; } }
void scen_setup(void) {
	word(from, 250); word(to, 250); word(subj, 250);
	if (from[0] == '-') from[0] = 'f';
	if (to[0] == '-') to[0] = 't';
	if (sim_flip(1, 12)) { sim_probe(13); inject = 1; char *w = sim_flip(1, 3) ? from : sim_flip(1, 2) ? to : subj; static const char *j[] = {"\r\nBcc: x", "\n", ">\r\nRCPT TO:<y", "\r", "\r\n.\r\nMAIL FROM:<z>"}; strcat(w, j[sim_choose(5)]); }
	u32 lines = sim_flip(1, 12) ? 0 : 1 + sim_choose(sim_flip(1, 8) ? 300 : 12); if (!lines) sim_probe(11);
	if (lines > 100) sim_probe(14);
	bytes_fmt(&want, "Subject: %s\r\nFrom: <%s>\r\nTo: <%s>\r\n\r\n", subj, from, to);
	for (u32 i = 0; i < lines; i++) {
		size_t at = in.n;
		if (sim_flip(1, 5)) { sim_probe(7); for (u32 k = 1 + sim_choose(3); k; k--) ch(&in, '.'); if (sim_flip(1, 2)) bytes_str(&in, "text"); }
		else if (sim_flip(1, 20)) { sim_probe(8); u32 k = sim_flip(1, 2) ? 4090 + sim_choose(10) : sim_choose(9000); while (k--) ch(&in, sim_flip(1, 40) ? '.' : 'l'); }
		else for (u32 k = sim_choose(sim_flip(1, 2) ? 4 : 80); k; k--) ch(&in, sim_flip(1, 20) ? 0x80 + (int) sim_choose(128) : 32 + (int) sim_choose(94));
		bytes_add(&want, in.p + at, in.n - at);
		if (i == lines - 1 && sim_flip(1, 3)) { sim_probe(10); if (in.n == at) continue; } else if (sim_flip(1, 4)) { sim_probe(9); bytes_str(&in, "\r\n"); } else ch(&in, '\n');
		bytes_str(&want, "\r\n");
	}
	for (int i = 0; i < 6; i++) plan[i] = sim_flip(1, 5) ? 1 + (int) sim_choose(2) : GOOD;
	int f = sim_choose(8);
	if (f < 3) plan[sim_choose(6)] = REFUSE + (int) sim_choose(5);
	if (f == 3) { int ks[] = {F_CONNECT_FAIL, F_RECV_FAIL, F_SEND_FAIL, F_SOCKET_FAIL, F_RESET}, k = ks[sim_choose(5)]; netfault = 1; sim_enable_once(k, 1 + sim_choose(k == F_RECV_FAIL ? 200 : k == F_SEND_FAIL ? 20 : 2)); }
	if (f == 4 && in.n) { badin = 1; badat = sim_choose((u32) in.n); sim_probe(12); }
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 300); sim_enable_some(F_FRAGMENT, 1 + sim_choose(6), 500); sim_enable_some(F_DELAY, 2 + sim_choose(8), 60);
	sim_set_preempt(0); sim_set_step_limit(3000000);
	int k = 0; argvv[k++] = "post"; argvv[k++] = "-a"; argvv[k++] = "127.0.0.1:2525"; argvv[k++] = "-s"; argvv[k++] = subj; argvv[k++] = from; argvv[k++] = to;
	sim_hash(hash_bytes(hash_bytes(1, in.p, in.n), want.p, want.n));
	sim_detail("bytes=%zu fault=%d plan=%d%d%d%d%d%d injection=%d", in.n, f, plan[0], plan[1], plan[2], plan[3], plan[4], plan[5], inject);
	sim_task("server", server, NULL);
}
void scen_end(void) {
	int st; size_t en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "post does not end: %s", sim_blocked_report());
	const char *e = sim_stderr_of(app, &en);
	if (st & 0x7f) sim_violation("crash", "post died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	int faults = sim_fired(F_CONNECT_FAIL) || sim_fired(F_RECV_FAIL) || sim_fired(F_SEND_FAIL) || sim_fired(F_SOCKET_FAIL) || sim_fired(F_RESET);
	if (accepted) sim_probe(0);
	sim_hash((u64) st * 7 + (u64) (served + 1));
	if (inject) { if (st == 0) sim_violation("injection", "a line break in an argument was accepted"); if (accepted) sim_violation("injection", "a mail was sent"); }
	if (st == 0) {
		if (accepted != 1) sim_violation("status", "the server accepted %d mails; exit status 0", accepted);
		return;
	}
	if (!en) sim_violation("silent", "post failed without a message");
	if (inject || badin || faults) return;
	int good = 1; for (int i = 0; i < 6; i++) if (plan[i] >= REFUSE) good = 0;
	if (good) sim_violation("refused", "the server accepted everything; post failed: %s", esc(e, en > 200 ? 200 : en));
}
