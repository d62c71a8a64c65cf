#include "nat.h"
// os/net: byte streams arrive whole and in order, failures are reported and leave nothing open.
const char *scen_name = "net";
const char *scen_probes[] = {"connect_failed", "listen_failed", "accept_failed", "peer_reset", "peer_closed_early", "big_stream", "long_printf", "nonblocking", "bad_addresses", "write_to_closed", NULL};
const char *scen_rule = "a run = one client, server or non-blocking program against seeded peers, fragmentation, delays and failures; non-trivial: a fault or preemption fired; distinct by the hash of the schedule and history";
enum { START = 1, CONNFAIL, CONNECTED, WRITEFAIL, READFAIL, READEND, END, LISTENFAIL, ACCEPTFAIL, WROTE, BADADDR, POS, PONG };
static int pings, mode, n, outlen, inlen, plen; static long args[32];
static int fds0, blocks0, ended, listenfail;
static struct { int connected, connfail, acceptfail, wfail, rfail, rend, wrote; bytes_t in; char addr[64]; } A[20];
// peers
static struct { bytes_t got; int done, reset, early, myport, order, gotend, connected; int sent; char name[64]; } Pz[20];
static int down;
static proc_t *app;
long scen_arg(int i) { return args[i]; }
void scen_note(int what, long a, long b) {
	sim_hash(what * 131 + a * 7 + b);
	switch (what) {
	case START: fds0 = sim_proc_openfds(app); blocks0 = sim_proc_live_blocks(app); break;
	case CONNFAIL: A[a].connfail = 1; sim_probe(0); if (b == 0 && sim_fired(F_CONNECT_FAIL)) sim_violation("errno", "connect failed without setting errno"); break;
	case CONNECTED: A[a].connected = 1; break;
	case WRITEFAIL: A[a].wfail = 1; sim_probe(9); break;
	case WROTE: A[a].wrote = (int) b; break;
	case READFAIL: A[a].rfail = 1; break;
	case READEND: A[a].rend = 1; break;
	case LISTENFAIL: listenfail = 1; sim_probe(1); if (a == 0) sim_violation("error-text", "a failed listen gives no error text"); break;
	case ACCEPTFAIL: A[a].acceptfail = 1; sim_probe(2); break;
	case BADADDR: sim_violation("bad-address", "a bad address (%ld) was accepted by call %ld", a, b);
	case POS: if (a != b) sim_violation("position", "the reader's position is %ld after %ld bytes", b, a); break;
	case PONG: sim_violation("stream", "asked for %ld, got %ld", a, b);
	case END:
		if (sim_proc_openfds(app) != fds0) sim_violation("fd-leak", "%d descriptors are open at the end, %d at the start", sim_proc_openfds(app), fds0);
		if (sim_proc_live_blocks(app) != blocks0) sim_violation("leak", "%d blocks are allocated at the end, %d at the start", sim_proc_live_blocks(app), blocks0);
		ended = 1; break;
	}
}
void scen_bytes(int what, const void *p, size_t k) {
	int i = what % 100;
	if (what >= 200) { snprintf(A[i].addr, 64, "%.*s", (int) k, (const char *) p); return; }
	bytes_add(&A[i].in, p, k);
}
static void peer_talk(int i, int fd) {
	// read everything the app sends: it is known how much, then send and close
	int reset = Pz[i].reset, early = Pz[i].early;
	for (int k = 0; k < pings; k++) {
		u8 c, ans[8]; ssize_t r = sim_recv(fd, &c, 1, 0);
		if (r <= 0) { Pz[i].done = 1; sim_close(fd); return; }
		if (c != 1 + k % 5) sim_violation("stream", "the peer got request %d instead of %d", c, 1 + k % 5);
		memset(ans, c, 8);
		for (int q = 0; q < c; ) { int m = (int) sim_send(fd, ans, 1 + sim_choose(c - q), MSG_NOSIGNAL); if (m <= 0) break; q += m; }
	}
	size_t expect = (plen >= 0 ? strlen(xsprintf("<%d:", i)) + plen + strlen(xsprintf(":Q%%%05d>", plen)) : 0) + outlen;
	static u8 buf[8192];
	while (Pz[i].got.n < expect) {
		if (early && Pz[i].got.n >= expect / 2) break;
		ssize_t r = sim_recv(fd, buf, 1 + sim_choose(sizeof buf), 0);
		if (r <= 0) { Pz[i].gotend = 1; break; }
		bytes_add(&Pz[i].got, buf, r);
	}
	if (early) { sim_probe(4); sim_count_fault(F_PEER_CLOSE); sim_close(fd); Pz[i].done = 1; return; }
	int s = 0;
	while (s < inlen) {
		int k = 1 + sim_choose(inlen - s); if (k > 4096) k = 4096;
		if (reset && s > inlen / 2) break;
		for (int j = 0; j < k; j++) buf[j] = patt(50 + i, s + j);
		u8 c[8192]; memcpy(c, buf, k);
		ssize_t r = sim_send(fd, c, k, MSG_NOSIGNAL);
		if (r <= 0) break;
		s += r;
		if (sim_flip(1, 4)) sim_sleep(sim_choose(1000) * 1000);
	}
	Pz[i].sent = s;
	if (reset) { sim_probe(3); net_drop_conn(sim_ofd(fd)); }
	sim_close(fd);
	Pz[i].done = 1;
}
static void srv(void *arg) {
	(void) arg;
	int l = sim_socket(AF_INET, SOCK_STREAM, 0);
	struct sockaddr_in a = {.sin_family = AF_INET, .sin_port = htons(7000), .sin_addr.s_addr = htonl(0x0a000001)};
	if (sim_bind(l, (void *) &a, sizeof a) || sim_listen(l, 16)) sim_harness_error("server");
	for (int i = 0; ; i++) {
		int fd = sim_accept(l, NULL, NULL);
		if (fd < 0) continue;
		// which of the app's connections this is: the app makes them one after another
		int k = -1;
		for (int j = 0; j < n; j++) if (!A[j].connfail && !Pz[j].connected) { k = j; break; }
		if (k < 0) { sim_close(fd); continue; }
		if (mode == 2) { Pz[k].connected = 1; sim_close(fd); continue; }
		Pz[k].connected = 1;
		peer_talk(k, fd);
	}
}
static int over(void) { int st; return ended || (app && sim_proc_exited(app, &st)); }
static void cli(void *arg) {
	(void) arg;
	for (int i = 0; i < n; i++) {
		int fd = -1, tries = 0;
		// one connection at a time, so that the app's i-th accept is ours unless it failed
		while (1) {
			fd = sim_socket(AF_INET, SOCK_STREAM, 0);
			struct sockaddr_in a = {.sin_family = AF_INET, .sin_port = htons(7000), .sin_addr.s_addr = htonl(0x0a000001)};
			if (sim_connect(fd, (void *) &a, sizeof a) == 0) break;
			sim_close(fd);
			if (++tries > 200 || over()) return;
			sim_sleep(20 * MS);
		}
		// wait for the app to accept or fail
		int j = i;
		int dead = 0;
		while (!over() && j < n && !A[j].connected && !dead) {
			sim_sleep(5 * MS);
			while (j < n && A[j].acceptfail) j++;
			u8 c; if (j < n && !A[j].connected && sim_recv(fd, &c, 1, MSG_DONTWAIT | MSG_PEEK) < 0 && errno != EAGAIN) dead = 1;
		}
		if (j >= n || over()) { sim_close(fd); return; }
		if (dead) { sim_close(fd); i = j - 1; continue; }
		struct sockaddr_in me; socklen_t ml = sizeof me;
		extern int sim_getsockname(int, struct sockaddr *, socklen_t *);
		if (sim_getsockname(fd, (void *) &me, &ml) == 0) snprintf(Pz[j].name, 64, "%s:%u", inet_ntoa(me.sin_addr), ntohs(me.sin_port));
		Pz[j].connected = 1;
		peer_talk(j, fd);
		i = j;
	}
}
void scen_setup(void) {
	mode = sim_choose(12); mode = mode < 6 ? 0 : mode < 10 ? 1 : mode < 11 ? 2 : 3;
	n = 1 + sim_choose(4);
	static int sizes[] = {0, 1, 10, 500, 3000, 70000};
	outlen = sizes[sim_choose(6)]; if (outlen) outlen = 1 + sim_choose(outlen);
	inlen = sizes[sim_choose(6)]; if (inlen) inlen = 1 + sim_choose(inlen);
	plen = sim_flip(1, 2) ? -1 : (int) sim_choose(sim_flip(1, 4) ? 9000 : 300);
	static int chunks[] = {100, 1, 7, 3000, 70000};
	int chunk = chunks[sim_choose(5)];
	if (chunk < 100 && (outlen > 3000 || inlen > 3000)) chunk = 100;
	args[0] = mode; args[1] = n; args[2] = outlen; args[3] = inlen; args[4] = chunk; args[5] = sim_flip(1, 2); args[6] = plen; args[7] = pings = sim_flip(1, 3) ? sim_choose(12) : 0;
	if (outlen > 20000 || inlen > 20000) sim_probe(5);
	if (plen > 2000) sim_probe(6);
	if (mode == 2) sim_probe(7);
	if (mode == 3) sim_probe(8);
	net_host("server", 0x0a000001);
	static u32 caps[] = {65536, 4096, 512};
	net_set_capacity(caps[sim_choose(3)]);
	for (int i = 0; i < n; i++) { if (sim_flip(1, 8)) Pz[i].reset = 1; else if (sim_flip(1, 8)) Pz[i].early = 1; }
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(8), 100);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(8), 100);
	sim_enable_some(F_FRAGMENT, 1 + sim_choose(8), 100);
	sim_enable_some(F_DELAY, 1 + sim_choose(8), 30);
	int f = sim_choose(16);
	if (f == 0) sim_enable_once(F_SOCKET_FAIL, n);
	if (f == 1) sim_enable_once(F_RESOLVE_FAIL, n);
	if (f == 2) sim_enable(F_CONNECT_FAIL, 2, n);
	if (f == 3) sim_enable_once(F_BIND_FAIL, 1);
	if (f == 4) sim_enable_once(F_LISTEN_FAIL, 1);
	if (f == 5) sim_enable_once(F_SOCKOPT_FAIL, 1);
	if (f == 6) sim_enable_once(F_ACCEPT_FAIL, n);
	down = mode != 1 && sim_flip(1, 10);
	sim_detail("mode=%d connections=%d out=%d in=%d printf=%d chunk=%d fault=%d", mode, n, outlen, inlen, plen, chunk, f);
	if (mode == 1) sim_task("peer", cli, NULL); else if (!down) sim_task("peer", srv, NULL);
	app = sim_app("app", 1, (char *[]) {"app", NULL}, NULL);
}
void scen_end(void) {
	int st;
	if (!sim_proc_exited(app, &st)) {
		// a server whose accepts failed may wait for clients that are gone
		if (mode == 1 && sim_fired(F_ACCEPT_FAIL)) return;
		sim_violation("deadlock", "the program waits forever: %s", sim_blocked_report());
	}
	if (st != 0 || !ended) sim_violation("abnormal-exit", "the program ended with status %x: %s", st, esc(sim_stderr_of(app, NULL), strlen(sim_stderr_of(app, NULL))));
	int fail = sim_fired(F_SOCKET_FAIL) + sim_fired(F_RESOLVE_FAIL) + sim_fired(F_CONNECT_FAIL) + sim_fired(F_BIND_FAIL) + sim_fired(F_LISTEN_FAIL) + sim_fired(F_SOCKOPT_FAIL);
	if (mode == 3) return;
	if (mode == 1) {
		if (listenfail != (fail > 0)) sim_violation("listen", "listen %s although %d calls failed under it", listenfail ? "failed" : "succeeded", fail);
		if (listenfail) return;
	}
	int nf = 0;
	for (int i = 0; i < n; i++) {
		if (mode != 1 && A[i].connfail) { nf++; continue; }
		if (mode == 1 && A[i].acceptfail) { nf++; continue; }
		if (mode == 2) continue;
		if (!A[i].connected) sim_violation("lost", "connection %d was never made", i);
		if (mode == 1 ? strcmp(A[i].addr, Pz[i].name) : strcmp(A[i].addr, "server:7000")) sim_violation("address", "connection %d has address '%s'", i, A[i].addr);
		// the stream from the app: printf text, then the data
		bytes_t want = {0};
		if (plen >= 0) { bytes_fmt(&want, "<%d:", i); for (int k = 0; k < plen; k++) bytes_fmt(&want, "%c", 'a' + k % 26); bytes_fmt(&want, ":Q%%%05d>", plen); }
		for (int k = 0; k < outlen; k++) { u8 c = patt(i, k); bytes_add(&want, &c, 1); }
		if (Pz[i].got.n > want.n || memcmp(Pz[i].got.p ? Pz[i].got.p : (u8 *) "", want.p ? want.p : (u8 *) "", Pz[i].got.n)) sim_violation("stream", "connection %d: the peer got different bytes from those written", i);
		int clean = !Pz[i].reset && !Pz[i].early;
		if (clean && Pz[i].got.n != want.n) sim_violation("stream", "connection %d: the peer got %zu bytes of %zu", i, Pz[i].got.n, want.n);
		if (clean && (A[i].wfail || A[i].rfail || !A[i].rend || A[i].wrote != outlen)) sim_violation("status", "connection %d: a healthy exchange reported failure (write %d, read %d, end %d, wrote %d of %d)", i, A[i].wfail, A[i].rfail, A[i].rend, A[i].wrote, outlen);
		if ((long) A[i].in.n > inlen) sim_violation("stream", "connection %d: more bytes read than sent", i);
		for (size_t k = 0; k < A[i].in.n; k++) if (A[i].in.p[k] != patt(50 + i, k)) sim_violation("stream", "connection %d: byte %zu read differs from the one sent", i, k);
		if (clean && (long) A[i].in.n != inlen) sim_violation("stream", "connection %d: %zu bytes read of %d sent", i, A[i].in.n, inlen);
		if (!A[i].rend && !A[i].rfail) sim_violation("lost", "connection %d never ended", i);
	}
	if (mode == 0 || mode == 2) {
		if (down && mode == 0) { if (nf != n) sim_violation("connect", "%d of %d connections were made without a server", n - nf, n); }
		else if (mode == 0 && nf != fail) sim_violation("connect", "%d connects failed, %d calls failed under them", nf, fail);
	}
	if (mode == 1 && nf != (int) sim_fired(F_ACCEPT_FAIL)) sim_violation("accept", "%d accepts failed, %d calls failed under them", nf, (int) sim_fired(F_ACCEPT_FAIL));
}
