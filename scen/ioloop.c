#include "nat.h"
// prog/torrent/ioloop: every stream gets its events and its bytes, whatever the others do.
const char *scen_name = "ioloop";
const char *scen_probes[] = {"connect_failed_later", "connect_failed_at_once", "peer_reset", "peer_closed_early", "slow_reader", "full", "timer", "overdue_timer", "reconnect_in_exit", "closed_by_program", "write_to_other", "loop_ended", NULL};
const char *scen_rule = "a run = one program on the event loop with seeded incoming and outgoing streams, timers and handler actions against seeded peers, fragmentation, short sends, delays and failures; non-trivial: a fault or preemption fired; distinct by the hash of the schedule and history";
enum { START = 1, EVENT, WROTE, CLOSE, TIMER, FIRED, CONNECT, LOOP, END, CONN };
enum { E_CONNECTED = 1, E_FAILED, E_DATA, E_WF, E_EXIT };
#define NS 4000
#define NP 160
static struct { int conn, peer, events, connected, failed, exited, closed, dirty; u64 closed_at; size_t out; bytes_t in; } S[NS];
static int ns;
enum { PATIENT, EARLY, RESET, SILENT };
static struct { int kind, server, up, stream, total, sent, done, closed, rejected, port, chunk, slow, busy, linger; u64 closed_at; size_t got; u8 head[4]; } P[NP];
static int np, nout, listening, fds0, blocks0, ended, lastfalse, open_now, open_max, many, closed_unbound;
static int budget, wbudget;              // remaining actions and bytes
static struct { int on, secs; u64 set; } T[4];
static int conn_state[NP];               // outgoing: 0 not tried, 1 in call, 2 stream exists, 3 failed at once
static int act, amount, target;
static int cur_stream;
static int started, nosrv[NP], upcall[NP];
static proc_t *app;
static u64 stall_ok;
static int overdue;
static int live(int s) { return s >= 0 && S[s].events && !S[s].exited; }
static void plan(void) {
	act = 0;
	if (budget <= 0) return;
	int r = sim_choose(many ? 6 : 12);
	budget--;
	int others = ns ? (int) sim_choose(ns) : -1;
	int self = cur_stream;
	int t = live(self) && !S[self].closed ? self : -1;
	switch (r) {
	case 0: return;
	case 1: case 2: case 3: case 4: case 5: case 6: case 7:
		if (r == 7 && live(others) && !S[others].closed) { t = others; sim_probe(10); }
		if (t < 0 || wbudget <= 0) return;
		static int sz[] = {1, 4, 100, 5000, 60000};
		amount = 1 + sim_choose(sz[sim_choose(many ? 3 : 5)]);
		if (amount > wbudget) amount = wbudget;
		wbudget -= amount; target = t; act = 1; return;
	case 8:
		if (sim_flip(2, 3)) return;
		if (sim_flip(1, 2) && live(others) && !S[others].closed) t = others;
		if (t < 0) return;
		target = t; act = 2; return;
	case 9: case 10:
		for (int k = 0; k < 4; k++) if (!T[k].on) { target = k; amount = sim_flip(1, 3) ? (int) sim_choose(60) : (int) sim_choose(4); if (overdue && sim_flip(1, 2)) { amount = -1 - (int) sim_choose(3); sim_probe(7); } act = 3; return; }
		return;
	case 11:
		for (int k = 0; k < nout; k++) if (!conn_state[k]) { if (live(self) == 0 && self >= 0) sim_probe(8); target = k; act = 4; return; }
		return;
	}
}
// a server that no connection of the program reached
static int idle(int i) { return P[i].server && !P[i].busy && (conn_state[P[i].port] != 2 || S[P[i].stream].exited); }
static int allover(void) {
	for (int i = 0; i < np; i++) if (!P[i].done && !idle(i)) return 0;
	for (int s = 0; s < ns; s++) if (!S[s].exited) return 0;
	for (int k = 0; k < 4; k++) if (T[k].on) return 0;
	return 1;
}
long scen_arg(int i) {
	switch (i) {
	case 0: plan(); return act;
	case 1: return amount;
	case 2: return target;
	case 9:
		if (!listening) return 0;     // the loop has to end by itself
		if (!allover()) return 0;
		return 1;
	case 10: return listening;
	}
	return 0;
}
size_t scen_str(int id, void *buf, size_t n) {
	u8 *b = buf;
	for (size_t i = 0; i < n; i++) {
		size_t o = S[id].out + i;
		b[i] = o < 4 ? (u8) (id >> (8 * o)) : patt(id + 7, o);
	}
	return n;
}
static void bind_(int s, int p) {
	if (S[s].peer == p) return;
	if (S[s].peer >= 0 || P[p].stream >= 0) sim_violation("mixed-streams", "stream %d is joined to peer %d, but they belong to %d and %d", s, p, S[s].peer, P[p].stream);
	S[s].peer = p; P[p].stream = s;
}
void scen_bytes(int s, const void *p, size_t n) {
	if (s < 0 || s >= ns) sim_harness_error("stream %d", s);
	bytes_add(&S[s].in, p, n);
	if (S[s].in.n >= 4) {
		int k = S[s].in.p[0] | S[s].in.p[1] << 8;
		if (k >= np || S[s].in.p[2] != 0xA5 || S[s].in.p[3] != 0x5A) sim_violation("data", "stream %d: the data handed to the handler begins with %s", s, esc(S[s].in.p, 4));
		bind_(s, k);
		if ((int) S[s].in.n > P[k].sent) sim_violation("data", "stream %d: %zu bytes were handed to the handler, the peer has sent %d", s, S[s].in.n, P[k].sent);
		for (size_t i = S[s].in.n - n; i < S[s].in.n; i++) if (i >= 4 && S[s].in.p[i] != patt(k, i)) sim_violation("data", "stream %d: byte %zu differs from the one the peer sent", s, i);
	}
}
void scen_note(int what, long a, long b) {
	sim_hash(what * 131 + a * 7 + b);
	int s = (int) a;
	switch (what) {
	case START: started = 1; fds0 = sim_proc_openfds(app); blocks0 = sim_proc_live_blocks(app); cur_stream = -1; break;
	case CONN: S[s].conn = (int) b; S[s].peer = -1; ns = s + 1; break;
	case EVENT:
		cur_stream = s;
		if (S[s].exited) sim_violation("event-after-exit", "stream %d gets event %ld after its end", s, b);
		if (!S[s].events && b != E_CONNECTED && !(b == E_FAILED && S[s].conn >= 0)) sim_violation("first-event", "the first event of stream %d is %ld", s, b);
		if (S[s].events && b == E_CONNECTED) sim_violation("first-event", "stream %d is announced twice", s);
		if (S[s].failed && b != E_EXIT) sim_violation("failed-stream", "stream %d gets event %ld after its connection failed", s, b);
		S[s].events++;
		if (b == E_CONNECTED) {
			S[s].connected = 1; if (S[s].conn >= 0) { conn_state[S[s].conn] = 2; for (int i = 0; i < np; i++) if (P[i].server && P[i].port == S[s].conn) bind_(s, i); }
			if (++open_now > open_max) open_max = open_now;
			if (open_now + listening > 100) sim_harness_error("more than 100 streams");
		}
		if (b == E_FAILED) {
			if (S[s].conn < 0) sim_violation("connect-failed", "incoming stream %d is reported as a failed connection", s);
			S[s].failed = 1;
			if (S[s].in.n) sim_violation("connect-failed", "stream %d is reported as not connected after it received data", s);
			if (!S[s].connected) { conn_state[S[s].conn] = 3; sim_probe(1); } else sim_probe(0);
			int up = 0; for (int i = 0; i < np; i++) if (P[i].server && P[i].port == S[s].conn && P[i].kind == PATIENT) up = upcall[S[s].conn];
			if (up && !sim_fired(F_CONNECT_FAIL) && !sim_fired(F_SOCKET_FAIL) && !sim_fired(F_RESOLVE_FAIL) && open_max + listening < 100) sim_violation("connect-failed", "stream %d: the server is up, but the connection is reported as failed", s);
		}
		if (b == E_WF) {
			if (!S[s].dirty) sim_violation("write-finished", "stream %d: nothing was written since the last time everything was sent", s);
			S[s].dirty = 0;
		}
		if (b == E_EXIT) {
			S[s].exited = 1;
			if (S[s].connected) open_now--;
			int p = S[s].peer;
			int ok = S[s].closed || S[s].failed || (p >= 0 && P[p].closed);
			if (p < 0) ok = 1;   // settled from the peer's side
			if (p >= 0 && P[p].server && nosrv[P[p].port] && !S[s].closed && !S[s].failed) sim_violation("connect-failed", "stream %d: nobody listens at the other end, but the failure was not reported", s);
			u64 at = 0; if (S[s].closed) at = S[s].closed_at; if (p >= 0 && P[p].closed && (!at || P[p].closed_at < at)) at = P[p].closed_at;
			if (!stall_ok && at && !S[s].failed && sim_now() - at > 20 * SEC) sim_violation("late-end", "stream %d was kept for %llu s after it had been closed", s, (unsigned long long) ((sim_now() - at) / SEC));
			if (!ok) sim_violation("dropped", "stream %d ended although neither side closed it", s);
		}
		break;
	case WROTE:
		if (b < 0) sim_violation("write-refused", "stream %d takes no data", s);
		S[s].out += b; S[s].dirty = 1; break;
	case CLOSE: if (!S[s].closed) S[s].closed_at = sim_now(); S[s].closed = 1; sim_probe(9); if (S[s].peer < 0) closed_unbound++; break;
	case TIMER: T[s].on = 1; T[s].secs = (int) b; T[s].set = sim_now(); sim_probe(6); break;
	case FIRED: {
		cur_stream = -1;
		if (!T[s].on) sim_violation("timer", "timer %d fired twice", s);
		T[s].on = 0;
		long due = (long) (T[s].set / SEC) + T[s].secs, now = (long) (sim_now() / SEC);
		if (now < due) sim_violation("timer", "timer %d of %d s fired %ld s early", s, T[s].secs, due - now);
		if (!stall_ok && now > due + 3 && now > (long) (T[s].set / SEC) + 3) sim_violation("timer", "timer %d of %d s fired %ld s late", s, T[s].secs, now - due);
		break; }
	case CONNECT:
		if (b == 0) { conn_state[s] = 1; for (int i = 0; i < np; i++) if (P[i].server && P[i].port == s) upcall[s] = P[i].up; break; }
		if (conn_state[s] == 1) sim_violation("lost", "the handler was not told about connection %d", s);
		if (conn_state[s] == 3) { int ok = 0; for (int i = 0; i < ns; i++) if (S[i].conn == s && S[i].exited) ok = 1; if (!ok) sim_violation("exit", "the handler was not told about the end of failed connection %d", s); }
		break;
	case LOOP: cur_stream = -1; break;
	case END:
		lastfalse = (int) a; ended = 1;
		if (a) {
			sim_probe(11);
			if (listening || open_now) sim_violation("loop-ended", "the loop reports that nothing is left, but %d streams are open%s", open_now, listening ? " and it listens" : "");
			for (int k = 0; k < 4; k++) if (T[k].on) sim_violation("loop-ended", "the loop reports that nothing is left, but timer %d is pending", k);
		}
		for (int i = 0; i < ns; i++) if (!S[i].exited) sim_violation("exit", "stream %d never ended", i);
		if (sim_proc_openfds(app) != fds0) sim_violation("fd-leak", "%d descriptors are open at the end, %d at the start", sim_proc_openfds(app), fds0);
		if (sim_proc_live_blocks(app) != blocks0) sim_violation("leak", "%d blocks are allocated at the end, %d at the start", sim_proc_live_blocks(app), blocks0);
		break;
	}
}
// what came from the program
static void gotbytes(int i, const u8 *b, size_t n) {
	for (size_t k = 0; k < n; k++) {
		size_t o = P[i].got++;
		if (o < 4) P[i].head[o] = b[k];
		if (o == 3) {
			int s = P[i].head[0] | P[i].head[1] << 8;
			if (s >= ns || P[i].head[2] || P[i].head[3]) sim_violation("data", "peer %d got a stream that begins with %s", i, esc(P[i].head, 4));
			bind_(s, i);
		}
		if (o >= 4 && b[k] != patt(P[i].stream + 7, o)) sim_violation("data", "peer %d: byte %zu differs from the one written to stream %d", i, o, P[i].stream);
	}
	if (P[i].stream >= 0 && P[i].got > S[P[i].stream].out) sim_violation("data", "peer %d got more bytes than were written to stream %d", i, P[i].stream);
}
// the program ended the stream: was it allowed to?
static void lost(int i, const char *how) {
	int s = P[i].stream;
	P[i].rejected = 1;
	if (s >= 0) { if (!S[s].closed && !P[i].closed) sim_violation("dropped", "peer %d: stream %d was %s by the program, which did not ask for it", i, s, how); return; }
	if (closed_unbound || sim_fired(F_ACCEPT_FAIL) || open_max + listening >= 100) return;
	sim_violation("dropped", "peer %d: the connection was %s without a stream", i, how);
}
static int drain(int i, int fd, int block) {   // 0: nothing, 1: data, -1: end
	static u8 buf[NP][4096];
	ssize_t r = sim_recv(fd, buf[i], 1 + sim_choose(sizeof buf[i]), block ? 0 : MSG_DONTWAIT);
	if (r > 0) { gotbytes(i, buf[i], (size_t) r); return 1; }
	if (r < 0 && errno == EAGAIN) return 0;
	return -1;
}
static int settled(int i) {   // nothing more will be written to this peer for now
	int s = P[i].stream;
	if (s < 0) return P[i].got == 0 && budget <= 0;
	return P[i].got == S[s].out && (int) S[s].in.n == P[i].sent && !S[s].dirty;
}
static void talk(int i, int fd) {
	int stop = P[i].kind == PATIENT ? P[i].total : (int) sim_choose(P[i].total + 1);
	if (P[i].slow) sim_sleep((u64) P[i].slow * MS);
	while (P[i].sent < stop) {
		static u8 ob[NP][8192];
		int k = stop - P[i].sent; if (k > P[i].chunk) k = P[i].chunk;
		k = 1 + sim_choose(k); if (k > (int) sizeof ob[i]) k = sizeof ob[i];
		for (int j = 0; j < k; j++) { int o = P[i].sent + j; ob[i][j] = o == 0 ? i : o == 1 ? i >> 8 : o == 2 ? 0xA5 : o == 3 ? 0x5A : patt(i, o); }
		int was = P[i].sent;
		P[i].sent += k;      // on its way as soon as send starts
		ssize_t r = sim_send(fd, ob[i], k, MSG_NOSIGNAL);
		if (r <= 0) { P[i].sent = was; lost(i, "closed"); goto out; }
		if (r < k) P[i].sent = was + (int) r;
		if (sim_flip(1, 4)) sim_sleep(sim_choose(2000) * MS / 100);
		if (sim_flip(1, 3) && drain(i, fd, 0) < 0) { lost(i, "closed"); goto out; }
	}
	if (P[i].kind == PATIENT || P[i].kind == SILENT) {
		// stays until everything written to it has come and the program had time for more
		int calm = 0, rounds = 0;
		while (calm < 3) {
			int r = drain(i, fd, 0);
			if (r < 0) { lost(i, "closed"); goto out; }
			if (r > 0) { calm = 0; continue; }
			if (settled(i)) calm++; else calm = 0;
			if (!settled(i) && P[i].kind == SILENT && ++rounds > 40) break;
			sim_sleep((P[i].kind == SILENT ? 300 : 50) * MS);
			if (calm == 3 && P[i].linger) { sim_sleep(100 * SEC); P[i].linger = calm = 0; }
		}
	} else {
		int k = sim_choose(4);
		while (k-- > 0) if (drain(i, fd, 0) < 0) { lost(i, "closed"); goto out; } else sim_sleep(sim_choose(50) * MS);
	}
out:
	P[i].closed = 1; P[i].closed_at = sim_now();
	if (P[i].kind == RESET) { sim_probe(2); sim_count_fault(F_RESET); net_drop_conn(sim_ofd(fd)); }
	if (P[i].kind == EARLY) { sim_probe(3); sim_count_fault(F_PEER_CLOSE); }
	sim_close(fd);
	P[i].done = 1;
}
static void client(void *arg) {
	int i = (int) (long) arg;
	while (!started) sim_sleep(50 * MS);
	sim_sleep(sim_choose(many ? 20 : 2000) * MS);
	for (int tries = 0; ; tries++) {
		int fd = sim_socket(AF_INET, SOCK_STREAM, 0);
		struct sockaddr_in a = {.sin_family = AF_INET, .sin_port = htons(7000), .sin_addr.s_addr = htonl(0x7f000001)};
		if (sim_connect(fd, (void *) &a, sizeof a) == 0) { P[i].up = 1; talk(i, fd); return; }
		sim_close(fd);
		if (tries > 400) sim_violation("stuck", "peer %d cannot connect", i);
		sim_sleep((20 + 5 * (u64) tries * tries) * MS);
	}
}
static void server(void *arg) {
	int i = (int) (long) arg;
	int l = sim_socket(AF_INET, SOCK_STREAM, 0), one = 1;
	sim_setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	struct sockaddr_in a = {.sin_family = AF_INET, .sin_port = htons(8000 + P[i].port), .sin_addr.s_addr = htonl(0x0a000001)};
	if (sim_bind(l, (void *) &a, sizeof a) || sim_listen(l, 16)) sim_harness_error("server");
	P[i].up = 1;
	int fd = sim_accept(l, NULL, NULL);
	if (fd < 0) sim_harness_error("accept");
	P[i].busy = 1;
	talk(i, fd);
}
static void deadline(void *arg) {
	(void) arg;
	if (ended) return;
	for (int i = 0; i < np; i++) if (P[i].up && !P[i].done && P[i].kind == PATIENT && !idle(i)) {
		int s = P[i].stream;
		sim_violation("stuck", "peer %d still waits: it sent %d bytes and got %zu; stream %d has handed %zu to the handler and was given %zu", i, P[i].sent, P[i].got, s, s >= 0 ? S[s].in.n : 0, s >= 0 ? S[s].out : 0);
	}
	for (int s = 0; s < ns; s++) if (!S[s].exited) sim_violation("exit", "stream %d never ended (closed by the program: %d, by the peer: %d)", s, S[s].closed, S[s].peer >= 0 ? P[S[s].peer].closed : -1);
	for (int k = 0; k < 4; k++) if (T[k].on) sim_violation("timer", "timer %d never fired", k);
	sim_violation("stuck", "the program has not ended: %s", sim_blocked_report());
}
void scen_setup(void) {
	many = sim_flip(1, 40);
	listening = many || sim_flip(4, 5);
	overdue = sim_flip(1, 6);
	int nc = listening ? (many ? 95 + (int) sim_choose(20) : (int) sim_choose(6)) : 0;
	nout = (int) sim_choose(many ? 2 : 4);
	if (!listening && !nout) nout = 1;
	budget = (int) sim_choose(many ? 300 : 60);
	wbudget = sim_flip(1, 3) ? 300000 : 20000;
	net_host("server", 0x0a000001); net_host("localhost", 0x7f000001);
	for (int i = 0; i < nc + nout; i++) {
		int srv = i >= nc;
		static int tot[] = {4, 10, 300, 5000, 40000};
		P[i].server = srv; P[i].stream = -1; P[i].port = srv ? i - nc : -1;
		int k = sim_choose(12);
		P[i].kind = k < 7 ? PATIENT : k < 9 ? EARLY : k < 11 ? RESET : SILENT;
		P[i].total = 4 + (int) sim_choose(tot[sim_choose(many ? 3 : 5)]);
		if (P[i].kind == SILENT) P[i].total = 0;
		static int ch[] = {8000, 1, 50, 1000};
		P[i].chunk = ch[sim_choose(4)]; if (P[i].total > 3000 && P[i].chunk < 50) P[i].chunk = 500;
		if (sim_flip(1, 6)) { P[i].slow = 1 + sim_choose(20000); sim_probe(4); }
		P[i].linger = sim_flip(1, 5);
		if (srv && sim_flip(1, 5)) nosrv[P[i].port] = 1;
	}
	np = nc + nout;
	static u32 caps[] = {65536, 4096, 512, 100};
	net_set_capacity(caps[sim_choose(4)]);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(8), 100);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(8), 100);
	sim_enable_some(F_FRAGMENT, 1 + sim_choose(8), 100);
	sim_enable_some(F_DELAY, 1 + sim_choose(8), 30);
	if (sim_flip(1, 3)) sim_enable(F_EINTR, 1 + sim_choose(6), 10);
	int f = sim_choose(12);
	if (f == 0 && nout) sim_enable(F_CONNECT_FAIL, 2, nout);
	if (f == 1 && nout && !listening) sim_enable_once(F_SOCKET_FAIL, nout);
	if (f == 2 && nout && !listening) sim_enable_once(F_RESOLVE_FAIL, nout);
	if (f == 3 && nc) sim_enable(F_ACCEPT_FAIL, 3, 3);
	if (f == 4) { sim_enable(F_STALL, 4, 3); stall_ok = 1; }
	if (f == 5) { sim_enable(F_SLOW_SEND, 1 + sim_choose(4), 5); stall_ok = 1; }
	sim_detail("listening=%d clients=%d servers=%d actions=%d bytes=%d fault=%d", listening, nc, nout, budget, wbudget, f);
	if (many) sim_probe(5);
	sim_set_preempt(0);
	for (int i = 0; i < np; i++) {
		if (P[i].server) { if (nosrv[P[i].port]) { P[i].done = 1; continue; } sim_task("server", server, (void *) (long) i); }
		else sim_task("client", client, (void *) (long) i);
	}
	sim_at(20000 * SEC, deadline, NULL);
	sim_set_step_limit(4000000);
	app = sim_app("app", 1, (char *[]) {"app", NULL}, NULL);
}
void scen_proc_exit(proc_t *p, int status) { if (p == app && (status || !ended)) sim_violation("abnormal-exit", "the program ended with status %x: %s", status, esc(sim_stderr_of(app, NULL), strlen(sim_stderr_of(app, NULL)))); if (p == app) sim_finish(); }
void scen_end(void) {
	if (!ended) deadline(NULL);
}
