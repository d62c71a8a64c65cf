#include "nat.h"
// prog/echo7 and prog/chargen (chargen.c includes this file): every client is served, whatever the others do.
#ifdef CHARGEN
const char *scen_name = "chargen";
#define PORT 1900
#else
const char *scen_name = "echo7";
#define PORT 7000
#endif
const char *scen_probes[] = {"served", "reset", "closed_early", "silent_client", "deaf_client", "slow_reader", "accept_failed", "after_all", "many_bytes", NULL};
const char *scen_rule = "a run = 1-7 clients (proper, silent, deaf, closing early, resetting) of the server with seeded fragmentation, delays, thread interleavings and failing calls, then one more client; non-trivial: a fault or preemption fired; distinct by the hash of the schedule and history";
enum { GOOD, EARLY, RESET, SILENT, DEAF };
#define NC 9
static struct { int kind, fd, sent, total, chunk, pause, slow, done, sender_done, got, port, harmed, tries; u64 t0; } C[NC];
static int nc, ndone, fds0, blocks0, finished, stall; static proc_t *app;
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
#ifdef CHARGEN
static const char CHARS[] = "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~ ";
#endif
static u8 want_byte(int i, int k) {
#ifdef CHARGEN
	(void) i; return (u8) CHARS[k % 95];
#else
	return patt(i + 3, k);
#endif
}
static int dial(int i) {
	for (int t = 0; t < 60; t++) {
		int fd = sim_socket(AF_INET, SOCK_STREAM, 0);
		struct sockaddr_in sa = {.sin_family = AF_INET, .sin_port = htons(PORT), .sin_addr.s_addr = htonl(0x7f000001)};
		if (sim_connect(fd, (void *) &sa, sizeof sa) == 0) return fd;
		sim_close(fd);
		sim_sleep(500 * MS * (1 + t / 4));
	}
	int st;
	sim_violation("unreachable", "client %d cannot connect%s", i, sim_proc_exited(app, &st) ? ": the server has ended" : "");
}
static int broken(int i) { // the connection failed for a reason that was injected
	return sim_fired(F_RECV_FAIL) || sim_fired(F_SEND_FAIL) || sim_fired(F_ACCEPT_FAIL) || sim_fired(F_RESET) || (C[i].harmed);
}
static void sender(void *a) {
	int i = (int) (long) a;
	u8 b[4096];
	while (C[i].sent < C[i].total) {
		int n = 1 + (int) sim_choose(C[i].chunk); if (n > C[i].total - C[i].sent) n = C[i].total - C[i].sent;
		for (int k = 0; k < n; k++) b[k] = patt(i + 3, C[i].sent + k);
		C[i].sent += n;
		if (nat_write_all(C[i].fd, b, n) < 0) { if (!broken(i)) sim_violation("closed", "the server closed the connection of client %d while it was sending", i); C[i].harmed = 1; break; }
		if (C[i].pause && sim_flip(1, 3)) sim_sleep(sim_choose(C[i].pause) * MS);
	}
#ifndef CHARGEN
	sim_shutdown(C[i].fd, SHUT_WR);
#endif
	C[i].sender_done = 1; C[i].t0 = sim_now();
}
static int sdone(void *a, long b) { (void) a; return C[b].sender_done; }
static void leave(int i, const char *how) { sim_log("client %d leaves: %s", i, how); sim_close(C[i].fd); C[i].done = 1; ndone++; }
static int good_done(void *a, long b) { (void) a; (void) b; for (int i = 0; i < nc; i++) if (C[i].kind == GOOD && !C[i].done) return 0; return 1; }
// stays connected for a while, or for as long as the proper clients need
static void linger(int secs) { if (sim_flip(1, 2)) sim_block("linger", good_done, NULL, 0, FOREVER); else sim_sleep((1 + sim_choose(secs)) * SEC); }
static void serve(int i) {
	u8 b[4096];
	C[i].fd = dial(i);
	u64 t0 = sim_now();
	switch (C[i].kind) {
	case SILENT: sim_probe(3); linger(200); leave(i, "silent"); return;
	case DEAF: {
		sim_probe(4); memset(b, 'd', sizeof b);
		// sends without reading until nothing more fits, or a while
		int n = 1 + (int) sim_choose(30);
		C[i].total = n * 100; sim_task_in(sim_cur_proc(), "sender", sender, (void *) (long) i);
		linger(100);
		net_drop_conn(sim_ofd(C[i].fd)); C[i].harmed = 1;
		sim_block("sender", sdone, NULL, i, FOREVER);
		leave(i, "deaf"); return; }
	}
	sim_task_in(sim_cur_proc(), "sender", sender, (void *) (long) i);
	int stop = C[i].kind == GOOD ? -1 : (int) sim_choose(C[i].total + 1);
#ifdef CHARGEN
	int limit = 1 + (int) sim_choose(C[i].slow ? 3000 : 12000); if (limit > 5000) sim_probe(8);
#else
	int limit = 1 << 30;
#endif
	while (C[i].got < limit && (stop < 0 || C[i].got < stop)) {
		if (C[i].slow && sim_flip(1, 2)) sim_sleep(sim_choose(2000) * MS);
		ssize_t r = sim_recv(C[i].fd, b, C[i].slow ? 1 + sim_choose(100) : sizeof b, 0);
		if (r < 0) { if (!broken(i)) sim_violation("reset", "the server reset the connection of client %d after %d bytes", i, C[i].got); C[i].harmed = 1; break; }
		if (r == 0) break;
		for (int k = 0; k < r; k++) if (b[k] != want_byte(i, C[i].got + k)) sim_violation("data", "client %d: byte %d is %02x instead of %02x", i, C[i].got + k, b[k], want_byte(i, C[i].got + k));
		C[i].got += (int) r;
#ifndef CHARGEN
		if (C[i].got > C[i].sent) sim_violation("data", "client %d got %d bytes, sent %d", i, C[i].got, C[i].sent);
#endif
	}
	(void) t0;
	if (stop >= 0 && !C[i].harmed) {
		C[i].harmed = 1;
		if (C[i].kind == RESET) { sim_probe(1); sim_count_fault(F_RESET); net_drop_conn(sim_ofd(C[i].fd)); }
		else { sim_probe(2); sim_count_fault(F_PEER_CLOSE); }
		if (C[i].kind == EARLY) net_drop_conn(sim_ofd(C[i].fd));
		sim_block("sender", sdone, NULL, i, FOREVER);
		leave(i, "early"); return;
	}
	if (!C[i].harmed) {
#ifdef CHARGEN
		if (C[i].got < limit && !broken(i)) sim_violation("short", "the server closed the connection of client %d after %d bytes", i, C[i].got);
		C[i].harmed = 1; net_drop_conn(sim_ofd(C[i].fd));
		sim_block("sender", sdone, NULL, i, FOREVER);
#else
		sim_block("sender", sdone, NULL, i, FOREVER);
		if (C[i].got != C[i].total && !broken(i)) sim_violation("short", "client %d got %d of %d bytes back", i, C[i].got, C[i].total);
#endif
		if (C[i].slow) sim_probe(5);
		sim_probe(0);
	} else { net_drop_conn(sim_ofd(C[i].fd)); sim_block("sender", sdone, NULL, i, FOREVER); }
	leave(i, "served");
}
static void client(void *a) {
	int i = (int) (long) a;
	sim_sleep(SEC + sim_choose(3) * sim_choose(20000) * MS);
	serve(i);
}
static void director(void *a) {
	(void) a;
	sim_sleep(900 * MS);
	fds0 = sim_proc_openfds(app); blocks0 = sim_proc_live_blocks(app);
	if (stall) sim_enable(F_STALL, stall, 4);
	u64 deadline = sim_now() + 4000 * SEC;
	while (ndone < nc) { sim_sleep(SEC); if (sim_now() > deadline) { for (int i = 0; i < nc; i++) if (!C[i].done) sim_violation("starved", "client %d (%s) got %d bytes and nothing more: %s", i, C[i].kind == GOOD ? "proper" : "other", C[i].got, sim_blocked_report()); } }
	for (int k = 0; k < F_NKINDS; k++) if (k != F_SHORT_READ && k != F_FRAGMENT) sim_disable(k);
	if (sim_fired(F_ACCEPT_FAIL)) sim_probe(6);
	sim_sleep(100 * SEC);
	// as good as new
	int i = nc; C[i].kind = GOOD; C[i].total = 700; C[i].chunk = 100;
	for (int k = 0; k < F_NKINDS; k++) (void) k;
	serve(i); sim_probe(7);
	sim_sleep(100 * SEC);
	finished = 1;
	int st;
	if (sim_proc_exited(app, &st)) sim_violation("ended", "the server has ended with status %x: %s", st, esc(sim_stderr_of(app, NULL), 100));
	if (sim_proc_openfds(app) != fds0) sim_violation("fd-leak", "%d descriptors are open after all clients have gone, %d before", sim_proc_openfds(app), fds0);
	if (sim_threads_live(app) != 1) sim_violation("thread-leak", "%d threads are left after all clients have gone", sim_threads_live(app));
	if (sim_proc_live_blocks(app) != blocks0) sim_violation("leak", "%d blocks are allocated after all clients have gone, %d before", sim_proc_live_blocks(app), blocks0);
	sim_finish();
}
void scen_proc_exit(proc_t *p, int status) { if (p == app) sim_violation("ended", "the server has ended with status %x: %s", status, esc(sim_stderr_of(app, NULL), strnlen(sim_stderr_of(app, NULL), 200))); }
void scen_setup(void) {
	nc = 1 + sim_choose_small(7);
	for (int i = 0; i < nc; i++) {
		C[i].kind = sim_flip(1, 2) ? GOOD : (int) sim_choose(5);
		static int tot[] = {0, 10, 255, 300, 2000, 9000};
		C[i].total = (int) sim_choose(tot[sim_choose(6)] + 1);
		static int ch[] = {1, 7, 256, 300, 4096};
		C[i].chunk = ch[sim_choose(5)]; if (C[i].chunk == 1 && C[i].total > 600) C[i].total = 600;
		C[i].pause = sim_flip(1, 3) ? 3000 : 0; C[i].slow = sim_flip(1, 4);
		sim_task("client", client, (void *) (long) i);
	}
	sim_task("director", director, NULL);
	net_set_capacity(sim_flip(1, 2) ? 65536 : 100 + sim_choose(4000));
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 1000);
	sim_enable_some(F_FRAGMENT, 1 + sim_choose(6), 1000);
	sim_enable_some(F_DELAY, 2 + sim_choose(8), 100);
	int f = sim_choose(10);
	if (f == 0) sim_enable(F_ACCEPT_FAIL, 1 + sim_choose(3), 6);
	if (f == 1) sim_enable(F_RECV_FAIL, 2 + sim_choose(20), 2);
	if (f == 2) sim_enable(F_SEND_FAIL, 2 + sim_choose(20), 2);
	stall = f == 3 ? 20 + (int) sim_choose(50) : 0;
	sim_set_preempt(2 + sim_choose(10));
	if (sim_flip(1, 4)) sim_set_mem_preempt(20 + sim_choose(100));
	sim_set_step_limit(6000000);
	sim_detail("clients=%d fault=%d", nc, f);
	app = sim_app("server", 1, (char *[]) {(char *) scen_name, NULL}, NULL);
}
void scen_end(void) {
	if (!finished) sim_violation("hang", "nothing more happens: %s", sim_blocked_report());
	sim_hash(C[0].got);
}
