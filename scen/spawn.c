#include "nat.h"
// Spawned processes: arguments, environment, the three streams, exit status, descriptors.
const char *scen_name = "spawn";
const char *scen_probes[] = {"several_children", "pipe_or_fork_failed", "exec_failed", "killed", "big_input", "child_stops_reading", "pending_output", "dup_failed", NULL};
const char *scen_rule = "a run = 1-5 children with seeded behaviour, data sizes, chunking, faults and one schedule; non-trivial: a fault or preemption fired; distinct by the hash of the schedule and history";
enum { START = 1, SPAWNED, FAILED, WRITEERR, EOFN, WAIT, END, READERR };
enum { FILTER, SOURCE, SINK, MISSING };
static int N, mode; static long args[64];
static struct { int prog, in, out, err, code, sig, chunk, readmax; int spawned, failed, eof, waited, status, started, argbad; u64 pid; bytes_t o, e; long got; int gotbad; int sawend; } C[8];
static int fds0, blocks0, ended;
static proc_t *app;
long scen_arg(int i) { return args[i]; }
static int child_index(char **argv) { if (!argv[1] || strncmp(argv[1], "child", 5)) return -1; return atoi(argv[1] + 5); }
static void common(int i, int argc, char **argv, char **env) {
	if (i < 0 || i >= N) sim_violation("argv", "a child was started with the wrong arguments");
	if (argc != 4 || strcmp(argv[2], "two words") || strcmp(argv[3], "")) sim_violation("argv", "child %d: arguments were changed", i);
	if (!env || !env[0] || strcmp(env[0], xsprintf("NUMBER=%d", i)) || !env[1] || strcmp(env[1], "EMPTY=") || !env[2] || strcmp(env[2], "X=a=b") || env[3])
		sim_violation("env", "child %d: environment was changed", i);
	if (C[i].started++) sim_violation("twice", "child %d was executed twice", i);
	int n = sim_proc_openfds(sim_cur_proc());
	if (n != 0) sim_violation("inherited-fds", "child %d starts with %d open descriptors besides its three streams", i, n);
}
static void fin(int i) {
	if (C[i].sig) sim_kill(sim_getpid(), C[i].sig);
	sim__exit(C[i].code);
}
static void take_input(int i, long max, int echo) {
	static u8 b[4096];
	long n = 0;
	while (max < 0 || n < max) {
		size_t want = C[i].chunk; if (max >= 0 && (long) want > max - n) want = max - n;
		ssize_t r = sim_read(0, b, want);
		if (r <= 0) { C[i].sawend = 1; break; }
		u8 copy[4096]; memcpy(copy, b, r);
		for (ssize_t k = 0; k < r; k++) if (copy[k] != patt(i, n + k)) C[i].gotbad = 1;
		n += r;
		if (echo) { for (ssize_t k = 0; k < r; k++) copy[k] ^= 0x55; if (nat_write_all(1, copy, r)) break; }
	}
	C[i].got = n;
}
static void produce(int i) {
	long a = 0, b = 0;
	while (a < C[i].out || b < C[i].err) {
		u8 x[4096];
		int to_err = b < C[i].err && (a >= C[i].out || sim_flip(1, 3));
		long left = to_err ? C[i].err - b : C[i].out - a, k = left < C[i].chunk ? left : C[i].chunk, base = to_err ? b : a;
		for (long j = 0; j < k; j++) x[j] = patt(to_err ? 60 + i : 40 + i, base + j);
		if (nat_write_all(to_err ? 2 : 1, x, k)) break;
		if (to_err) b += k; else a += k;
	}
}
static int filter_main(int argc, char **argv, char **env) { int i = child_index(argv); common(i, argc, argv, env); take_input(i, -1, 1); fin(i); return 0; }
static int source_main(int argc, char **argv, char **env) { int i = child_index(argv); common(i, argc, argv, env); produce(i); fin(i); return 0; }
static int sink_main(int argc, char **argv, char **env) { int i = child_index(argv); common(i, argc, argv, env); take_input(i, C[i].readmax, 0); if (C[i].readmax < 0) produce(i); fin(i); return 0; }
static int writeerrs;
void scen_note(int what, long a, long b) {
	sim_hash(what * 131 + a * 7 + b);
	switch (what) {
	case START: fds0 = sim_proc_openfds(app); blocks0 = sim_proc_live_blocks(app); break;
	case SPAWNED: C[a].spawned = 1; C[a].pid = b; break;
	case FAILED: C[a].failed = 1; break;
	case WRITEERR:
		writeerrs++;
		// only a child that has ended or stopped reading may cause it
		if (C[a].prog == FILTER && !C[a].sig && !sim_fired(F_DUP_FAIL) && !sim_fired(F_EXEC_FAIL)) sim_violation("write", "writing to child %ld failed while it reads", a);
		break;
	case EOFN: C[a].eof |= b == 100 ? 1 : 2; break;
	case READERR: sim_violation("read", "reading from child %ld failed", a);
	case WAIT: C[a].waited = 1; C[a].status = (int) (b >> 1); if (!(b & 1)) sim_violation("wait", "waiting for child %ld failed", a); break;
	case END:
		if (sim_proc_openfds(app) != fds0) sim_violation("fd-leak", "%d descriptors open after all children were waited for, %d before", sim_proc_openfds(app), fds0);
		if (sim_proc_live_blocks(app) != blocks0) sim_violation("leak", "%d blocks allocated after all children were waited for, %d before", sim_proc_live_blocks(app), blocks0);
		ended = 1; break;
	}
}
void scen_bytes(int what, const void *p, size_t n) {
	int i = what % 100;
	if (what >= 200) bytes_add(&C[i].e, p, n); else bytes_add(&C[i].o, p, n);
}
void scen_setup(void) {
	N = 1 + sim_choose(5); mode = sim_choose(2);
	args[0] = N; args[1] = mode; args[2] = sim_flip(1, 3);
	if (N > 1 && mode) sim_probe(0);
	if (args[2]) sim_probe(6);
	fs_mkdir("/bin");
	fs_register_prog("/bin/filter", filter_main); fs_register_prog("/bin/source", source_main); fs_register_prog("/bin/sink", sink_main);
	int small = sim_flip(1, 3);
	sim_set_pipe_cap(small ? 4096 : 65536);
	for (int i = 0; i < N; i++) {
		static int chunks[] = {1, 3, 100, 4096};
		C[i].prog = args[24 + i] = sim_flip(1, 8) ? MISSING : sim_choose(3);
		C[i].chunk = chunks[sim_choose(4)];
		int lim = C[i].chunk == 1 ? 300 : C[i].chunk == 3 ? 600 : 20000;
		if (small && lim > 1000) lim = 1000;
		C[i].code = sim_choose(4) ? sim_choose(256) : 0;
		if (sim_flip(1, 8)) C[i].sig = sim_choose(2) ? SIGKILL : SIGSEGV;
		C[i].readmax = -1;
		if (C[i].prog == FILTER) C[i].in = sim_choose(lim); // the pipes hold it
		if (C[i].prog == SOURCE) { C[i].out = sim_choose(C[i].chunk < 100 ? lim : 20000); C[i].err = sim_choose(lim); C[i].in = sim_choose(100); }
		if (C[i].prog == SINK) {
			C[i].in = sim_choose(C[i].chunk > 3 ? 200000 : lim); C[i].out = sim_choose(200);
			if (sim_flip(1, 3)) { C[i].readmax = sim_choose(C[i].in + 1); sim_probe(5); }
			if (C[i].in > 65536) sim_probe(4);
		}
		if (C[i].prog == MISSING) C[i].in = sim_choose(50);
		args[16 + i] = C[i].in;
		args[40 + i] = chunks[sim_choose(4)];
		if (args[40 + i] < 100 && (C[i].out > 1000 || C[i].err > 1000 || C[i].in > 1000)) args[40 + i] = 100 + args[40 + i];
		args[32 + i] = i;
	}
	for (int i = N - 1; i > 0; i--) { int j = sim_choose(i + 1); long t = args[32 + i]; args[32 + i] = args[32 + j]; args[32 + j] = t; }
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 60);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 60);
	int f = sim_choose(8);
	if (f == 0) sim_enable_once(F_PIPE_FAIL, 3 * N);
	if (f == 1) sim_enable_once(F_FORK_FAIL, N);
	if (f == 2) sim_enable_once(F_EXEC_FAIL, N);
	if (f == 3) sim_enable_once(F_DUP_FAIL, 3 * N);
	sim_enable_some(F_STALL, 20, 3);
	sim_detail("children=%d %s fault=%d", N, mode ? "started together" : "one after another", f);
	app = sim_app("app", 1, (char *[]) {"app", NULL}, NULL);
}
static int is_prefix(bytes_t *b, long n, int tag, int x, int whole) {
	if ((long) b->n > n || (whole && (long) b->n != n)) return 0;
	for (size_t k = 0; k < b->n; k++) if (b->p[k] != (u8) (patt(tag, k) ^ x)) return 0;
	return 1;
}
void scen_end(void) {
	int st;
	if (!sim_proc_exited(app, &st)) sim_violation("deadlock", "processes wait forever: %s", sim_blocked_report());
	if (st != 0 || !ended) sim_violation("abnormal-exit", "the program ended with status %x: %s", st, esc(sim_stderr_of(app, NULL), strlen(sim_stderr_of(app, NULL))));
	int nfail = 0, lost = 0;
	for (int i = 0; i < N; i++) {
		if (C[i].failed) { nfail++; if (C[i].started) sim_violation("failed-but-ran", "spawn reported failure but child %d ran", i); continue; }
		if (!C[i].spawned || !C[i].waited || C[i].eof != 3) sim_violation("incomplete", "child %d: spawned=%d waited=%d ends=%d", i, C[i].spawned, C[i].waited, C[i].eof);
		if (!C[i].started) {
			// exec or dup2 failed in the child
			if (C[i].prog != MISSING) lost++;
			if (!WIFEXITED(C[i].status) || WEXITSTATUS(C[i].status) == 0) sim_violation("status", "child %d could not be executed and its status is %x", i, C[i].status);
			if (C[i].o.n) sim_violation("output", "child %d never ran but %zu bytes came from its stdout: %s", i, C[i].o.n, esc(C[i].o.p, C[i].o.n));
			sim_probe(2);
			continue;
		}
		if (C[i].sig) { sim_probe(3); if (!WIFSIGNALED(C[i].status) || WTERMSIG(C[i].status) != C[i].sig) sim_violation("status", "child %d was killed by signal %d, its status is %x", i, C[i].sig, C[i].status); }
		else if (C[i].status != C[i].code << 8) sim_violation("status", "child %d exited with %d, its status is %x", i, C[i].code, C[i].status);
		if (C[i].gotbad) sim_violation("input", "child %d read different bytes from those written", i);
		if (C[i].prog != SOURCE && C[i].readmax < 0 && (C[i].got != C[i].in || !C[i].sawend)) sim_violation("input", "child %d read %ld bytes of %d", i, C[i].got, C[i].in);
		if (C[i].prog == SINK && C[i].readmax >= 0 && C[i].got != C[i].readmax) sim_violation("input", "child %d read %ld bytes of %d", i, C[i].got, C[i].readmax);
		int oknorm = C[i].prog == FILTER ? is_prefix(&C[i].o, C[i].in, i, 0x55, 1) && C[i].e.n == 0
			: C[i].prog == SINK && C[i].readmax >= 0 ? C[i].o.n == 0 && C[i].e.n == 0
			: is_prefix(&C[i].o, C[i].out, 40 + i, 0, 1) && is_prefix(&C[i].e, C[i].err, 60 + i, 0, 1);
		if (!oknorm) sim_violation("output", "child %d: got %zu bytes of stdout and %zu of stderr, different from what it wrote", i, C[i].o.n, C[i].e.n);
	}
	if (nfail) sim_probe(1);
	if (nfail != (int) (sim_fired(F_PIPE_FAIL) + sim_fired(F_FORK_FAIL))) sim_violation("spawn", "%d spawns failed, %d pipe or fork calls failed", nfail, (int) (sim_fired(F_PIPE_FAIL) + sim_fired(F_FORK_FAIL)));
	if (sim_fired(F_DUP_FAIL)) sim_probe(7);
	if (lost > (int) (sim_fired(F_EXEC_FAIL) + sim_fired(F_DUP_FAIL))) sim_violation("spawn", "%d children did not run, %d exec or dup calls failed", lost, (int) (sim_fired(F_EXEC_FAIL) + sim_fired(F_DUP_FAIL)));
	size_t n; const char *o = sim_stdout_of(app, &n);
	size_t want = args[2] ? 7 : 0;
	if (n != want || memcmp(o, "pending", want)) sim_violation("pending-output", "the caller's buffered output came out as '%s'", esc(o, n));
	for (int i = 0; i < sim_nprocs(); i++) { int s; proc_t *p = sim_proc_at(i); if (sim_proc_parent(p) == app && !sim_proc_exited(p, &s)) sim_violation("leftover", "a child process is still running at the end"); }
}
