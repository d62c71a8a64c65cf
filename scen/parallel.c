#include "nat.h"
// proc.parallel: every job once, in a process of its own, at most eight at a time, all finished at the return.
const char *scen_name = "parallel";
const char *scen_probes[] = {"more_than_eight", "worker_killed", "fork_failed", "slow_worker", "pending_output", "eight_at_once", NULL};
const char *scen_rule = "a run = 0-30 jobs with seeded durations, exit codes, killed workers and one schedule; non-trivial: a fault or preemption fired; distinct by the hash of the schedule and history";
enum { BEGIN = 1, ENDJ, RETURN, PRIVATE };
static int N, returned, running, maxrun; static long args[128];
static int begun[40], over[40], victim = -1, pids[40];
static proc_t *app;
long scen_arg(int i) { return args[i]; }
void scen_proc_exit(proc_t *p, int status) {
	(void) status;
	for (int i = 0; i < N; i++) if (begun[i] && pids[i] == sim_proc_pid(p) && !over[i]) { over[i] = 1; running--; }
}
static void killer(void *arg) {
	(void) arg;
	if (victim >= 0 && begun[victim] && !over[victim]) {
		for (int i = 0; i < sim_nprocs(); i++) if (sim_proc_pid(sim_proc_at(i)) == pids[victim]) { sim_probe(1); sim_proc_kill(sim_proc_at(i), SIGKILL); }
	}
}
void scen_note(int what, long a, long b) {
	sim_hash(what * 131 + a * 7);
	switch (what) {
	case BEGIN:
		if (begun[a]++) sim_violation("twice", "job %ld was run twice", a);
		if (returned) sim_violation("late", "job %ld starts after parallel() returned", a);
		for (int i = 0; i < N; i++) if (i != a && pids[i] == b) sim_violation("process", "jobs %d and %ld ran in one process", i, a);
		if (b == sim_proc_pid(app)) sim_violation("process", "job %ld ran in the calling process", a);
		pids[a] = (int) b; running++;
		if (running > maxrun) maxrun = running;
		if (running > 8) sim_violation("too-many", "%d jobs run at the same time", running);
		if (running == 8) sim_probe(5);
		if (a == victim) sim_at(sim_now() + args[16 + a] * 500ull, killer, NULL);
		break;
	case ENDJ: break;
	case RETURN:
		for (int i = 0; i < N; i++) if (!begun[i] || !over[i]) sim_violation("unfinished", "parallel() returned while job %d was %s", i, begun[i] ? "running" : "not started");
		returned = 1; break;
	case PRIVATE: sim_violation("memory", "job %ld saw or caused changes of another process's memory", a);
	}
}
void scen_setup(void) {
	static int ns[] = {0, 1, 7, 8, 9, 16, 17, 30};
	N = sim_flip(1, 2) ? ns[sim_choose(8)] : (int) sim_choose(31);
	args[0] = N; args[1] = sim_flip(1, 2); args[2] = sim_flip(1, 2);
	if (N > 8) sim_probe(0);
	if (args[1]) sim_probe(4);
	int dmode = sim_choose(3);
	for (int i = 0; i < N; i++) {
		args[16 + i] = dmode == 0 ? 0 : dmode == 1 ? sim_choose(1000) : (sim_flip(1, 5) ? (sim_probe(3), 1000000 + sim_choose(100000)) : sim_choose(50));
		args[64 + i] = sim_flip(1, 4) ? sim_choose(256) : 0;
	}
	if (N && sim_flip(1, 3)) { victim = sim_choose(N); if (!args[16 + victim]) args[16 + victim] = 100; }
	if (sim_flip(1, 8)) sim_enable_once(F_FORK_FAIL, N + 1);
	sim_enable_some(F_STALL, 30, 3);
	sim_detail("jobs=%d durations=%d victim=%d", N, dmode, victim);
	app = sim_app("app", 1, (char *[]) {"app", NULL}, NULL);
}
void scen_end(void) {
	int st;
	if (!sim_proc_exited(app, &st)) sim_violation("deadlock", "processes wait forever: %s", sim_blocked_report());
	size_t n, en; const char *o = sim_stdout_of(app, &n); sim_stderr_of(app, &en);
	if (sim_fired(F_FORK_FAIL)) {
		sim_probe(2);
		if ((st & 127) || st == 0 || returned || en == 0) sim_violation("fork", "fork failed and the program ended with status %x", st);
		return;
	}
	if (st != 0 || !returned) sim_violation("abnormal-exit", "the program ended with status %x", st);
	// output: pending once, each job's line at most once (exactly once if it was not killed)
	bytes_t all = {0};
	for (int i = 0; i < sim_nprocs(); i++) { size_t k; const char *x = sim_stdout_of(sim_proc_at(i), &k); if (x && sim_proc_at(i) != app) bytes_add(&all, x, k); }
	bytes_add(&all, o, n); bytes_add(&all, "", 1);
	int c = 0; for (char *q = (char *) all.p; (q = strstr(q, "pending\n")); q++) c++;
	if (c != args[1]) sim_violation("output", "output pending at the call was written %d times", c);
	for (int i = 0; i < N; i++) {
		char *w = xsprintf("job%d\n", i); c = 0;
		for (char *q = (char *) all.p; (q = strstr(q, w)); q++) c++;
		if (c > 1 || (args[2] && c == 0 && i != victim)) sim_violation("output", "the output of job %d was written %d times", i, c);
	}
}
