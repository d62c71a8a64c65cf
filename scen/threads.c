#include "../sim/sim.h"
// Mutexes exclude, conditions wake, threads run once and hand over their result.
const char *scen_name = "threads";
const char *scen_probes[] = {"contended_barrier", "tokens", "detached", "create_failed", "malloc_failed", NULL};
const char *scen_rule = "a run = 1-8 threads incrementing under a lock, meeting at barriers and taking tokens under one seeded schedule; non-trivial: a preemption, spurious wake-up or failed call fired; distinct by the hash of the schedule";
enum { ENTER = 1, LEAVE, ARRIVE, PASS, TAKE, RESULT, COUNT, DETACH, RUN, DONE, PUT, BOOLF };
static int N, K, B, T, D; static long args[40];
static int inside = -1, ran[16], arrived[64], got[16], done, puts_, takes, counted;
static proc_t *app;
long scen_arg(int i) { return args[i]; }
void scen_note(int what, long a, long b) {
	sim_hash(what * 131 + a * 7 + b);
	switch (what) {
	case RUN: if (ran[a]++) sim_violation("twice", "the function of thread %ld ran twice", a); break;
	case ENTER: if (inside >= 0) sim_violation("exclusion", "threads %d and %ld hold the same mutex at once", inside, a); inside = (int) a; break;
	case LEAVE: if (inside != a) sim_violation("exclusion", "thread %ld lost the mutex", a); inside = -1; break;
	case ARRIVE: arrived[b]++; break;
	case PASS: if (arrived[b] != N) sim_violation("barrier", "thread %ld left round %ld of the barrier after %d of %d arrived", a, b, arrived[b], N); break;
	case PUT: puts_++; break;
	case TAKE: takes++; if (takes > puts_) sim_violation("exclusion", "more tokens taken than put"); break;
	case RESULT: if (b != 9000 + a) sim_violation("result", "joining thread %ld gave %ld instead of its return value", a, b); if (!ran[a]) sim_violation("result", "joined a thread that never ran"); got[a]++; break;
	case COUNT: if (a != N * K) sim_violation("exclusion", "counter is %ld after %d locked increments", a, N * K); if (b != T) sim_violation("exclusion", "%ld tokens counted of %d", b, T); counted = 1; break;
	case DETACH: if (!a) sim_violation("detach", "detaching a running thread failed"); break;
	case BOOLF: sim_violation("status", "a successful lock/wait/wake reported failure (place %ld)", a);
	case DONE: done = 1; break;
	}
}
void scen_setup(void) {
	N = 1 + sim_choose(8); K = sim_choose(6); B = sim_choose(4); D = sim_flip(1, 4) ? sim_choose(N + 1) : 0;
	args[0] = N; args[1] = K; args[2] = B; args[4] = D;
	T = 0;
	if (sim_flip(2, 3)) for (int i = 0; i < N; i++) { args[16 + i] = sim_choose(5); T += args[16 + i]; }
	args[3] = T;
	if (B && N > 1) sim_probe(0);
	if (T) sim_probe(1);
	if (D) sim_probe(2);
	sim_enable_some(F_SPURIOUS, 1 + 2 * sim_choose(5), 40);
	if (sim_flip(1, 6)) sim_enable_once(F_THREAD_CREATE, 10);
	else if (sim_flip(1, 6)) sim_enable_once(F_MALLOC, 24);
	static u32 mm[] = {0, 7, 30, 150, 800};
	sim_set_mem_preempt(mm[sim_choose(5)]);
	sim_detail("threads=%d increments=%d rounds=%d tokens=%d detached=%d", N, K, B, T, D);
	app = sim_app("app", 1, (char *[]) {"app", NULL}, NULL);
}
void scen_end(void) {
	int st;
	if (!sim_proc_exited(app, &st)) sim_violation("deadlock", "threads wait forever: %s", sim_blocked_report());
	int failed = sim_fired(F_THREAD_CREATE) || sim_fired(F_MALLOC);
	if (sim_fired(F_THREAD_CREATE)) sim_probe(3);
	if (sim_fired(F_MALLOC)) sim_probe(4);
	if (failed) {
		size_t n; sim_stderr_of(app, &n);
		if ((st & 127) || st == 0 || done) sim_violation("failure-hidden", "a failed thread creation or allocation ended in status %x", st);
		if (n == 0) sim_violation("failure-hidden", "a failed thread creation or allocation was not reported");
		return;
	}
	if (st != 0 || !done || !counted) sim_violation("abnormal-exit", "the program ended with status %x: %s", st, esc(sim_stderr_of(app, NULL), strlen(sim_stderr_of(app, NULL))));
	for (int i = 0; i < N; i++) if (ran[i] != 1 || got[i] != (i >= D)) sim_violation("lost", "thread %d ran %d times, joined %d times", i, ran[i], got[i]);
	if (takes != T) sim_violation("lost", "%d of %d tokens taken", takes, T);
	if (D == 0 && sim_proc_live_blocks(app) != 0) sim_violation("leak", "%d blocks are still allocated after everything was freed", sim_proc_live_blocks(app));
}
