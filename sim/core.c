#include "int.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <ucontext.h>

static const char *choice_who(void) { return cur ? cur->name : "-"; }
#include "choice.inc"
int faulty(int k) {
	if (!cur || !cur->proc || !cur->proc->faults) return 0;
	return sim_fault(k);
}

// ------------------------------------------------------------------ memory images
extern u8 __start_appdata[], __stop_appdata[];
extern u8 __start_appbss[], __stop_appbss[];
static u8 *initial_data;
static size_t data_n, bss_n;
proc_t *img;

static void save_data(proc_t *p) {
	memcpy(p->data_image, __start_appdata, data_n);
	memcpy(p->data_image + data_n, __start_appbss, bss_n);
}
static void load_data(proc_t *p) {
	memcpy(__start_appdata, p->data_image, data_n);
	memcpy(__start_appbss, p->data_image + data_n, bss_n);
}
void image_init(void) {
	data_n = __stop_appdata - __start_appdata;
	bss_n = __stop_appbss - __start_appbss;
	initial_data = malloc(data_n + bss_n + 1);
	memcpy(initial_data, __start_appdata, data_n);
	memcpy(initial_data + data_n, __start_appbss, bss_n);
}
static void map_arena(proc_t *p) {
	void *m = mmap((void *) ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, p->memfd, 0);
	if (m == MAP_FAILED) sim_harness_error("mmap arena: %s", strerror(errno));
}
// Makes the image of p the one mapped. Runs on the scheduler's stack.
void swap_to(proc_t *p) {
	if (p->native || img == p) return;
	if (img && !img->exited) save_data(img);
	map_arena(p);
	load_data(p);
	img = p;
}
static void image_new(proc_t *p) {
	p->memfd = memfd_create("img", 0);
	if (p->memfd < 0 || ftruncate(p->memfd, ARENA_SIZE) != 0) sim_harness_error("memfd: %s", strerror(errno));
	p->data_image = malloc(data_n + bss_n + 1);
	memcpy(p->data_image, initial_data, data_n + bss_n);
	p->heap_brk = 64;
}
static void copy_range(proc_t *from, proc_t *to, u64 off, u64 len) {
	// `from` is mapped.
	(void) from;
	off &= ~4095ull;
	while (len > 0) {
		size_t n = len > (1u << 20) ? (1u << 20) : len;
		if (pwrite(to->memfd, (u8 *) ARENA_BASE + off, n, off) != (ssize_t) n) sim_harness_error("image copy: %s", strerror(errno));
		off += n; len -= n;
	}
}

// ------------------------------------------------------------------ tasks
task_t *cur;
u64 now_ns, steps;
proc_t *procs[256]; int nprocs;
task_t *tasks[1024]; int ntasks;
proc_t *harness_proc;
static void *sched_rsp;
static int next_pid = 100;
static u64 step_limit = 4000000;
static int finishing;
u32 iobuf_size = 4096;
long long wall_base = 1700000000ll * 1000000000ll;

void ctx_switch(void **save, void *load);
asm(
	".text\n.globl ctx_switch\nctx_switch:\n"
	"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
	"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

static void task_entry(void) {
	cur->fn(cur->arg);
	task_exit();
}
static void prepare_stack(task_t *t, void *top) {
	u64 *sp = (u64 *) (((u64) top) & ~15ull);
	*--sp = 0;               // alignment, fake return address
	*--sp = (u64) task_entry;
	for (int i = 0; i < 6; i++) *--sp = 0;
	t->rsp = sp;
}
task_t *task_new(proc_t *p, const char *name) {
	if (ntasks >= 1024) sim_harness_error("too many tasks");
	task_t *t = calloc(1, sizeof *t);
	t->id = ntasks;
	snprintf(t->name, sizeof t->name, "%s", name);
	t->proc = p;
	t->state = T_RUNNABLE;
	t->stack_slot = -1;
	tasks[ntasks++] = t;
	p->live++;
	return t;
}
static void native_stack(task_t *t) {
	size_t n = 256 * 1024;
	t->native_stack = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	prepare_stack(t, (u8 *) t->native_stack + n);
}
// An arena stack for an app task. The image of p must be mapped to write the frame.
int arena_stack(task_t *t) {
	proc_t *p = t->proc;
	int slot;
	if (p->nstack_free > 0) slot = p->stack_free[--p->nstack_free];
	else {
		if (p->nthreads >= MAXTHREADS) return -1;
		slot = p->nthreads++;
	}
	t->stack_slot = slot;
	// slot 0 (main) has the big one at the end
	u64 top = ARENA_BASE + STACK_OFF + (u64)(slot + 1) * STACK_SIZE - 64;
	if (slot == 0) top = ARENA_BASE + ARENA_SIZE - 64;
	proc_t *before = img;
	if (before != p) swap_to(p);
	prepare_stack(t, (void *) top);
	if (before && before != p) swap_to(before);
	return 0;
}
proc_t *proc_new(const char *name, int native) {
	if (nprocs >= 256) sim_harness_error("too many processes");
	proc_t *p = calloc(1, sizeof *p);
	snprintf(p->name, sizeof p->name, "%s", name);
	p->pid = next_pid++;
	p->native = native;
	p->memfd = -1;
	p->faults = !native;
	strcpy(p->cwd, "/");
	for (int i = 0; i < 3; i++) p->fail_after[i] = -1;
	procs[nprocs++] = p;
	for (int i = 0; i < 3; i++) {
		ofd_t *o = ofd_new(i == 0 ? O_SOURCE : O_SINK);
		o->owner = p; o->which = i;
		p->fds[i] = o; o->refs = 1;
	}
	if (!native) image_new(p);
	return p;
}
proc_t *sim_native_proc(const char *name) { return proc_new(name, 1); }
task_t *sim_task_in(proc_t *p, const char *name, void (*fn)(void *), void *arg) {
	task_t *t = task_new(p, name);
	t->fn = fn; t->arg = arg;
	if (!p->main) p->main = t;
	native_stack(t);
	return t;
}
task_t *sim_task(const char *name, void (*fn)(void *), void *arg) {
	return sim_task_in(harness_proc, name, fn, arg);
}
static void app_start(void *arg) {
	proc_t *p = arg;
	extern void sio_setup(void);
	sio_setup();
	// argv is handed over in app memory so that it can be inspected.
	int failed;
	char **av = app_alloc((p->argc + 1) * sizeof(char *), 1, &failed);
	for (int i = 0; i < p->argc; i++) {
		av[i] = app_alloc(strlen(p->argv[i]) + 1, 1, &failed);
		strcpy(av[i], p->argv[i]);
	}
	p->live_blocks = 0;
	int r = app_main(p->argc, av, NULL);
	extern void sim_exit(int);
	sim_exit(r);
}
proc_t *sim_app(const char *name, int argc, char **argv, char **env) {
	proc_t *p = proc_new(name, 0);
	p->argc = argc;
	p->argv = calloc(argc + 1, sizeof(char *));
	for (int i = 0; i < argc; i++) p->argv[i] = strdup(argv[i]);
	int ne = 0; while (env && env[ne]) ne++;
	p->env = calloc(ne + 1, sizeof(char *));
	for (int i = 0; i < ne; i++) p->env[i] = strdup(env[i]);
	task_t *t = task_new(p, name);
	t->fn = app_start; t->arg = p;
	p->main = t;
	arena_stack(t);
	return p;
}
task_t *sim_proc_main(proc_t *p) { return p->main; }
int sim_proc_exited(proc_t *p, int *st) { if (st) *st = p->status; return p->exited; }
proc_t *sim_proc_fault(proc_t *p, int on) { p->faults = on; return p; }
int sim_nprocs(void) { return nprocs; }
proc_t *sim_proc_at(int i) { return procs[i]; }
int sim_proc_pid(proc_t *p) { return p->pid; }
proc_t *sim_proc_parent(proc_t *p) { return p->parent; }
proc_t *sim_cur_proc(void) { return cur ? cur->proc : NULL; }
int sim_task_id(void) { return cur ? cur->id : -1; }
int sim_proc_live_blocks(proc_t *p) { return p->live_blocks; }
int sim_proc_openfds(proc_t *p) { int n = 0; for (int i = 3; i < MAXFD; i++) if (p->fds[i]) n++; return n; }
void sim_proc_cwd(proc_t *p, const char *path) { snprintf(p->cwd, sizeof p->cwd, "%s", path); }
int sim_threads_live(proc_t *p) { return p->live; }
u64 sim_now(void) { return now_ns; }
u64 sim_steps(void) { return steps; }
void sim_set_step_limit(u64 n) { step_limit = n; }
void sim_finish(void) { finishing = 1; }
void sim_set_iobuf(u32 n) { iobuf_size = n < 1 ? 1 : n; }
void sim_set_wall(long long sec) { wall_base = sec * 1000000000ll; }

static void to_sched(void) {
	task_t *t = cur;
	t->err = errno;
	ctx_switch(&t->rsp, sched_rsp);
	// resumed: cur == the task (or its fork copy)
	errno = cur->err;
}
void task_exit(void) {
	task_t *t = cur;
	t->state = T_DONE;
	t->proc->live--;
	if (t->stack_slot > 0 && t->detached) t->proc->stack_free[t->proc->nstack_free++] = t->stack_slot;
	// A native program's last task ending is the exit of the process.
	ctx_switch(&t->rsp, sched_rsp);
	abort();
}
// Ends process p (status as waitpid gives it). Does not return if p is current.
void proc_terminate(proc_t *p, int status) {
	if (p->exited) return;
	sim_log("process %s pid %d ends, status %x", p->name, p->pid, status);
	p->exited = 1; p->status = status;
	for (int i = 0; i < ntasks; i++) {
		task_t *t = tasks[i];
		if (t->proc == p && t->state != T_DONE) { t->state = T_DONE; p->live--; }
	}
	fd_close_all(p);
	// orphans are adopted by nobody
	for (int i = 0; i < nprocs; i++) if (procs[i]->parent == p) { procs[i]->parent = NULL; }
	scen_proc_exit(p, status);
}
void proc_exit(proc_t *p, int status) {
	proc_terminate(p, status);
	if (cur && cur->proc == p) {
		ctx_switch(&cur->rsp, sched_rsp);
		abort();
	}
	abort();
}
void sim_proc_kill(proc_t *p, int sig) {
	if (p->exited) return;
	sim_count_fault(F_KILL);
	if (cur && cur->proc == p) proc_exit(p, sig);
	proc_terminate(p, sig);
}
// fork(): duplicates the image of the current process with the current task.
static proc_t *fork_child;
proc_t *proc_fork(void) {
	proc_t *p = cur->proc;
	if (p->native) sim_harness_error("fork in a native process");
	proc_t *c = calloc(1, sizeof *c);
	if (nprocs >= 256) sim_harness_error("too many processes");
	bytes_t zero = {0};
	*c = *p;
	c->pid = next_pid++;
	snprintf(c->name, sizeof c->name, "%.20s.%d", p->name, c->pid);
	c->parent = p;
	c->out = zero; c->err = zero;
	c->in = zero; c->inpos = 0;
	c->live = 0; c->exited = 0; c->reaped = 0;
	c->is_child_app = 1;
	procs[nprocs++] = c;
	for (int i = 0; i < MAXFD; i++) if (c->fds[i]) {
		c->fds[i]->refs++;
		if (c->fds[i]->type == O_PIPE_R) {} // reader/writer counts are per ofd, not per fd
	}
	// sinks keep writing to the process which owns the ofd
	image_new(c);
	c->heap_brk = p->heap_brk; c->heap_rover = p->heap_rover;
	task_t *t = task_new(c, c->name);
	t->stack_slot = cur->stack_slot;
	t->prio = cur->prio;
	c->main = t;
	cur->fork_ret = c->pid;
	t->fork_ret = 0;
	t->err = errno;
	// The copying is done by the scheduler, on its own stack.
	t->state = T_NEW;
	fork_child = c;
	to_sched();
	return cur->proc == c ? NULL : c;
}
static void finish_fork(task_t *parent_task) {
	proc_t *p = parent_task->proc, *c = fork_child;
	fork_child = NULL;
	task_t *t = c->main;
	t->rsp = parent_task->rsp;
	t->state = T_RUNNABLE;
	if (img != p) sim_harness_error("fork: image");
	save_data(p);
	memcpy(c->data_image, p->data_image, data_n + bss_n);
	copy_range(p, c, 0, HEAP_OFF);
	copy_range(p, c, HEAP_OFF, (p->heap_brk + 4095) & ~4095ull);
	copy_range(p, c, SHADOW_OFF, ((p->heap_brk / 8) + 8192) & ~4095ull);
	u64 lo = ((u64) t->rsp - ARENA_BASE - 256) & ~4095ull;
	u64 top = t->stack_slot == 0 ? ARENA_SIZE : STACK_OFF + (u64)(t->stack_slot + 1) * STACK_SIZE;
	copy_range(p, c, lo, top - lo);
}
void exec_native(int (*fn)(int, char **, char **), int argc, char **argv, char **env);
static void native_prog(void *a) {
	proc_t *p = a;
	int r = p->native_main(p->argc, p->argv, p->env);
	proc_exit(p, (r & 255) << 8);
}
void exec_native(int (*fn)(int, char **, char **), int argc, char **argv, char **env) {
	proc_t *p = cur->proc;
	for (int i = 0; i < ntasks; i++) {
		task_t *t = tasks[i];
		if (t->proc == p && t != cur && t->state != T_DONE) { t->state = T_DONE; p->live--; }
	}
	p->native = 1;
	p->faults = 0;
	p->argc = argc; p->argv = argv; p->env = env;
	p->native_main = fn;
	task_t *t = task_new(p, p->name);
	t->fn = native_prog; t->arg = p;
	p->main = t;
	native_stack(t);
	cur->state = T_DONE;
	p->live--;
	ctx_switch(&cur->rsp, sched_rsp);
	abort();
}

// ------------------------------------------------------------------ events
typedef struct { u64 at, seq; void (*fn)(void *); void *arg; } event_t;
static event_t *evs; static int nevs, capevs;
static u64 evseq;
static int ev_less(event_t *a, event_t *b) { return a->at != b->at ? a->at < b->at : a->seq < b->seq; }
void sim_at(u64 when, void (*fn)(void *), void *arg) {
	if (nevs == capevs) { capevs = capevs ? capevs * 2 : 64; evs = realloc(evs, capevs * sizeof *evs); }
	event_t e = {when < now_ns ? now_ns : when, evseq++, fn, arg};
	int i = nevs++;
	evs[i] = e;
	while (i > 0 && ev_less(&evs[i], &evs[(i - 1) / 2])) {
		event_t x = evs[i]; evs[i] = evs[(i - 1) / 2]; evs[(i - 1) / 2] = x;
		i = (i - 1) / 2;
	}
}
static event_t ev_pop(void) {
	event_t r = evs[0];
	evs[0] = evs[--nevs];
	int i = 0;
	for (;;) {
		int l = 2 * i + 1, m = i;
		if (l < nevs && ev_less(&evs[l], &evs[m])) m = l;
		if (l + 1 < nevs && ev_less(&evs[l + 1], &evs[m])) m = l + 1;
		if (m == i) break;
		event_t x = evs[i]; evs[i] = evs[m]; evs[m] = x;
		i = m;
	}
	return r;
}

// ------------------------------------------------------------------ scheduler
static u32 preempt_mean;     // 0: only at blocking calls
static u64 preempt_gap;
static u32 mem_mean; static u64 mem_gap;
static int policy;           // 0 random, 1 priorities
static u64 draw(u32 mean) {  // gap of at least one; 0 on the tape = never
	u32 n = mean * 6 + 2, g = 0;
	if (!replaying) {
		u64 v = 1;
		if (mean > 1) {
			double u = (double)(rnd() >> 11) / 9007199254740992.0;
			v = 1 + (u64)(-(double) mean * __builtin_log(1.0 - u));
		}
		if (v >= n) v = n - 1;
		g = (u32) v;
	}
	u32 r = decide(n, g);
	return r == 0 ? ~0ull : r;
}
void sim_set_preempt(u32 mean) { preempt_mean = mean; preempt_gap = mean ? draw(mean) : ~0ull; }
void sim_set_mem_preempt(u32 mean) { mem_mean = mean; mem_gap = mean ? draw(mean) : ~0ull; }

void sim_yield(void) {
	if (!cur) return;
	if (steps > step_limit) sim_violation("no-progress", "no end after %llu steps; %s", (unsigned long long) steps, sim_blocked_report());
	steps++;
	now_ns += 1000;
	if (cur->proc->sigpending) sig_deliver();
	if (preempt_mean && --preempt_gap == 0) {
		preempt_gap = draw(preempt_mean);
		fk[F_PREEMPT].fired++; R->faults[F_PREEMPT]++;
		to_sched();
		return;
	}
	if (cur->proc->faults && sim_fault(F_STALL)) {
		static u64 durs[] = {1 * MS, 50 * MS, 1 * SEC, 5 * SEC, 60 * SEC};
		cur->stalled_until = now_ns + durs[sim_choose(5)];
		to_sched();
	}
}
// A thread that has prepared its output and is held up before sending it.
void sim_slow_point(void) {
	if (!cur || !cur->proc->faults || !sim_fault(F_SLOW_SEND)) return;
	cur->stalled_until = now_ns + (1 + sim_choose(60)) * MS;
	to_sched();
}
// Called for memory accesses of the app.
static u64 mem_steps;
extern u64 mem_accesses;
u64 mem_accesses;
void sim_mem_point(void) {
	mem_accesses++;
	if (++mem_steps > 400000000ull) sim_violation("no-progress", "endless computation in %s", cur ? cur->name : "?");
	if (mem_mean && cur && cur->proc->live > 1 && --mem_gap == 0) {
		mem_gap = draw(mem_mean);
		fk[F_MEMPREEMPT].fired++; R->faults[F_MEMPREEMPT]++;
		steps++;
		to_sched();
	}
}
int sim_block(const char *what, pred_t *p, void *a, long b, u64 deadline) {
	for (;;) {
		if (p && p(a, b)) return 1;
		if (now_ns >= deadline) return 0;
		if (cur->proc->sigpending) sig_deliver(); // restarted, as with signal()
		cur->state = T_BLOCKED;
		cur->pred = p; cur->pa = a; cur->pb = b;
		cur->deadline = deadline;
		cur->what = what;
		to_sched();
	}
}
void sim_sleep(u64 ns) { sim_block("sleep", NULL, NULL, 0, now_ns + ns); }

static int task_ready(task_t *t) {
	if (t->state == T_DONE || t->state == T_NEW) return 0;
	if (t->stalled_until > now_ns) return 0;
	if (t->state == T_RUNNABLE) return 1;
	if (now_ns >= t->deadline || t->proc->sigpending) return 1;
	return t->pred && t->pred(t->pa, t->pb);
}
const char *sim_blocked_report(void) {
	static char buf[600];
	int n = 0;
	buf[0] = 0;
	for (int i = 0; i < ntasks && n < 500; i++) {
		task_t *t = tasks[i];
		if (t->state == T_DONE) continue;
		n += snprintf(buf + n, sizeof buf - n, "%s:%s ", t->name, t->state == T_BLOCKED ? t->what : "runnable");
	}
	return buf;
}
int sim_blocked_count(void) {
	int n = 0;
	for (int i = 0; i < ntasks; i++) if (!tasks[i]->proc->native && tasks[i]->state == T_BLOCKED) n++;
	return n;
}
static void run_task(task_t *t) {
	swap_to(t->proc);
	cur = t;
	t->state = T_RUNNABLE;
	sim_hash(t->id + 1);
	ctx_switch(&sched_rsp, t->rsp);
	task_t *prev = cur;
	cur = NULL;
	if (fork_child) finish_fork(prev);
}
static void schedule(void) {
	task_t *last = NULL;
	static task_t *ready[1024];
	while (!finishing) {
		while (nevs > 0 && evs[0].at <= now_ns) { event_t e = ev_pop(); e.fn(e.arg); }
		if (finishing) break;
		int n = 0;
		if (last && task_ready(last)) ready[n++] = last;
		for (int i = 0; i < ntasks; i++) if (tasks[i] != last && task_ready(tasks[i])) ready[n++] = tasks[i];
		if (n == 0) {
			u64 t = FOREVER;
			if (nevs > 0) t = evs[0].at;
			for (int i = 0; i < ntasks; i++) {
				task_t *x = tasks[i];
				if (x->state == T_DONE || x->state == T_NEW) continue;
				u64 d = FOREVER;
				if (x->stalled_until > now_ns) d = x->stalled_until;
				else if (x->state == T_BLOCKED) d = x->deadline;
				if (d < t) t = d;
			}
			if (t == FOREVER) break; // quiescent
			if (t > now_ns) now_ns = t;
			last = NULL;
			continue;
		}
		steps++;
		if (steps > step_limit) {
			sim_violation("no-progress", "no end after %llu steps; %s", (unsigned long long) steps, sim_blocked_report());
		}
		u32 g = 0;
		if (!replaying && n > 1) {
			if (policy == 1) {
				u64 best = 0;
				for (int i = 0; i < n; i++) {
					if (!ready[i]->prio) ready[i]->prio = 1 + rnd() % 1000000;
					if (ready[i]->prio > best) { best = ready[i]->prio; g = i; }
				}
				if (rnd() % 16 == 0) ready[g]->prio = 1 + rnd() % 1000;
			} else g = (u32)(rnd() % n);
		}
		// fairness: nobody who could run is passed over for ever, whatever the tape says
		u32 k = (u32) n;
		for (int i = 1; i < n && n > 1; i++) if (ready[i]->skipped > 2000) { k = (u32) i; break; }
		if (k == (u32) n) k = decide(n, g);
		for (int i = 0; i < n; i++) ready[i]->skipped++;
		last = ready[k]; last->skipped = 0;
		run_task(last);
	}
}

// ------------------------------------------------------------------ crash handling
static u8 altstack[65536];
static void on_crash(int sig, siginfo_t *si, void *uc_) {
	ucontext_t *uc = uc_;
	R->crash_sig = sig;
	if (!cur || cur->proc->native) {
		snprintf(R->msg, sizeof R->msg, "signal %d at %p, pc %p in simulator task %s", sig, si->si_addr,
			(void *) uc->uc_mcontext.gregs[REG_RIP], cur ? cur->name : "-");
		R->status = RS_HARNESS;
		_exit(0);
	}
	snprintf(R->cls, sizeof R->cls, "crash");
	snprintf(R->msg, sizeof R->msg, "%s in %s (signal %d, address %p, pc %p)", sig == SIGFPE ? "arithmetic fault" : sig == SIGABRT ? "abort" : "invalid memory access",
		cur->name, sig, si->si_addr, (void *) uc->uc_mcontext.gregs[REG_RIP]);
	R->status = RS_VIOLATION;
	R->steps = steps; R->sim_ns = now_ns;
	_exit(0);
}

// Runs one simulation in this (forked) process.
void sim_run(u64 seed, u64 index, u32 given_len, int is_replay) {
	sim_run_seed = seed; sim_run_index = index;
	replaying = is_replay; replay_len = given_len;
	tape_pos = 0;
	rng_seed(seed);
	stack_t ss = {.ss_sp = altstack, .ss_size = sizeof altstack};
	sigaltstack(&ss, NULL);
	struct sigaction sa = {.sa_sigaction = on_crash, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER};
	int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
	for (int i = 0; i < 5; i++) sigaction(sigs[i], &sa, NULL);
	alarm(R->want_log ? 0 : 60);
	R->loghash = 1469598103934665603ull;
	R->histhash = 1469598103934665603ull;
	image_init();
	fs_init();
	net_init();
	harness_proc = proc_new("harness", 1);
	// Scheduling knobs of this run.
	static u32 means[] = {0, 1, 3, 10, 40, 200};
	policy = (int) sim_choose(2);
	sim_set_preempt(means[sim_choose(6)]);
	scen_setup();
	schedule();
	R->quiescent = !finishing;
	scen_end();
	end_run(RS_OK);
}

__attribute__((weak)) void scen_proc_exit(proc_t *p, int status) { (void) p; (void) status; }
__attribute__((weak)) void scen_note(int what, long a, long b) { (void) what; (void) a; (void) b; }
__attribute__((weak)) void scen_bytes(int what, const void *p, size_t n) { (void) what; (void) p; (void) n; }
__attribute__((weak)) long scen_arg(int i) { (void) i; return 0; }
void sim_note(int what, long a, long b) { sim_log("note %d %ld %ld", what, a, b); scen_note(what, a, b); }
void sim_bytes(int what, const void *p, size_t n) {
	sim_log("bytes %d n=%zu %llx", what, n, (unsigned long long) hash_bytes(1, p, n));
	scen_bytes(what, p, n);
}
long sim_arg(int i) { return scen_arg(i); }
__attribute__((weak)) size_t scen_str(int id, void *buf, size_t n) { (void) id; (void) buf; (void) n; return 0; }
size_t sim_str(int id, void *buf, size_t n) { return scen_str(id, buf, n); } // input data without a stream: copies up to n bytes
int sim_opp(int k) { return sim_fault(k); }

// ------------------------------------------------------------------ streams handed to the library by a driver
#define NSTREAMS 32
static struct { bytes_t d; size_t pos; int endval, bad, cut; long cap; } SS[NSTREAMS];
void sim_stream(int id, const void *p, size_t n, int endval) { SS[id].d.n = 0; bytes_add(&SS[id].d, p, n); SS[id].pos = 0; SS[id].endval = endval; SS[id].bad = SS[id].cut = 0; sim_hash(hash_bytes(id, p, n)); }
void sim_stream_cap(int id, long n) { SS[id].d.n = 0; SS[id].cap = n; SS[id].bad = 0; }
size_t sim_stream_pos(int id) { return SS[id].pos; }
int sim_stream_bad(int id) { return SS[id].bad ? 1 : SS[id].cut ? 2 : 0; }
const bytes_t *sim_stream_data(int id) { return &SS[id].d; }
int sim_input(int id, void *buf, size_t n) {
	sim_yield();
	app_check(buf, n, 1, "read");
	if (n == 0) return 0;
	if (SS[id].bad) return -1;
	size_t av = SS[id].d.n - SS[id].pos;
	if (av && !SS[id].cut && sim_fault(F_STREAM_ERR)) { SS[id].bad = 1; return -1; }
	if (av && !SS[id].cut && sim_fault(F_STREAM_EOF)) SS[id].cut = 1;
	if (av == 0 || SS[id].cut) return SS[id].endval;
	if (av > n) av = n;
	if (av > 1 && sim_fault(F_SHORT_READ)) av = sim_flip(1, 2) ? 1 : 1 + sim_choose_small((u32) (av - 1));
	memcpy(buf, SS[id].d.p + SS[id].pos, av);
	SS[id].pos += av;
	sim_hash(av);
	sim_log("input %d %zu -> %zu", id, n, av);
	return (int) av;
}
int sim_output(int id, const void *buf, size_t n) {
	sim_yield();
	app_check(buf, n, 0, "write");
	if (n == 0) return 0;
	if (SS[id].bad) return -1;
	if (sim_fault(F_STREAM_ERR)) { SS[id].bad = 1; return -1; }
	size_t k = n;
	if (SS[id].cap >= 0 && SS[id].d.n + k > (size_t) SS[id].cap) k = (size_t) SS[id].cap - SS[id].d.n;
	if (k == 0) { SS[id].bad = 1; return -1; }
	if (k > 1 && sim_fault(F_SHORT_WRITE)) k = sim_flip(1, 2) ? 1 : 1 + sim_choose_small((u32) (k - 1));
	bytes_add(&SS[id].d, buf, k);
	sim_hash(k);
	sim_log("output %d %zu -> %zu %llx", id, n, k, (unsigned long long) hash_bytes(1, buf, k));
	return (int) k;
}
