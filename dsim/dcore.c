// Controller: one simulated run of several real processes, one of them running at a time.
#define _GNU_SOURCE
#include "dsim.h"
#include "proto.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <poll.h>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
static u64 now_ns, steps;
dproc_t dprocs[700]; int ndprocs;
static int curp = -1;
static const char *choice_who(void) { return curp >= 0 ? dprocs[curp].name : "-"; }
static void d_cleanup(void);
#define _exit(x) (d_cleanup(), _exit(x))
#include "../sim/choice.inc"
#undef _exit
#include "../sim/runner.h"
static shm_t *shm; static int evr;
const char *droot; static char rootbuf[256];
static const char *opname[] = {"?", "start", "open", "read", "write", "stat", "mkdir", "unlink", "rename", "opendir", "spawn", "spawned", "exec", "execfail", "wait", "blocked", "ask", "tell", "fork", "lock", "rmdir", "readdir", "close"};
static u32 preempt_mean; static int policy;
static struct { int seen; u64 blocked_at; } bl[700];
static u64 progress = 1;
static int last = -1;

__attribute__((weak)) long scen_ask(int p, int w, const char *s) { (void) p; (void) w; (void) s; return 0; }
__attribute__((weak)) void scen_tell(int p, int w, const char *t, size_t n) { (void) p; (void) w; (void) t; (void) n; }
__attribute__((weak)) void scen_exit(int p, int s) { (void) p; (void) s; }
__attribute__((weak)) void scen_fault(int p, int o, const char *s) { (void) p; (void) o; (void) s; }
__attribute__((weak)) int scen_mayfault(int p, int o, const char *s) { (void) p; (void) o; (void) s; return 1; }

static void rmtree(const char *p) {
	struct stat st;
	if (lstat(p, &st)) return;
	if (S_ISDIR(st.st_mode)) {
		DIR *d = opendir(p); struct dirent *e; char b[1024];
		while (d && (e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(b, sizeof b, "%s/%s", p, e->d_name); rmtree(b); }
		if (d) closedir(d);
		rmdir(p);
	} else unlink(p);
}
static void d_cleanup(void) {
	for (int i = 0; i < ndprocs; i++) if (!dprocs[i].exited && dprocs[i].pid > 0) kill(dprocs[i].pid, SIGKILL);
	if (rootbuf[0] && strstr(rootbuf, "/che-dsim.")) rmtree(rootbuf);
}
static void inroot(char *b, const char *path) { snprintf(b, 1024, "%s%s", droot, path); }
void d_mkdirs(const char *path) {
	char b[1024]; inroot(b, path);
	for (char *q = b + strlen(droot) + 1; *q; q++) if (*q == '/') { *q = 0; mkdir(b, 0755); *q = '/'; }
	mkdir(b, 0755);
}
void d_put(const char *path, const void *p, size_t n) {
	char b[1024]; inroot(b, path);
	int fd = open(b, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || write(fd, p, n) != (ssize_t) n) sim_harness_error("cannot write %s: %s", b, strerror(errno));
	close(fd);
}
char *d_file(const char *path, size_t *np) {
	char b[1024]; inroot(b, path);
	int fd = open(b, O_RDONLY); if (fd < 0) return NULL;
	struct stat st; fstat(fd, &st);
	char *p = malloc(st.st_size + 1); ssize_t n = read(fd, p, st.st_size); close(fd);
	if (n < 0) n = 0;
	p[n] = 0; if (np) *np = n;
	return p;
}
char *d_stdout(int i, size_t *n) { char *p = d_file(dprocs[i].outf, n); return p ? p : ""; }
char *d_stderr(int i, size_t *n) { char *p = d_file(dprocs[i].errf, n); return p ? p : ""; }
u64 d_hash(const void *p, size_t n) { return hash_bytes(1469598103934665603ull, p, n); }

static int new_proc(const char *name, int slot, int parent) {
	dproc_t *p = &dprocs[ndprocs];
	if (ndprocs >= 690) sim_harness_error("too many processes");
	p->id = ndprocs; p->slot = slot; p->parent = parent;
	snprintf(p->name, sizeof p->name, "%s", name);
	bl[ndprocs].blocked_at = 0;
	return ndprocs++;
}
// Lets process i go on and waits until it asks again or ends.
static void finish_exit(int i) {
	dproc_t *p = &dprocs[i];
	int st = 0;
	if (p->top || p->parent < 0 || dprocs[p->parent].exited) {
		// ours (directly or adopted)
		while (waitpid(p->pid, &st, 0) < 0 && errno == EINTR) {}
	} else {
		siginfo_t si; memset(&si, 0, sizeof si);
		// the status, without taking it from the parent: not available to us; the scenario knows what it asked for
		st = -1;
	}
	p->exited = 1; p->status = st;
	shm->s[p->slot].state = S_DEAD;
	close(p->pidfd);
	progress++;
	sim_log("exit %x", st);
	sim_hash(0xe0 + i);
	scen_exit(i, st);
}
static void drain(void) { char b[64]; while (read(evr, b, sizeof b) > 0) {} }
// Waits for "slot s is at a request" or "process i has ended".
static int await_one(int i) {
	dproc_t *p = &dprocs[i]; slot_t *s = &shm->s[p->slot];
	while (1) {
		drain();
		if (s->state == S_REQ) return 1;
		struct pollfd f[2] = {{evr, POLLIN, 0}, {p->pidfd, POLLIN, 0}};
		poll(f, 2, 1000);
		if (s->state == S_REQ) return 1;
		if (f[1].revents) { drain(); if (s->state == S_REQ && kill(p->pid, 0) == 0 && !(f[1].revents & POLLIN)) return 1; finish_exit(i); return 0; }
	}
}
static int await_slot(int slot) {
	for (int t = 0; t < 20000; t++) {
		drain();
		if (shm->nslots > slot && shm->s[slot].state == S_REQ) return 1;
		struct pollfd f = {evr, POLLIN, 0};
		poll(&f, 1, 5);
	}
	return 0;
}
static void answer(int i, int err, long lim) {
	slot_t *s = &shm->s[dprocs[i].slot];
	s->err = err; s->lim = lim;
	s->state = S_RUN;
	__sync_synchronize();
	s->go++;
	syscall(SYS_futex, &s->go, FUTEX_WAKE, 1, NULL, NULL, 0);
}
static void open_pidfd(dproc_t *p) {
	p->pidfd = (int) syscall(SYS_pidfd_open, p->pid, 0);
	if (p->pidfd < 0) sim_harness_error("pidfd_open: %s", strerror(errno));
}
int d_start(const char *name, const char *cwd, char **argv, int tag) {
	int slot = shm->nslots;
	int i = new_proc(name, slot, -1);
	dproc_t *p = &dprocs[i];
	p->top = 1; p->tag = tag;
	snprintf(p->cwd, sizeof p->cwd, "%s", cwd);
	snprintf(p->outf, sizeof p->outf, "/out.%d", i); snprintf(p->errf, sizeof p->errf, "/err.%d", i);
	char ob[1024], eb[1024], cb[1024], exe[1024]; inroot(ob, p->outf); inroot(eb, p->errf); inroot(cb, cwd);
	snprintf(exe, sizeof exe, "%s", getenv("DSIM_CHE"));
	char path[600], pre[600], *env[] = {path, pre, "CHELANG_HOME=/S/home", "LANG=C.UTF-8", "RUST_BACKTRACE=0", NULL};
	snprintf(path, sizeof path, "PATH=%s/bin", droot);
	snprintf(pre, sizeof pre, "LD_PRELOAD=%s", getenv("DSIM_SHIM"));
	pid_t pid = fork();
	if (pid < 0) sim_harness_error("fork: %s", strerror(errno));
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
		struct rlimit as = {3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &as);
		alarm(0);
		for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
		int o = open(ob, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644), e = open(eb, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644), in = open("/dev/null", O_RDONLY);
		dup2(in, 0); dup2(o, 1); dup2(e, 2);
		close(o); close(e); close(in);
		if (chdir(cb)) _exit(96);
		execve(exe, argv, env);
		_exit(95);
	}
	p->pid = pid;
	open_pidfd(p);
	if (!await_slot(slot)) sim_harness_error("%s did not start", name);
	shm->s[slot].rng = sim_run_seed ^ (0x9e37ull * (i + 1));
	sim_log("start %s", name);
	return i;
}
int d_stdout_faults;
// Handles the request process i is at: decides, answers, waits for the next one.
static void step(int i) {
	dproc_t *p = &dprocs[i]; slot_t *s = &shm->s[p->slot];
	curp = i; steps++; now_ns += 1000000;
	int op = s->op, err = 0; long lim = 0;
	char path[512]; snprintf(path, sizeof path, "%s", s->path);
	if (op != OP_BLOCKED) progress++;
	if (op != OP_BLOCKED) sim_log("%s %s fd=%d n=%ld", opname[op], path, op == OP_READ || op == OP_WRITE ? s->fd : 0, op == OP_READ || op == OP_WRITE ? s->n : 0);
	sim_hash(i * 31 + op);
	int may = scen_mayfault(i, op, path);
	if (may && p->top && op != OP_BLOCKED && sim_fault(F_KILL)) {
		p->killed = 1;
		kill(p->pid, SIGKILL);
		struct pollfd f = {p->pidfd, POLLIN, 0};
		while (poll(&f, 1, 1000) == 0) {}
		finish_exit(i);
		return;
	}
	if (may) switch (op) {
	case OP_OPEN:
		if ((s->flags & (O_WRONLY | O_RDWR)) && sim_fault(F_ENOSPC)) err = ENOSPC;
		else if (sim_fault(F_OPEN_FAIL)) err = sim_choose(2) ? EMFILE : EACCES;
		break;
	case OP_READ: if (s->a && sim_fault(F_READ_EIO)) err = EIO; else if (s->n > 1 && sim_fault(F_SHORT_READ)) lim = 1 + sim_choose(s->n - 1 > 1000 ? 1000 : s->n - 1); else if (sim_fault(F_EINTR)) { err = EINTR; } break;
	case OP_WRITE:
		if (s->a && (s->fd > 2 || (s->fd == 1 && d_stdout_faults)) && sim_fault(F_WRITE_EIO)) err = EIO;
		else if (s->a && (s->fd > 2 || (s->fd == 1 && d_stdout_faults)) && sim_fault(F_ENOSPC)) err = ENOSPC;
		else if (s->n > 1 && sim_fault(F_SHORT_WRITE)) lim = 1 + sim_choose(s->n - 1 > 1000 ? 1000 : s->n - 1);
		else if (sim_fault(F_EINTR)) err = EINTR;
		break;
	case OP_STAT: if (sim_fault(F_STAT_FAIL)) err = EACCES; break;
	case OP_MKDIR: if (sim_fault(F_ENOSPC)) err = ENOSPC; break;
	case OP_OPENDIR: s->val = 0; if (sim_fault(F_OPEN_FAIL)) err = EMFILE; else if (sim_fault(F_READDIR_ORDER)) s->val = 1 + sim_choose(1 << 20); break;
	case OP_READDIR: if (sim_fault(F_READ_EIO)) err = EIO; break;
	case OP_SPAWN: if (sim_fault(F_FORK_FAIL)) err = EAGAIN; break;
	case OP_EXEC: if (sim_fault(F_EXEC_FAIL)) err = ENOMEM; break;
	case OP_WAIT: if (sim_fault(F_EINTR)) err = EINTR; break;
	}
	else if (op == OP_OPENDIR) s->val = 0;
	if (err && err != EINTR) { p->faults_hit++; scen_fault(i, op, path); }
	if (op == OP_ASK) { s->val = scen_ask(i, s->fd, path); sim_log("ask %d -> %lx", s->fd, s->val); sim_hash(s->val); }
	if (op == OP_TELL) { char *t = malloc(s->textn + 1); memcpy(t, s->text, s->textn); t[s->textn] = 0; scen_tell(i, s->fd, t, s->textn); free(t); }
	if (op == OP_SPAWN && !err) {
		int slot = shm->nslots;
		int isexe = strchr(path, '/') != NULL, isfork = !strcmp(path, "fork");
		answer(i, 0, 0);
		if (!await_one(i)) return;
		if (s->op == OP_SPAWNED && s->a == 0) {
			int c = new_proc(isfork ? "fork" : isexe ? "exe" : path, slot, i);
			dproc_t *q = &dprocs[c];
			snprintf(q->name, sizeof q->name, "%s%d", isfork ? "fork" : isexe ? "exe" : path, c);
			q->pid = (int) s->b; q->exe = isexe; q->c99 = !isexe && !isfork;
			q->tag = p->tag;
			open_pidfd(q);
			if (!await_slot(slot)) sim_harness_error("child %s did not start", q->name);
			shm->s[slot].rng = sim_run_seed ^ (0x9e37ull * (c + 1));
			sim_log("spawned %s", q->name);
		} else if (s->op == OP_SPAWNED) sim_log("spawn failed %ld", s->a);
		return;
	}
	if (op == OP_EXEC && !err) {
		answer(i, 0, 0);
		if (!await_one(i)) return;
		if (s->op == OP_START) { sim_log("exec ok"); p->exe = 1; } else sim_log("exec failed %ld", s->a);
		return;
	}
	answer(i, err, lim);
	await_one(i);
}
static int runnable(int i) {
	if (dprocs[i].exited) return 0;
	slot_t *s = &shm->s[dprocs[i].slot];
	if (s->op == OP_BLOCKED && bl[i].blocked_at == progress) return 0;
	return 1;
}
void d_run(void) {
	while (1) {
		int c[700], n = 0, live = 0;
		for (int i = 0; i < ndprocs; i++) { if (!dprocs[i].exited) live++; if (runnable(i)) c[n++] = i; }
		if (!live) break;
		if (!n) {
			char b[4000] = ""; for (int i = 0; i < ndprocs; i++) if (!dprocs[i].exited && strlen(b) < 3900) { strcat(b, dprocs[i].name); strcat(b, " "); }
			sim_violation("deadlock", "processes wait forever: %s", b);
		}
		if (steps > 400000) sim_violation("livelock", "the processes do not come to an end");
		int k = -1;
		for (int j = 0; j < n; j++) if (c[j] == last) k = j;
		// stay with the current process unless preempted
		if (k < 0) k = (int) sim_choose(n);
		else if (n > 1 && sim_fault(F_PREEMPT)) { int o = (int) sim_choose(n - 1); k = o >= k ? o + 1 : o; }
		last = c[k];
		slot_t *s = &shm->s[dprocs[last].slot];
		if (s->op == OP_BLOCKED) {
			// re-check: it either goes on or blocks again
			u64 before = progress;
			step(last);
			if (!dprocs[last].exited && shm->s[dprocs[last].slot].op == OP_BLOCKED && progress == before) bl[last].blocked_at = progress;
		} else {
			step(last);
			if (!dprocs[last].exited && shm->s[dprocs[last].slot].op == OP_BLOCKED) bl[last].blocked_at = progress;
		}
	}
	curp = -1;
}
void sim_run(u64 seed, u64 index, u32 given_len, int is_replay) {
	sim_run_seed = seed; sim_run_index = index;
	replaying = is_replay; replay_len = given_len;
	tape_pos = 0;
	rng_seed(seed);
	alarm(60);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	R->loghash = R->histhash = 1469598103934665603ull;
	snprintf(rootbuf, sizeof rootbuf, "%s/che-dsim.%d", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : getenv("DSIM_TMP"), (int) getpid());
	droot = rootbuf;
	rmtree(rootbuf);
	if (mkdir(rootbuf, 0755)) sim_harness_error("mkdir %s: %s", rootbuf, strerror(errno));
	int m = memfd_create("shm", 0);
	if (m < 0 || ftruncate(m, sizeof(shm_t))) sim_harness_error("memfd");
	shm = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED, m, 0);
	dup2(m, SHM_FD); close(m);
	int ev[2]; if (pipe(ev)) sim_harness_error("pipe");
	evr = fcntl(ev[0], F_DUPFD_CLOEXEC, 210); close(ev[0]); fcntl(evr, F_SETFL, O_NONBLOCK);
	dup2(ev[1], EV_FD); close(ev[1]); fcntl(EV_FD, F_SETFL, O_NONBLOCK);
	shm->ctl_pid = getpid();
	snprintf(shm->root, sizeof shm->root, "%s", rootbuf);
	d_mkdirs("/bin"); d_mkdirs("/tmp"); d_mkdirs("/S/home/lib"); d_mkdirs("/S/home/bin");
	char b[1024];
	inroot(b, "/bin/c99"); if (symlink(getenv("DSIM_STUB"), b)) sim_harness_error("symlink");
	inroot(b, "/bin/simexe"); if (symlink(getenv("DSIM_STUB"), b)) sim_harness_error("symlink");
	static u32 means[] = {0, 1, 3, 10, 40};
	preempt_mean = means[sim_choose(5)];
	if (preempt_mean) sim_enable(F_PREEMPT, preempt_mean, 100000);
	scen_setup();
	d_run();
	scen_end();
	end_run(RS_OK);
}
long scen_arg(int i) { (void) i; return 0; }
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
