// pthreads on coroutines.
#include "int.h"
#include <pthread.h>
#include <semaphore.h>
#include <time.h>

// Synchronisation objects are identified by (process, address); the state is
// kept here, in the simulator.
typedef struct mtx { proc_t *p; void *addr; task_t *owner; int inited, destroyed, rec, depth, errcheck; struct mtx *next; } mtx_s;
typedef struct cnd { proc_t *p; void *addr; int destroyed; int waiters; struct cnd *next; } cnd_s;
static mtx_s *mtxs; static cnd_s *cnds;
static mtx_s *mtx_of(void *a) {
	for (mtx_s *m = mtxs; m; m = m->next) if (m->addr == a && m->p == cur->proc) return m;
	mtx_s *m = calloc(1, sizeof *m);
	m->p = cur->proc; m->addr = a; m->next = mtxs; mtxs = m;
	return m;
}
static cnd_s *cnd_of(void *a) {
	for (cnd_s *m = cnds; m; m = m->next) if (m->addr == a && m->p == cur->proc) return m;
	cnd_s *m = calloc(1, sizeof *m);
	m->p = cur->proc; m->addr = a; m->next = cnds; cnds = m;
	return m;
}
int arena_stack(task_t *t);
static void thr_main(void *a) {
	(void) a;
	cur->retval = cur->thr_fn(cur->arg);
	cur->finished = 1;
	sim_log("thread %d ends", cur->id);
}
int sim_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
	sim_yield();
	app_check(t, sizeof *t, 1, "pthread_create");
	if (faulty(F_THREAD_CREATE)) { sim_log("pthread_create fails"); return EAGAIN; }
	char name[32];
	snprintf(name, sizeof name, "%.20s.t%d", cur->proc->name, ntasks);
	task_t *n = task_new(cur->proc, name);
	n->thr_fn = fn; n->arg = arg; n->fn = thr_main;
	if (arena_stack(n) < 0) { n->state = T_DONE; cur->proc->live--; return EAGAIN; }
	*t = (pthread_t) (n->id + 1000);
	if (at) { int ds = 0; pthread_attr_getdetachstate(at, &ds); n->detached = ds == PTHREAD_CREATE_DETACHED; }
	sim_log("pthread_create = %d", n->id);
	sim_yield();
	return 0;
}
static task_t *thr(pthread_t t) {
	long id = (long) t - 1000;
	if (id < 0 || id >= ntasks || tasks[id]->proc != cur->proc) return NULL;
	return tasks[id];
}
static int finished(void *a, long b) { (void) b; task_t *t = a; return t->finished || t->state == T_DONE; }
int sim_pthread_join(pthread_t t, void **res) {
	sim_yield();
	task_t *x = thr(t);
	if (!x || x->joined || x->detached) return x ? EINVAL : ESRCH;
	sim_block("join", finished, x, 0, FOREVER);
	x->joined = 1;
	if (res) { app_check(res, 8, 1, "pthread_join"); *res = x->retval; }
	if (x->stack_slot > 0) { cur->proc->stack_free[cur->proc->nstack_free++] = x->stack_slot; x->stack_slot = -1; }
	return 0;
}
int sim_pthread_detach(pthread_t t) {
	sim_yield();
	task_t *x = thr(t);
	if (!x) return ESRCH;
	if (x->detached || x->joined) return EINVAL;
	x->detached = 1;
	return 0;
}
pthread_t sim_pthread_self(void) { return (pthread_t) (cur->id + 1000); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void sim_pthread_exit(void *r) { cur->retval = r; cur->finished = 1; task_exit(); }
int sim_pthread_mutexattr_init(void *a) { *(int *) a = 0; return 0; }
int sim_pthread_mutexattr_destroy(void *a) { (void) a; return 0; }
int sim_pthread_mutexattr_settype(void *a, int t) { *(int *) a = t; return 0; }
int sim_pthread_mutex_init(void *m, const void *at) {
	sim_yield();
	if (faulty(F_THREAD_CREATE)) return EAGAIN;
	mtx_s *x = mtx_of(m);
	x->owner = NULL; x->inited = 1; x->destroyed = 0; x->depth = 0;
	x->rec = at && *(const int *) at == PTHREAD_MUTEX_RECURSIVE;
	x->errcheck = at && *(const int *) at == PTHREAD_MUTEX_ERRORCHECK;
	return 0;
}
int sim_pthread_mutex_destroy(void *m) {
	sim_yield();
	mtx_s *x = mtx_of(m);
	if (x->owner) return EBUSY;
	x->destroyed = 1;
	return 0;
}
static int unowned(void *a, long b) { (void) b; return ((mtx_s *) a)->owner == NULL; }
static void lock_mtx(mtx_s *x) {
	if (x->owner == cur && x->rec) { x->depth++; return; }
	sim_block("mutex", unowned, x, 0, FOREVER);
	x->owner = cur; x->depth = 1;
}
int sim_pthread_mutex_lock(void *m) {
	sim_yield();
	app_check(m, 8, 0, "mutex_lock");
	mtx_s *x = mtx_of(m);
	if (x->destroyed) sim_violation("use-after-destroy", "a destroyed mutex is locked in %s", cur->name);
	if (x->owner == cur && x->errcheck) return EDEADLK;
	lock_mtx(x);
	return 0;
}
int sim_pthread_mutex_trylock(void *m) {
	sim_yield();
	mtx_s *x = mtx_of(m);
	if (x->owner) { if (x->owner == cur && x->rec) { x->depth++; return 0; } return EBUSY; }
	x->owner = cur; x->depth = 1;
	return 0;
}
int sim_pthread_mutex_unlock(void *m) {
	sim_yield();
	app_check(m, 8, 0, "mutex_unlock");
	mtx_s *x = mtx_of(m);
	if (x->owner != cur) {
		if (x->errcheck || x->rec) return EPERM;
		sim_violation("bad-unlock", "a mutex is unlocked by %s, which does not hold it", cur->name);
	}
	if (--x->depth == 0) x->owner = NULL;
	sim_yield();
	return 0;
}
int sim_pthread_cond_init(void *c, const void *at) {
	(void) at;
	sim_yield();
	if (faulty(F_THREAD_CREATE)) return EAGAIN;
	cnd_of(c)->destroyed = 0;
	return 0;
}
int sim_pthread_cond_destroy(void *c) { sim_yield(); cnd_of(c)->destroyed = 1; return 0; }
static int signaled(void *a, long b) { (void) b; return ((task_t *) a)->cond_signaled; }
static int cond_wait(void *c, void *m, u64 deadline) {
	sim_yield();
	app_check(c, 8, 0, "cond_wait");
	cnd_s *x = cnd_of(c);
	if (x->destroyed) sim_violation("use-after-destroy", "waiting on a destroyed condition in %s", cur->name);
	mtx_s *mx = mtx_of(m);
	if (mx->owner != cur) sim_violation("bad-unlock", "waiting on a condition without holding the mutex in %s", cur->name);
	cur->cond_signaled = 0;
	cur->cond_waiting = x;
	int depth = mx->depth;
	mx->owner = NULL; mx->depth = 0;
	int r = 1;
	if (cur->proc->faults && sim_fault(F_SPURIOUS)) {
		// a spurious wake-up, at once or later
		static const u64 d[] = {0, 100000, 5 * MS};
		u64 t = now_ns + d[sim_choose(3)];
		sim_block("cond", signaled, cur, 0, t < deadline ? t : deadline);
	} else r = sim_block("cond", signaled, cur, 0, deadline);
	cur->cond_waiting = NULL;
	sim_block("mutex", unowned, mx, 0, FOREVER);
	mx->owner = cur; mx->depth = depth;
	return r ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_wait(void *c, void *m) { return cond_wait(c, m, FOREVER); }
int sim_pthread_cond_timedwait(void *c, void *m, const struct timespec *ts) {
	long long t = (long long) ts->tv_sec * 1000000000ll + ts->tv_nsec - wall_base;
	return cond_wait(c, m, t < 0 ? now_ns : (u64) t);
}
int sim_pthread_cond_signal(void *c) {
	sim_yield();
	cnd_s *x = cnd_of(c);
	if (x->destroyed) sim_violation("use-after-destroy", "a destroyed condition is signalled in %s", cur->name);
	task_t *w[256]; int n = 0;
	for (int i = 0; i < ntasks && n < 256; i++) if (tasks[i]->cond_waiting == x && !tasks[i]->cond_signaled && tasks[i]->state != T_DONE) w[n++] = tasks[i];
	if (n > 0) w[sim_choose(n)]->cond_signaled = 1; // any of the waiters
	sim_yield();
	return 0;
}
int sim_pthread_cond_broadcast(void *c) {
	sim_yield();
	cnd_s *x = cnd_of(c);
	if (x->destroyed) sim_violation("use-after-destroy", "a destroyed condition is signalled in %s", cur->name);
	for (int i = 0; i < ntasks; i++) if (tasks[i]->cond_waiting == x) tasks[i]->cond_signaled = 1;
	sim_yield();
	return 0;
}
int sim_pthread_attr_init(void *a) { return pthread_attr_init(a); }
int sim_pthread_attr_setdetachstate(void *a, int s) { return pthread_attr_setdetachstate(a, s); }
int sim_pthread_attr_destroy(void *a) { return pthread_attr_destroy(a); }
