// Drives os/threads: mutual exclusion, condition variables, results, detached threads.
#import os/threads

#define A_THREADS 0
#define A_ITER 1
#define A_ROUNDS 2
#define A_TOKENS 3
#define A_DETACHED 4

#define N_ENTER 1
#define N_LEAVE 2
#define N_ARRIVE 3
#define N_PASS 4
#define N_TAKE 5
#define N_RESULT 6
#define N_COUNT 7
#define N_DETACH 8
#define N_RUN 9
#define N_DONE 10
#define N_PUT 11
#define N_BOOL 12

typedef {
	threads.mtx_t *lock;
	threads.cnd_t *cond;
	threads.cnd_t *slot;
	threads.cnd_t *gone;
	int nthreads;
	int iter;
	int rounds;
	int tokens;
	int counter;
	int arrived;
	int gen;
	int box;
	int taken;
	int left;
} shared_t;

typedef {
	int id;
	int quota;
	bool detached;
	shared_t *sh;
} ctx_t;

void check(bool ok, int where) {
	if (!ok) OS.sim_note(N_BOOL, where, 0);
}

void *thread_main(void *arg) {
	ctx_t *c = arg;
	shared_t *s = c->sh;
	OS.sim_note(N_RUN, c->id, 0);
	// mutual exclusion
	for (int i = 0; i < s->iter; i++) {
		check(threads.lock(s->lock), 1);
		OS.sim_note(N_ENTER, c->id, 0);
		int x = s->counter;
		x++;
		s->counter = x;
		OS.sim_note(N_LEAVE, c->id, 0);
		check(threads.unlock(s->lock), 2);
	}
	// barrier: the last one to arrive wakes all
	for (int r = 0; r < s->rounds; r++) {
		threads.lock(s->lock);
		OS.sim_note(N_ARRIVE, c->id, r);
		s->arrived++;
		if (s->arrived == s->nthreads) {
			s->arrived = 0;
			s->gen++;
			check(threads.wake_all(s->cond), 3);
		} else {
			int g = s->gen;
			while (s->gen == g) {
				check(threads.unlock_wait_lock(s->lock, s->cond), 4);
			}
		}
		OS.sim_note(N_PASS, c->id, r);
		threads.unlock(s->lock);
	}
	// tokens: each put wakes one taker
	for (int i = 0; i < c->quota; i++) {
		threads.lock(s->lock);
		while (s->box == 0) {
			threads.unlock_wait_lock(s->lock, s->slot);
		}
		s->box--;
		s->taken++;
		OS.sim_note(N_TAKE, c->id, i);
		threads.unlock(s->lock);
	}
	int64_t res = 9000 + c->id;
	threads.lock(s->lock);
	s->left--;
	if (s->left == 0) {
		check(threads.wake_one(s->gone), 5);
	}
	threads.unlock(s->lock);
	return (void *) res;
}

int main() {
	shared_t *s = calloc!(1, sizeof(shared_t));
	s->lock = threads.mtx_new();
	s->cond = threads.cnd_new();
	s->slot = threads.cnd_new();
	s->gone = threads.cnd_new();
	if (s->cond == NULL || s->slot == NULL || s->gone == NULL) {
		fprintf(stderr, "no condition\n");
		return 3;
	}
	s->nthreads = OS.sim_arg(A_THREADS);
	s->iter = OS.sim_arg(A_ITER);
	s->rounds = OS.sim_arg(A_ROUNDS);
	s->tokens = OS.sim_arg(A_TOKENS);
	s->left = s->nthreads;
	int detached = OS.sim_arg(A_DETACHED);
	ctx_t *ctx = calloc!(s->nthreads, sizeof(ctx_t));
	threads.thr_t *t[16] = {};
	for (int i = 0; i < s->nthreads; i++) {
		ctx_t c = { .id = i, .quota = OS.sim_arg(16 + i), .sh = s };
		ctx[i] = c;
		t[i] = threads.start(thread_main, &ctx[i]);
		if (i < detached) {
			OS.sim_note(N_DETACH, threads.thr_detach(t[i]), i);
			t[i] = NULL;
		}
	}
	for (int i = 0; i < s->tokens; i++) {
		threads.lock(s->lock);
		s->box++;
		OS.sim_note(N_PUT, i, 0);
		threads.wake_one(s->slot);
		threads.unlock(s->lock);
	}
	for (int i = 0; i < s->nthreads; i++) {
		if (t[i] == NULL) continue;
		void *res = NULL;
		int err = threads.wait(t[i], &res);
		OS.sim_note(N_RESULT, i, (int64_t) res + err * 100000);
	}
	threads.lock(s->lock);
	while (s->left > 0) {
		threads.unlock_wait_lock(s->lock, s->gone);
	}
	OS.sim_note(N_COUNT, s->counter, s->taken);
	threads.unlock(s->lock);
	if (detached == 0) {
		threads.cnd_free(s->cond);
		threads.cnd_free(s->slot);
		threads.cnd_free(s->gone);
		threads.mtx_free(s->lock);
		free(ctx);
		free(s);
	}
	OS.sim_note(N_DONE, 0, 0);
	return 0;
}
