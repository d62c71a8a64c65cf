// Drives os/threads pipes: writers, readers, a closer.
#import os/threads

// arguments from the scenario
#define A_WRITERS 0
#define A_READERS 1
#define A_CLOSER 3
#define A_NULLREADS 4
#define A_PIPES 5
#define A_LATE 6
#define A_FREE 7
#define A_QUOTAS 8
#define A_QUOTA0 24

// notes to the scenario
#define N_WBEGIN 1
#define N_WEND 2
#define N_READ 3
#define N_EOF 4
#define N_DONE 5
#define N_RBEGIN 6
#define N_CLOSE 7
#define N_NULLREAD 8
#define N_JOIN 9
#define N_CLOSED 10

typedef {
	int id;
	threads.pipe_t **pipes;
	int npipes;
	int items;
	int nullreads;
	int quota;
	threads.mtx_t *lock;
	int *left;
	int closer;
} ctx_t;


void *writer_main(void *arg) {
	ctx_t *c = arg;
	for (int i = 0; i < c->items; i++) {
		int64_t v = (c->id + 1) * 100000 + i + 1;
		int p = i % c->npipes;
		OS.sim_note(N_WBEGIN, v, p);
		threads.pwrite(c->pipes[p], (void *) v);
		OS.sim_note(N_WEND, v, p);
	}
	if (c->closer == 1) {
		// The last writer closes.
		bool last = false;
		threads.lock(c->lock);
		int *n = c->left;
		*n = *n - 1;
		last = *n == 0;
		threads.unlock(c->lock);
		if (last) {
			closeall(c->pipes, c->npipes);
		}
	}
	return (void *) ((int64_t) c->id + 7000);
}

void closeall(threads.pipe_t **pipes, int n) {
	for (int i = 0; i < n; i++) {
		OS.sim_note(N_CLOSE, i, 0);
		threads.pclose(pipes[i]);
		OS.sim_note(N_CLOSED, i, 0);
	}
}

void *reader_main(void *arg) {
	ctx_t *c = arg;
	int p = c->id % c->npipes;
	int n = 0;
	while (true) {
		void *v = NULL;
		OS.sim_note(N_RBEGIN, c->id, p);
		if (c->nullreads && n % 3 == 2) {
			if (!threads.pread(c->pipes[p], NULL)) {
				break;
			}
			OS.sim_note(N_NULLREAD, c->id, p);
		} else {
			if (!threads.pread(c->pipes[p], &v)) {
				break;
			}
			OS.sim_note(N_READ, (int64_t) v, c->id * 16 + p);
		}
		n++;
		if (n == c->quota) {
			return (void *) ((int64_t) c->id + 8000);
		}
	}
	OS.sim_note(N_EOF, c->id, p);
	return (void *) ((int64_t) c->id + 8000);
}

int main() {
	int writers = OS.sim_arg(A_WRITERS);
	int readers = OS.sim_arg(A_READERS);
	int npipes = OS.sim_arg(A_PIPES);
	threads.pipe_t *pipes[8] = {};
	for (int i = 0; i < npipes; i++) {
		pipes[i] = threads.newpipe();
	}
	threads.mtx_t *lock = threads.mtx_new();
	int left = writers;
	ctx_t wctx[8] = {};
	ctx_t rctx[8] = {};
	threads.thr_t *wt[8] = {};
	threads.thr_t *rt[8] = {};
	int late = OS.sim_arg(A_LATE);
	if (late == 0) {
		for (int i = 0; i < readers; i++) {
			ctx_t c = { .id = i, .pipes = pipes, .npipes = npipes, .nullreads = OS.sim_arg(A_NULLREADS), .lock = lock, .left = &left, .quota = OS.sim_arg(A_QUOTA0 + i) };
			rctx[i] = c;
			rt[i] = threads.start(reader_main, &rctx[i]);
		}
	}
	for (int i = 0; i < writers; i++) {
		ctx_t c = { .id = i, .pipes = pipes, .npipes = npipes, .items = OS.sim_arg(16 + i), .lock = lock, .left = &left, .closer = OS.sim_arg(A_CLOSER) };
		wctx[i] = c;
		wt[i] = threads.start(writer_main, &wctx[i]);
	}
	if (late == 1) {
		for (int i = 0; i < readers; i++) {
			ctx_t c = { .id = i, .pipes = pipes, .npipes = npipes, .nullreads = OS.sim_arg(A_NULLREADS), .lock = lock, .left = &left, .quota = OS.sim_arg(A_QUOTA0 + i) };
			rctx[i] = c;
			rt[i] = threads.start(reader_main, &rctx[i]);
		}
	}
	for (int i = 0; i < writers; i++) {
		void *res = NULL;
		int err = threads.wait(wt[i], &res);
		OS.sim_note(N_JOIN, err, (int64_t) res - i);
	}
	if (OS.sim_arg(A_CLOSER) == 0 && !OS.sim_arg(A_QUOTAS)) {
		closeall(pipes, npipes);
	}
	for (int i = 0; i < readers; i++) {
		void *res = NULL;
		int err = threads.wait(rt[i], &res);
		OS.sim_note(N_JOIN, err, (int64_t) res - i);
	}
	if (OS.sim_arg(A_QUOTAS)) {
		closeall(pipes, npipes);
	}
	// A closed and drained pipe stays at its end.
	for (int i = 0; i < npipes; i++) {
		void *v = NULL;
		if (threads.pread(pipes[i], &v)) {
			OS.sim_note(N_READ, (int64_t) v, 1000 + i);
		} else {
			OS.sim_note(N_EOF, 1000, i);
		}
	}
	if (OS.sim_arg(A_FREE)) {
		for (int i = 0; i < npipes; i++) {
			threads.freepipe(pipes[i]);
		}
		threads.mtx_free(lock);
	}
	OS.sim_note(N_DONE, 0, 0);
	return 0;
}
