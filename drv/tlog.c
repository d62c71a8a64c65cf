// Drives log and time from several threads.
#import log
#import time
#import os/threads

#define A_THREADS 0
#define A_OPS 1
#define A_OP 1000
#define A_LEN 3000
#define A_T1 5000
#define A_T2 7000
#define A_SLEEP 9000

#define N_LOG 1
#define N_LOGGED 2
#define N_NOW 3
#define N_NOWDONE 4
#define N_SUB 5
#define N_LOCAL 6
#define N_SLEEP 7
#define N_SLEPT 8
#define N_BEGIN 9
#define N_FIELD 20

typedef {
	int id;
} warg_t;

void fields(time.iso_t t, int id) {
	OS.sim_note(N_FIELD, id, t.Y);
	OS.sim_note(N_FIELD + 1, id, t.M);
	OS.sim_note(N_FIELD + 2, id, t.D);
	OS.sim_note(N_FIELD + 3, id, t.h);
	OS.sim_note(N_FIELD + 4, id, t.m);
	OS.sim_note(N_FIELD + 5, id, t.s);
	OS.sim_note(N_FIELD + 6, id, t.ms);
}

void *worker(void *arg) {
	warg_t *a = arg;
	int id = a->id;
	int ops = OS.sim_arg(A_OPS);
	for (int k = 0; k < ops; k++) {
		int at = id * 50 + k;
		int op = OS.sim_arg(A_OP + at);
		if (op == 0) {
			int len = OS.sim_arg(A_LEN + at);
			char *msg = calloc!((size_t) len + 1, 1);
			for (int i = 0; i < len; i++) msg[i] = 33 + (id * 31 + k * 7 + i) % 94;
			OS.sim_note(N_LOG, id, k);
			bool ok = log.logmsg("t%d #%d %s.", id, k, msg);
			OS.sim_note(N_LOGGED, id, ok);
			free(msg);
		} else if (op == 1) {
			OS.sim_note(N_NOW, id, k);
			time.iso_t t = time.now();
			OS.sim_note(N_NOWDONE, id, k);
			fields(t, id);
			OS.sim_note(N_NOW + 100, id, k);
		} else if (op == 2) {
			time.iso_t t1 = time.fromunix(OS.sim_arg(A_T1 + at));
			time.iso_t t2 = time.fromunix(OS.sim_arg(A_T2 + at));
			t1.ms = k * 37 % 1000;
			t2.ms = k * 91 % 1000;
			OS.sim_note(N_BEGIN, id, k);
			OS.sim_note(N_SUB, id, time.sub(t1, t2));
		} else if (op == 3) {
			time.iso_t t1 = time.fromunix(OS.sim_arg(A_T1 + at));
			t1.ms = k;
			OS.sim_note(N_BEGIN, id, k);
			time.iso_tolocal(&t1);
			fields(t1, id);
			OS.sim_note(N_LOCAL, id, k);
		} else {
			OS.sim_note(N_SLEEP, id, k);
			bool ok = time.sleep(OS.sim_arg(A_SLEEP + at));
			OS.sim_note(N_SLEPT, id, ok);
		}
	}
	return NULL;
}

int main() {
	int n = OS.sim_arg(A_THREADS);
	warg_t args[10] = {};
	threads.thr_t *tt[10] = {};
	for (int i = 1; i < n; i++) {
		args[i].id = i;
		tt[i] = threads.start(worker, &args[i]);
	}
	worker(&args[0]);
	for (int i = 1; i < n; i++) {
		threads.wait(tt[i], NULL);
	}
	return 0;
}
