// Drives os/proc.parallel.
#include <unistd.h>
#import os/proc

#define A_JOBS 0
#define A_PENDING 1
#define A_DELAY 16
#define A_CODE 64
#define A_PRINT 2

#define N_BEGIN 1
#define N_END 2
#define N_RETURN 3
#define N_PRIVATE 4

typedef {
	int id;
	int touched;
} job_t;

int global = 0;

int work(void *arg) {
	job_t *j = arg;
	OS.sim_note(N_BEGIN, j->id, OS.getpid());
	if (global != 0 || j->touched) {
		OS.sim_note(N_PRIVATE, j->id, 1);
	}
	global = 1;
	j->touched = 1;
	OS.usleep(OS.sim_arg(A_DELAY + j->id));
	if (OS.sim_arg(A_PRINT)) {
		printf("job%d\n", j->id);
	}
	OS.sim_note(N_END, j->id, OS.getpid());
	return OS.sim_arg(A_CODE + j->id);
}

int main() {
	int n = OS.sim_arg(A_JOBS);
	job_t *store = calloc!(n + 1, sizeof(job_t));
	void **jobs = calloc!(n + 1, sizeof(void *));
	for (int i = 0; i < n; i++) {
		store[i].id = i;
		jobs[i] = &store[i];
	}
	if (OS.sim_arg(A_PENDING)) {
		printf("pending\n");
	}
	proc.parallel(work, jobs);
	OS.sim_note(N_RETURN, 0, 0);
	for (int i = 0; i < n; i++) {
		if (store[i].touched || global) {
			OS.sim_note(N_PRIVATE, i, 2);
		}
	}
	return 0;
}
