#ifndef RUNNER_H
#define RUNNER_H
#include "sim.h"
#define TAPE_MAX (1u << 20)
#define NPROBES 32
typedef struct { u32 len; u32 v[TAPE_MAX]; } tape_t;
enum { RS_RUNNING, RS_OK, RS_VIOLATION, RS_HARNESS };
typedef struct {
	int status, crash_sig, quiescent, want_log;
	char cls[64], msg[700], detail[1500];
	u64 steps, sim_ns, loghash, histhash;
	int ntasks;
	u64 faults[F_NKINDS];
	u64 probes[NPROBES];
} result_t;
extern result_t *R;
extern tape_t *TAPE;
void sim_run(u64 seed, u64 index, u32 given_len, int is_replay);
#endif
