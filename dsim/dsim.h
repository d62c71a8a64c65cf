// Scenario interface of the process simulator: real che processes in lockstep.
#ifndef DSIM_H
#define DSIM_H
#include "../sim/sim.h"
#include "dproto.h"
#include <signal.h>
#include <sys/wait.h>
typedef struct {
	int id, slot, parent, pid, pidfd;
	char name[40];
	int exited, status, killed, faults_hit, top, c99, exe;
	char cwd[64], outf[64], errf[64];
	long c99_mode; char c99_out[256];
	char exe_hash[24];
	int tag;
} dproc_t;
extern dproc_t dprocs[700]; extern int ndprocs;
extern const char *droot;                                  // real directory of this run
int d_start(const char *name, const char *cwd, char **argv, int tag); // che by name "che"; returns the index
void d_run(void);                                          // until every process has ended
char *d_file(const char *path, size_t *n);                 // contents, or NULL; path inside the root
void d_put(const char *path, const void *p, size_t n);
void d_mkdirs(const char *path);
char *d_stdout(int i, size_t *n);
char *d_stderr(int i, size_t *n);
u64 d_hash(const void *p, size_t n);
extern int d_stdout_faults;                                // stdout may fail too
extern int d_kill_mean;                                    // eligible for F_KILL: top-level processes
// by the scenario
long scen_ask(int proc, int what, const char *path);
void scen_tell(int proc, int what, const char *text, size_t n);
void scen_exit(int proc, int status);
void scen_fault(int proc, int op, const char *path);       // a fault hit this process
int scen_mayfault(int proc, int op, const char *path);     // whether it may
#endif
