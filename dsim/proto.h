// Shared memory between the controller and the shim in every simulated process.
#ifndef PROTO_H
#define PROTO_H
#include <stdint.h>
#define SHM_FD 200
#define EV_FD 201
#define NSLOTS 700
enum { S_FREE, S_RUN, S_REQ, S_DEAD };
enum { OP_START = 1, OP_OPEN, OP_READ, OP_WRITE, OP_STAT, OP_MKDIR, OP_UNLINK, OP_RENAME, OP_OPENDIR, OP_SPAWN, OP_SPAWNED, OP_EXEC, OP_EXECFAIL, OP_WAIT, OP_BLOCKED, OP_ASK, OP_TELL, OP_FORK, OP_LOCK, OP_RMDIR, OP_READDIR, OP_CLOSE, OP_NOPS };
typedef struct {
	volatile int state;
	volatile int go;          // futex: the controller's answers
	int pid, ppid;
	int op, fd, flags;
	long n, a, b;
	char path[512];
	char text[65536];         // OP_TELL
	long textn;
	// answer
	int err;                  // inject this errno
	long lim;                 // at most so many bytes
	long val;                 // OP_ASK
	int started;              // the shim constructor has run
	uint64_t rng;
} slot_t;
typedef struct {
	int ctl_pid;
	char root[256];           // real directory behind /S and /tmp
	volatile int nslots;
	slot_t s[NSLOTS];
} shm_t;
#endif
