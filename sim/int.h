// Simulator internals.
#ifndef INT_H
#define INT_H
#include "sim.h"

#define ARENA_BASE 0x200000000000ull
#define HEAP_OFF   (1ull << 20)
#define HEAP_SIZE  (192ull << 20)
#define SHADOW_OFF (200ull << 20)          // 1 byte per heap byte / 8: bitmap
#define SHADOW_SIZE (HEAP_SIZE / 8)
#define STACK_OFF  (256ull << 20)
#define STACK_SIZE (1ull << 20)            // per thread
#define MAXTHREADS 200
#define ARENA_SIZE (STACK_OFF + (MAXTHREADS + 8) * STACK_SIZE + (8ull << 20))
#define MAXFD 256
#define MAXARGS 64

struct termios;
typedef struct proc {
	int pid;
	char name[32];
	struct proc *parent;
	int native;              // no memory image
	int memfd;
	u8 *data_image;          // saved appdata
	ofd_t *fds[MAXFD];
	u8 cloexec[MAXFD];
	char cwd[256];
	char **env;
	int exited, status, reaped;
	int nthreads;            // ever created (stack slots)
	int live;                // live tasks
	int faults;
	task_t *main;
	u64 heap_brk, heap_rover;
	int live_blocks;
	void *sighandler[65]; u64 sigpending; struct termios *tio;
	bytes_t out, err;
	bytes_t in; size_t inpos, inbad; u32 infrag; int inopen;
	long fail_after[3];
	int umask;
	long long clock_skew;
	int stack_free[MAXTHREADS];
	int nstack_free;
	void (*atexit_fn[32])(void); int natexit;
	int argc; char **argv;
	int (*native_main)(int, char **, char **);
	int is_child_app;
	int fork_ret_pending;
} proc_s;

enum { T_NEW, T_RUNNABLE, T_BLOCKED, T_DONE };

typedef struct task {
	int id;
	char name[32];
	proc_t *proc;
	void *rsp;
	int state;
	pred_t *pred; void *pa; long pb; u64 deadline;
	const char *what;
	int err;                 // saved errno
	void (*fn)(void *); void *arg;
	void *native_stack;
	int stack_slot;          // in arena, -1 if native
	void *retval;
	int joined, detached, finished;
	void *(*thr_fn)(void *);
	int fork_ret;
	int cond_signaled;
	void *cond_waiting;
	u64 prio;
	u64 stalled_until;
	u32 skipped; // scheduling decisions since it last ran while it could have
	int in_pcall;
} task_s;

enum { O_SINK, O_SOURCE, O_FILE, O_DIR, O_PIPE_R, O_PIPE_W, O_SOCK, O_NULL };

typedef struct vnode {
	char name[256];
	struct vnode *parent;
	int isdir, islink;
	char *target;
	bytes_t data;
	struct vnode **kids; int nkids, capkids;
	int mode;
	int (*prog)(int, char **, char **);
	int unlinked;
	u64 ino;
	u64 mtime;
	size_t bad; // reads from this offset - 1 on fail; 0: none
} vnode_t;

typedef struct pipe_s { bytes_t buf; size_t pos; int readers, writers; size_t cap; } pipe_s;

typedef struct seg { u8 *p; size_t n; u64 at; int fin, rst; struct seg *next; } seg_t;

typedef struct ofd {
	int type, refs;
	int flags;               // O_NONBLOCK, O_APPEND, access mode
	proc_t *owner;           // for SINK/SOURCE
	int which;
	// file
	vnode_t *v; size_t off;
	// pipe
	pipe_s *pipe;
	// socket
	int id;
	int st;                  // S_*
	u32 lip, rip; u16 lport, rport;
	int so_error;
	bytes_t rx; size_t rxpos;
	seg_t *inflight, *inflight_tail;
	u64 last_at;
	int rx_fin, tx_shut, rst;
	int rx_shut;
	struct ofd *peer;        // NULL if gone
	struct ofd *acceptq[64]; int nacc, backlog;
	struct ofd *pend_listener;
	int accepted;
	size_t cap;
	int closed;
	u32 fragmode;
	u64 rcvtimeo, sndtimeo;
	proc_t *creator;
} ofd_s;

enum { S_NEW, S_BOUND, S_LISTEN, S_CONNECTING, S_EST, S_DEAD };

extern task_t *cur;
extern proc_t *img;          // process whose image is mapped
extern u64 now_ns, steps;
extern proc_t *procs[256];
extern int nprocs;
extern task_t *tasks[1024];
extern int ntasks;
extern proc_t *harness_proc;
extern u32 iobuf_size;
extern u32 sock_cap;
extern long long wall_base;  // ns offset between wall clock and sim time

int faulty(int k);           // fault only if current proc is subject to faults
void fd_close_all(proc_t *p);
int fd_alloc(proc_t *p, ofd_t *o, int from);
ofd_t *fd_get(int fd);
void ofd_unref(ofd_t *o);
void proc_exit(proc_t *p, int status) __attribute__((noreturn));
void proc_terminate(proc_t *p, int status);
void task_exit(void) __attribute__((noreturn));
task_t *task_new(proc_t *p, const char *name);
proc_t *proc_fork(void);
void exec_native(int (*fn)(int, char **, char **), int argc, char **argv, char **env) __attribute__((noreturn));
void init_stdio(proc_t *p);
void fs_init(void);
void net_init(void);
void sock_closed(ofd_t *o);
vnode_t *fs_lookup(const char *cwd, const char *path, int follow);
vnode_t *fs_lookup_parent(const char *cwd, const char *path, char *last);
void fs_path(vnode_t *v, char *buf);
void *app_alloc(size_t n, int zero, int *failed);
void app_check(const void *p, size_t n, int write, const char *what);
void sio_flush_all(void);
void sig_raise(int sig);
void sig_deliver(void);
ofd_t *ofd_new(int type);
void swap_to(proc_t *p);
int app_main(int argc, char **argv, char **env);
#endif
