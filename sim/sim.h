// Deterministic simulator for programs translated by che.
// One OS thread; simulated processes/threads are coroutines; every
// nondeterministic decision goes through the choice tape.
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/types.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

#define MS 1000000ull
#define SEC 1000000000ull
#define FOREVER (~0ull)

// ---------------------------------------------------------------- choices
u32 sim_choose(u32 n);                 // uniform 0..n-1; 0 is the simplest
u32 sim_choose_small(u32 n);           // skewed to small values
int sim_flip(u32 num, u32 den);        // true with probability num/den
u32 sim_range(u32 lo, u32 hi);         // inclusive
int sim_generating(void);

// ---------------------------------------------------------------- faults
enum {
	F_SHORT_READ,    // read/recv gives fewer bytes than available
	F_SHORT_WRITE,   // write/send takes fewer bytes than offered
	F_FRAGMENT,      // a network segment is split and delayed
	F_DELAY,         // a network segment or a process is delayed
	F_READ_EIO,      // disk read error
	F_WRITE_EIO,     // disk write error
	F_ENOSPC,        // disk full (possibly after a partial write)
	F_OPEN_FAIL,     // open fails (EMFILE, EACCES, EIO)
	F_CLOSE_FAIL,    // close reports an error (delayed write error)
	F_SEEK_FAIL,
	F_STAT_FAIL,
	F_READDIR_ORDER, // directory listed in a shuffled order
	F_MALLOC,        // allocation fails
	F_THREAD_CREATE, // pthread_create gives EAGAIN
	F_SPURIOUS,      // spurious condition wake-up
	F_PREEMPT,       // preemption at a scheduling point
	F_MEMPREEMPT,    // preemption between two memory accesses
	F_PIPE_FAIL,     // pipe() fails
	F_FORK_FAIL,     // fork() fails
	F_DUP_FAIL,
	F_EXEC_FAIL,
	F_SOCKET_FAIL,
	F_BIND_FAIL,
	F_LISTEN_FAIL,
	F_SOCKOPT_FAIL,
	F_ACCEPT_FAIL,   // accept: ECONNABORTED / EMFILE
	F_CONNECT_FAIL,  // connect: refused, unreachable, timed out
	F_RESOLVE_FAIL,  // getaddrinfo fails
	F_RESET,         // connection reset in flight
	F_RECV_FAIL,     // recv error
	F_SEND_FAIL,     // send error
	F_EINTR,
	F_EAGAIN,        // spurious readiness: select says ready, read says EAGAIN
	F_STALL,         // the process is stalled for a long simulated time
	F_CLOCK_JUMP,    // wall clock steps
	F_KILL,          // a process is killed
	F_PEER_CLOSE,    // the remote peer closes early
	F_STREAM_ERR,    // reader/writer argument reports an error
	F_STREAM_EOF,    // reader/writer argument ends early
	F_SLOW_SEND,     // a thread is held up right before it sends or writes
	F_NKINDS
};
extern const char *sim_fault_names[F_NKINDS];
// Declares that faults of kind k may happen in this run with a mean distance
// of `mean` opportunities between them; max is how many at most.
void sim_enable(int k, u32 mean, u32 max);
void sim_enable_some(int k, u32 mean, u32 max); // swarm: on in half of the runs
void sim_enable_once(int k, u32 horizon);       // one fault, anywhere in the first `horizon` opportunities
void sim_disable(int k);
int sim_fault(int k);                  // an opportunity; true: inject
void sim_count_fault(int k);           // count one injected by the scenario itself
u64 sim_fired(int k);                  // fired so far in this run
void sim_probe(int i);                 // "this rare condition was hit"

// ---------------------------------------------------------------- verdict
void sim_violation(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_hash(u64 v);                  // add to the run's history hash
void sim_finish(void);                 // ends the run after the current step; scen_end() is called
void sim_detail(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // describes the run (sample)

// ---------------------------------------------------------------- tasks
typedef struct task task_t;
typedef struct proc proc_t;
typedef struct ofd ofd_t;
typedef int pred_t(void *a, long b);

task_t *sim_task(const char *name, void (*fn)(void *), void *arg);  // native task in the harness process
task_t *sim_task_in(proc_t *p, const char *name, void (*fn)(void *), void *arg);
proc_t *sim_native_proc(const char *name);        // harness process: no memory image
proc_t *sim_app(const char *name, int argc, char **argv, char **env); // starts app_main
task_t *sim_proc_main(proc_t *p);
int sim_proc_exited(proc_t *p, int *status);      // status as in waitpid
void sim_proc_kill(proc_t *p, int sig);
void sim_proc_signal(proc_t *p, int sig);           // an asynchronous signal
void sim_set_tty(proc_t *p);                      // stdin is a terminal
extern void (*sim_tty_hook)(proc_t *);            // called when its modes have been set
int sim_tty_mode(proc_t *p);                      // its c_lflag now
int sim_proc_openfds(proc_t *p);
void sim_proc_cwd(proc_t *p, const char *path);
int sim_proc_live_blocks(proc_t *p);
proc_t *sim_proc_fault(proc_t *p, int on);        // whether faults apply to p
int sim_nprocs(void);
proc_t *sim_proc_at(int i);
int sim_proc_pid(proc_t *p);
proc_t *sim_proc_parent(proc_t *p);
int sim_blocked_count(void);                      // app tasks blocked now
const char *sim_blocked_report(void);
proc_t *sim_cur_proc(void);
int sim_task_id(void);
int sim_threads_live(proc_t *p);

int sim_block(const char *what, pred_t *p, void *a, long b, u64 deadline);
void sim_yield(void);
void sim_slow_point(void);
void sim_sleep(u64 ns);
u64 sim_now(void);
u64 sim_steps(void);
void sim_set_step_limit(u64 n);
void sim_at(u64 when, void (*fn)(void *), void *arg);
void sim_set_wall(long long sec);                 // wall clock at start
void sim_set_mem_preempt(u32 mean);
void sim_set_preempt(u32 mean);
void sim_set_pipe_cap(size_t n);                    // 0: seeded per pipe
void sim_set_iobuf(u32 n);                        // stdio buffer size

// captured output of fd 1 / fd 2
const char *sim_stdout_of(proc_t *p, size_t *n);
const char *sim_stderr_of(proc_t *p, size_t *n);
void sim_set_stdin(proc_t *p, const void *data, size_t n); // before the app runs
void sim_stdio_sink_fail(proc_t *p, int fd, long after);   // writes to fd fail after n bytes (EPIPE/ENOSPC)
void sim_stdin_bad(proc_t *p, size_t off);                  // reads from offset off on fail with EIO
void sim_stdin_frag(proc_t *p, u32 maxchunk);
void sim_stdin_open(proc_t *p, int open);                   // 1: more input follows with sim_set_stdin; 0: it ends
size_t sim_stdin_left(proc_t *p);                           // bytes not yet read

// ---------------------------------------------------------------- file system
void fs_mkdir(const char *path);
void fs_remove(const char *path);
void fs_put(const char *path, const void *data, size_t n);
void fs_bad_from(const char *path, size_t off);   // reads from offset off on fail with EIO
void fs_symlink(const char *path, const char *target);
void fs_chmod(const char *path, int mode);
int fs_mode(const char *path);                    // -1 if there is no such file
const u8 *fs_get(const char *path, size_t *n);    // NULL if there is no such file
int fs_exists(const char *path);
void fs_walk(void (*fn)(const char *path, int isdir, const u8 *data, size_t n));
void fs_register_prog(const char *path, int (*fn)(int argc, char **argv, char **env));
void fs_set_capacity(long bytes);                 // real disk-full model; -1: unlimited

// ---------------------------------------------------------------- network
void net_host(const char *name, u32 ip);
void net_drop_conn(ofd_t *o);
ofd_t *sim_ofd(int fd);
void net_set_capacity(u32 bytes);                 // socket buffer
int net_open_conns(void);
int sim_tcp_state(int fd);                        // debugging

// ---------------------------------------------------------------- scenario interface
extern const char *scen_name;
extern const char *scen_probes[];                 // NULL-terminated names
extern const char *scen_rule;
void scen_setup(void);
void scen_note(int what, long a, long b);
void scen_bytes(int what, const void *p, size_t n);
long scen_arg(int i);
size_t scen_str(int id, void *buf, size_t n);
void scen_end(void);
void scen_proc_exit(proc_t *p, int status);       // weak
extern u64 sim_run_index, sim_run_seed;

// real helpers for scenarios
u64 hash_bytes(u64 h, const void *p, size_t n);
char *xsprintf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
typedef struct { u8 *p; size_t n, cap; } bytes_t;
void bytes_add(bytes_t *b, const void *p, size_t n);
void bytes_str(bytes_t *b, const char *s);
void bytes_fmt(bytes_t *b, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void fill_bytes(u8 *p, size_t n, u32 tag);        // deterministic content, no tape
void sim_stream(int id, const void *p, size_t n, int endval); // input; endval: what a read at the end returns
void sim_stream_cap(int id, long n);              // output that fails after n bytes; -1: never
size_t sim_stream_pos(int id);
int sim_stream_bad(int id);                       // 1: an error was reported, 2: ended early
const bytes_t *sim_stream_data(int id);
const char *esc(const void *p, size_t n);         // printable, for messages (static buffers)
#endif
