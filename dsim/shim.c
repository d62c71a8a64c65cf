// LD_PRELOADed into che and its stub children: every system interaction waits
// for the controller's turn and takes its faults from there.
#define _GNU_SOURCE
#include "proto.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <dirent.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <unistd.h>
#include <time.h>
extern char **environ;
static shm_t *shm; static slot_t *me;
#define REAL(name) static __typeof__(&name) r; if (!r) r = (__typeof__(&name)) dlsym(RTLD_NEXT, #name);

static void notify(void) { char c = 1; syscall(SYS_write, EV_FD, &c, 1); }
static void await(int seen) {
	while (me->go == seen) {
		struct timespec t = {2, 0};
		syscall(SYS_futex, &me->go, FUTEX_WAIT, seen, &t, NULL, 0);
		if (me->go == seen && kill(shm->ctl_pid, 0) != 0) syscall(SYS_exit_group, 99);
	}
}
static void request(int op) {
	int e = errno;
	me->op = op; me->err = 0; me->lim = 0;
	int seen = me->go;
	__sync_synchronize();
	me->state = S_REQ;
	notify();
	await(seen);
	errno = e;
}
static void join_in(void) {
	int pid = (int) syscall(SYS_getpid);
	me = NULL;
	for (int i = 0; i < shm->nslots; i++) if (shm->s[i].pid == pid && shm->s[i].state != S_DEAD && shm->s[i].state != S_FREE) me = &shm->s[i];
	if (!me) {
		int i = __sync_fetch_and_add(&shm->nslots, 1);
		if (i >= NSLOTS) _exit(98);
		me = &shm->s[i];
		me->pid = pid;
		me->rng = 0;
	}
	me->path[0] = 0;
	request(OP_START);
}
__attribute__((constructor)) static void init(void) {
	void *m = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED, SHM_FD, 0);
	if (m == MAP_FAILED) return;
	shm = m;
	join_in();
}
static const char *map(const char *p, char *buf) {
	if (!p) return p;
	if (!strncmp(p, "/S/", 3)) { snprintf(buf, 1024, "%s/S/%s", shm->root, p + 3); return buf; }
	if (!strcmp(p, "/S")) { snprintf(buf, 1024, "%s/S", shm->root); return buf; }
	if (!strncmp(p, "/tmp/", 5)) { snprintf(buf, 1024, "%s/tmp/%s", shm->root, p + 5); return buf; }
	return p;
}
static int internal(const char *p) { return p && (!strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5) || !strncmp(p, "/etc/", 5) || !strncmp(p, "/usr/", 5) || !strncmp(p, "/dev/", 5)) && strncmp(p, shm->root, strlen(shm->root)); }
static void setpath(const char *p) { snprintf(me->path, sizeof me->path, "%s", p ? p : ""); }

static int do_open(const char *path, int flags, mode_t mode) {
	char b[1024];
	if (shm && !internal(path)) {
		setpath(path); me->flags = flags; request(OP_OPEN);
		if (me->err) { errno = me->err; return -1; }
		path = map(path, b);
	}
	return (int) syscall(SYS_openat, AT_FDCWD, path, flags | O_LARGEFILE, mode);
}
int open64(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(path, flags, m); }
int open(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); if (d == AT_FDCWD) return do_open(path, flags, m); return (int) syscall(SYS_openat, d, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); if (d == AT_FDCWD) return do_open(path, flags, m); return (int) syscall(SYS_openat, d, path, flags, m); }
static int isfile(int fd) { struct stat st; if (syscall(SYS_fstat, fd, &st)) return 1; return S_ISREG(st.st_mode) || S_ISDIR(st.st_mode) || S_ISCHR(st.st_mode); }
// Waits until fd is ready, letting the others run meanwhile.
static void ready(int fd, int ev) {
	while (1) {
		struct pollfd p = {fd, ev, 0}; struct timespec z = {0, 0};
		if (syscall(SYS_ppoll, &p, 1, &z, NULL, 0) != 0) return;
		me->fd = fd; request(OP_BLOCKED);
	}
}
static ssize_t pre_io(int op, int fd, size_t n, size_t *m) {
	*m = n;
	if (!shm || fd == EV_FD || fd == SHM_FD) return 0;
	int file = isfile(fd);
	me->fd = fd; me->n = (long) n; me->a = file; me->path[0] = 0;
	request(op);
	if (me->err) { errno = me->err; return -1; }
	long lim = me->lim;
	if (!file) {
		if (!(syscall(SYS_fcntl, fd, F_GETFL) & O_NONBLOCK)) ready(fd, op == OP_READ ? POLLIN : POLLOUT);
		if (op == OP_WRITE && *m > 4096) *m = 4096;
	}
	if (lim > 0 && (size_t) lim < *m) *m = (size_t) lim;
	return 0;
}
ssize_t read(int fd, void *b, size_t n) { size_t m; if (pre_io(OP_READ, fd, n, &m) < 0) return -1; return syscall(SYS_read, fd, b, m); }
ssize_t write(int fd, const void *b, size_t n) { size_t m; if (pre_io(OP_WRITE, fd, n, &m) < 0) return -1; return syscall(SYS_write, fd, b, m); }
ssize_t readv(int fd, const struct iovec *v, int k) { for (int i = 0; i < k; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t writev(int fd, const struct iovec *v, int k) { for (int i = 0; i < k; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t recv(int fd, void *b, size_t n, int f) { if (shm) ready(fd, POLLIN); return syscall(SYS_recvfrom, fd, b, n, f, NULL, NULL); }
ssize_t recvmsg(int fd, struct msghdr *m, int f) { if (shm) ready(fd, POLLIN); return syscall(SYS_recvmsg, fd, m, f); }
#define STATLIKE(path, call) do { if (shm && !internal(path)) { setpath(path); request(OP_STAT); if (me->err) { errno = me->err; return -1; } path = map(path, b); } return (int) (call); } while (0)
int stat64(const char *path, struct stat64 *s) { char b[1024]; STATLIKE(path, syscall(SYS_newfstatat, AT_FDCWD, path, s, 0)); }
int stat(const char *path, struct stat *s) { char b[1024]; STATLIKE(path, syscall(SYS_newfstatat, AT_FDCWD, path, s, 0)); }
int lstat64(const char *path, struct stat64 *s) { char b[1024]; STATLIKE(path, syscall(SYS_newfstatat, AT_FDCWD, path, s, AT_SYMLINK_NOFOLLOW)); }
int lstat(const char *path, struct stat *s) { char b[1024]; STATLIKE(path, syscall(SYS_newfstatat, AT_FDCWD, path, s, AT_SYMLINK_NOFOLLOW)); }
int access(const char *path, int mode) { char b[1024]; STATLIKE(path, syscall(SYS_faccessat, AT_FDCWD, path, mode)); }
int shim_statx(int d, const char *path, int flags, unsigned mask, void *s) asm("statx");
int shim_statx(int d, const char *path, int flags, unsigned mask, void *s) {
	char b[1024];
	if (shm && path && path[0] && s && d == AT_FDCWD && !internal(path)) {
		setpath(path); request(OP_STAT);
		if (me->err) { errno = me->err; return -1; }
		path = map(path, b);
	}
	return (int) syscall(SYS_statx, d, path, flags, mask, s);
}
int mkdir(const char *path, mode_t mode) { char b[1024]; if (shm) { setpath(path); request(OP_MKDIR); if (me->err) { errno = me->err; return -1; } path = map(path, b); } return (int) syscall(SYS_mkdir, path, mode); }
int rmdir(const char *path) { char b[1024]; if (shm) { setpath(path); request(OP_RMDIR); path = map(path, b); } return (int) syscall(SYS_rmdir, path); }
int unlink(const char *path) { char b[1024]; if (shm) { setpath(path); request(OP_UNLINK); path = map(path, b); } return (int) syscall(SYS_unlink, path); }
int unlinkat(int d, const char *path, int f) { char b[1024]; if (shm) { setpath(path); request(OP_UNLINK); path = map(path, b); } return (int) syscall(SYS_unlinkat, d, path, f); }
int rename(const char *x, const char *y) { char b[1024], c[1024]; if (shm) { setpath(y); request(OP_RENAME); if (me->err) { errno = me->err; return -1; } x = map(x, b); y = map(y, c); } return (int) syscall(SYS_rename, x, y); }
int renameat2(int d, const char *x, int e, const char *y, unsigned f) { char b[1024], c[1024]; if (shm) { setpath(y); request(OP_RENAME); x = map(x, b); y = map(y, c); } return (int) syscall(SYS_renameat2, d, x, e, y, f); }
int renameat(int d, const char *x, int e, const char *y) { return renameat2(d, x, e, y, 0); }
int symlink(const char *x, const char *y) { char b[1024], c[1024]; if (shm) { setpath(y); request(OP_RENAME); x = map(x, b); y = map(y, c); } return (int) syscall(SYS_symlink, x, y); }
int linkat(int d, const char *x, int e, const char *y, int f) { char b[1024], c[1024]; if (shm) { setpath(y); request(OP_RENAME); x = map(x, b); y = map(y, c); } return (int) syscall(SYS_linkat, d, x, e, y, f); }
int link(const char *x, const char *y) { return linkat(AT_FDCWD, x, AT_FDCWD, y, 0); }
ssize_t readlink(const char *path, char *t, size_t n) { char b[1024]; if (shm && !internal(path)) { setpath(path); request(OP_STAT); path = map(path, b); } return syscall(SYS_readlink, path, t, n); }
int truncate64(const char *path, off64_t n) { char b[1024]; if (shm) { setpath(path); request(OP_WRITE); path = map(path, b); } return (int) syscall(SYS_truncate, path, n); }
int mkdirat(int d, const char *path, mode_t m) { char b[1024]; if (shm) { setpath(path); request(OP_MKDIR); path = map(path, b); } return (int) syscall(SYS_mkdirat, d, path, m); }
int chmod(const char *path, mode_t m) { char b[1024]; if (shm) path = map(path, b); return (int) syscall(SYS_chmod, path, m); }
int chdir(const char *path) { char b[1024]; if (shm) path = map(path, b); return (int) syscall(SYS_chdir, path); }
char *getcwd(char *buf, size_t n) {
	char t[1024];
	if (syscall(SYS_getcwd, t, sizeof t) < 0) return NULL;
	const char *p = t; size_t k = shm ? strlen(shm->root) : 0;
	if (shm && !strncmp(t, shm->root, k)) p = t + k;
	if (!buf) return strdup(p);
	if (strlen(p) + 1 > n) { errno = ERANGE; return NULL; }
	return strcpy(buf, p);
}
char *realpath(const char *path, char *out) {
	REAL(realpath) char b[1024], t[4096];
	if (!shm) return r(path, out);
	setpath(path); request(OP_STAT);
	if (me->err) { errno = me->err; return NULL; }
	if (!r(map(path, b), t)) return NULL;
	const char *p = t; size_t k = strlen(shm->root);
	if (!strncmp(t, shm->root, k)) p = t + k;
	if (!out) return strdup(p);
	return strcpy(out, p);
}
// Directories are read at once and served in the controller's order.
typedef struct { DIR *d; int n, pos; struct dirent64 *e; } sdir;
static sdir dirs[32];
static sdir *finddir(DIR *d) { for (int i = 0; i < 32; i++) if (dirs[i].d == d && d) return &dirs[i]; return NULL; }
DIR *opendir(const char *path) {
	REAL(opendir)
	if (!shm) return r(path);
	char b[1024];
	setpath(path); request(OP_OPENDIR);
	if (me->err) { errno = me->err; return NULL; }
	uint64_t order = (uint64_t) me->val;
	DIR *d = r(map(path, b));
	if (!d) return NULL;
	sdir *s = NULL;
	for (int i = 0; i < 32 && !s; i++) if (!dirs[i].d) s = &dirs[i];
	if (!s) return d;
	struct dirent64 *(*rd)(DIR *) = dlsym(RTLD_NEXT, "readdir64"), *e;
	s->d = d; s->n = s->pos = 0; s->e = NULL;
	while ((e = rd(d))) { s->e = realloc(s->e, (s->n + 1) * sizeof *e); s->e[s->n++] = *e; }
	// a fixed order first: the real one depends on the disk
	for (int i = 1; i < s->n; i++) for (int j = i; j > 0 && strcmp(s->e[j].d_name, s->e[j - 1].d_name) < 0; j--) { struct dirent64 t = s->e[j]; s->e[j] = s->e[j - 1]; s->e[j - 1] = t; }
	if (order) for (int i = s->n - 1; i > 0; i--) { order = order * 6364136223846793005ull + 1442695040888963407ull; int j = (int) ((order >> 33) % (i + 1)); struct dirent64 t = s->e[j]; s->e[j] = s->e[i]; s->e[i] = t; }
	return d;
}
struct dirent64 *readdir64(DIR *d) {
	REAL(readdir64)
	sdir *s = finddir(d);
	if (!s) return r(d);
	if (shm) { me->path[0] = 0; request(OP_READDIR); if (me->err) { errno = me->err; return NULL; } }
	return s->pos < s->n ? &s->e[s->pos++] : NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *) readdir64(d); }
int closedir(DIR *d) { REAL(closedir) sdir *s = finddir(d); if (s) { free(s->e); memset(s, 0, sizeof *s); } return r(d); }
ssize_t getrandom(void *b, size_t n, unsigned flags) {
	if (!shm) return syscall(SYS_getrandom, b, n, flags);
	for (size_t i = 0; i < n; i++) { me->rng = me->rng * 6364136223846793005ull + 1442695040888963407ull; ((uint8_t *) b)[i] = (uint8_t) (me->rng >> 40); }
	return (ssize_t) n;
}
int poll(struct pollfd *p, nfds_t k, int timeout) {
	struct timespec z = {0, 0};
	if (!shm) { struct timespec t = {timeout / 1000, timeout % 1000 * 1000000L}; return (int) syscall(SYS_ppoll, p, k, timeout < 0 ? NULL : &t, NULL, 0); }
	while (1) {
		int r = (int) syscall(SYS_ppoll, p, k, &z, NULL, 0);
		if (r != 0 || timeout == 0) return r;
		me->fd = -1; request(OP_BLOCKED);
	}
}
int flock(int fd, int op) {
	if (!shm || (op & LOCK_NB) || op == LOCK_UN) return (int) syscall(SYS_flock, fd, op);
	me->fd = fd; me->path[0] = 0; request(OP_LOCK);
	if (me->err) { errno = me->err; return -1; }
	while (syscall(SYS_flock, fd, op | LOCK_NB) != 0) {
		if (errno != EWOULDBLOCK) return -1;
		request(OP_BLOCKED);
	}
	return 0;
}
static pid_t do_wait(pid_t pid, int *st, int opt) {
	if (!shm || (opt & WNOHANG)) return (pid_t) syscall(SYS_wait4, pid, st, opt, NULL);
	me->path[0] = 0;
	request(OP_WAIT);
	if (me->err) { errno = me->err; return -1; }
	while (1) {
		pid_t r = (pid_t) syscall(SYS_wait4, pid, st, opt | WNOHANG, NULL);
		if (r != 0) return r;
		me->fd = -1; request(OP_BLOCKED);
	}
}
pid_t waitpid(pid_t pid, int *st, int opt) { return do_wait(pid, st, opt); }
pid_t wait(int *st) { return do_wait(-1, st, 0); }
pid_t wait4(pid_t pid, int *st, int opt, struct rusage *u) { (void) u; return do_wait(pid, st, opt); }
int waitid(idtype_t t, id_t id, siginfo_t *si, int opt) {
	if (!shm || (opt & WNOHANG)) return (int) syscall(SYS_waitid, t, id, si, opt, NULL);
	request(OP_WAIT);
	while (1) {
		si->si_pid = 0;
		int r = (int) syscall(SYS_waitid, t, id, si, opt | WNOHANG, NULL);
		if (r != 0 || si->si_pid) return r;
		request(OP_BLOCKED);
	}
}
// Executables made by the stub compiler are texts; a stub runs them.
static const char *exe_for(const char *file, char *buf) {
	char b[1024], h[8] = {0};
	if (!strchr(file, '/')) return file;
	const char *p = map(file, b);
	int fd = (int) syscall(SYS_openat, AT_FDCWD, p, O_RDONLY);
	if (fd < 0) return strcpy(buf, p);
	struct stat st; syscall(SYS_fstat, fd, &st);
	long n = syscall(SYS_read, fd, h, 7);
	syscall(SYS_close, fd);
	if (n == 7 && !memcmp(h, "SIMEXE\n", 7) && (st.st_mode & 0111)) {
		char full[1200];
		if (p[0] == '/') snprintf(full, sizeof full, "%s", p); else snprintf(full, sizeof full, "./%s", p);
		setenv("SIMEXE", full, 1);
		snprintf(buf, 1024, "%s/bin/simexe", shm->root);
		return buf;
	}
	return strcpy(buf, p);
}
static char **with_simexe(char *const envp[]) {
	const char *v = getenv("SIMEXE"); int n = 0;
	while (envp[n]) n++;
	char **e = malloc((n + 2) * sizeof *e); int k = 0;
	for (int i = 0; i < n; i++) if (strncmp(envp[i], "SIMEXE=", 7)) e[k++] = envp[i];
	if (v) { char *s = malloc(strlen(v) + 10); sprintf(s, "SIMEXE=%s", v); e[k++] = s; }
	e[k] = NULL;
	return e;
}
static int do_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[], int p) {
	static int (*r1)(), (*r2)();
	if (!r1) { r1 = dlsym(RTLD_NEXT, "posix_spawnp"); r2 = dlsym(RTLD_NEXT, "posix_spawn"); }
	if (!shm) return (p ? r1 : r2)(pid, file, fa, at, argv, envp);
	setpath(file); request(OP_SPAWN);
	if (me->err) return me->err;
	char b[1024]; pid_t child = 0;
	const char *f = exe_for(file, b);
	int e = (p ? r1 : r2)(&child, f, fa, at, argv, with_simexe(envp));
	me->a = e; me->b = child;
	request(OP_SPAWNED);
	if (pid) *pid = child;
	return e;
}
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return do_spawn(pid, file, fa, at, argv, envp, 1); }
int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return do_spawn(pid, file, fa, at, argv, envp, 0); }
int pidfd_spawnp(int *fd, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { (void) fd; (void) file; (void) fa; (void) at; (void) argv; (void) envp; return ENOSYS; }
pid_t fork(void) {
	REAL(fork)
	if (!shm) return r();
	setpath("fork"); request(OP_SPAWN);
	if (me->err) { errno = me->err; return -1; }
	slot_t *parent = me;
	pid_t c = r();
	if (c == 0) { join_in(); return 0; }
	me = parent;
	me->a = c < 0 ? errno : 0; me->b = c;
	request(OP_SPAWNED);
	return c;
}
static int do_exec(const char *file, char *const argv[], char *const envp[], int p) {
	static int (*re)(const char *, char *const[], char *const[]);
	if (!re) re = dlsym(RTLD_NEXT, p ? "execvpe" : "execve");
	if (!shm) return re(file, argv, envp);
	setpath(file); request(OP_EXEC);
	if (me->err) { errno = me->err; return -1; }
	char b[1024];
	const char *f = exe_for(file, b);
	re(f, argv, with_simexe(envp));
	int e = errno;
	me->a = e; request(OP_EXECFAIL);
	errno = e;
	return -1;
}
int execvp(const char *file, char *const argv[]) { return do_exec(file, argv, environ, 1); }
int execv(const char *file, char *const argv[]) { return do_exec(file, argv, environ, 0); }
int execve(const char *file, char *const argv[], char *const envp[]) { return do_exec(file, argv, envp, 0); }
// Process numbers are shown in messages and may name files: a function of the run.
pid_t getpid(void) { return me ? 1000 + (pid_t) (me - shm->s) : (pid_t) syscall(SYS_getpid); }
pid_t gettid(void) { return me ? 1000 + (pid_t) (me - shm->s) : (pid_t) syscall(SYS_gettid); }
// For the stubs.
long dsim_ask(int what, const char *path) { setpath(path); me->fd = what; request(OP_ASK); return me->val; }
void dsim_tell(int what, const void *p, size_t n) { if (n > sizeof me->text) n = sizeof me->text; memcpy(me->text, p, n); me->textn = (long) n; me->fd = what; me->path[0] = 0; request(OP_TELL); }
const char *dsim_root(void) { return shm->root; }
