// File descriptors, in-memory file system, pipes, processes, time, signals.
#include "int.h"
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/select.h>
#include <poll.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#include <signal.h>
#include <termios.h>

ofd_t *ofd_new(int type) { ofd_t *o = calloc(1, sizeof *o); o->type = type; return o; }
ofd_t *fd_get(int fd) {
	proc_t *p = cur->proc;
	if (fd < 0 || fd >= MAXFD || !p->fds[fd]) { errno = EBADF; return NULL; }
	return p->fds[fd];
}
ofd_t *sim_ofd(int fd) { return fd_get(fd); }
int fd_alloc(proc_t *p, ofd_t *o, int from) {
	for (int i = from; i < MAXFD; i++) if (!p->fds[i]) {
		p->fds[i] = o; o->refs++;
		p->cloexec[i] = 0;
		return i;
	}
	errno = EMFILE;
	return -1;
}
void ofd_unref(ofd_t *o) {
	if (--o->refs > 0) return;
	switch (o->type) {
	case O_PIPE_R: o->pipe->readers--; break;
	case O_PIPE_W: o->pipe->writers--; break;
	case O_SOCK: sock_closed(o); return; // kept: events may refer to it
	}
	// never freed: blocked tasks and events may still refer to it
}
void fd_close_all(proc_t *p) {
	for (int i = 0; i < MAXFD; i++) if (p->fds[i]) { ofd_t *o = p->fds[i]; p->fds[i] = NULL; ofd_unref(o); }
}
int sim_close(int fd) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) { sim_log("close(%d): EBADF", fd); return -1; }
	cur->proc->fds[fd] = NULL;
	int isfile = o->type == O_FILE && (o->flags & O_ACCMODE) != O_RDONLY;
	ofd_unref(o);
	sim_log("close(%d)", fd);
	if (isfile && faulty(F_CLOSE_FAIL)) { errno = EIO; return -1; }
	return 0;
}
int sim_dup2(int a, int b) {
	sim_yield();
	ofd_t *o = fd_get(a);
	if (!o) return -1;
	if (b < 0 || b >= MAXFD) { errno = EBADF; return -1; }
	if (faulty(F_DUP_FAIL)) { errno = EBUSY; return -1; }
	if (a == b) return b;
	if (cur->proc->fds[b]) ofd_unref(cur->proc->fds[b]);
	cur->proc->fds[b] = o; o->refs++;
	cur->proc->cloexec[b] = 0;
	return b;
}
int sim_dup(int a) {
	sim_yield();
	ofd_t *o = fd_get(a);
	if (!o) return -1;
	if (faulty(F_DUP_FAIL)) { errno = EMFILE; return -1; }
	return fd_alloc(cur->proc, o, 0);
}
int sim_fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	switch (cmd) {
	case F_GETFL: return o->flags;
	case F_SETFL: o->flags = (o->flags & O_ACCMODE) | ((int) arg & (O_NONBLOCK | O_APPEND)); return 0;
	case F_GETFD: return cur->proc->cloexec[fd];
	case F_SETFD: cur->proc->cloexec[fd] = arg & 1; return 0;
	case F_DUPFD: return fd_alloc(cur->proc, o, (int) arg);
	case F_DUPFD_CLOEXEC: { int n = fd_alloc(cur->proc, o, (int) arg); if (n >= 0) cur->proc->cloexec[n] = 1; return n; }
	}
	errno = EINVAL;
	return -1;
}

// ------------------------------------------------------------------ file system
static vnode_t *root;
static u64 next_ino = 10;
static long disk_cap = -1;
static long disk_used(vnode_t *v) { long n = (long) v->data.n; for (int i = 0; i < v->nkids; i++) n += disk_used(v->kids[i]); return n; }
void fs_set_capacity(long n) { disk_cap = n; }
static vnode_t *vnew(vnode_t *parent, const char *name, int isdir) {
	vnode_t *v = calloc(1, sizeof *v);
	snprintf(v->name, sizeof v->name, "%s", name);
	v->parent = parent; v->isdir = isdir; v->mode = isdir ? 0755 : 0644;
	v->ino = next_ino++;
	v->mtime = now_ns;
	if (parent) {
		if (parent->nkids == parent->capkids) { parent->capkids = parent->capkids * 2 + 8; parent->kids = realloc(parent->kids, parent->capkids * sizeof(vnode_t *)); }
		parent->kids[parent->nkids++] = v;
	}
	return v;
}
void fs_init(void) {
	root = vnew(NULL, "", 1);
	vnode_t *dev = vnew(root, "dev", 1); (void) dev;
	vnew(root, "tmp", 1);
}
static vnode_t *kid(vnode_t *d, const char *name, size_t n) {
	for (int i = 0; i < d->nkids; i++) if (strlen(d->kids[i]->name) == n && !memcmp(d->kids[i]->name, name, n)) return d->kids[i];
	return NULL;
}
static vnode_t *walk(vnode_t *d, const char *path, int follow, int depth, vnode_t **lastdir, char *lastname) {
	if (depth > 10) { errno = ELOOP; return NULL; }
	if (*path == '/') d = root;
	for (;;) {
		while (*path == '/') path++;
		if (!*path) { if (lastname) { *lastname = 0; *lastdir = d; } return d; }
		const char *e = strchr(path, '/');
		size_t n = e ? (size_t) (e - path) : strlen(path);
		const char *rest = e ? e : path + n;
		const char *r2 = rest; while (*r2 == '/') r2++;
		int last = *r2 == 0;
		if (n > 255) { errno = ENAMETOOLONG; return NULL; }
		if (!d->isdir) { errno = ENOTDIR; return NULL; }
		if (last && lastname) { memcpy(lastname, path, n); lastname[n] = 0; *lastdir = d; }
		vnode_t *k;
		if (n == 1 && path[0] == '.') k = d;
		else if (n == 2 && path[0] == '.' && path[1] == '.') k = d->parent ? d->parent : d;
		else k = kid(d, path, n);
		if (!k) { errno = ENOENT; if (!last && lastname) *lastdir = NULL; return NULL; }
		if (k->islink && (!last || follow || *rest == '/')) {
			k = walk(d, k->target, 1, depth + 1, NULL, NULL);
			if (!k) return NULL;
		}
		if (*rest == '/' && !k->isdir) { errno = ENOTDIR; return NULL; }
		d = k;
		path = rest;
	}
}
vnode_t *fs_lookup(const char *cwd, const char *path, int follow) {
	if (!*path) { errno = ENOENT; return NULL; }
	vnode_t *d = walk(root, cwd, 1, 0, NULL, NULL);
	if (!d) { errno = ENOENT; return NULL; }
	return walk(d, path, follow, 0, NULL, NULL);
}
vnode_t *fs_lookup_parent(const char *cwd, const char *path, char *last) {
	vnode_t *d = walk(root, cwd, 1, 0, NULL, NULL), *dir = NULL;
	if (!d || !*path) { errno = ENOENT; return NULL; }
	last[0] = 0;
	walk(d, path, 0, 0, &dir, last);
	if (!dir) return NULL;
	return dir;
}
void fs_path(vnode_t *v, char *buf) {
	if (v == root) { strcpy(buf, "/"); return; }
	if (v->parent == root) { sprintf(buf, "/%s", v->name); return; }
	fs_path(v->parent, buf);
	strcat(buf, "/"); strcat(buf, v->name);
}
static vnode_t *mkpath(const char *path, int isdir) {
	char tmp[1024]; snprintf(tmp, sizeof tmp, "%s", path);
	vnode_t *d = root;
	char *save = NULL;
	char *parts[64]; int n = 0;
	for (char *s = strtok_r(tmp, "/", &save); s; s = strtok_r(NULL, "/", &save)) parts[n++] = s;
	for (int i = 0; i < n; i++) {
		vnode_t *k = kid(d, parts[i], strlen(parts[i]));
		if (!k) k = vnew(d, parts[i], i < n - 1 || isdir);
		d = k;
	}
	return d;
}
void fs_mkdir(const char *path) { mkpath(path, 1); }
void fs_put(const char *path, const void *data, size_t n) { vnode_t *v = mkpath(path, 0); v->data.n = 0; bytes_add(&v->data, data, n); }
void fs_bad_from(const char *path, size_t off) { mkpath(path, 0)->bad = off + 1; }
void fs_symlink(const char *path, const char *t) { vnode_t *v = mkpath(path, 0); v->islink = 1; v->target = strdup(t); }
void fs_chmod(const char *path, int mode) { mkpath(path, 0)->mode = mode; }
int fs_mode(const char *path) { vnode_t *v = fs_lookup("/", path, 1); return v ? (int) v->mode : -1; }
const u8 *fs_get(const char *path, size_t *n) {
	vnode_t *v = fs_lookup("/", path, 1);
	if (!v || v->isdir) return NULL;
	if (n) *n = v->data.n;
	return v->data.p ? v->data.p : (const u8 *) "";
}
void fs_remove(const char *path) {
	vnode_t *v = fs_lookup("/", path, 0);
	if (!v) return;
	vnode_t *d = v->parent;
	for (int i = 0; i < d->nkids; i++) if (d->kids[i] == v) { d->kids[i] = d->kids[--d->nkids]; break; }
}
int fs_exists(const char *path) { return fs_lookup("/", path, 0) != NULL; }
static void walk_all(vnode_t *v, void (*fn)(const char *, int, const u8 *, size_t)) {
	char path[4096]; fs_path(v, path);
	fn(path, v->isdir, v->data.p, v->data.n);
	for (int i = 0; i < v->nkids; i++) walk_all(v->kids[i], fn);
}
void fs_walk(void (*fn)(const char *, int, const u8 *, size_t)) { walk_all(root, fn); }
void fs_register_prog(const char *path, int (*fn)(int, char **, char **)) { vnode_t *v = mkpath(path, 0); v->prog = fn; v->mode = 0755; }

int sim_open(const char *path, int flags, ...) {
	va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
	sim_yield();
	app_check(path, strlen(path) + 1, 0, "open");
	if (faulty(F_OPEN_FAIL)) {
		int es[] = {EMFILE, EACCES, ENFILE, EIO};
		errno = es[sim_choose(4)];
		sim_log("open(%s) fails", path);
		return -1;
	}
	if (strlen(path) >= 4096) { errno = ENAMETOOLONG; return -1; }
	if (!strcmp(path, "/dev/null")) { ofd_t *o = ofd_new(O_NULL); o->flags = flags; return fd_alloc(cur->proc, o, 0); }
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 1);
	if (!v) {
		if (!(flags & O_CREAT) || errno != ENOENT) { sim_log("open(%s): %s", path, strerror(errno)); return -1; }
		char last[300];
		vnode_t *d = fs_lookup_parent(cur->proc->cwd, path, last);
		if (!d || !d->isdir || !last[0]) { errno = ENOENT; return -1; }
		if (kid(d, last, strlen(last))) { errno = ENOENT; return -1; }
		v = vnew(d, last, 0);
		v->mode = mode & 0777 & ~022;
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		if (v->isdir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
		if ((flags & O_DIRECTORY) && !v->isdir) { errno = ENOTDIR; return -1; }
		if ((flags & O_ACCMODE) != O_WRONLY && !(v->mode & 0400)) { errno = EACCES; return -1; }
		if ((flags & O_ACCMODE) != O_RDONLY && !(v->mode & 0200)) { errno = EACCES; return -1; }
		if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) v->data.n = 0;
	}
	ofd_t *o = ofd_new(v->isdir ? O_DIR : O_FILE);
	o->v = v; o->flags = flags & (O_ACCMODE | O_APPEND | O_NONBLOCK);
	int fd = fd_alloc(cur->proc, o, 0);
	sim_log("open(%s) = %d", path, fd);
	return fd;
}
int sim_creat(const char *path, int mode) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC, mode); }

static int pipe_readable(void *a, long b) { (void) b; pipe_s *p = a; return p->buf.n > p->pos || p->writers == 0; }
static int pipe_writable(void *a, long b) { pipe_s *p = a; return p->readers == 0 || p->cap - (p->buf.n - p->pos) >= (size_t) b; }
ssize_t sock_recv(ofd_t *o, void *buf, size_t n, int flags);
ssize_t sock_send(ofd_t *o, const void *buf, size_t n, int flags);
int sock_readable(ofd_t *o);
int sock_writable(ofd_t *o);

static size_t shorten(size_t n, int kind) {
	if (n > 1 && faulty(kind)) {
		if (sim_flip(1, 2)) return 1;
		return 1 + sim_choose_small((u32) (n - 1));
	}
	return n;
}
static int source_readable(void *a, long b) { (void) b; proc_t *p = a; return p->in.n > p->inpos || !p->inopen; }
ssize_t sim_read(int fd, void *buf, size_t n) {
	sim_yield();
	app_check(buf, n, 1, "read");
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (n > 0x7ffff000) n = 0x7ffff000;
	ssize_t r = -1;
	switch (o->type) {
	case O_SOURCE: {
		proc_t *p = o->owner;
		if (faulty(F_READ_EIO)) { errno = EIO; return -1; }
		if (n && p->inpos == p->in.n && p->inopen) sim_block("read(stdin)", source_readable, p, 0, FOREVER);
		size_t av = p->in.n - p->inpos;
		if (n < av) av = n;
		if (av && p->inbad && p->inpos + av >= p->inbad) { av = p->inbad - 1 - p->inpos; if (!av) { sim_count_fault(F_READ_EIO); errno = EIO; return -1; } }
		if (p->infrag && av > p->infrag) av = 1 + sim_choose(p->infrag);
		av = shorten(av, F_SHORT_READ);
		if (av) memcpy(buf, p->in.p + p->inpos, av);
		p->inpos += av;
		r = (ssize_t) av;
		break;
	}
	case O_SINK: errno = EBADF; return -1;
	case O_NULL: return 0;
	case O_DIR: errno = EISDIR; return -1;
	case O_FILE: {
		if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
		if (faulty(F_READ_EIO)) { errno = EIO; sim_log("read(%d): EIO", fd); return -1; }
		size_t av = o->off < o->v->data.n ? o->v->data.n - o->off : 0;
		if (n < av) av = n;
		if (av && o->v->bad && o->off + av >= o->v->bad) { av = o->off < o->v->bad ? o->v->bad - 1 - o->off : 0; if (!av) { sim_count_fault(F_READ_EIO); errno = EIO; sim_log("read(%d): EIO", fd); return -1; } }
		av = shorten(av, F_SHORT_READ);
		if (av) memcpy(buf, o->v->data.p + o->off, av);
		o->off += av;
		r = (ssize_t) av;
		break;
	}
	case O_PIPE_R: {
		pipe_s *p = o->pipe;
		if (n == 0) return 0;
		if (!pipe_readable(p, 0)) {
			if (o->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
			if (faulty(F_EINTR)) { errno = EINTR; return -1; }
			sim_block("read(pipe)", pipe_readable, p, 0, FOREVER);
		}
		size_t av = p->buf.n - p->pos;
		if (n < av) av = n;
		av = shorten(av, F_SHORT_READ);
		if (av) memcpy(buf, p->buf.p + p->pos, av);
		p->pos += av;
		if (p->pos == p->buf.n) p->pos = p->buf.n = 0;
		r = (ssize_t) av;
		break;
	}
	case O_PIPE_W: errno = EBADF; return -1;
	case O_SOCK: r = sock_recv(o, buf, n, 0); break;
	}
	sim_log("read(%d, %zu) = %zd %llx", fd, n, r, r > 0 ? (unsigned long long) hash_bytes(7, buf, r) : 0);
	return r;
}
static int file_write(ofd_t *o, const void *buf, size_t n, size_t *done) {
	vnode_t *v = o->v;
	size_t at = (o->flags & O_APPEND) ? v->data.n : o->off;
	size_t grow = at + n > v->data.n ? at + n - v->data.n : 0;
	if (disk_cap >= 0 && grow > 0) {
		long room = disk_cap - disk_used(root);
		if (room < 0) room = 0;
		if ((long) grow > room) {
			size_t m = n - (grow - (size_t) room);
			sim_count_fault(F_ENOSPC);
			if (m == 0 || m > n) { errno = ENOSPC; return -1; }
			n = m;
		}
	}
	while (v->data.n < at) bytes_add(&v->data, "\0", 1);
	size_t over = v->data.n - at; if (over > n) over = n;
	if (over) memcpy(v->data.p + at, buf, over);
	if (n > over) bytes_add(&v->data, (const u8 *) buf + over, n - over);
	o->off = at + n;
	v->mtime = now_ns;
	*done = n;
	return 0;
}
ssize_t sim_write(int fd, const void *buf, size_t n) {
	sim_yield();
	sim_slow_point();
	app_check(buf, n, 0, "write");
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	ssize_t r = -1;
	switch (o->type) {
	case O_SOURCE: errno = EBADF; return -1;
	case O_NULL: return (ssize_t) n;
	case O_SINK: {
		proc_t *p = o->owner;
		bytes_t *b = o->which == 1 ? &p->out : &p->err;
		if (p->fail_after[o->which] >= 0 && (long) (b->n + n) > p->fail_after[o->which]) {
			size_t room = p->fail_after[o->which] > (long) b->n ? p->fail_after[o->which] - b->n : 0;
			sim_count_fault(F_ENOSPC);
			if (room == 0) { errno = ENOSPC; return -1; }
			n = room;
		}
		n = shorten(n, F_SHORT_WRITE);
		bytes_add(b, buf, n);
		r = (ssize_t) n;
		break;
	}
	case O_FILE: {
		if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
		if (faulty(F_WRITE_EIO)) { errno = EIO; sim_log("write(%d): EIO", fd); return -1; }
		size_t m = n;
		if (n > 0 && faulty(F_ENOSPC)) {
			m = sim_choose((u32) n);
			if (m == 0) { errno = ENOSPC; sim_log("write(%d): ENOSPC", fd); return -1; }
		} else m = shorten(n, F_SHORT_WRITE);
		if (file_write(o, buf, m, &m) < 0) return -1;
		r = (ssize_t) m;
		break;
	}
	case O_PIPE_W: {
		pipe_s *p = o->pipe;
		size_t sent = 0;
		while (sent < n || n == 0) {
			if (p->readers == 0) {
				sig_raise(SIGPIPE);
				if (sent) return (ssize_t) sent;
				errno = EPIPE; return -1;
			}
			if (n == 0) break;
			size_t room = p->cap - (p->buf.n - p->pos);
			size_t want = n - sent;
			if (room == 0 || (n <= 4096 && sent == 0 && room < n && p->cap >= n)) {
				if (o->flags & O_NONBLOCK) { if (sent) break; errno = EAGAIN; return -1; }
				sim_block("write(pipe)", pipe_writable, p, n <= 4096 && sent == 0 && p->cap >= n ? (long) n : 1, FOREVER);
				continue;
			}
			if (want > room) want = room;
			if (p->pos > 0 && p->pos == p->buf.n) p->pos = p->buf.n = 0;
			bytes_add(&p->buf, (const u8 *) buf + sent, want);
			sent += want;
			if (sent < n && faulty(F_SHORT_WRITE)) break;
		}
		r = (ssize_t) sent;
		break;
	}
	case O_PIPE_R: errno = EBADF; return -1;
	case O_DIR: errno = EBADF; return -1;
	case O_SOCK: r = sock_send(o, buf, n, 0); break;
	}
	sim_log("write(%d, %zu) = %zd %llx", fd, n, r, r > 0 ? (unsigned long long) hash_bytes(7, buf, r) : 0);
	return r;
}
ssize_t sim_readv(int fd, const struct iovec *v, int n) {
	ssize_t t = 0;
	for (int i = 0; i < n; i++) {
		if (v[i].iov_len == 0) continue;
		ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return t ? t : r;
		t += r;
		if ((size_t) r < v[i].iov_len) break;
	}
	return t;
}
ssize_t sim_writev(int fd, const struct iovec *v, int n) {
	ssize_t t = 0;
	for (int i = 0; i < n; i++) {
		if (v[i].iov_len == 0) continue;
		ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return t ? t : r;
		t += r;
		if ((size_t) r < v[i].iov_len) break;
	}
	return t;
}
off_t sim_lseek(int fd, off_t off, int wh) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_FILE) { errno = ESPIPE; return -1; }
	if (faulty(F_SEEK_FAIL)) { errno = EIO; return -1; }
	off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t) o->off : (off_t) o->v->data.n;
	if (b + off < 0) { errno = EINVAL; return -1; }
	o->off = (size_t) (b + off);
	return (off_t) o->off;
}
ssize_t sim_pread(int fd, void *buf, size_t n, off_t at) {
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_FILE) { errno = ESPIPE; return -1; }
	size_t save = o->off; o->off = (size_t) at;
	ssize_t r = sim_read(fd, buf, n);
	o->off = save;
	return r;
}
ssize_t sim_pwrite(int fd, const void *buf, size_t n, off_t at) {
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_FILE) { errno = ESPIPE; return -1; }
	size_t save = o->off; o->off = (size_t) at;
	ssize_t r = sim_write(fd, buf, n);
	o->off = save;
	return r;
}
int sim_ftruncate(int fd, off_t n) {
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->type != O_FILE) { errno = EINVAL; return -1; }
	sim_yield();
	while ((off_t) o->v->data.n < n) bytes_add(&o->v->data, "\0", 1);
	o->v->data.n = (size_t) n;
	return 0;
}
int sim_truncate(const char *path, off_t n) {
	sim_yield();
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 1);
	if (!v) return -1;
	while ((off_t) v->data.n < n) bytes_add(&v->data, "\0", 1);
	v->data.n = (size_t) n;
	return 0;
}
int sim_fsync(int fd) { sim_yield(); return fd_get(fd) ? 0 : -1; }
static void fill_stat(vnode_t *v, struct stat *s) {
	memset(s, 0, sizeof *s);
	s->st_ino = v->ino; s->st_dev = 1; s->st_nlink = 1;
	s->st_mode = v->mode | (v->islink ? S_IFLNK : v->isdir ? S_IFDIR : S_IFREG);
	s->st_size = v->isdir ? 4096 : (off_t) v->data.n;
	s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512;
	u64 t = (u64) (wall_base + (long long) v->mtime);
	s->st_mtim.tv_sec = t / SEC; s->st_mtim.tv_nsec = t % SEC;
	s->st_ctim = s->st_atim = s->st_mtim;
}
static int do_stat(const char *path, struct stat *s, int follow) {
	sim_yield();
	app_check(s, sizeof *s, 1, "stat");
	if (faulty(F_STAT_FAIL)) { errno = EACCES; return -1; }
	if (strlen(path) >= 4096) { errno = ENAMETOOLONG; return -1; }
	vnode_t *v = fs_lookup(cur->proc->cwd, path, follow);
	if (!v) return -1;
	fill_stat(v, s);
	return 0;
}
int sim_stat(const char *path, struct stat *s) { return do_stat(path, s, 1); }
int sim_lstat(const char *path, struct stat *s) { return do_stat(path, s, 0); }
int sim_fstat(int fd, struct stat *s) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (faulty(F_STAT_FAIL)) { errno = EIO; return -1; }
	if (o->v) { fill_stat(o->v, s); return 0; }
	memset(s, 0, sizeof *s);
	s->st_mode = o->type == O_SOCK ? S_IFSOCK | 0600 : S_IFIFO | 0600;
	return 0;
}
int sim_access(const char *path, int mode) {
	sim_yield();
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 1);
	if (!v) return -1;
	if ((mode & R_OK && !(v->mode & 0400)) || (mode & W_OK && !(v->mode & 0200)) || (mode & X_OK && !(v->mode & 0100))) { errno = EACCES; return -1; }
	return 0;
}
int sim_unlink(const char *path) {
	sim_yield();
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 0);
	if (!v) return -1;
	if (v->isdir) { errno = EISDIR; return -1; }
	vnode_t *d = v->parent;
	for (int i = 0; i < d->nkids; i++) if (d->kids[i] == v) { d->kids[i] = d->kids[--d->nkids]; break; }
	sim_log("unlink(%s)", path);
	return 0; // vnode stays alive for open descriptors
}
int sim_rmdir(const char *path) {
	sim_yield();
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 0);
	if (!v) return -1;
	if (!v->isdir) { errno = ENOTDIR; return -1; }
	if (v->nkids) { errno = ENOTEMPTY; return -1; }
	vnode_t *d = v->parent;
	for (int i = 0; i < d->nkids; i++) if (d->kids[i] == v) { d->kids[i] = d->kids[--d->nkids]; break; }
	return 0;
}
int sim_remove(const char *path) {
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 0);
	if (v && v->isdir) return sim_rmdir(path);
	return sim_unlink(path);
}
int sim_rename(const char *a, const char *b) {
	sim_yield();
	if (faulty(F_STAT_FAIL)) { errno = EACCES; return -1; }
	vnode_t *v = fs_lookup(cur->proc->cwd, a, 0);
	if (!v) return -1;
	char last[300];
	vnode_t *old = fs_lookup(cur->proc->cwd, b, 0), *nd;
	if (old) { nd = old->parent; strcpy(last, old->name); if (old->isdir != v->isdir) { errno = old->isdir ? EISDIR : ENOTDIR; return -1; } }
	else nd = fs_lookup_parent(cur->proc->cwd, b, last);
	if (!nd || !last[0]) { errno = ENOENT; return -1; }
	if (old == v) return 0;
	if (old) { for (int i = 0; i < nd->nkids; i++) if (nd->kids[i] == old) { nd->kids[i] = nd->kids[--nd->nkids]; break; } }
	vnode_t *d = v->parent;
	for (int i = 0; i < d->nkids; i++) if (d->kids[i] == v) { d->kids[i] = d->kids[--d->nkids]; break; }
	strcpy(v->name, last);
	v->parent = nd;
	if (nd->nkids == nd->capkids) { nd->capkids = nd->capkids * 2 + 8; nd->kids = realloc(nd->kids, nd->capkids * sizeof(vnode_t *)); }
	nd->kids[nd->nkids++] = v;
	sim_log("rename(%s, %s)", a, b);
	return 0;
}
int sim_mkdir(const char *path, unsigned mode) {
	sim_yield();
	char last[300];
	if (faulty(F_OPEN_FAIL)) { errno = EACCES; return -1; }
	vnode_t *d = fs_lookup_parent(cur->proc->cwd, path, last);
	if (!d) return -1;
	if (!last[0] || kid(d, last, strlen(last))) { errno = EEXIST; return -1; }
	vnode_t *v = vnew(d, last, 1);
	v->mode = mode & 0777;
	return 0;
}
int sim_chdir(const char *path) {
	sim_yield();
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 1);
	if (!v) return -1;
	if (!v->isdir) { errno = ENOTDIR; return -1; }
	char b[4096]; fs_path(v, b);
	snprintf(cur->proc->cwd, sizeof cur->proc->cwd, "%s", b);
	return 0;
}
char *sim_getcwd(char *buf, size_t n) {
	sim_yield();
	if (strlen(cur->proc->cwd) + 1 > n) { errno = ERANGE; return NULL; }
	if (!buf) { int f; buf = app_alloc(n ? n : 4096, 1, &f); }
	strcpy(buf, cur->proc->cwd);
	return buf;
}
char *sim_realpath(const char *path, char *out) {
	sim_yield();
	if (!path) { errno = EINVAL; return NULL; }
	app_check(path, strlen(path) + 1, 0, "realpath");
	if (faulty(F_STAT_FAIL)) { errno = EACCES; return NULL; }
	if (strlen(path) >= 4096) { errno = ENAMETOOLONG; return NULL; }
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 1);
	if (!v) return NULL;
	char b[8192]; fs_path(v, b);
	if (strlen(b) >= 4096) { errno = ENAMETOOLONG; return NULL; }
	if (!out) { int f; out = app_alloc(strlen(b) + 1, 1, &f); }
	app_check(out, strlen(b) + 1, 1, "realpath");
	strcpy(out, b);
	return out;
}
ssize_t sim_readlink(const char *path, char *buf, size_t n) {
	sim_yield();
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 0);
	if (!v) return -1;
	if (!v->islink) { errno = EINVAL; return -1; }
	size_t m = strlen(v->target); if (m > n) m = n;
	memcpy(buf, v->target, m);
	return (ssize_t) m;
}
int sim_chmod(const char *path, unsigned mode) {
	sim_yield();
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 1);
	if (!v) return -1;
	v->mode = mode & 07777;
	return 0;
}
int sim_fchmod(int fd, unsigned mode) {
	sim_yield();
	ofd_t *o = fd_get(fd);
	if (!o) return -1;
	if (o->v) o->v->mode = mode & 07777;
	return 0;
}

// directories
typedef struct { int fd; vnode_t *v; char (*names)[256]; u8 *types; u64 *inos; int n, pos; struct dirent *ent; int reads; int ending; } sdir_t;
static sdir_t *dir_of(void *d) { return *(sdir_t **) d; }
void *sim_opendir(const char *path) {
	sim_yield();
	if (faulty(F_OPEN_FAIL)) { errno = sim_flip(1, 2) ? EACCES : EMFILE; return NULL; }
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 1);
	if (!v) return NULL;
	if (!v->isdir) { errno = ENOTDIR; return NULL; }
	ofd_t *o = ofd_new(O_DIR); o->v = v;
	int fd = fd_alloc(cur->proc, o, 0);
	if (fd < 0) return NULL;
	sdir_t *d = calloc(1, sizeof *d);
	d->fd = fd; d->v = v;
	d->names = calloc(v->nkids + 2, 256); d->types = calloc(v->nkids + 2, 1); d->inos = calloc(v->nkids + 2, 8);
	strcpy(d->names[0], "."); d->types[0] = DT_DIR; strcpy(d->names[1], ".."); d->types[1] = DT_DIR;
	d->n = 2;
	for (int i = 0; i < v->nkids; i++) {
		strcpy(d->names[d->n], v->kids[i]->name);
		d->types[d->n] = v->kids[i]->islink ? DT_LNK : v->kids[i]->isdir ? DT_DIR : DT_REG;
		d->inos[d->n] = v->kids[i]->ino;
		d->n++;
	}
	// any order is legal, including where "." and ".." come
	if (cur->proc->faults && sim_fault(F_READDIR_ORDER)) {
		for (int i = d->n - 1; i > 0; i--) {
			int j = i - (int) sim_choose(i + 1);
			char t[256]; memcpy(t, d->names[i], 256); memcpy(d->names[i], d->names[j], 256); memcpy(d->names[j], t, 256);
			u8 x = d->types[i]; d->types[i] = d->types[j]; d->types[j] = x;
			u64 y = d->inos[i]; d->inos[i] = d->inos[j]; d->inos[j] = y;
		}
	}
	int f;
	void **h = app_alloc(sizeof(void *), 1, &f);
	*h = d;
	d->ent = app_alloc(sizeof(struct dirent), 1, &f);
	return h;
}
struct dirent *sim_readdir(void *h) {
	sim_yield();
	app_check(h, 8, 0, "readdir");
	sdir_t *d = dir_of(h);
	if (d->pos < d->n && faulty(F_READ_EIO)) { errno = EIO; return NULL; }
	if (d->pos >= d->n) return NULL;
	// the returned entry is overwritten by the next call
	memset(d->ent, 0xee, sizeof *d->ent);
	d->ent->d_ino = d->inos[d->pos]; d->ent->d_type = d->types[d->pos]; d->ent->d_reclen = sizeof *d->ent;
	strcpy(d->ent->d_name, d->names[d->pos]);
	d->pos++;
	return d->ent;
}
int sim_closedir(void *h) {
	sim_yield();
	app_check(h, 8, 0, "closedir");
	sdir_t *d = dir_of(h);
	extern void sim_free(void *);
	ofd_t *o = cur->proc->fds[d->fd];
	if (o) { cur->proc->fds[d->fd] = NULL; ofd_unref(o); }
	sim_free(d->ent); sim_free(h);
	return 0;
}
void sim_rewinddir(void *h) { dir_of(h)->pos = 0; }
int sim_dirfd(void *h) { return dir_of(h)->fd; }

// ------------------------------------------------------------------ pipes, processes
static size_t pipe_cap;
void sim_set_pipe_cap(size_t n) { pipe_cap = n; }
int sim_pipe2(int fd[2], int flags) {
	sim_yield();
	app_check(fd, 8, 1, "pipe");
	if (faulty(F_PIPE_FAIL)) { errno = sim_flip(1, 2) ? EMFILE : ENFILE; sim_log("pipe fails"); return -1; }
	pipe_s *p = calloc(1, sizeof *p);
	p->readers = p->writers = 1;
	static const u32 caps[] = {65536, 4096, 512, 64, 16};
	p->cap = pipe_cap ? pipe_cap : (size_t) caps[sim_choose(5)];
	ofd_t *r = ofd_new(O_PIPE_R), *w = ofd_new(O_PIPE_W);
	r->pipe = w->pipe = p;
	w->flags = O_WRONLY;
	if (flags & O_NONBLOCK) { r->flags |= O_NONBLOCK; w->flags |= O_NONBLOCK; }
	fd[0] = fd_alloc(cur->proc, r, 0);
	fd[1] = fd_alloc(cur->proc, w, 0);
	if (fd[0] < 0 || fd[1] < 0) return -1;
	if (flags & O_CLOEXEC) cur->proc->cloexec[fd[0]] = cur->proc->cloexec[fd[1]] = 1;
	sim_log("pipe = %d %d", fd[0], fd[1]);
	return 0;
}
int sim_pipe(int fd[2]) { return sim_pipe2(fd, 0); }
int sim_fork(void) {
	sim_yield();
	if (faulty(F_FORK_FAIL)) { errno = EAGAIN; sim_log("fork fails"); return -1; }
	proc_t *c = proc_fork();
	int r = cur->fork_ret;
	(void) c;
	sim_log("fork = %d", r);
	if (r > 0) sim_yield();
	return r;
}
int sim_vfork(void) { return sim_fork(); }
static char **copyv(char *const *v, int *n) {
	int m = 0; while (v && v[m]) m++;
	char **r = calloc(m + 1, sizeof *r);
	for (int i = 0; i < m; i++) r[i] = strdup(v[i]);
	if (n) *n = m;
	return r;
}
int sim_execve(const char *path, char *const argv[], char *const env[]) {
	sim_yield();
	if (faulty(F_EXEC_FAIL)) { errno = ENOMEM; return -1; }
	vnode_t *v = fs_lookup(cur->proc->cwd, path, 1);
	if (!v) return -1;
	if (!v->prog) { errno = v->mode & 0111 ? ENOEXEC : EACCES; return -1; }
	int n; char **av = copyv(argv, &n), **ev = copyv(env, NULL);
	sim_log("execve(%s)", path);
	proc_t *p = cur->proc;
	for (int i = 0; i < MAXFD; i++) if (p->fds[i] && p->cloexec[i]) { ofd_unref(p->fds[i]); p->fds[i] = NULL; }
	for (int i = 0; i < 65; i++) if (p->sighandler[i] != (void *) SIG_IGN) p->sighandler[i] = NULL;
	exec_native(v->prog, n, av, ev);
}
int sim_execv(const char *path, char *const argv[]) { return sim_execve(path, argv, cur->proc->env); }
int sim_execvp(const char *f, char *const argv[]) { return sim_execve(f, argv, cur->proc->env); }
typedef struct { proc_t *parent; int pid; } waitq_t;
static proc_t *waitable(proc_t *parent, int pid) {
	for (int i = 0; i < nprocs; i++) {
		proc_t *p = procs[i];
		if (p->parent == parent && p->exited && !p->reaped && (pid <= 0 || p->pid == pid)) return p;
	}
	return NULL;
}
static int wait_pred(void *a, long pid) { return waitable(a, (int) pid) != NULL; }
int sim_waitpid(int pid, int *status, int opts) {
	sim_yield();
	proc_t *me = cur->proc;
	int any = 0;
	for (int i = 0; i < nprocs; i++) if (procs[i]->parent == me && !procs[i]->reaped && (pid <= 0 || procs[i]->pid == pid)) any = 1;
	if (!any) { errno = ECHILD; sim_log("waitpid(%d): ECHILD", pid); return -1; }
	if (!waitable(me, pid)) {
		if (opts & WNOHANG) return 0;
		if (faulty(F_EINTR)) { errno = EINTR; return -1; }
		sim_block("waitpid", wait_pred, me, pid, FOREVER);
	}
	// which of several finished children is reported first is not determined
	proc_t *c[64]; int n = 0;
	for (int i = 0; i < nprocs && n < 64; i++) {
		proc_t *p = procs[i];
		if (p->parent == me && p->exited && !p->reaped && (pid <= 0 || p->pid == pid)) c[n++] = p;
	}
	proc_t *p = c[sim_choose(n)];
	p->reaped = 1;
	if (status) { app_check(status, 4, 1, "waitpid"); *status = p->status; }
	sim_log("waitpid(%d) = %d status %x", pid, p->pid, p->status);
	return p->pid;
}
int sim_wait(int *status) { return sim_waitpid(-1, status, 0); }
void sim__exit(int code) { sim_yield(); proc_exit(cur->proc, (code & 255) << 8); }
int sim_atexit(void (*fn)(void)) { proc_t *p = cur->proc; if (p->natexit < 32) p->atexit_fn[p->natexit++] = fn; return 0; }
void sim_exit(int code) {
	sim_yield();
	proc_t *p = cur->proc;
	while (p->natexit > 0) p->atexit_fn[--p->natexit]();
	if (!p->native) sio_flush_all();
	proc_exit(p, (code & 255) << 8);
}
void sim_abort(void) { proc_exit(cur->proc, SIGABRT); }
void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
	(void) file; (void) line; (void) fn;
	sim_log("assertion failed: %s", e);
	bytes_fmt(&cur->proc->err, "assertion failed: %s\n", e);
	proc_exit(cur->proc, SIGABRT);
}
int sim_getpid(void) { return cur->proc->pid; }
int sim_getppid(void) { return cur->proc->parent ? cur->proc->parent->pid : 1; }
char *sim_getenv(const char *k) {
	size_t n = strlen(k);
	for (int i = 0; cur->proc->env && cur->proc->env[i]; i++)
		if (!strncmp(cur->proc->env[i], k, n) && cur->proc->env[i][n] == '=') return cur->proc->env[i] + n + 1;
	return NULL;
}
int sim_kill(int pid, int sig) {
	sim_yield();
	for (int i = 0; i < nprocs; i++) if (procs[i]->pid == pid && !procs[i]->exited) {
		if (sig) { if (procs[i] == cur->proc) sig_raise(sig); else proc_terminate(procs[i], sig); }
		return 0;
	}
	errno = ESRCH; return -1;
}
void sig_raise(int sig) {
	void *h = cur->proc->sighandler[sig];
	if ((cur->proc->native && sig == SIGPIPE) || h == (void *) SIG_IGN) return;
	if (h == NULL) {
		if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH || sig == SIGCONT) return;
		sim_log("killed by signal %d", sig);
		proc_exit(cur->proc, sig);
	}
	((void (*)(int)) h)(sig);
}
// A signal from outside; it is delivered at the next point where the process can be interrupted.
void sim_proc_signal(proc_t *p, int sig) { if (!p->exited) p->sigpending |= 1ull << sig; }
void sig_deliver(void) {
	for (int s = 1; s < 64; s++) if (cur->proc->sigpending >> s & 1) { cur->proc->sigpending &= ~(1ull << s); sim_log("signal %d", s); sig_raise(s); }
}
// The terminal on descriptor 0.
void (*sim_tty_hook)(proc_t *);
void sim_set_tty(proc_t *p) { p->tio = calloc(1, sizeof *p->tio); p->tio->c_lflag = ICANON | ECHO | ISIG; p->tio->c_cc[VMIN] = 1; }
int sim_tty_mode(proc_t *p) { return p->tio ? (int) p->tio->c_lflag : -1; }
int sim_tcgetattr(int fd, struct termios *t) {
	sim_yield(); ofd_t *o = fd_get(fd); if (!o) return -1;
	if (o->type != O_SOURCE || !cur->proc->tio) { errno = ENOTTY; return -1; }
	app_check(t, sizeof *t, 1, "tcgetattr"); *t = *cur->proc->tio; return 0;
}
int sim_tcsetattr(int fd, int act, const struct termios *t) {
	sim_yield(); (void) act; ofd_t *o = fd_get(fd); if (!o) return -1;
	if (o->type != O_SOURCE || !cur->proc->tio) { errno = ENOTTY; return -1; }
	app_check(t, sizeof *t, 0, "tcsetattr"); *cur->proc->tio = *t; sim_log("tcsetattr lflag=%x", (unsigned) t->c_lflag); if (sim_tty_hook) sim_tty_hook(cur->proc); sim_yield(); return 0;
}
int sim_raise(int sig) { sig_raise(sig); return 0; }
void *sim_signal(int sig, void *h) { if (sig < 1 || sig > 64) { errno = EINVAL; return (void *) -1; } sim_yield(); void *o = cur->proc->sighandler[sig]; cur->proc->sighandler[sig] = h; return o; }
void *sim___sysv_signal(int sig, void *h) { return sim_signal(sig, h); }
int sim_sigaction(int sig, const struct sigaction *a, struct sigaction *old) {
	if (sig < 1 || sig > 64) { errno = EINVAL; return -1; }
	if (old) { memset(old, 0, sizeof *old); old->sa_handler = cur->proc->sighandler[sig]; }
	if (a) cur->proc->sighandler[sig] = (void *) a->sa_handler;
	return 0;
}

// ------------------------------------------------------------------ time
static long long wall(void) {
	if (cur && cur->proc->faults && sim_fault(F_CLOCK_JUMP)) {
		static const long long j[] = {1, -1, 3600, -3600, 86400, -86400, 86400 * 400ll};
		wall_base += j[sim_choose(7)] * 1000000000ll;
	}
	return wall_base + (long long) now_ns;
}
// functions with one static result for all threads: another thread may come in between
struct tm *sim_gmtime(const time_t *t) { struct tm *r = gmtime(t); sim_yield(); return r; }
struct tm *sim_localtime(const time_t *t) { struct tm *r = localtime(t); sim_yield(); return r; }
char *sim_asctime(const struct tm *t) { char *r = asctime(t); sim_yield(); return r; }
char *sim_ctime(const time_t *t) { char *r = ctime(t); sim_yield(); return r; }
char *sim_strtok(char *s, const char *d) { char *r = strtok(s, d); sim_yield(); return r; }
time_t sim_time(time_t *t) { sim_yield(); time_t r = (time_t) (wall() / 1000000000ll); if (t) *t = r; return r; }
int sim_gettimeofday(struct timeval *tv, void *tz) {
	(void) tz; sim_yield();
	long long w = wall();
	tv->tv_sec = w / 1000000000ll; tv->tv_usec = w % 1000000000ll / 1000;
	if (w < 0 && tv->tv_usec < 0) { tv->tv_usec += 1000000; tv->tv_sec--; }
	return 0;
}
int sim_clock_gettime(int id, struct timespec *ts) {
	sim_yield();
	long long w = id == CLOCK_REALTIME ? wall() : (long long) now_ns + 1000000000ll;
	ts->tv_sec = w / 1000000000ll; ts->tv_nsec = w % 1000000000ll;
	return 0;
}
clock_t sim_clock(void) { sim_yield(); return (clock_t) (now_ns / 1000); }
int sim_nanosleep(const struct timespec *a, struct timespec *rem) {
	sim_yield();
	if (a->tv_nsec < 0 || a->tv_nsec > 999999999 || a->tv_sec < 0) { errno = EINVAL; return -1; }
	u64 d = (u64) a->tv_sec * SEC + (u64) a->tv_nsec;
	if (d > 1000 && faulty(F_EINTR)) {
		u64 h = d / 2;
		sim_sleep(h);
		if (rem) { rem->tv_sec = (d - h) / SEC; rem->tv_nsec = (d - h) % SEC; }
		errno = EINTR; return -1;
	}
	sim_sleep(d);
	return 0;
}
unsigned sim_sleep_(unsigned s) { sim_yield(); sim_sleep((u64) s * SEC); return 0; }
int sim_usleep(unsigned us) { sim_yield(); sim_sleep((u64) us * 1000); return 0; }
int sim_sched_yield(void) { sim_yield(); return 0; }
int sim_gethostname(char *b, size_t n) { sim_yield(); snprintf(b, n, "simhost"); return 0; }
int sim_isatty(int fd) { (void) fd; errno = ENOTTY; return 0; }
long sim_sysconf(int n) { return n == _SC_NPROCESSORS_ONLN ? 8 : n == _SC_PAGESIZE ? 4096 : n == _SC_OPEN_MAX ? MAXFD : -1; }
char **sim_environ;

// ------------------------------------------------------------------ readiness
static int fd_readable(ofd_t *o) {
	switch (o->type) {
	case O_SOURCE: return source_readable(o->owner, 0);
	case O_PIPE_R: return pipe_readable(o->pipe, 0);
	case O_SOCK: return sock_readable(o);
	default: return 1;
	}
}
static int fd_writable(ofd_t *o) {
	switch (o->type) {
	case O_PIPE_W: return pipe_writable(o->pipe, 1);
	case O_SOCK: return sock_writable(o);
	default: return 1;
	}
}
typedef struct { int n; fd_set *r, *w, *e; proc_t *p; } sel_t;
static int sel_count(sel_t *s, fd_set *ro, fd_set *wo) {
	int c = 0;
	for (int i = 0; i < s->n && i < MAXFD; i++) {
		ofd_t *o = s->p->fds[i];
		if (!o) continue;
		if (s->r && FD_ISSET(i, s->r) && fd_readable(o)) { if (ro) FD_SET(i, ro); c++; }
		if (s->w && FD_ISSET(i, s->w) && fd_writable(o)) { if (wo) FD_SET(i, wo); c++; }
	}
	return c;
}
static int sel_pred(void *a, long b) { (void) b; return sel_count(a, NULL, NULL) > 0; }
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
	sim_yield();
	if (n < 0) { errno = EINVAL; return -1; }
	for (int i = 0; i < n; i++) {
		int set = (r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w)) || (e && FD_ISSET(i, e));
		if (set && (i >= MAXFD || !cur->proc->fds[i])) { errno = EBADF; return -1; }
	}
	// the sets are copied: they live in the image of the process
	sel_t *s = calloc(1, sizeof *s);
	fd_set *rc = NULL, *wc = NULL;
	if (r) { rc = malloc(sizeof *rc); *rc = *r; }
	if (w) { wc = malloc(sizeof *wc); *wc = *w; }
	s->n = n; s->r = rc; s->w = wc; s->p = cur->proc;
	u64 dl = FOREVER;
	if (tv) {
		if (tv->tv_sec < 0 || tv->tv_usec < 0) { errno = EINVAL; return -1; }
		dl = now_ns + (u64) tv->tv_sec * SEC + (u64) tv->tv_usec * 1000;
	}
	if (sel_count(s, NULL, NULL) == 0 && dl > now_ns && faulty(F_EINTR)) { errno = EINTR; return -1; }
	sim_block("select", sel_pred, s, 0, dl);
	fd_set ro, wo; FD_ZERO(&ro); FD_ZERO(&wo);
	int c = sel_count(s, &ro, &wo);
	if (r) *r = ro;
	if (w) *w = wo;
	if (e) FD_ZERO(e);
	sim_log("select = %d", c);
	free(rc); free(wc); free(s);
	return c;
}
typedef struct { struct pollfd *f; int n; proc_t *p; } pollq_t;
static int poll_count(pollq_t *q, int set) {
	int c = 0;
	for (int i = 0; i < q->n; i++) {
		struct pollfd *f = &q->f[i];
		short re = 0;
		if (f->fd < 0) { if (set) f->revents = 0; continue; }
		ofd_t *o = f->fd < MAXFD ? q->p->fds[f->fd] : NULL;
		if (!o) re = POLLNVAL;
		else {
			if ((f->events & POLLIN) && fd_readable(o)) re |= POLLIN;
			if ((f->events & POLLOUT) && fd_writable(o)) re |= POLLOUT;
			if (o->type == O_SOCK && o->rst) re |= POLLERR | POLLHUP;
			if (o->type == O_PIPE_R && o->pipe->writers == 0) re |= POLLHUP;
			if (o->type == O_PIPE_W && o->pipe->readers == 0) re |= POLLERR;
		}
		if (set) f->revents = re;
		if (re) c++;
	}
	return c;
}
static int poll_pred(void *a, long b) { (void) b; return poll_count(a, 0) > 0; }
int sim_poll(struct pollfd *f, unsigned long n, int tmo) {
	sim_yield();
	app_check(f, n * sizeof *f, 1, "poll");
	pollq_t q = {malloc(n * sizeof *f + 1), (int) n, cur->proc};
	pollq_t *qq = malloc(sizeof q); *qq = q;
	memcpy(q.f, f, n * sizeof *f);
	sim_block("poll", poll_pred, qq, 0, tmo < 0 ? FOREVER : now_ns + (u64) tmo * MS);
	int c = poll_count(qq, 1);
	memcpy(f, q.f, n * sizeof *f);
	free(q.f); free(qq);
	return c;
}

const char *sim_stdout_of(proc_t *p, size_t *n) { if (n) *n = p->out.n; return p->out.p ? (char *) p->out.p : ""; }
const char *sim_stderr_of(proc_t *p, size_t *n) { if (n) *n = p->err.n; return p->err.p ? (char *) p->err.p : ""; }
void sim_set_stdin(proc_t *p, const void *d, size_t n) { bytes_add(&p->in, d, n); }
void sim_stdio_sink_fail(proc_t *p, int fd, long after) { p->fail_after[fd] = after; }
void sim_stdin_bad(proc_t *p, size_t off) { p->inbad = off + 1; }
void sim_stdin_open(proc_t *p, int open) { p->inopen = open; }
size_t sim_stdin_left(proc_t *p) { return p->in.n - p->inpos; }
void sim_stdin_frag(proc_t *p, u32 m) { p->infrag = m; }
