// stdio for simulated processes. FILE objects live in the memory image of the
// process, so that fork() duplicates their buffers as it does in reality.
#include "int.h"
#include <fcntl.h>
#include <unistd.h>

typedef struct SF {
	int used, fd, flags;        // flags: 1 read, 2 write, 4 append
	int eof, err;
	u8 *buf; u32 cap;
	u32 rpos, rend;             // read buffer
	u32 wend;                   // pending output
	int mode;                   // _IOFBF, _IOLBF, _IONBF
	int unget[8], nunget;
	int owned;                  // heap allocated
	int memw;                   // unused
	struct SF *next;
} SF;
#define STD ((SF *) ARENA_BASE)
#define HEADP ((SF **) (ARENA_BASE + 2048))
#define STDBUF ((u8 *) (ARENA_BASE + 4096))
void *sim_stdin = (void *) ARENA_BASE;
void *sim_stdout = (void *) (ARENA_BASE + sizeof(SF));
void *sim_stderr = (void *) (ARENA_BASE + 2 * sizeof(SF));

int sim_close(int); ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t);
off_t sim_lseek(int, off_t, int); int sim_open(const char *, int, ...);
void sim_free(void *); void sim_exit(int);

void sio_setup(void) {
	memset(STD, 0, 3 * sizeof(SF));
	for (int i = 0; i < 3; i++) {
		STD[i].used = 1; STD[i].fd = i; STD[i].flags = i == 0 ? 1 : 2;
		STD[i].buf = STDBUF + i * 65536; STD[i].cap = iobuf_size > 65536 ? 65536 : iobuf_size;
		STD[i].mode = i == 2 ? _IONBF : _IOFBF;
	}
	*HEADP = NULL;
}
static SF *chk(void *f, const char *what) {
	SF *s = f;
	if (!f) sim_violation("null-pointer", "%s on a null stream in %s", what, cur->name);
	if ((u64) f < ARENA_BASE || (u64) f >= ARENA_BASE + ARENA_SIZE) sim_violation("memory-error", "%s on a bad stream in %s", what, cur->name);
	if (s > &STD[2]) app_check(s, sizeof *s, 0, what);
	if (!s->used) sim_violation("memory-error", "%s on a closed stream in %s", what, cur->name);
	return s;
}
// Streams are locked during each operation, as POSIX requires. The table lives
// outside of the memory image, where predicates can see it.
static struct lk { proc_t *p; SF *s; task_s *owner; int depth; } LK[64];
static struct lk *lk_find(proc_t *p, SF *s) { for (int i = 0; i < 64; i++) if (LK[i].depth && LK[i].s == s && LK[i].p == p) return &LK[i]; return NULL; }
static int lk_free(void *a, long b) { return !lk_find(a, (SF *) b); }
static SF *lk(SF *s) {
	if (cur->proc->live < 2) return s;
	struct lk *l = lk_find(cur->proc, s);
	while (l && l->owner != cur) { sim_block("stream lock", lk_free, cur->proc, (long) s, FOREVER); l = lk_find(cur->proc, s); }
	if (l) { l->depth++; return s; }
	for (int i = 0; i < 64; i++) if (!LK[i].depth) { LK[i] = (struct lk) {cur->proc, s, cur, 1}; return s; }
	sim_harness_error("too many stream locks");
}
static void unlk(SF **s) { struct lk *l = lk_find(cur->proc, *s); if (l && l->owner == cur) l->depth--; }
#define LOCK(s) __attribute__((cleanup(unlk))) SF *lk_##s = lk(s)
static int flush_w(SF *s) {
	u32 done = 0;
	while (done < s->wend) {
		ssize_t r = sim_write(s->fd, s->buf + done, s->wend - done);
		if (r < 0) {
			s->err = 1;
			memmove(s->buf, s->buf + done, s->wend - done);
			s->wend -= done;
			s->wend = 0; // as glibc: pending data is dropped on close; keep it simple
			return EOF;
		}
		done += (u32) r;
	}
	s->wend = 0;
	return 0;
}
static void drop_r(SF *s) {
	// position goes back to what the program has consumed
	if (s->rend > s->rpos || s->nunget) {
		off_t back = (off_t) (s->rend - s->rpos) + s->nunget;
		int e = errno;
		int f = cur->proc->faults; cur->proc->faults = 0;
		sim_lseek(s->fd, -back, SEEK_CUR);
		cur->proc->faults = f;
		errno = e;
	}
	s->rpos = s->rend = 0; s->nunget = 0;
}
void sio_flush_all(void) {
	for (SF *s = *HEADP; s; s = s->next) if (s->used && s->wend) flush_w(s);
	for (int i = 1; i < 3; i++) if (STD[i].used && STD[i].wend) flush_w(&STD[i]);
}
static SF *sf_new(int fd, int flags) {
	int f;
	SF *s = app_alloc(sizeof *s, 1, &f);
	s->used = 1; s->fd = fd; s->flags = flags; s->owned = 1;
	s->cap = iobuf_size; s->buf = app_alloc(s->cap, 1, &f);
	s->mode = _IOFBF;
	s->next = *HEADP; *HEADP = s;
	return s;
}
static int parse_mode(const char *m, int *flags) {
	int plus = strchr(m, '+') != NULL;
	switch (*m) {
	case 'r': *flags = 1 | (plus ? 2 : 0); return plus ? O_RDWR : O_RDONLY;
	case 'w': *flags = 2 | (plus ? 1 : 0); return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
	case 'a': *flags = 2 | 4 | (plus ? 1 : 0); return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
	}
	return -1;
}
void *sim_fopen(const char *path, const char *mode) {
	int fl, o = parse_mode(mode, &fl);
	if (!path) sim_violation("null-pointer", "fopen of a null path in %s", cur->name);
	if (o < 0) { errno = EINVAL; return NULL; }
	int fd = sim_open(path, o, 0666);
	if (fd < 0) return NULL;
	return sf_new(fd, fl);
}
void *sim_fdopen(int fd, const char *mode) {
	int fl;
	if (parse_mode(mode, &fl) < 0) { errno = EINVAL; return NULL; }
	if (!fd_get(fd)) return NULL;
	return sf_new(fd, fl);
}
int sim_fflush(void *f) {
	if (!f) { sio_flush_all(); return 0; }
	SF *s = chk(f, "fflush");
	LOCK(s);
	if (s->wend) return flush_w(s);
	return 0;
}
int sim_fclose(void *f) {
	SF *s = chk(f, "fclose");
	int r = 0;
	if (s->wend) r = flush_w(s);
	if (sim_close(s->fd) < 0) r = EOF;
	s->used = 0;
	if (s->owned) {
		for (SF **p = HEADP; *p; p = &(*p)->next) if (*p == s) { *p = s->next; break; }
		u8 *b = s->buf;
		sim_free(b); sim_free(s);
	}
	return r;
}
void *sim_freopen(const char *path, const char *mode, void *f) {
	SF *s = chk(f, "freopen");
	if (s->wend) flush_w(s);
	int fl, o = parse_mode(mode, &fl);
	int fd = sim_open(path, o, 0666);
	sim_close(s->fd);
	if (fd < 0) { s->used = 0; return NULL; }
	s->fd = fd; s->flags = fl; s->rpos = s->rend = 0; s->nunget = 0; s->eof = s->err = 0;
	return s;
}
static int fill(SF *s) {
	if (!(s->flags & 1)) { s->err = 1; errno = EBADF; return EOF; }
	if (s->wend) flush_w(s);
	if (s->eof) return EOF; // sticky, as C requires
	ssize_t r = sim_read(s->fd, s->buf, s->mode == _IONBF ? 1 : s->cap);
	if (r < 0) { s->err = 1; return EOF; }
	if (r == 0) { s->eof = 1; return EOF; }
	s->rpos = 0; s->rend = (u32) r;
	return 0;
}
static int getch(SF *s) {
	if (s->nunget) return s->unget[--s->nunget];
	if (s->rpos >= s->rend && fill(s) == EOF) return EOF;
	return s->buf[s->rpos++];
}
static int putch(SF *s, int c) {
	if (!(s->flags & 2)) { s->err = 1; errno = EBADF; return EOF; }
	if (s->rend || s->nunget) drop_r(s);
	s->buf[s->wend++] = (u8) c;
	if (s->wend >= s->cap || s->mode == _IONBF || (s->mode == _IOLBF && c == '\n')) if (flush_w(s) == EOF) return EOF;
	return (u8) c;
}
static size_t put(SF *s, const void *p, size_t n) {
	const u8 *b = p;
	if (s->mode == _IONBF) {
		if (!(s->flags & 2)) { s->err = 1; errno = EBADF; return 0; }
		if (s->rend || s->nunget) drop_r(s);
		size_t done = 0;
		while (done < n) {
			ssize_t r = sim_write(s->fd, b + done, n - done);
			if (r < 0) { s->err = 1; return done; }
			done += (size_t) r;
		}
		return done;
	}
	for (size_t i = 0; i < n; i++) if (putch(s, b[i]) == EOF) return i;
	return n;
}
int sim_fgetc(void *f) { SF *s = chk(f, "fgetc"); LOCK(s); return getch(s); }
int sim_getc(void *f) { SF *s = chk(f, "getc"); LOCK(s); return getch(s); }
int sim_getchar(void) { SF *s = STD; LOCK(s); return getch(s); }
int sim_ungetc(int c, void *f) {
	SF *s = chk(f, "ungetc");
	LOCK(s);
	if (c == EOF || s->nunget >= 8) return EOF;
	s->unget[s->nunget++] = (u8) c;
	s->eof = 0;
	return (u8) c;
}
int sim_fputc(int c, void *f) { SF *s = chk(f, "fputc"); LOCK(s); return putch(s, c); }
int sim_putc(int c, void *f) { SF *s = chk(f, "putc"); LOCK(s); return putch(s, c); }
int sim_putchar(int c) { SF *s = &STD[1]; LOCK(s); return putch(s, c); }
int sim_fputs(const char *t, void *f) { SF *s = chk(f, "fputs"); size_t n = strlen(t); app_check(t, n + 1, 0, "fputs"); LOCK(s); return put(s, t, n) == n ? 1 : EOF; }
int sim_puts(const char *t) { size_t n = strlen(t); app_check(t, n + 1, 0, "puts"); SF *s = &STD[1]; LOCK(s); return put(s, t, n) == n && putch(s, '\n') != EOF ? 1 : EOF; }
size_t sim_fread(void *p, size_t sz, size_t n, void *f) {
	SF *s = chk(f, "fread");
	LOCK(s);
	size_t want = sz * n, got = 0;
	u8 *b = p;
	app_check(p, want, 1, "fread");
	while (got < want) {
		int c = getch(s);
		if (c == EOF) break;
		b[got++] = (u8) c;
		// take what is buffered at once
		while (got < want && !s->nunget && s->rpos < s->rend) b[got++] = s->buf[s->rpos++];
	}
	return sz ? got / sz : 0;
}
size_t sim_fwrite(const void *p, size_t sz, size_t n, void *f) {
	SF *s = chk(f, "fwrite");
	LOCK(s);
	app_check(p, sz * n, 0, "fwrite");
	size_t r = put(s, p, sz * n);
	return sz ? r / sz : 0;
}
char *sim_fgets(char *b, int n, void *f) {
	SF *s = chk(f, "fgets");
	LOCK(s);
	int i = 0;
	if (n <= 0) return NULL;
	while (i < n - 1) {
		int c = getch(s);
		if (c == EOF) { if (i == 0 || s->err) return NULL; break; }
		app_check(b + i, 2, 1, "fgets");
		b[i++] = (char) c;
		if (c == '\n') break;
	}
	b[i] = 0;
	return b;
}
ssize_t sim_getdelim(char **line, size_t *cap, int d, void *f) {
	extern void *sim_realloc(void *, size_t);
	SF *s = chk(f, "getdelim");
	LOCK(s);
	size_t n = 0;
	for (;;) {
		int c = getch(s);
		if (c == EOF) { if (n == 0) return -1; break; }
		if (!*line || n + 2 > *cap) {
			size_t m = *cap * 2 + 120;
			char *x = sim_realloc(*line, m);
			if (!x) return -1;
			*line = x; *cap = m;
		}
		(*line)[n++] = (char) c;
		if (c == d) break;
	}
	(*line)[n] = 0;
	return (ssize_t) n;
}
ssize_t sim_getline(char **line, size_t *cap, void *f) { return sim_getdelim(line, cap, '\n', f); }
int sim_feof(void *f) { return chk(f, "feof")->eof; }
int sim_ferror(void *f) { return chk(f, "ferror")->err; }
void sim_clearerr(void *f) { SF *s = chk(f, "clearerr"); s->eof = s->err = 0; }
int sim_fileno(void *f) { return chk(f, "fileno")->fd; }
int sim_setvbuf(void *f, char *buf, int mode, size_t n) { (void) buf; (void) n; chk(f, "setvbuf")->mode = mode; return 0; }
void sim_setbuf(void *f, char *buf) { chk(f, "setbuf")->mode = buf ? _IOFBF : _IONBF; }
int sim_fseeko(void *f, off_t off, int wh) {
	SF *s = chk(f, "fseek");
	LOCK(s);
	if (s->wend && flush_w(s) == EOF) return -1;
	if (wh == SEEK_CUR) { off -= (off_t) (s->rend - s->rpos) + s->nunget; }
	if (sim_lseek(s->fd, off, wh) < 0) return -1;
	s->rpos = s->rend = 0; s->nunget = 0; s->eof = 0;
	return 0;
}
int sim_fseek(void *f, long off, int wh) { return sim_fseeko(f, off, wh); }
off_t sim_ftello(void *f) {
	SF *s = chk(f, "ftell");
	off_t o = sim_lseek(s->fd, 0, SEEK_CUR);
	if (o < 0) return -1;
	if ((s->flags & 4) && s->wend) { ofd_t *d = fd_get(s->fd); if (d && d->v) o = (off_t) d->v->data.n; }
	return o - (off_t) (s->rend - s->rpos) - s->nunget + s->wend;
}
long sim_ftell(void *f) { return (long) sim_ftello(f); }
void sim_rewind(void *f) { sim_fseeko(f, 0, SEEK_SET); chk(f, "rewind")->err = 0; }
int sim_fgetpos(void *f, void *p) { *(long *) p = sim_ftell(f); return 0; }
int sim_fsetpos(void *f, const void *p) { return sim_fseek(f, *(const long *) p, SEEK_SET); }

// ------------------------------------------------------------------ formatting
int sim_vfprintf(void *f, const char *fmt, va_list a) {
	SF *s = chk(f, "fprintf");
	LOCK(s);
	char small[512]; char *b = small;
	va_list c; va_copy(c, a);
	int n = vsnprintf(small, sizeof small, fmt, c);
	va_end(c);
	if (n < 0) return n;
	if (n >= (int) sizeof small) { b = malloc(n + 1); vsnprintf(b, n + 1, fmt, a); }
	size_t r = put(s, b, n);
	if (b != small) free(b);
	return r == (size_t) n ? n : -1;
}
int sim_fprintf(void *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vfprintf(f, fmt, a); va_end(a); return r; }
int sim_vprintf(const char *fmt, va_list a) { return sim_vfprintf(&STD[1], fmt, a); }
int sim_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vfprintf(&STD[1], fmt, a); va_end(a); return r; }
int sim_vdprintf(int fd, const char *fmt, va_list a) { char *b; int n = vasprintf(&b, fmt, a); ssize_t r = sim_write(fd, b, n); free(b); return (int) r; }
int sim_dprintf(int fd, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vdprintf(fd, fmt, a); va_end(a); return r; }
int sim_vsnprintf(char *b, size_t n, const char *fmt, va_list a) {
	va_list c; va_copy(c, a);
	int m = vsnprintf(NULL, 0, fmt, c);
	va_end(c);
	if (n > 0 && m >= 0) app_check(b, (size_t) m + 1 < n ? (size_t) m + 1 : n, 1, "snprintf");
	return vsnprintf(b, n, fmt, a);
}
int sim_snprintf(char *b, size_t n, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vsnprintf(b, n, fmt, a); va_end(a); return r; }
int sim_vsprintf(char *b, const char *fmt, va_list a) {
	va_list c; va_copy(c, a);
	int m = vsnprintf(NULL, 0, fmt, c);
	va_end(c);
	app_check(b, (size_t) m + 1, 1, "sprintf");
	return vsprintf(b, fmt, a);
}
int sim_sprintf(char *b, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vsprintf(b, fmt, a); va_end(a); return r; }
int sim_vasprintf(char **out, const char *fmt, va_list a) {
	extern void *sim_malloc(size_t);
	va_list c; va_copy(c, a);
	int m = vsnprintf(NULL, 0, fmt, c);
	va_end(c);
	*out = sim_malloc((size_t) m + 1);
	if (!*out) return -1;
	return vsnprintf(*out, (size_t) m + 1, fmt, a);
}
int sim_asprintf(char **out, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vasprintf(out, fmt, a); va_end(a); return r; }
void sim_perror(const char *t) { int e = errno; if (t && *t) sim_fprintf(sim_stderr, "%s: ", t); sim_fprintf(sim_stderr, "%s\n", strerror(e)); }

// scanf: an unbuffered cookie stream over the simulated one
static ssize_t cookie_read(void *c, char *b, size_t n) { (void) n; int ch = getch(c); if (ch == EOF) return 0; *b = (char) ch; return 1; }
int sim_vfscanf(void *f, const char *fmt, va_list a) {
	SF *s = chk(f, "fscanf");
	LOCK(s);
	cookie_io_functions_t io = {.read = cookie_read};
	FILE *r = fopencookie(s, "r", io);
	setvbuf(r, NULL, _IONBF, 0);
	int n = vfscanf(r, fmt, a);
	while (r->_IO_read_end > r->_IO_read_ptr && s->nunget < 8) { s->unget[s->nunget++] = (u8) *--r->_IO_read_end; }
	fclose(r);
	return n;
}
int sim_fscanf(void *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vfscanf(f, fmt, a); va_end(a); return r; }
int sim_scanf(const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vfscanf(STD, fmt, a); va_end(a); return r; }
void sim_setup_unused(void) { (void) sim_exit; }
void sim_flockfile(void *f) { lk(chk(f, "flockfile")); }
void sim_funlockfile(void *f) { SF *s = chk(f, "funlockfile"); unlk(&s); }
int sim_ftrylockfile(void *f) { SF *s = chk(f, "ftrylockfile"); struct lk *l = lk_find(cur->proc, s); if (l && l->owner != cur) return -1; lk(s); return 0; }
