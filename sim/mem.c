// Heap of simulated processes, with red zones and a validity bitmap; the
// memory-access hooks of -fsanitize=thread instrumentation.
#include "int.h"
#include <wchar.h>

#define REDZONE 32
typedef struct { u64 size; u64 magic; } hdr_t;
#define MAGIC_LIVE 0x11fe0b10c4b10c41ull
#define MAGIC_FREE 0xdeadb10cdeadb10cull

static u8 *shadow(void) { return (u8 *) (ARENA_BASE + SHADOW_OFF); }
static u8 *heap(void) { return (u8 *) (ARENA_BASE + HEAP_OFF); }
static inline int in_heap(u64 a) { return a >= ARENA_BASE + HEAP_OFF && a < ARENA_BASE + HEAP_OFF + HEAP_SIZE; }
static void mark(u64 off, u64 n, int ok) {
	u8 *s = shadow();
	while (n > 0 && (off & 7)) { if (ok) s[off >> 3] |= 1 << (off & 7); else s[off >> 3] &= ~(1 << (off & 7)); off++; n--; }
	if (n >= 8) { memset(s + (off >> 3), ok ? 0xff : 0, n >> 3); off += n & ~7ull; n &= 7; }
	while (n > 0) { if (ok) s[off >> 3] |= 1 << (off & 7); else s[off >> 3] &= ~(1 << (off & 7)); off++; n--; }
}
static u64 whole(u64 n) { return (REDZONE + n + REDZONE + 15) & ~15ull; }
static hdr_t *block(u64 at) { return (hdr_t *) (heap() + at + REDZONE - 16); }
// Next fit over the freed blocks, neighbours joined.
static u64 reuse(proc_t *p, u64 total) {
	for (int round = 0; round < 2; round++) {
		u64 at = round ? 64 : p->heap_rover ? p->heap_rover : 64, end = p->heap_brk;
		while (at < end) {
			hdr_t *h = block(at);
			u64 t = whole(h->size);
			if (h->magic == MAGIC_FREE) {
				while (at + t < end && block(at + t)->magic == MAGIC_FREE) t += whole(block(at + t)->size);
				h->size = t - 2 * REDZONE;
				if (t == total || t >= total + 80) {
					if (t > total) { hdr_t *r = block(at + total); r->size = t - total - 2 * REDZONE; r->magic = MAGIC_FREE; }
					p->heap_rover = at;
					return at + REDZONE;
				}
			} else if (h->magic != MAGIC_LIVE) return 0;
			at += t;
		}
		p->heap_rover = 0;
	}
	return 0;
}
void *app_alloc(size_t n, int zero, int *failed) {
	proc_t *p = cur->proc;
	*failed = 0;
	if (p->native) return zero ? calloc(1, n ? n : 1) : malloc(n ? n : 1);
	if (n > HEAP_SIZE / 2) { *failed = 1; return NULL; }
	u64 total = whole(n);
	u64 off; int used = 0;
	if (p->heap_brk + total + 64 > HEAP_SIZE) {
		// fresh memory is used first, so that stale pointers are noticed; then freed memory
		if (!(off = reuse(p, total))) { *failed = 1; return NULL; }
		used = 1;
	} else { off = p->heap_brk + REDZONE; p->heap_brk += total; }
	hdr_t *h = (hdr_t *) (heap() + off - 16);
	h->size = n; h->magic = MAGIC_LIVE;
	if (used && zero) memset(heap() + off, 0, n);
	mark(off, n, 1);
	if (!zero) memset(heap() + off, 0xa5, n); // pages are zero otherwise
	p->live_blocks++;
	return heap() + off;
}
static hdr_t *header(void *ptr, const char *what) {
	u64 a = (u64) ptr;
	if (!in_heap(a)) sim_violation("bad-free", "%s of %p, which is not a heap block, in %s", what, ptr, cur->name);
	hdr_t *h = (hdr_t *) (a - 16);
	if (h->magic == MAGIC_FREE) sim_violation("double-free", "%s of a freed block in %s", what, cur->name);
	if (h->magic != MAGIC_LIVE) sim_violation("bad-free", "%s of a pointer which is not the start of a block in %s", what, cur->name);
	return h;
}
static void do_free(void *ptr, const char *what) {
	hdr_t *h = header(ptr, what);
	h->magic = MAGIC_FREE;
	mark((u64) ptr - ARENA_BASE - HEAP_OFF, h->size, 0);
	memset(ptr, 0xdd, h->size);
	cur->proc->live_blocks--;
}
static void report_bad(u64 a, size_t n, int write, const char *what) {
	sim_violation("memory-error", "%s of %zu bytes at heap offset %llu outside any live block in %s (%s)", write ? "write" : "read", n,
		(unsigned long long) (a - ARENA_BASE - HEAP_OFF), cur ? cur->name : "?", what);
}
void app_check(const void *p, size_t n, int write, const char *what) {
	u64 a = (u64) p;
	if (!cur || cur->proc->native || n == 0) return;
	if (a < 4096) sim_violation("null-pointer", "%s through a null pointer in %s (%s)", write ? "write" : "read", cur->name, what);
	if (!in_heap(a)) return;
	u64 off = a - ARENA_BASE - HEAP_OFF;
	u8 *s = shadow();
	for (size_t i = 0; i < n; ) {
		if (((off + i) & 7) == 0 && n - i >= 8) {
			if (s[(off + i) >> 3] != 0xff) report_bad(a + i, n, write, what);
			i += 8;
		} else {
			if (!(s[(off + i) >> 3] >> ((off + i) & 7) & 1)) report_bad(a + i, n, write, what);
			i++;
		}
	}
}
void *sim_malloc(size_t n) {
	sim_yield();
	if (faulty(F_MALLOC)) { errno = ENOMEM; return NULL; }
	int failed; void *r = app_alloc(n, 0, &failed);
	if (failed) errno = ENOMEM;
	return r;
}
void *sim_calloc(size_t n, size_t m) {
	sim_yield();
	if (faulty(F_MALLOC)) { errno = ENOMEM; return NULL; }
	size_t t;
	if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return NULL; }
	int failed; void *r = app_alloc(t, 1, &failed);
	if (failed) errno = ENOMEM;
	return r;
}
void sim_free(void *p) {
	if (!p) return;
	if (cur->proc->native) { free(p); return; }
	int e = errno;
	do_free(p, "free");
	errno = e;
}
void *sim_realloc(void *p, size_t n) {
	if (!p) return sim_malloc(n);
	sim_yield();
	if (faulty(F_MALLOC)) { errno = ENOMEM; return NULL; }
	hdr_t *h = header(p, "realloc");
	int failed; void *r = app_alloc(n, 0, &failed);
	if (failed) { errno = ENOMEM; return NULL; }
	memcpy(r, p, h->size < n ? h->size : n);
	do_free(p, "realloc");
	return r;
}
void *sim_reallocarray(void *p, size_t n, size_t m) {
	size_t t;
	if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return NULL; }
	return sim_realloc(p, t);
}
char *sim_strdup(const char *s) {
	app_check(s, strlen(s) + 1, 0, "strdup");
	char *r = sim_malloc(strlen(s) + 1);
	if (r) strcpy(r, s);
	return r;
}
char *sim_strndup(const char *s, size_t n) {
	size_t m = strnlen(s, n);
	char *r = sim_malloc(m + 1);
	if (r) { memcpy(r, s, m); r[m] = 0; }
	return r;
}
int sim_posix_memalign(void **out, size_t al, size_t n) {
	(void) al;
	*out = sim_malloc(n);
	return *out ? 0 : ENOMEM;
}
void *sim_aligned_alloc(size_t al, size_t n) { (void) al; return sim_malloc(n); }

// string and memory functions: check what they touch
void *sim_memcpy(void *d, const void *s, size_t n) { app_check(d, n, 1, "memcpy"); app_check(s, n, 0, "memcpy"); return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { app_check(d, n, 1, "memmove"); app_check(s, n, 0, "memmove"); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { app_check(d, n, 1, "memset"); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { app_check(a, n, 0, "memcmp"); app_check(b, n, 0, "memcmp"); return memcmp(a, b, n); }
// length of a string, noticing a run over the end of its block
static size_t slen(const char *s, const char *what) {
	u64 a = (u64) s;
	if (a < 4096) sim_violation("null-pointer", "null string given to %s in %s", what, cur->name);
	if (in_heap(a) && !cur->proc->native) {
		size_t n = 0;
		u8 *sh = shadow();
		for (;; n++) {
			u64 off = a + n - ARENA_BASE - HEAP_OFF;
			if (!(sh[off >> 3] >> (off & 7) & 1)) report_bad(a + n, 1, 0, what);
			if (!s[n]) return n;
		}
	}
	return strlen(s);
}
size_t sim_strlen(const char *s) { return slen(s, "strlen"); }
char *sim_strcpy(char *d, const char *s) { size_t n = slen(s, "strcpy"); app_check(d, n + 1, 1, "strcpy"); memmove(d, s, n + 1); return d; }
char *sim_stpcpy(char *d, const char *s) { size_t n = slen(s, "stpcpy"); app_check(d, n + 1, 1, "stpcpy"); memmove(d, s, n + 1); return d + n; }
char *sim_strncpy(char *d, const char *s, size_t n) { app_check(d, n, 1, "strncpy"); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { size_t m = slen(d, "strcat"), n = slen(s, "strcat"); app_check(d + m, n + 1, 1, "strcat"); memmove(d + m, s, n + 1); return d; }
int sim_strcmp(const char *a, const char *b) { slen(a, "strcmp"); slen(b, "strcmp"); return strcmp(a, b); }
int sim_strcasecmp(const char *a, const char *b) { slen(a, "strcasecmp"); slen(b, "strcasecmp"); return strcasecmp(a, b); }
char *sim_strchr(const char *a, int c) { slen(a, "strchr"); return strchr(a, c); }
char *sim_strrchr(const char *a, int c) { slen(a, "strrchr"); return strrchr(a, c); }
char *sim_strstr(const char *a, const char *b) { slen(a, "strstr"); slen(b, "strstr"); return strstr(a, b); }

// ------------------------------------------------------------------ access hooks
void sim_mem_point(void);
static inline void acc(void *p, size_t n, int w) {
	u64 a = (u64) p;
	if (in_heap(a)) {
		u64 off = a - ARENA_BASE - HEAP_OFF;
		u8 *s = shadow();
		for (size_t i = 0; i < n; i++) if (!(s[(off + i) >> 3] >> ((off + i) & 7) & 1)) report_bad(a, n, w, "direct access");
		sim_mem_point();
	} else if (a < 4096) {
		sim_violation("null-pointer", "%s through a null pointer in %s", w ? "write" : "read", cur ? cur->name : "?");
	} else if (a < ARENA_BASE) {
		sim_mem_point(); // globals
	}
}
void sim_mem_point_slow(void);
static u64 stackacc;
static inline void acc_any(void *p, size_t n, int w) { stackacc++; acc(p, n, w); }
#define HOOK(n) \
	void __tsan_read##n(void *p) { acc_any(p, n, 0); } \
	void __tsan_write##n(void *p) { acc_any(p, n, 1); } \
	void __tsan_unaligned_read##n(void *p) { acc_any(p, n, 0); } \
	void __tsan_unaligned_write##n(void *p) { acc_any(p, n, 1); } \
	void __tsan_volatile_read##n(void *p) { acc_any(p, n, 0); } \
	void __tsan_volatile_write##n(void *p) { acc_any(p, n, 1); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_read_range(void *p, size_t n) { app_check(p, n, 0, "range"); sim_mem_point(); }
void __tsan_write_range(void *p, size_t n) { app_check(p, n, 1, "range"); sim_mem_point(); }
void __tsan_init(void) {}
void __tsan_vptr_update(void *a, void *b) { (void) a; (void) b; }
void __tsan_vptr_read(void *a) { (void) a; }
void __tsan_func_exit(void) {}
void __tsan_func_entry(void *pc) {
	(void) pc;
	u64 sp = (u64) __builtin_frame_address(0);
	if (cur && cur->stack_slot >= 0) {
		u64 base = cur->stack_slot == 0 ? ARENA_BASE + STACK_OFF + (MAXTHREADS + 1) * STACK_SIZE : ARENA_BASE + STACK_OFF + (u64) cur->stack_slot * STACK_SIZE;
		if (sp < base + 65536) sim_violation("stack-overflow", "unbounded recursion in %s", cur->name);
	}
}
// atomics: plain, with a scheduling point (one OS thread)
#define ATOM(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int o) { (void) o; sim_mem_point(); return *a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int o) { (void) o; sim_mem_point(); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int o) { (void) o; sim_mem_point(); T r = *a; *a = v; return r; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int o) { (void) o; sim_mem_point(); T r = *a; *a = r + v; return r; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int o) { (void) o; sim_mem_point(); T r = *a; *a = r - v; return r; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int o) { (void) o; sim_mem_point(); T r = *a; *a = r & v; return r; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int o) { (void) o; sim_mem_point(); T r = *a; *a = r | v; return r; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int o) { (void) o; sim_mem_point(); T r = *a; *a = r ^ v; return r; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { (void) o; (void) f; sim_mem_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, o, f); }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int o) { (void) o; }
void __tsan_atomic_signal_fence(int o) { (void) o; }
void sim___stack_chk_fail(void) { sim_violation("memory-error", "a stack buffer was overrun in %s", cur ? cur->name : "?"); }
