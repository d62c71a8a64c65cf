// Decisions, faults, verdicts, helpers: shared by the simulator (core.c) and the
// process simulator (../dsim/dcore.c). The includer defines now_ns, steps and choice_who().
// ------------------------------------------------------------------ shared
// Results of one run; in memory shared between runner, worker and child.
#include "runner.h"
result_t *R;                 // of the current run (child)
tape_t *TAPE;

static int replaying;        // tape given
static u32 replay_len;
static u32 tape_pos;
static u64 rng[2];
u64 sim_run_index, sim_run_seed;

static u64 splitmix(u64 *x) {
	u64 z = (*x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static u64 rnd(void) {
	u64 s1 = rng[0], s0 = rng[1];
	u64 r = s0 + s1;
	rng[0] = s0;
	s1 ^= s1 << 23;
	rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
	return r;
}
void rng_seed(u64 s) { u64 x = s; rng[0] = splitmix(&x); rng[1] = splitmix(&x); for (int i = 0; i < 8; i++) rnd(); }

int sim_generating(void) { return !replaying; }

// Records one decision in [0,n).
static u32 decide(u32 n, u32 generated) {
	u32 v;
	if (n <= 1) return 0;
	if (replaying) v = tape_pos < replay_len ? TAPE->v[tape_pos] % n : 0;
	else v = generated;
	if (tape_pos >= TAPE_MAX) {
		sim_harness_error("choice tape overflow");
	}
	TAPE->v[tape_pos++] = v;
	TAPE->len = tape_pos;
	return v;
}
u32 sim_choose(u32 n) { return decide(n, replaying || n <= 1 ? 0 : (u32)(rnd() % n)); }
u32 sim_choose_small(u32 n) {
	u32 g = 0;
	if (!replaying && n > 1) {
		u32 k = (u32)(rnd() % 3);
		u64 lim = n;
		if (k == 0) { lim = n < 4 ? n : 4; } else if (k == 1) { lim = n / 4 + 1; }
		if (lim > n) lim = n;
		g = (u32)(rnd() % lim);
	}
	return decide(n, g);
}
int sim_flip(u32 num, u32 den) {
	u32 g = 0;
	if (!replaying) g = rnd() % den < num;
	return (int) decide(2, g);
}
u32 sim_range(u32 lo, u32 hi) { if (hi <= lo) return lo; return lo + sim_choose(hi - lo + 1); }

// ------------------------------------------------------------------ faults
const char *sim_fault_names[F_NKINDS] = {
	"short_read", "short_write", "fragment", "delay", "read_eio", "write_eio", "enospc", "open_fail",
	"close_fail", "seek_fail", "stat_fail", "readdir_order", "malloc_fail", "thread_create_fail",
	"spurious_wakeup", "preempt", "mem_preempt", "pipe_fail", "fork_fail", "dup_fail", "exec_fail",
	"socket_fail", "bind_fail", "listen_fail", "sockopt_fail", "accept_fail", "connect_fail",
	"resolve_fail", "reset", "recv_fail", "send_fail", "eintr", "eagain", "stall", "clock_jump",
	"kill", "peer_close", "stream_err", "stream_eof", "slow_send",
};
static struct { int on; u32 mean, left; u64 gap; u64 fired; } fk[F_NKINDS];

// Distance to the next fault of kind k: 0 means "no more".
static void draw_gap(int k) {
	u32 mean = fk[k].mean ? fk[k].mean : 1;
	u32 n = mean * 6 + 2;
	u32 g = 0;
	if (!replaying) {
		// geometric with the given mean, capped; small chance of "never again"
		u64 v = 1;
		if (mean > 1) {
			double u = (double)(rnd() >> 11) / 9007199254740992.0;
			double x = 0; // -mean*ln(1-u) without libm surprises
			x = -(double) mean * __builtin_log(1.0 - u);
			v = 1 + (u64) x;
		}
		if (v >= n) v = n - 1;
		g = (u32) v;
	}
	fk[k].gap = decide(n, g);
	if (fk[k].gap == 0) fk[k].on = 0;
}
void sim_enable(int k, u32 mean, u32 max) {
	if (max == 0) return;
	fk[k].on = 1; fk[k].mean = mean; fk[k].left = max;
	draw_gap(k);
}
void sim_enable_some(int k, u32 mean, u32 max) {
	if (sim_flip(1, 2)) sim_enable(k, mean, max);
}
void sim_enable_once(int k, u32 horizon) {
	fk[k].on = 1; fk[k].mean = 1; fk[k].left = 1;
	u32 g = 0;
	if (!replaying) g = 1 + (u32)(rnd() % horizon);
	fk[k].gap = decide(horizon + 1, g);
	if (fk[k].gap == 0) fk[k].on = 0;
}
void sim_disable(int k) { fk[k].on = 0; }
int sim_fault(int k) {
	if (!fk[k].on) return 0;
	if (--fk[k].gap > 0) return 0;
	fk[k].left--;
	fk[k].fired++;
	R->faults[k]++;
	sim_log("FAULT %s", sim_fault_names[k]);
	if (fk[k].left == 0) fk[k].on = 0;
	else draw_gap(k);
	return 1;
}
void sim_count_fault(int k) { fk[k].fired++; R->faults[k]++; sim_log("FAULT %s", sim_fault_names[k]); }
u64 sim_fired(int k) { return fk[k].fired; }
void sim_probe(int i) { if (i >= 0 && i < NPROBES) R->probes[i]++; }

// ------------------------------------------------------------------ log
void sim_log(const char *fmt, ...) {
	char buf[1024];
	va_list a; va_start(a, fmt);
	int n = snprintf(buf, sizeof buf, "[%llu.%06llu #%llu %s] ", (unsigned long long)(now_ns / SEC),
		(unsigned long long)(now_ns % SEC / 1000), (unsigned long long) steps, choice_who());
	n += vsnprintf(buf + n, sizeof buf - n - 1, fmt, a);
	va_end(a);
	if (n > (int) sizeof buf - 2) n = sizeof buf - 2;
	buf[n++] = '\n';
	R->loghash = hash_bytes(R->loghash, buf, n);
	if (R->want_log) { ssize_t r = write(2, buf, n); (void) r; }
}
void sim_hash(u64 v) { R->histhash = (R->histhash ^ v) * 0x100000001b3ull + 0x9e37; }
u64 hash_bytes(u64 h, const void *p, size_t n) {
	const u8 *b = p;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
	return h;
}
void sim_detail(const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	size_t n = strlen(R->detail);
	if (n < sizeof R->detail - 1) vsnprintf(R->detail + n, sizeof R->detail - n, fmt, a);
	va_end(a);
}
static void end_run(int st) __attribute__((noreturn));
static void end_run(int st) {
	R->status = st;
	R->steps = steps; R->sim_ns = now_ns;
	_exit(0);
}
void sim_violation(const char *cls, const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	snprintf(R->cls, sizeof R->cls, "%s", cls);
	vsnprintf(R->msg, sizeof R->msg, fmt, a);
	va_end(a);
	sim_log("VIOLATION %s: %s", R->cls, R->msg);
	end_run(RS_VIOLATION);
}
void sim_harness_error(const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	snprintf(R->cls, sizeof R->cls, "harness");
	vsnprintf(R->msg, sizeof R->msg, fmt, a);
	va_end(a);
	end_run(RS_HARNESS);
}

// ------------------------------------------------------------------ helpers
char *xsprintf(const char *fmt, ...) {
	va_list a; va_start(a, fmt);
	char *r = NULL;
	if (vasprintf(&r, fmt, a) < 0) abort();
	va_end(a);
	return r;
}
void bytes_add(bytes_t *b, const void *p, size_t n) {
	if (b->n + n + 1 > b->cap) {
		b->cap = (b->n + n + 1) * 2 + 64;
		b->p = realloc(b->p, b->cap);
	}
	if (n) memcpy(b->p + b->n, p, n);
	b->n += n;
	b->p[b->n] = 0;
}
void bytes_str(bytes_t *b, const char *s) { bytes_add(b, s, strlen(s)); }
void bytes_fmt(bytes_t *b, const char *fmt, ...) {
	char buf[4096];
	va_list a; va_start(a, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, a);
	va_end(a);
	bytes_add(b, buf, n);
}
void fill_bytes(u8 *p, size_t n, u32 tag) {
	u64 x = 0x1234567ull * (tag + 1) + 99;
	for (size_t i = 0; i < n; i++) { if (i % 8 == 0) splitmix(&x); p[i] = (u8)(x >> (8 * (i % 8))); if (i % 8 == 7) x ^= i; }
}
const char *esc(const void *p_, size_t n) {
	static char bufs[4][512];
	static int k;
	char *o = bufs[k++ % 4];
	const u8 *p = p_;
	size_t m = 0;
	for (size_t i = 0; i < n && m < 480; i++) {
		if (p[i] >= 32 && p[i] < 127 && p[i] != '\\') o[m++] = p[i];
		else m += sprintf(o + m, "\\x%02x", p[i]);
	}
	if (m >= 480) { strcpy(o + m, "..."); m += 3; }
	o[m] = 0;
	return o;
}
