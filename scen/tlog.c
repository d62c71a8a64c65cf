#include "nat.h"
#include <time.h>
// lib/log and lib/time from several threads, in any zone, at any time.
const char *scen_name = "tlog";
const char *scen_probes[] = {"log", "now", "sub", "local", "sleep", "several_threads", "daylight_saving_zone", "half_hour_zone", "clock_stepped_in_call", "long_message", NULL};
const char *scen_rule = "a run = 1-6 threads that log, ask for the time, convert and subtract times in a seeded time zone at seeded dates, with preemption between calls and memory accesses, partial writes and clock steps; non-trivial: a fault or preemption fired; distinct by the hash of the schedule and history";
#define NT 6
#define NO 40
static int nt, no; static proc_t *app; static long long base; static int jumps; static int finished;
static struct { int op, len, k; long long t1, t2, sleep; u64 b, e, nb; int jb, je, did; } O[NT][NO];
static int K[NT]; static long F[NT][7];
static long long wall_ms(void) { return base * 1000 + (long long) (sim_now() / MS); }
long scen_arg(int i) {
	if (i == 0) return nt;
	if (i == 1) return no;
	int at = i % 1000 % 1000; (void) at;
	int j = i >= 9000 ? i - 9000 : i >= 7000 ? i - 7000 : i >= 5000 ? i - 5000 : i >= 3000 ? i - 3000 : i - 1000;
	int t = j / 50, k = j % 50;
	if (t < 0 || t >= NT || k < 0 || k >= NO) return 0;
	return i >= 9000 ? O[t][k].sleep : i >= 7000 ? O[t][k].t2 : i >= 5000 ? O[t][k].t1 : i >= 3000 ? O[t][k].len : O[t][k].op;
}
static void check_fields(int id, long long ms, int local, const char *what) {
	time_t s = (time_t) (ms >= 0 ? ms / 1000 : -((-ms + 999) / 1000)); struct tm t; if (local) localtime_r(&s, &t); else gmtime_r(&s, &t);
	long w[7] = {t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, (long) (ms - (long long) s * 1000)};
	for (int i = 0; i < 7; i++) if (F[id][i] != w[i]) sim_violation("time", "%s of %lld (TZ=%s): %ld-%02ld-%02ld %02ld:%02ld:%02ld.%03ld instead of %ld-%02ld-%02ld %02ld:%02ld:%02ld.%03ld", what, ms, getenv("TZ"), F[id][0], F[id][1], F[id][2], F[id][3], F[id][4], F[id][5], F[id][6], w[0], w[1], w[2], w[3], w[4], w[5], w[6]);
}
void scen_note(int w, long id, long b) {
	if (id < 0 || id >= NT) return;
	if (w >= 20 && w < 27) { F[id][w - 20] = b; return; }
	int k = K[id];
	if (w == 1 || w == 3 || w == 7 || w == 9) { K[id] = k = (int) b; O[id][k].b = (u64) wall_ms(); O[id][k].nb = sim_now(); O[id][k].jb = jumps; return; }
	if (w == 2) { O[id][k].e = (u64) wall_ms(); O[id][k].je = jumps; O[id][k].did = 1 + (int) b; sim_probe(0); return; }
	if (w == 4) { O[id][k].e = (u64) wall_ms(); O[id][k].je = jumps; return; }
	if (w == 103) {
		sim_probe(1);
		if (O[id][k].jb != O[id][k].je) { sim_probe(8); return; }
		// the time is that of some moment of the call
		struct tm t = {.tm_year = (int) F[id][0] - 1900, .tm_mon = (int) F[id][1] - 1, .tm_mday = (int) F[id][2], .tm_hour = (int) F[id][3], .tm_min = (int) F[id][4], .tm_sec = (int) F[id][5]};
		long long ms = (long long) timegm(&t) * 1000 + F[id][6];
		if (ms < (long long) O[id][k].b || ms > (long long) O[id][k].e || F[id][6] < 0 || F[id][6] > 999 || F[id][1] < 1 || F[id][1] > 12) sim_violation("now", "now() = %ld-%02ld-%02ld %02ld:%02ld:%02ld.%03ld is not between %llu and %llu ms", F[id][0], F[id][1], F[id][2], F[id][3], F[id][4], F[id][5], F[id][6], (unsigned long long) O[id][k].b, (unsigned long long) O[id][k].e);
		return;
	}
	if (w == 5) {
		sim_probe(2);
		long long want = (O[id][k].t1 - O[id][k].t2) * 1000 + k * 37 % 1000 - k * 91 % 1000;
		if (b != want) sim_violation("sub", "the difference of unix times %lld.%03d and %lld.%03d is %ld ms instead of %lld (TZ=%s)", O[id][k].t1, k * 37 % 1000, O[id][k].t2, k * 91 % 1000, b, want, getenv("TZ"));
	}
	if (w == 6) { sim_probe(3); check_fields((int) id, O[id][k].t1 * 1000 + k, 1, "local time"); }
	if (w == 8) {
		sim_probe(4);
		u64 slept = (sim_now() - O[id][k].nb) / 1000;
		if (b && (long long) slept < O[id][k].sleep) sim_violation("sleep", "sleep of %lld us took %llu us", O[id][k].sleep, (unsigned long long) slept);
		if (!b && !sim_fired(F_EINTR)) sim_violation("sleep", "sleep failed although nothing interrupted it");
	}
}
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
static void stepper(void *a) {
	(void) a;
	int n = sim_choose(6);
	for (int i = 0; i < n; i++) {
		if (sim_flip(1, 2)) { u32 y = sim_choose(300); while (y--) sim_yield(); } else sim_sleep(sim_choose(20000) * MS);
		int st; if (sim_proc_exited(app, &st)) return;
		static long long s[] = {-1, 1, 3600, -3600, 86400 * 40, -86400 * 200};
		base += s[sim_choose(6)]; jumps++; sim_set_wall(base); sim_count_fault(F_CLOCK_JUMP);
	}
}
static long long anytime(void) {
	// around changes of day, month, year, leap days and daylight saving
	static long long c[] = {0, 951782400, 951868800, 1709164800, 1704067200, 1711846800, 1729990800, 1710054000, 1730613600, 4107542400, 1699999999, 2147483648, 1712419200, 1728144000};
	long long t = c[sim_choose(14)];
	switch (sim_choose(4)) { case 0: return t + (long long) sim_choose(7200) - 3600; case 1: return t + (long long) sim_choose(4 * 86400) - 2 * 86400; case 2: return t + (long long) sim_choose(366 * 86400); }
	return t + (long long) sim_choose(3) - 1;
}
void scen_setup(void) {
	static const char *zones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "NST3:30NDT,M3.2.0,M11.1.0", "<+14>-14", "<-12>12", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "IST-5:30", "<+01>-1"};
	int z = sim_choose(10); setenv("TZ", zones[z], 1); tzset();
	if (strchr(zones[z], ',')) sim_probe(6);
	if (strstr(zones[z], ":30") || strstr(zones[z], ":45")) sim_probe(7);
	nt = 1 + sim_choose_small(NT); no = 1 + sim_choose(NO);
	if (nt > 1) sim_probe(5);
	for (int t = 0; t < nt; t++) for (int k = 0; k < no; k++) {
		O[t][k].op = sim_flip(1, 2) ? 0 : (int) sim_choose(5);
		static u32 l[] = {1, 20, 200, 3000};
		O[t][k].len = (int) sim_choose(l[sim_choose(4)]); if (O[t][k].len > 500 && O[t][k].op == 0) sim_probe(9);
		O[t][k].t1 = anytime(); O[t][k].t2 = sim_flip(1, 2) ? anytime() : O[t][k].t1 + (long long) sim_choose(40000) - 20000;
		static u32 sl[] = {1, 1000, 1000000, 90000000};
		O[t][k].sleep = sim_choose(sl[sim_choose(4)]);
	}
	base = anytime(); if (base < 900000000) base += 900000000; sim_set_wall(base);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 1000);
	sim_enable_some(F_STALL, 5 + sim_choose(60), 20);
	sim_set_preempt(1 + sim_choose(10));
	sim_set_mem_preempt(sim_flip(2, 3) ? 5 + sim_choose(100) : 0);
	sim_set_step_limit(4000000);
	sim_detail("threads=%d ops=%d zone=%s", nt, no, zones[z]);
	app = sim_app("app", 1, (char *[]) {"app", NULL}, NULL);
	if (sim_flip(1, 3)) sim_task("stepper", stepper, NULL);
}
void scen_end(void) {
	int st;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "the program does not end: %s", sim_blocked_report());
	size_t n; const char *e = sim_stderr_of(app, &n);
	if (st) sim_violation("crash", "the program ended with %x: %s", st, esc(e, n > 200 ? 200 : n));
	int next[NT] = {0};
	size_t at = 0; int lines = 0, want = 0;
	for (int t = 0; t < nt; t++) for (int k = 0; k < no; k++) if (O[t][k].op == 0) { want++; if (O[t][k].did != 2) sim_violation("result", "logmsg returned %d", O[t][k].did - 1); }
	while (at < n) {
		const char *l = e + at; const char *x = memchr(l, '\n', n - at);
		if (!x) sim_violation("torn", "the log does not end with a line end: '%s'", esc(l, n - at > 80 ? 80 : n - at));
		size_t len = (size_t) (x - l); at += len + 1; lines++;
		char b[8192]; if (len >= sizeof b) sim_violation("torn", "a line of %zu bytes", len);
		memcpy(b, l, len); b[len] = 0;
		int id, k, off = 0; char stamp[64];
		if (len < 24 || sscanf(b + 23, " t%d #%d %n", &id, &k, &off) != 2 || id < 0 || id >= nt || k < 0 || k >= no || O[id][k].op != 0) sim_violation("torn", "not a line that was logged: '%s'", esc(b, len > 120 ? 120 : len));
		while (next[id] < no && O[id][next[id]].op != 0) next[id]++;
		if (k != next[id]) sim_violation("order", "thread %d: message %d where %d is due", id, k, next[id]);
		next[id]++;
		char m[4000]; int ml = O[id][k].len; for (int i = 0; i < ml; i++) m[i] = (char) (33 + (id * 31 + k * 7 + i) % 94);
		m[ml] = '.'; m[ml + 1] = 0;
		char head[40]; snprintf(head, sizeof head, " t%d #%d ", id, k);
		if (strncmp(b + 23, head, strlen(head)) || strcmp(b + 23 + strlen(head), m)) sim_violation("torn", "message %d of thread %d is not what was logged: '%s'", k, id, esc(b, len > 120 ? 120 : len));
		if (O[id][k].jb != O[id][k].je) { sim_probe(8); continue; }
		int ok = 0; memcpy(stamp, b, 23); stamp[23] = 0;
		long long b0 = (long long) O[id][k].b, e0 = (long long) O[id][k].e;
		for (long long s = b0 / 1000; s <= e0 / 1000 && !ok; s++) {
			time_t tt = (time_t) s; struct tm t; localtime_r(&tt, &t); char w[64]; snprintf(w, sizeof w, "%d-%02d-%02d %02d:%02d:%02d.", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec);
			if (strncmp(stamp, w, 20)) continue;
			int ms = atoi(stamp + 20);
			if (s * 1000 + ms >= b0 && s * 1000 + ms <= e0) ok = 1;
		}
		if (!ok) sim_violation("stamp", "message %d of thread %d carries '%s', logged between %lld and %lld ms (TZ=%s)", k, id, stamp, b0, e0, getenv("TZ"));
	}
	if (lines != want) sim_violation("lost", "%d of %d messages are in the log", lines, want);
	if (sim_proc_live_blocks(app)) sim_violation("leak", "%d blocks are still allocated", sim_proc_live_blocks(app));
	sim_hash(hash_bytes(n, e, n > 3000 ? 3000 : n));
	finished = 1;
}
