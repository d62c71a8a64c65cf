#include "nat.h"
#include <time.h>
// prog/datelog: every line of a live stdin ends up in the log of its month, at once; or the failure shows.
const char *scen_name = "datelog";
const char *scen_probes[] = {"month_changed", "year_changed", "clock_went_back", "appended_to_existing", "long_line", "failure_reported", "killed", "line_in_pieces", "no_final_newline", "echoed", NULL};
const char *scen_rule = "a run = 1-14 groups of lines pushed to the stdin of datelog over days of simulated time, with clock steps, disk faults and a kill; non-trivial: a fault fired, a month passed or the process was killed; distinct by the hash of the schedule and history";
static proc_t *app; static int killed, out, ended, failing, badin; static long long base; static char cur_month[32];
static struct { char name[32]; bytes_t want; size_t safe; } L[40]; static int nl;
static bytes_t all;
static char *argvv[4];
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
static long long wallsec(void) { return base + (long long) (sim_now() / SEC); }
static int logof(long long t) {
	time_t tt = (time_t) t; struct tm g; gmtime_r(&tt, &g);
	char b[32]; snprintf(b, sizeof b, "%d-%02d.log", g.tm_year + 1900, g.tm_mon + 1);
	strcpy(cur_month, b);
	for (int i = 0; i < nl; i++) if (!strcmp(L[i].name, b)) return i;
	if (nl == 40) sim_harness_error("too many months");
	strcpy(L[nl].name, b); return nl++;
}
static u64 hit(void) { static int ks[] = {F_READ_EIO, F_WRITE_EIO, F_ENOSPC, F_OPEN_FAIL, F_CLOSE_FAIL}; u64 s = 0; for (int i = 0; i < 5; i++) s += sim_fired(ks[i]); return s; }
// what is in the logs against what should be; whole: all of it must be there
static void compare(int whole, const char *when) {
	for (int i = 0; i < nl; i++) {
		char p[64] = "/w/"; strcat(p, L[i].name);
		size_t n = 0; const u8 *d = fs_get(p, &n); if (!d) n = 0;
		if (n > L[i].want.n || (n && memcmp(d, L[i].want.p, n))) sim_violation("content", "%s: %s has %zu bytes that are not the beginning of the %zu bytes logged: '%s'", when, L[i].name, n, L[i].want.n, esc(d + (n > 40 ? n - 40 : 0), n > 40 ? 40 : n));
		if (n < L[i].safe) sim_violation("lost", "%s: %s has %zu bytes, %zu had been taken before", when, L[i].name, n, L[i].safe);
		if (whole && n < L[i].want.n) sim_violation("lost", "%s: %s has %zu of %zu bytes", when, L[i].name, n, L[i].want.n);
		if (whole && !d && L[i].want.n) sim_violation("lost", "%s: there is no %s", when, L[i].name);
	}
}
static void walk(const char *path, int isdir, const u8 *d, size_t n) {
	(void) d; (void) n; if (isdir || strncmp(path, "/w/", 3)) return;
	for (int i = 0; i < nl; i++) if (!strcmp(path + 3, L[i].name)) return;
	if (!strcmp(path, "/w/other.log")) return;
	sim_violation("stray", "datelog wrote %s", path);
}
static int gone(void) { int st; return sim_proc_exited(app, &st); }
static void feeder(void *a) {
	(void) a;
	int groups = 1 + sim_choose(14), killat = sim_flip(1, 5) ? (int) sim_choose(groups) : -1, moved = 0;
	for (int g = 0; g < groups && !gone(); g++) {
		char before[32]; strcpy(before, cur_month);
		// let time pass; keep away from the ends of months
		static u64 pass[] = {0, 0, 1, 60, 3600, 86400, 20 * 86400ull, 33 * 86400ull};
		sim_sleep(pass[sim_choose(8)] * SEC + SEC);
		if (sim_flip(1, 8)) {
			static long long steps[] = {-40 * 86400ll, -3600, 3600, 45 * 86400ll, -400 * 86400ll, 366 * 86400ll};
			long long s = steps[sim_choose(6)]; base += s; sim_set_wall(base); sim_count_fault(F_CLOCK_JUMP); moved = s < 0;
		}
		for (;;) { time_t x = (time_t) wallsec(); struct tm t1, t2; gmtime_r(&x, &t1); x += 60; gmtime_r(&x, &t2); if (t1.tm_mon == t2.tm_mon) break; sim_sleep(61 * SEC); }
		if (gone()) break;
		int k = logof(wallsec());
		if (before[0] && strcmp(before, cur_month)) { sim_probe(0); if (strncmp(before, cur_month, 4)) sim_probe(1); if (moved) sim_probe(2); moved = 0; }
		int lines = 1 + sim_choose(4);
		for (int l = 0; l < lines; l++) {
			static u32 lens[] = {1, 20, 80, 600, 9000};
			int s = sim_flip(1, 12) ? 4 : (int) sim_choose(4);
			u32 n = sim_choose(lens[s]); if (s == 4) { n += 8000; sim_probe(4); }
			bytes_t b = {0};
			for (u32 i = 0; i < n; i++) { u8 c = (u8) (1 + (i * 7 + g * 31 + l * 13) % 255); if (c == '\n') c = '.'; bytes_add(&b, &c, 1); }
			int last = g == groups - 1 && l == lines - 1 && sim_flip(1, 3);
			if (last && n == 0) last = 0;
			if (last) sim_probe(8); else bytes_str(&b, "\n");
			bytes_add(&L[k].want, b.p, b.n); bytes_add(&all, b.p, b.n);
			if (b.n > 2 && sim_flip(1, 4)) { u32 c = 1 + sim_choose((u32) b.n - 1); sim_set_stdin(app, b.p, c); sim_sleep(sim_choose(3) * 100 * MS); if (gone()) return; sim_set_stdin(app, b.p + c, b.n - c); sim_probe(7); }
			else sim_set_stdin(app, b.p, b.n);
			free(b.p);
			if (last) goto over;
		}
		if (killat == g && sim_flip(1, 2)) { u32 n = sim_choose(40); for (u32 i = 0; i < n; i++) sim_yield(); if (!gone()) { killed = 1; sim_probe(6); sim_proc_kill(app, sim_flip(1, 2) ? SIGKILL : SIGTERM); return; } }
		sim_sleep(2 * SEC);
		if (gone()) return;
		if (sim_stdin_left(app)) sim_violation("stalled", "datelog does not read its input");
		if (hit()) continue;
		compare(1, "while idle");
		for (int i = 0; i < nl; i++) L[i].safe = L[i].want.n;
		if (killat == g) { killed = 1; sim_probe(6); sim_proc_kill(app, SIGKILL); return; }
	}
over:
	ended = 1;
	sim_stdin_open(app, 0);
}
void scen_setup(void) {
	fs_mkdir("/w"); fs_put("/w/other.log", "x", 1);
	// some seconds to days before the end of a month
	static long long starts[] = {1704067200, 1709251200, 1700000000, 4102444800, 951868800, 1740787200};
	static long long off[] = {100, 70, 3600, 86400 * 2, 86400 * 20};
	base = starts[sim_choose(6)] - off[sim_choose(5)] - sim_choose(1000);
	sim_set_wall(base);
	if (sim_flip(1, 2)) for (int i = 0; i < 2; i++) { int k = logof(base + i * 33 * 86400ll); if (L[k].want.n) continue; bytes_str(&L[k].want, "old line\nsecond\n"); L[k].safe = L[k].want.n; char p[64]; snprintf(p, sizeof p, "/w/%s", L[k].name); fs_put(p, L[k].want.p, L[k].want.n); sim_probe(3); }
	cur_month[0] = 0;
	static u32 bufs[] = {4096, 1, 16, 512};
	sim_set_iobuf(bufs[sim_choose(4)]);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 1000);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 1000);
	int f = sim_choose(14);
	int ks[] = {F_READ_EIO, F_WRITE_EIO, F_ENOSPC, F_OPEN_FAIL, F_CLOSE_FAIL};
	if (f < 5) { sim_enable(ks[f], 1 + sim_choose(20), 3); failing = 1; }
	if (f == 5) { for (int i = 0; i < 5; i++) sim_enable_some(ks[i], 3 + sim_choose(20), 3); failing = 1; }
	if (f == 6) { fs_set_capacity(1 + sim_choose(3000)); failing = 1; }
	sim_set_preempt(sim_flip(1, 2) ? 0 : 3);
	sim_set_step_limit(4000000);
	argvv[0] = "datelog"; out = sim_flip(1, 3); if (out) { argvv[1] = "-o"; sim_probe(9); }
	sim_detail("fault=%d echo=%d", f, out);
	app = sim_app("datelog", 1 + out, argvv, NULL);
	sim_proc_cwd(app, "/w");
	sim_stdin_open(app, 1);
	if (f == 7) { sim_stdin_bad(app, sim_choose(2000)); badin = 1; }
	sim_task("feeder", feeder, NULL);
}
void scen_end(void) {
	int st;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "datelog does not end: %s", sim_blocked_report());
	fs_walk(walk);
	size_t en, on; sim_stderr_of(app, &en); const char *o = sim_stdout_of(app, &on);
	if (on > all.n || (on && memcmp(o, all.p, on))) sim_violation("echo", "stdout has %zu bytes which are not the input's", on);
	for (int i = 0; i < nl; i++) sim_hash(L[i].want.n);
	if (killed) { compare(0, "after the kill"); return; }
	if (st & 0x7f) sim_violation("crash", "datelog died of signal %d", st & 0x7f);
	if (st == 0) {
		if (!ended) sim_violation("success", "datelog exited with 0 before its input ended");
		if (sim_fired(F_READ_EIO) || sim_fired(F_OPEN_FAIL) || sim_fired(F_CLOSE_FAIL)) sim_violation("success", "datelog exited with 0 although a call failed");
		compare(1, "at the end");
		if (out && on != all.n) sim_violation("echo", "stdout has %zu of %zu bytes", on, all.n);
		if (!out && on) sim_violation("echo", "there is output without -o");
	} else {
		if (!hit() && !failing && !badin) sim_violation("refused", "datelog failed although nothing went wrong");
		if (!en) sim_violation("silent", "datelog failed without a message");
		compare(0, "after the failure");
		sim_probe(5);
	}
	if (sim_proc_live_blocks(app)) sim_violation("leak", "%d blocks are still allocated", sim_proc_live_blocks(app));
}
