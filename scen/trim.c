#include "nat.h"
#include <ctype.h>
// prog/trim rewrites files in place: complete or not at all, whatever fails and wherever it is killed.
const char *scen_name = "trim";
const char *scen_probes[] = {"changed", "unchanged", "lone_cr", "no_final_eol", "killed", "failure_reported", "odd_bytes", "long_line", "symlink", "several_files", NULL};
const char *scen_rule = "a run = one call of trim with 1-4 paths with seeded contents, line format and disk faults, possibly killed at an arbitrary call; non-trivial: a fault fired or the process was killed; distinct by the hash of the schedule and history";
enum { NF = 6 };
static const char *PATHS[NF] = {"/w/a", "/w/b.txt", "sub/c", "/w/sub", "/w/none", "/w/link"};
static const char *REAL[NF] = {"/w/a", "/w/b.txt", "/w/sub/c", "/w/sub", "/w/none", "/w/b.txt"};
static bytes_t OLD[3], NEW[3]; static int bad[3], changed[3], mode[3];
static proc_t *app; static int killed, lf, badfile; static int narg, arg[8];
static char *argvv[16]; static int narr;
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
// the reference: what trimming gives
static int trimmed(const u8 *p, size_t n, int fmt, bytes_t *out, int *chg) {
	size_t i = 0; *chg = 0;
	while (i < n) {
		size_t s = i, last = i; int e = 0; // e: 0 none, 1 unix, 2 win
		while (i < n && p[i] != '\n' && p[i] != '\r') { if (!isspace(p[i])) last = i + 1; i++; }
		size_t end = i;
		if (i < n && p[i] == '\r') { if (i + 1 >= n || p[i + 1] != '\n') return 0; e = 2; i += 2; }
		else if (i < n) { e = 1; i++; }
		if (last < end) *chg = 1;
		int want = fmt ? fmt : e;
		if (want != e) *chg = 1;
		bytes_add(out, p + s, last - s);
		if (want == 1) bytes_add(out, "\n", 1);
		if (want == 2) bytes_add(out, "\r\n", 2);
	}
	return 1;
}
static void gen(bytes_t *b) {
	int lines = sim_choose_small(12), uni = sim_flip(1, 2), form = sim_choose(3);
	static const char *sp[] = {" ", "\t", "\v", "\f", "  \t "};
	static const u8 odd[] = {0xff, 0x00, 0x80, 0xc3, 0xa9, 0x1a, 0x85, 0xa0};
	for (int l = 0; l < lines; l++) {
		int parts = sim_choose(5);
		for (int k = 0; k < parts; k++) switch (sim_choose(8)) {
			case 0: case 1: case 2: { u32 n = 1 + sim_choose(6); for (u32 i = 0; i < n; i++) bytes_add(b, &(u8) {(u8) (33 + sim_choose(90))}, 1); break; }
			case 3: case 4: bytes_str(b, sp[sim_choose(5)]); break;
			case 5: bytes_add(b, &odd[sim_choose(8)], 1); sim_probe(6); break;
			case 6: if (sim_flip(1, 6)) { u32 n = 4000 + sim_choose(6000); u8 c = (u8) (sim_flip(1, 3) ? ' ' : 'x'); for (u32 i = 0; i < n; i++) bytes_add(b, &c, 1); sim_probe(7); } break;
			case 7: if (sim_flip(1, 12)) bytes_str(b, "\r"); break;
		}
		if (sim_flip(1, 3)) bytes_str(b, sp[sim_choose(5)]);
		if (l == lines - 1 && sim_flip(1, 3)) { sim_probe(3); break; }
		int f = uni ? form : (int) sim_choose(2);
		bytes_str(b, f == 1 ? "\r\n" : "\n");
	}
}
static void killer(void *a) {
	u32 n = (u32) (size_t) a; int st;
	for (u32 i = 0; i < n; i++) { if (sim_proc_exited(app, &st)) return; sim_yield(); }
	if (sim_proc_exited(app, &st)) return;
	killed = 1; sim_probe(4);
	sim_log("killed");
	sim_proc_kill(app, SIGKILL);
}
void scen_setup(void) {
	fs_mkdir("/w"); fs_mkdir("/w/sub");
	lf = sim_choose(3);
	static int modes[] = {0644, 0600, 0755, 0664};
	for (int i = 0; i < 3; i++) {
		gen(&OLD[i]); fs_put(REAL[i], OLD[i].p, OLD[i].n);
		mode[i] = modes[sim_choose(4)]; fs_chmod(REAL[i], mode[i]);
		bad[i] = !trimmed(OLD[i].p, OLD[i].n, lf, &NEW[i], &changed[i]);
		if (bad[i]) changed[i] = 0;
	}
	fs_symlink("/w/link", "b.txt");
	argvv[narr++] = "trim";
	int given = lf != 1 || sim_flip(1, 2);
	if (given) { argvv[narr++] = "-l"; argvv[narr++] = lf == 0 ? "same" : lf == 1 ? "unix" : "win"; }
	narg = 1 + sim_choose_small(4);
	for (int i = 0; i < narg; i++) {
		arg[i] = sim_flip(3, 4) ? (int) sim_choose(3) : (int) sim_choose(NF);
		argvv[narr++] = (char *) PATHS[arg[i]];
		if (arg[i] == 5) sim_probe(8);
	}
	if (narg > 1) sim_probe(9);
	static u32 bufs[] = {4096, 1, 16, 512};
	sim_set_iobuf(bufs[sim_choose(4)]);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 1000);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 1000);
	int f = sim_choose(14);
	int ks[] = {F_READ_EIO, F_WRITE_EIO, F_ENOSPC, F_OPEN_FAIL, F_CLOSE_FAIL, F_STAT_FAIL};
	if (f < 6) sim_enable(ks[f], 1 + sim_choose(12), 3);
	if (f == 6) for (int i = 0; i < 6; i++) sim_enable_some(ks[i], 3 + sim_choose(20), 3);
	if (f == 7) { fs_bad_from(REAL[sim_choose(3)], sim_choose(60)); badfile = 1; }
	sim_detail("paths=%d format=%d fault=%d", narg, lf, f);
	sim_set_step_limit(2000000);
	app = sim_app("trim", narr, argvv, NULL);
	sim_proc_cwd(app, "/w");
	if (f >= 11) sim_task("killer", killer, (void *) (size_t) sim_choose(1u << (2 + sim_choose(9))));
}
static int extra; static char extraname[300];
static void walk(const char *path, int isdir, const u8 *d, size_t n) {
	(void) d; (void) n;
	if (isdir) return;
	if (!strncmp(path, "/w", 2) && strcmp(path, "/w/link")) { for (int i = 0; i < 3; i++) if (!strcmp(path, REAL[i])) return; extra++; snprintf(extraname, sizeof extraname, "%s", path); }
}
static u64 hit(void) { static int ks[] = {F_READ_EIO, F_WRITE_EIO, F_ENOSPC, F_OPEN_FAIL, F_CLOSE_FAIL, F_STAT_FAIL}; u64 s = 0; for (int i = 0; i < 6; i++) s += sim_fired(ks[i]); return s; }
void scen_end(void) {
	int st;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "trim does not end: %s", sim_blocked_report());
	int ok = st == 0;
	for (int i = 0; i < 3; i++) {
		size_t n; const u8 *p = fs_get(REAL[i], &n);
		if (!p) sim_violation("lost", "%s has disappeared", REAL[i]);
		int asold = n == OLD[i].n && !memcmp(p, OLD[i].p ? OLD[i].p : (u8 *) "", n);
		int asnew = !bad[i] && n == NEW[i].n && !memcmp(p, NEW[i].p ? NEW[i].p : (u8 *) "", n);
		if (bad[i]) sim_probe(2);
		if (!asold && !asnew) sim_violation("damaged", "%s had %zu bytes and should have %zu, it now has %zu: neither its old nor its trimmed contents (exit status %x%s) '%s' -> '%s'", REAL[i], OLD[i].n, NEW[i].n, n, st, killed ? ", killed" : "", esc(OLD[i].p, OLD[i].n > 60 ? 60 : OLD[i].n), esc(p, n > 60 ? 60 : n));
		int named = 0; for (int k = 0; k < narg; k++) if (!strcmp(REAL[arg[k]], REAL[i])) named = 1;
		if (!named && !asold) sim_violation("damaged", "%s was not named and has changed", REAL[i]);
		if (fs_mode(REAL[i]) != mode[i]) sim_violation("mode", "the permissions of %s changed from %o to %o", REAL[i], mode[i], fs_mode(REAL[i]));
		if (ok && named && bad[i]) sim_violation("success", "trim exited with 0 though %s has a line end it does not know", REAL[i]);
		if (ok && named && !asnew) sim_violation("success", "trim exited with 0, %s is not trimmed", REAL[i]);
		sim_hash(hash_bytes(asnew, p, n) ^ st);
	}
	fs_walk(walk);
	if (extra && !killed) sim_violation("leftover", "trim left %s behind", extraname);
	if (killed) return;
	size_t ln; if (!fs_get("/w/link", &ln)) sim_violation("lost", "the link has disappeared");
	if (st & 0x7f) sim_violation("crash", "trim died of signal %d", st & 0x7f);
	int must_fail = 0;
	for (int k = 0; k < narg; k++) { if (arg[k] == 4) must_fail = 1; for (int i = 0; i < 3; i++) if (!strcmp(REAL[arg[k]], REAL[i]) && bad[i]) must_fail = 1; }
	if (ok && must_fail && !hit()) sim_violation("success", "trim exited with 0 though a file could not be trimmed");
	size_t en; sim_stderr_of(app, &en);
	if (!ok) {
		sim_probe(5);
		if (!must_fail && !hit() && !badfile) sim_violation("refused", "trim failed although nothing went wrong: %s", esc(sim_stderr_of(app, NULL), en > 100 ? 100 : en));
		if (!en) sim_violation("silent", "trim failed without a message");
		return;
	}
	// the names printed are those of the changed files, in order
	bytes_t want = {0}; int seen[3] = {0};
	for (int k = 0; k < narg; k++) for (int i = 0; i < 3; i++) if (!strcmp(REAL[arg[k]], REAL[i]) && changed[i] && !seen[i]) { seen[i] = 1; bytes_fmt(&want, "%s\n", PATHS[arg[k]]); }
	size_t on; const char *o = sim_stdout_of(app, &on);
	if (on != want.n || memcmp(o, want.p ? want.p : (u8 *) "", on)) sim_violation("report", "trim changed other files than it printed: '%s' instead of '%s'", esc(o, on), esc(want.p, want.n));
	sim_probe(want.n ? 0 : 1);
}
