#include "dcommon.h"
// che test: every test once, a true verdict for each, and a true exit code.
const char *scen_name = "dtest";
const char *scen_probes[] = {"pass", "exit_code", "signal", "unbuildable", "compiler_failed", "non_utf8", "large_output", "missing_dir", "all_pass", "fails_256", "io_fault", "same_name", "two_dirs", "no_tests", NULL};
const char *scen_rule = "a run = one che test over a generated tree of tests with seeded outcomes (exit codes, signals, outputs, compiler failures), directory orders and failing calls; non-trivial: a fault, short transfer or preemption fired; distinct by the hash of the schedule and answers";
enum { PASS, CODE, SIG, BADSRC, C99FAIL };
static struct { int kind, out, err, builds, runs; long c99, exe; char path[64]; } T[600]; static int nt, proc, missing, stray, lastrun = -1; static char dirfault[64];
void scen_fault(int p, int op, const char *path) { (void) p; if (op != 5) return; if (strstr(path, "deep")) strcpy(dirfault, "suite/sub/deep/"); else if (strstr(path, "sub")) strcpy(dirfault, "suite/sub/"); }
static int tid(const char *p) { if (p[0] != 'T') return -1; int t = atoi(p + 1); return t >= 0 && t < nt ? t : -1; }
long scen_ask(int p, int what, const char *path) {
	(void) p;
	int t = tid(path);
	if (t < 0) { stray++; return 0; }
	if (what == ASK_C99) { T[t].builds++; return T[t].c99; }
	T[t].runs++; lastrun = t;
	return T[t].exe;
}
int scen_mayfault(int p, int op, const char *path) { (void) op; (void) path; return dprocs[p].top && !dprocs[p].exe; }
static void put_test(const char *dir, const char *name, int t) {
	snprintf(T[t].path, 64, "%s/%s", dir, name);
	char *src;
	if (T[t].kind == BADSRC) src = sim_choose(2) ? xsprintf("int main() {\n\treturn %d\n}\n", t) : xsprintf("#import nosuch%d\nint main() {\n\treturn 0;\n}\n", t);
	else if (t % 3 == 1) src = xsprintf("#import alpha\nint main() {\n\tputs(\"@T%d@\");\n\treturn alpha.next();\n}\n", t);
	else if (t % 3 == 2) src = xsprintf("#import beta\nint main() {\n\tputs(\"@T%d@\");\n\tbeta.stop(beta.start());\n\treturn 0;\n}\n", t);
	else src = xsprintf("int main() {\n\tputs(\"@T%d@\");\n\treturn 0;\n}\n", t);
	d_put(xsprintf("/S/work/%s/%s", dir, name), src, strlen(src));
}
static int lines(const char *out, const char *a, const char *path, int exact) {
	// lines "<a> <path>" or "<a> <path>: ..."
	int c = 0; size_t al = strlen(a);
	for (const char *q = out; q && *q; q = strchr(q, '\n'), q = q ? q + 1 : q) {
		if (strncmp(q, a, al) || q[al] != ' ') continue;
		const char *e = strchr(q, '\n'); if (!e) e = q + strlen(q);
		const char *s = q + al + 1, *h = NULL;
		size_t pl = strlen(path);
		for (const char *k = s; k + pl <= e; k++) if (!strncmp(k, path, pl) && (k == s || k[-1] == '/') && (k + pl == e || k[pl] == ':')) { h = k; break; }
		if (h) c++;
		(void) exact;
	}
	return c;
}
static int occurs(const char *out, const char *what) { int c = 0; for (const char *q = out; (q = strstr(q, what)); q++) c++; return c; }
void scen_setup(void) {
	lay_sources();
	int mode = (int) sim_choose(250), many = mode == 0;
	static const char *dirs[] = {"suite", "suite/sub", "suite/sub/deep", "more"};
	for (int i = 0; i < 4; i++) d_mkdirs(xsprintf("/S/work/%s", dirs[i]));
	d_put("/S/work/suite/notest.c", "int x", 5); d_put("/S/work/suite/readme.test", "x", 1); d_put("/S/work/suite/a.test.c.bak", "x", 1);
	nt = many ? 255 + (int) sim_choose(3) : (int) sim_choose(9);
	int utf = sim_flip(7, 8); // no test prints bytes that are not UTF-8
	int allpass = sim_flip(1, 3), two = sim_flip(1, 3);
	for (int t = 0; t < nt; t++) {
		T[t].kind = many ? CODE : allpass ? PASS : sim_choose(2) ? PASS : (int) sim_choose(5);
		T[t].out = (int) sim_choose(3) ? 0 : 1 + (int) sim_choose(4); T[t].err = (int) sim_choose(3) ? 0 : 1 + (int) sim_choose(4);
		if (many) T[t].out = T[t].err = 0;
		if (utf) { if (T[t].out == 2) T[t].out = 1; if (T[t].err == 2) T[t].err = 1; }
		long e = 0;
		if (T[t].kind == CODE) e = many ? 1 : sim_flip(1, 3) ? 255 : 1 + sim_choose(255);
		if (T[t].kind == SIG) e = (sim_choose(2) ? SIGSEGV : SIGABRT) << 8;
		T[t].exe = e | (long) T[t].out << 16 | (long) T[t].err << 20 | (long) sim_choose(2) << 24;
		if (T[t].kind == C99FAIL) T[t].c99 = (sim_choose(3) ? 1 + sim_choose(100) : SIGKILL << 8) | 1 << 20 | (long) sim_choose(4) << 16;
		int d = many ? 0 : (int) sim_choose(two ? 4 : 3);
		char nm[32]; snprintf(nm, 32, t % 4 == 3 ? "same.test.c" : "t%d.test.c", t);
		for (int u = 0; u < t; u++) if (!strcmp(T[u].path, xsprintf("%s/%s", dirs[d], nm))) snprintf(nm, 32, "t%d.test.c", t);
		put_test(dirs[d], nm, t);
	}
	missing = sim_flip(1, 12);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), many ? 0 : 40);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), many ? 0 : 40);
	sim_enable_some(F_EINTR, 3 + sim_choose(10), 20);
	sim_enable_some(F_READDIR_ORDER, 1, 30);
	int f = (int) sim_choose(14);
	static int ks[] = {F_OPEN_FAIL, F_READ_EIO, F_WRITE_EIO, F_ENOSPC, F_STAT_FAIL, F_FORK_FAIL};
	static int hz[] = {12, 16, 8, 10, 8, 2};
	if (f < 6) sim_enable_once(ks[f], hz[f] * (nt + 1));
	char *argv[8]; int n = 0; argv[n++] = "che"; argv[n++] = "test";
	int abs = sim_flip(1, 3);
	if (missing && sim_choose(2)) argv[n++] = "absent";
	if (two && sim_choose(2)) { argv[n++] = "more"; argv[n++] = abs ? "/S/work/suite" : "suite"; } else { argv[n++] = abs ? "/S/work/suite" : "suite"; if (two) argv[n++] = "more"; }
	if (missing && n < (two ? 5 : 4)) argv[n++] = "absent";
	argv[n] = NULL;
	for (int t = 0; t < nt && !many; t++) sim_detail("%s kind=%d out=%d err=%d; ", T[t].path, T[t].kind, T[t].out, T[t].err);
	sim_detail("tests=%d missing=%d fault=%d", nt, missing, f);
	proc = d_start("che", "/S/work", argv, 0);
	if (two) sim_probe(12);
	if (many) sim_probe(9);
}
void scen_end(void) {
	int st = dprocs[proc].status, fault = fault_in(proc), bad = 0; size_t on, en; char *out = d_stdout(proc, &on), *err = d_stderr(proc, &en);
	if (st & 127) sim_violation("crash", "che test died of signal %d", st & 127);
	if (fault) sim_probe(10);
	for (size_t i = 0; i < on; i++) if (!out[i]) out[i] = '?';
	// A recorded finding: output that is not UTF-8 ends che test.
	if (st >> 8 == 101 && lastrun >= 0 && (T[lastrun].out == 2 || T[lastrun].err == 2) && strstr(err, "Utf8Error")) sim_violation("panic-non-utf8", "che test ends with a panic at a test whose output is not UTF-8");
	// A recorded finding: a directory that cannot be looked into is passed over.
	if (dirfault[0] && !(st & 127)) {
		int skipped = 0; for (int t = 0; t < nt; t++) if (!strncmp(T[t].path, dirfault, strlen(dirfault)) && !T[t].runs && !T[t].builds) skipped++;
		for (int t = 0; t < nt; t++) if (T[t].kind != PASS && strncmp(T[t].path, dirfault, strlen(dirfault)) && T[t].kind < BADSRC) skipped = 0;
		if (skipped && st == 0) sim_violation("skipped-dir", "che test exited with 0 although it could not look into a directory with tests");
	}
	int fails = 0;
	for (int t = 0; t < nt; t++) if (T[t].kind != PASS) fails++;
	for (int t = 0; t < nt; t++) {
		const char *p = T[t].path;
		int ok = lines(out, "OK", p, 0), fl = lines(out, "FAIL", p, 0);
		if (T[t].runs > 1 || T[t].builds > 1) sim_violation("twice", "%s was built %d times and run %d times", p, T[t].builds, T[t].runs);
		if (ok + fl > 1) sim_violation("twice", "%s got %d verdicts", p, ok + fl);
		if (ok && (T[t].kind != PASS || T[t].runs != 1)) sim_violation("false-ok", "%s is reported OK, but it %s", p, T[t].runs != 1 ? "was not run" : T[t].kind == CODE ? "exited with a failure" : "was killed");
		if (T[t].kind >= BADSRC && T[t].runs) sim_violation("stale", "%s cannot be built, yet something was run for it", p);
		if (!fault && !missing) {
			if (T[t].kind < BADSRC && T[t].runs != 1) sim_violation("not-run", "%s was not run", p);
			if (T[t].kind == PASS && !ok) sim_violation("false-fail", "%s passes but is not reported OK: %s", p, esc(out, on));
			if (T[t].kind != PASS && !fl) sim_violation("unreported", "%s fails (kind %d) but is not reported FAIL", p, T[t].kind);
			if (T[t].runs) {
				if (T[t].out == 1 || T[t].err == 1) if (occurs(out, xsprintf("noise line %d\n", t)) != (T[t].out == 1) + (T[t].err == 1)) sim_violation("output", "the output of %s was not passed on exactly once", p);
				if (T[t].out == 3 || T[t].err == 3) { sim_probe(6); if (occurs(out, xsprintf(" of %d\n", t)) < 899 * ((T[t].out == 3) + (T[t].err == 3))) sim_violation("output", "part of the output of %s was lost", p); }
				if (T[t].out == 4 || T[t].err == 4) if (occurs(out, xsprintf("no end %d\n", t)) != (T[t].out == 4) + (T[t].err == 4)) sim_violation("output", "the output of %s was not passed on", p);
				if (T[t].out == 2 || T[t].err == 2) sim_probe(5);
			}
			sim_probe(T[t].kind);
		}
		if (t % 4 == 3 && strstr(p, "same")) sim_probe(11);
	}
	if (missing) sim_probe(7);
	if (!nt) sim_probe(13);
	if (stray) sim_violation("stray", "che test ran something that is no test");
	int want_ok = !fails && !missing;
	for (int t = 0; t < nt; t++) if (!T[t].runs) want_ok = 0;
	// A recorded finding: tests that cannot be built do not count.
	int only = !want_ok; for (int t = 0; t < nt; t++) if (T[t].runs ? T[t].kind != PASS : !lines(out, "FAIL", T[t].path, 0)) only = 0;
	if (st == 0 && only && !missing) sim_violation("exit-unbuildable", "che test exited with 0 although tests could not be built");
	if (st == 0 && !want_ok) sim_violation("exit-code", "che test exited with 0 although %d of %d tests fail, %s", fails, nt, missing ? "a directory is missing" : fault ? "a call failed" : "or were not run");
	if (st != 0 && want_ok && !fault) sim_violation("exit-code", "all %d tests pass, but che test exited with %d: %s %s", nt, st >> 8, esc(out, on > 300 ? 300 : on), esc(err, en > 300 ? 300 : en));
	if (st == 0) sim_probe(8);
	(void) bad;
}
