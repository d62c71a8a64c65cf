#include "dcommon.h"
// Several che invocations at the same time: each gives what it gives alone.
const char *scen_name = "dconc";
const char *scen_probes[] = {"same_program_twice", "two_runs", "two_tests", "no_tmp_dir", "shared_cwd", "killed_neighbour", NULL};
const char *scen_rule = "a run = 2-5 che processes and their compilers, interleaved at every system call by one seeded schedule; non-trivial: a preemption fired; distinct by the hash of the schedule";
enum { BUILD, INSTALL, RUN, TEST, GENC }; enum { NT = 2 };
static struct { int kind, prog, proc; char out[64]; int asked, exes, ntests, code; char hash[24]; int seen[8]; } J[6]; static int nj;
static int shared;
static int fails(int j, int t) { return (j * 7 + t * 3) % 4 == 0; }
long scen_ask(int p, int what, const char *path) {
	int j = dprocs[p].tag;
	if (what == ASK_C99) { J[j].asked++; return 0; }
	J[j].exes++;
	if (J[j].kind == TEST) {
		int t = path[0] == 'T' ? atoi(path + 1) - J[j].prog * 10 : -1;
		if (t < 0 || t >= NT) sim_violation(shared ? "shared-test-out" : "mixed", "che%d (test of dir %d) executed a program that is none of its tests", j, J[j].prog);
		J[j].seen[t]++;
		return fails(j, t) ? 3 : 0;
	}
	return J[j].code;
}
void scen_tell(int p, int what, const char *t, size_t n) { (void) what; (void) n; snprintf(J[dprocs[p].tag].hash, 24, "%s", t); }
int scen_mayfault(int p, int op, const char *path) {
	(void) op; (void) path;
	if (dprocs[p].tag != nj - 1) return 0; // only the last one is ever killed
	return dprocs[p].top && !dprocs[p].exe;
}
static int shared; // several test runs have the same current directory
static void testdir(int k, const char *at) {
	d_mkdirs(xsprintf("%s/tests%d", at, k));
	for (int i = 0; i < NT; i++) {
		char *t = i % 2 ? xsprintf("#import alpha\nint main() {\n\tputs(\"@T%d@\");\n\treturn alpha.next();\n}\n", k * 10 + i) : xsprintf("int main() {\n\tputs(\"@T%d@\");\n\treturn 0;\n}\n", k * 10 + i);
		d_put(xsprintf("%s/tests%d/t%d.test.c", at, k, i), t, strlen(t));
	}
}
void scen_setup(void) {
	lay_sources(); load_expected();
	for (int k = 0; k < 3; k++) testdir(k, "/S/work");
	nj = 2 + sim_choose(4);
	if (!sim_flip(1, 2)) d_mkdirs("/S/home/tmp"); else sim_probe(3);
	int runs = 0, tests = 0, share = sim_flip(1, 8), kill = sim_flip(1, 4);
	if (kill) sim_enable_once(F_KILL, 60);
	for (int j = 0; j < nj; j++) {
		J[j].kind = sim_choose(5); J[j].prog = sim_choose(J[j].kind == TEST ? 3 : NVALID);
		if (J[j].kind == TEST) {
			if (tests++) sim_probe(2);
			sim_detail("test tests%d; ", J[j].prog);
			char *cwd = share ? "/S/work" : xsprintf("/S/work/cwd%d", j);
			if (share && tests > 1) shared = 1;
			if (!share) { d_mkdirs(cwd); testdir(J[j].prog, cwd); }
			J[j].proc = d_start(xsprintf("che%d", j), cwd, (char *[]) {"che", "test", xsprintf("tests%d", J[j].prog), NULL}, j);
			continue;
		}
		prog_t *p = &PROGS[J[j].prog];
		for (int k = 0; k < j; k++) if (J[k].kind != TEST && J[k].prog == J[j].prog) sim_probe(0);
		// two processes must not be asked to make the same file
		if (J[j].kind == INSTALL) for (int k = 0; k < j; k++) if (J[k].kind == INSTALL && !strcmp(PROGS[J[k].prog].base, p->base)) J[j].kind = RUN;
		J[j].code = sim_choose(2) ? 0 : 1 + sim_choose(200);
		if (J[j].kind == RUN && runs++) sim_probe(1);
		int up = sim_flip(1, 3); // from the parent directory, with a longer path
		char *cwd = up ? "/S/work" : work(J[j].prog), *src = up ? xsprintf("%s/%s", p->dir, p->src) : (char *) p->src;
		if (up) sim_probe(4);
		snprintf(J[j].out, 64, "%s/out%d", cwd, j);
		if (J[j].kind == INSTALL) snprintf(J[j].out, 64, "/S/home/bin/%s", p->base);
		char *a1[] = {"che", "build", src, xsprintf("out%d", j), NULL}, *a2[] = {"che", "install", src, NULL}, *a3[] = {"che", "run", src, "arg", NULL}, *a4[] = {"che", "genc", src, xsprintf("out%d", j), NULL};
		sim_detail("%s %s; ", J[j].kind == BUILD ? "build" : J[j].kind == INSTALL ? "install" : J[j].kind == GENC ? "genc" : "run", src);
		J[j].proc = d_start(xsprintf("che%d", j), cwd, J[j].kind == BUILD ? a1 : J[j].kind == INSTALL ? a2 : J[j].kind == GENC ? a4 : a3, j);
	}
}
void scen_end(void) {
	check_sources();
	for (int j = 0; j < nj; j++) {
		int i = J[j].proc, st = dprocs[i].status; size_t en; char *err = d_stderr(i, &en);
		const char *who = xsprintf("che%d (%s of %s)", j, (char *[]) {"build", "install", "run", "test", "genc"}[J[j].kind], PROGS[J[j].prog].dir);
		if (dprocs[i].killed) { sim_probe(5); continue; }
		if (J[j].kind == TEST) {
			who = xsprintf("che%d (test of tests%d)", j, J[j].prog);
			char *out = d_stdout(i, NULL); int f = 0;
			for (int t = 0; t < NT; t++) {
				if (J[j].seen[t] != 1) sim_violation(shared ? "shared-test-out" : "failed", "%s ran test %d %d times because others run at the same time: %s", who, t, J[j].seen[t], esc(err, en));
				f += fails(j, t);
				if (!strstr(out, xsprintf("%s tests%d/t%d.test.c", fails(j, t) ? "FAIL" : "OK", J[j].prog, t))) sim_violation(shared ? "shared-test-out" : "mixed", "%s gave a wrong verdict for test %d", who, t);
			}
			if ((st == 0) != (f == 0)) sim_violation(shared ? "shared-test-out" : "status", "%s: %d tests fail, exit %x", who, f, st);
			continue;
		}
		if (J[j].kind == RUN) {
			if (!J[j].exes) sim_violation("failed", "%s failed because others run at the same time (status %x): %s", who, st, esc(err, en));
			if (strcmp(J[j].hash, xsprintf("%016llx", (unsigned long long) want[J[j].prog]))) sim_violation("mixed", "%s executed something else than the program it was given", who);
			if (st != J[j].code << 8) sim_violation("status", "%s: the program exited with %d, che with %x", who, J[j].code, st);
			continue;
		}
		if (st != 0) sim_violation("failed", "%s failed because others run at the same time (status %x): %s", who, st, esc(err, en));
		if (J[j].kind == GENC) { int c; if (dir_hash(J[j].out, &c) != want_genc[J[j].prog]) sim_violation("mixed", "%s reported success, but its C files are missing or not its own", who); continue; }
		if (!artifact_ok(J[j].out, J[j].prog)) sim_violation("mixed", "%s reported success, but its output is missing or not its own", who);
	}
}
