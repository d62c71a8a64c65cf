#include "dcommon.h"
// che build/install/run/genc: success is reported exactly when the complete, right result exists.
const char *scen_name = "dbuild";
const char *scen_probes[] = {"c99_failed", "c99_killed", "c99_noise", "non_utf8_noise", "io_fault", "spawn_failed", "bad_program", "run", "install", "genc", "exec_failed", "many_lines", NULL};
const char *scen_rule = "a run = 1-3 che invocations, one after another, with a seeded compiler behaviour and seeded failures of the calls under them; non-trivial: a fault, short transfer or preemption fired; distinct by the hash of the schedule and answers";
enum { BUILD, DEFAULT, INSTALL, RUN, GENC };
static struct { int kind, prog, proc, nargs; long mode; int asked, exes, code, sig; char hash[24]; char args[5][64]; int gotargs; int argbad; } J[4]; static int nj, cur_j;
long scen_ask(int p, int what, const char *path) {
	int j = dprocs[p].tag; (void) path;
	if (what == ASK_C99) { J[j].asked++; return J[j].mode; }
	J[j].exes++;
	return J[j].code | J[j].sig << 8;
}
void scen_tell(int p, int what, const char *t, size_t n) {
	int j = dprocs[p].tag; (void) what;
	snprintf(J[j].hash, 24, "%s", t);
	size_t k = strlen(t) + 1; int a = 0;
	while (k < n) { if (a >= J[j].nargs || strcmp(t + k, J[j].args[a])) J[j].argbad = 1; a++; k += strlen(t + k) + 1; }
	J[j].gotargs = a;
}
int scen_mayfault(int p, int op, const char *path) { (void) op; (void) path; return dprocs[p].top && !dprocs[p].exe; }
static void check(int j) {
	int i = J[j].proc, st = dprocs[i].status, prog = J[j].prog, k = J[j].kind;
	size_t on, en; char *out = d_stdout(i, &on), *err = d_stderr(i, &en);
	int fault = fault_in(i), code = J[j].mode & 255, sig = J[j].mode >> 8 & 255, noise = J[j].mode >> 16 & 15;
	int c99bad = k != GENC && (code || sig);
	const char *who = xsprintf("%s of %s/%s", (char *[]) {"build", "build", "install", "run", "genc"}[k], PROGS[prog].dir, PROGS[prog].src);
	if (J[j].asked > 1) sim_violation("twice", "%s called the compiler %d times", who, J[j].asked);
	if (!PROGS[prog].valid && J[j].asked) sim_violation("invalid", "%s: the compiler was called for a program that cannot be translated", who);
	if ((st & 127) && k == RUN && J[j].exes && J[j].sig) { if ((st & 127) != J[j].sig) sim_violation("status", "%s: the program died of signal %d, che of %d", who, J[j].sig, st & 127); }
	else if ((st & 127)) sim_violation("crash", "%s died of signal %d", who, st & 127);
	int ec = st >> 8;
	int built = J[j].asked && !code && !sig;
	if (fault) sim_probe(4);
	if (k == RUN && J[j].exes) {
		sim_probe(7);
		if (!built) sim_violation("stale", "%s executed something although nothing was built", who);
		if (strcmp(J[j].hash, xsprintf("%016llx", (unsigned long long) want[prog]))) sim_violation("wrong-program", "%s executed a different program", who);
		if (J[j].argbad || J[j].gotargs != J[j].nargs) sim_violation("args", "%s passed different arguments to the program", who);
		if (J[j].sig && st == 0) sim_violation("status", "%s: the program was killed, but che exited with 0", who);
		if (!J[j].sig && ec != J[j].code) sim_violation("status", "%s: the program exited with %d, che with %d", who, J[j].code, ec);
		return;
	}
	if (ec == 0) {
		if (!PROGS[prog].valid) sim_violation("success", "%s reported success for a program that cannot be translated", who);
		if (c99bad) sim_violation("success", "%s reported success although the compiler failed (exit %d signal %d)", who, code, sig);
		if (k == RUN) sim_violation("success", "%s reported success without running the program", who);
		if (k == BUILD && !artifact_ok(xsprintf("%s/result", work(prog)), prog)) sim_violation("success", "%s reported success, but the output is missing or different", who);
		if (k == DEFAULT && !artifact_ok(xsprintf("%s/%s", work(prog), PROGS[prog].base), prog)) sim_violation("success", "%s reported success, but the output is missing or different", who);
		if (k == INSTALL && !artifact_ok(xsprintf("/S/home/bin/%s", PROGS[prog].base), prog)) sim_violation("success", "%s reported success, but the output is missing or different", who);
		if (k == GENC) { int c; if (dir_hash(xsprintf("%s/gen%d", work(prog), j), &c) != want_genc[prog]) sim_violation("success", "%s reported success, but the C files are missing or different", who); }
		char *art = k == BUILD ? xsprintf("%s/result", work(prog)) : k == DEFAULT ? xsprintf("%s/%s", work(prog), PROGS[prog].base) : k == INSTALL ? xsprintf("/S/home/bin/%s", PROGS[prog].base) : NULL;
		if (art && lacks(art, prog)) sim_violation("content", "%s: the output lacks %s", who, esc(lacks(art, prog), strlen(lacks(art, prog))));
	} else {
		if (PROGS[prog].valid && !c99bad && !fault) sim_violation("failure", "%s failed (exit %d) although nothing went wrong: %s", who, ec, esc(err, en));
		if (en == 0) sim_violation("silent", "%s failed without a message", who);
	}
	if (!fault && J[j].asked && (noise == 1 || noise == 3) && !strstr(out, noise == 1 ? "noise line 1" : "line 899 of 1")) sim_violation("diagnostics", "%s: messages of the compiler were lost", who);
	if (!fault && J[j].asked && noise == 3) { int c = 0; for (char *q = out; (q = strstr(q, " of 1\n")); q++) c++; if (c != 900) sim_violation("diagnostics", "%s: %d of 900 lines of the compiler were passed on", who, c); sim_probe(11); }
	if (!fault && J[j].asked && noise == 5 && !strstr(out, xsprintf("%s ->", PROGS[prog].src))) sim_violation("diagnostics", "%s: a message of the compiler does not name the source file: %s", who, esc(out, on));
	if (!fault && J[j].asked && noise) sim_probe(noise == 2 ? 3 : 2);
	if (c99bad && J[j].asked) sim_probe(sig ? 1 : 0);
	if (!PROGS[prog].valid) sim_probe(6);
	if (k == INSTALL) sim_probe(8);
	if (k == GENC) sim_probe(9);
}
void scen_setup(void) {
	lay_sources(); load_expected();
	nj = 1 + sim_choose(3);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 50);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 50);
	sim_enable_some(F_EINTR, 3 + sim_choose(10), 20);
	sim_enable_some(F_READDIR_ORDER, 1, 20);
	int f = sim_choose(14);
	static int ks[] = {F_OPEN_FAIL, F_READ_EIO, F_WRITE_EIO, F_ENOSPC, F_STAT_FAIL, F_FORK_FAIL, F_EXEC_FAIL};
	static int hz[] = {30, 40, 20, 20, 12, 2, 2};
	if (f < 7) sim_enable_once(ks[f], hz[f] * nj);
	for (int j = 0; j < nj; j++) {
		J[j].kind = sim_choose(5); J[j].prog = sim_flip(3, 4) ? sim_choose(NVALID) : sim_choose(NPROGS);
		int m = sim_choose(8);
		long mode = 0;
		if (m == 1) mode = 1 + sim_choose(255);
		if (m == 2) mode = (sim_choose(2) ? SIGKILL : SIGSEGV) << 8;
		if (m == 1 || m == 2) mode |= (1 + sim_choose(2)) << 20;
		if (m >= 3 && m <= 5) mode = (long) (1 + sim_choose(5)) << 16 | (long) (sim_choose(2) ? 3 : 0) << 20;
		if (m == 6) mode = (1 + sim_choose(100)) | (1 + sim_choose(5)) << 16;
		J[j].mode = mode;
		J[j].code = J[j].kind == RUN && sim_flip(1, 3) ? sim_choose(256) : 0;
		if (J[j].kind == RUN && sim_flip(1, 6)) { static int sg[] = {SIGKILL, SIGSEGV, SIGABRT, SIGTERM}; J[j].sig = sg[sim_choose(4)]; }
		char *argv[12]; int n = 0; prog_t *p = &PROGS[J[j].prog];
		argv[n++] = "che";
		switch (J[j].kind) {
		case BUILD: argv[n++] = "build"; argv[n++] = (char *) p->src; argv[n++] = "result"; break;
		case DEFAULT: argv[n++] = "build"; argv[n++] = (char *) p->src; break;
		case INSTALL: argv[n++] = "install"; argv[n++] = (char *) p->src; break;
		case RUN: argv[n++] = "run"; argv[n++] = (char *) p->src; J[j].nargs = sim_choose(4); for (int a = 0; a < J[j].nargs; a++) { static char *as[] = {"x", "two words", "", "--flag=1", "-o"}; snprintf(J[j].args[a], 64, "%s", as[sim_choose(5)]); argv[n++] = J[j].args[a]; } break;
		case GENC: argv[n++] = "genc"; argv[n++] = (char *) p->src; argv[n++] = xsprintf("gen%d", j); break;
		}
		argv[n] = NULL;
		sim_detail("%s %s/%s compiler=%lx; ", argv[1], p->dir, p->src, mode);
		J[j].proc = d_start(xsprintf("che%d", j), work(J[j].prog), argv, j);
		cur_j = j;
		d_run();
		check(j);
	}
	if (sim_flip(1, 20)) {
		char *w[] = {"bild", "--help", "", "tests"}; char *c = w[sim_choose(4)];
		int i = d_start("cheX", "/S/work/p2", (char *[]) {"che", c, "main.c", NULL}, 0); d_run(); size_t en; d_stderr(i, &en);
		if (dprocs[i].status == 0 || dprocs[i].status & 127 || !en) sim_violation("unknown", "the unknown command '%s' gave status %x", c, dprocs[i].status);
	}
	sim_detail("fault=%d", f);
	if (sim_fired(F_FORK_FAIL)) sim_probe(5);
	if (sim_fired(F_EXEC_FAIL)) sim_probe(10);
}
void scen_end(void) { check_sources(); }
