#include "dcommon.h"
// After any interrupted invocations, che gives the same results as on a fresh checkout, every time.
const char *scen_name = "dcrash";
const char *scen_probes[] = {"killed", "killed_compiling", "fault_before", "garbage_in_tmp", "garbage_output", "build", "install", "run", "genc", "deptree", "exports", "test", "second_time", NULL};
const char *scen_rule = "a run = up to 4 che invocations that are killed or hit by a failing call at a seeded point, then up to 3 undisturbed ones that are checked; non-trivial: a kill, fault or short transfer fired; distinct by the hash of the schedule and answers";
enum { BUILD, INSTALL, RUN, GENC, TREE, EXPORTS, TEST, NKINDS };
static int phase, exes, prog_now, kind_now; static char hash[24]; static long mode1;
long scen_ask(int p, int what, const char *path) {
	(void) p;
	if (what == ASK_C99) return phase == 1 ? mode1 : 0;
	exes++;
	if (kind_now == TEST && phase == 2) snprintf(hash, 24, "%s", path);
	return 0;
}
void scen_tell(int p, int what, const char *t, size_t n) { (void) p; (void) what; (void) n; snprintf(hash, 24, "%s", t); }
int scen_mayfault(int p, int op, const char *path) { (void) op; (void) path; return phase == 1 && dprocs[p].top; }
static int go(int kind, int prog, int id) {
	prog_t *p = &PROGS[prog]; exes = 0; hash[0] = 0; prog_now = prog; kind_now = kind;
	char *src = (char *) p->src;
	char *v[7][7] = {{"che", "build", src, "result", NULL}, {"che", "install", src, NULL}, {"che", "run", src, "a", NULL}, {"che", "genc", src, "gen", NULL}, {"che", "deptree", src, NULL}, {"che", "exports", src, "/S/home/lib/alpha.c", "/S/home/lib/beta.c", NULL}, {"che", "test", "suite", NULL}};
	sim_detail("%s %s/%s%s; ", v[kind][1], p->dir, src, phase == 1 ? " interrupted" : "");
	int i = d_start(xsprintf("che%d", id), kind == TEST ? "/S/work" : work(prog), v[kind], id);
	d_run();
	return i;
}
void scen_setup(void) {
	lay_sources(); load_expected();
	d_mkdirs("/S/work/suite");
	char *t = "#import alpha\nint main() {\n\tputs(\"@T5@\");\n\treturn alpha.next();\n}\n";
	d_put("/S/work/suite/x.test.c", t, strlen(t));
	phase = 1;
	int k1 = (int) sim_choose(5), n = 0, base_prog = (int) sim_choose(NVALID);
	for (int j = 0; j < k1; j++) {
		int kind = (int) sim_choose(NKINDS), prog = sim_choose(2) ? base_prog : (int) sim_choose(NPROGS);
		mode1 = 0;
		if (sim_flip(1, 3)) mode1 = (sim_choose(2) ? 1 : SIGKILL << 8) | (1 + sim_choose(2)) << 20;
		sim_disable(F_KILL); sim_disable(F_ENOSPC); sim_disable(F_WRITE_EIO); sim_disable(F_OPEN_FAIL); sim_disable(F_SHORT_WRITE);
		int w = (int) sim_choose(5);
		if (w < 2) sim_enable_once(F_KILL, 70);
		else if (w == 2) sim_enable_once(F_ENOSPC, 12);
		else if (w == 3) sim_enable_once(F_WRITE_EIO, 8);
		else sim_enable_once(F_OPEN_FAIL, 20);
		sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(3), 50);
		int i = go(kind, prog, n++);
		if (dprocs[i].killed) { sim_probe(0); for (int k = i + 1; k < ndprocs; k++) if (dprocs[k].parent == i && dprocs[k].c99) sim_probe(1); }
		if (dprocs[i].faults_hit) sim_probe(2);
	}
	check_sources();
	if (sim_flip(1, 4)) {
		// files left over by something older, longer than what will be written
		sim_probe(3);
		char *g = xsprintf("%0*d", 9000, 7); d_mkdirs("/S/home/tmp");
		char *q = xsprintf("%s/S/home/tmp", droot); DIR *d = opendir(q); struct dirent *e; char *nm[64]; int m = 0;
		while ((e = readdir(d)) && m < 60) if (e->d_name[0] != '.' && strstr(e->d_name, ".c")) nm[m++] = strdup(e->d_name);
		closedir(d);
		for (int i = 0; i < m; i++) for (int j = i; j > 0 && strcmp(nm[j], nm[j - 1]) < 0; j--) { char *x = nm[j]; nm[j] = nm[j - 1]; nm[j - 1] = x; }
		for (int i = 0; i < m; i++) if (sim_choose(2)) d_put(xsprintf("/S/home/tmp/%s", nm[i]), g, 9000);
	}
	if (sim_flip(1, 4)) { sim_probe(4); d_put(xsprintf("%s/result", work(base_prog)), "SIMEXE\nold", 10); d_put("/tmp/chebuild", "SIMEXE\nold", 10); d_put("/S/work/test.out", "SIMEXE\nold", 10); }
	sim_disable(F_KILL); sim_disable(F_ENOSPC); sim_disable(F_WRITE_EIO); sim_disable(F_OPEN_FAIL); sim_disable(F_SHORT_WRITE);
	phase = 2;
	int k2 = 1 + (int) sim_choose(3);
	for (int j = 0; j < k2; j++) {
		int kind = (int) sim_choose(NKINDS), prog = sim_choose(2) ? base_prog : (int) sim_choose(NVALID);
		sim_probe(5 + kind); if (j) sim_probe(12);
		int i = go(kind, prog, n++), st = dprocs[i].status; size_t on, en; char *out = d_stdout(i, &on), *err = d_stderr(i, &en);
		const char *who = xsprintf("%s of %s", (char *[]) {"build", "install", "run", "genc", "deptree", "exports", "test"}[kind], PROGS[prog].dir);
		if (st != 0) sim_violation("broken", "%s fails (status %x) after interrupted invocations: %s", who, st, esc(err, en));
		if (kind == BUILD && !artifact_ok(xsprintf("%s/result", work(prog)), prog)) sim_violation("different", "the result of %s is missing or different from that on a fresh checkout", who);
		if (kind == INSTALL && !artifact_ok(xsprintf("/S/home/bin/%s", PROGS[prog].base), prog)) sim_violation("different", "the result of %s is missing or different from that on a fresh checkout", who);
		if (kind == RUN && (exes != 1 || strcmp(hash, xsprintf("%016llx", (unsigned long long) want[prog])))) sim_violation("different", "%s executed something else", who);
		if (kind == GENC) {
			// files of this program only
			int c; u64 h = dir_hash(xsprintf("%s/gen", work(prog)), &c);
			if (h != want_genc[prog]) sim_violation("different", "the C files of %s differ from those on a fresh checkout", who);
		}
		if (kind == TREE && d_hash(out, on) != want_tree[prog]) sim_violation("different", "the output of %s differs from that on a fresh checkout: %s", who, esc(out, on));
		if (kind == EXPORTS && d_hash(out, on) != want_exports[prog]) sim_violation("different", "the output of %s differs from that on a fresh checkout: %s", who, esc(out, on));
		if (kind == TEST && (exes != 1 || strcmp(hash, "T5") || !strstr(out, "OK suite/x.test.c"))) sim_violation("different", "che test did not run its test: %s", esc(out, on));
	}
	check_sources();
}
void scen_end(void) {}
