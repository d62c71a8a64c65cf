#include "dcommon.h"
// Not a check: what each program gives when it is built alone and nothing goes wrong.
const char *scen_name = "dprep"; const char *scen_probes[] = {NULL}; const char *scen_rule = "";
int scen_mayfault(int p, int o, const char *s) { (void) p; (void) o; (void) s; return 0; }
void scen_setup(void) {
	lay_sources();
	FILE *f = fopen(getenv("DSIM_EXPECT"), "w");
	for (int i = 0; i < NVALID; i++) {
		int a = d_start("che", work(i), (char *[]) {"che", "build", (char *) PROGS[i].src, "out", NULL}, 0); d_run();
		int b = d_start("che", work(i), (char *[]) {"che", "genc", (char *) PROGS[i].src, "g", NULL}, 0); d_run();
		int c = d_start("che", work(i), (char *[]) {"che", "deptree", (char *) PROGS[i].src, NULL}, 0); d_run();
		int d = d_start("che", work(i), (char *[]) {"che", "exports", (char *) PROGS[i].src, "/S/home/lib/alpha.c", "/S/home/lib/beta.c", NULL}, 0); d_run();
		size_t n = 0, m, k; char *p = d_file(xsprintf("%s/out", work(i)), &n); int cnt;
		// nothing is expected of what does not work even alone: the scenarios report that
		if (dprocs[a].status || !p) { p = ""; n = 0; }
		u64 g = dir_hash(xsprintf("%s/g", work(i)), &cnt);
		char *t = d_stdout(c, &m), *x = d_stdout(d, &k);
		fprintf(f, "%d %llx %zu %llx %llx %llx\n", i, (unsigned long long) d_hash(p, n), n, (unsigned long long) g, (unsigned long long) d_hash(t, m), (unsigned long long) d_hash(x, k));
	}
	fclose(f);
}
void scen_end(void) {}
