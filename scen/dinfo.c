#include "dcommon.h"
// che exports and deptree: what they say of a program is what its sources say, or they fail with a message.
const char *scen_name = "dinfo";
const char *scen_probes[] = {"exports", "deptree", "several_paths", "lib_module", "sub_module", "shared_parameter_type", "variadic", "no_exports", "broken", "absent", "io_fault", "deep", NULL};
const char *scen_rule = "a run = a generated program of 1-6 modules and 1-3 che invocations over it, with seeded failures of the calls under them; non-trivial: a fault or short transfer fired; distinct by the hash of the sources and answers";
enum { MAXM = 6 };
static char *F_[MAXM], *NS[MAXM], *IMP[MAXM][MAXM]; static int loc[MAXM], nm, edge[MAXM][MAXM], order[MAXM][MAXM], nimp[MAXM], broken[MAXM];
static char *consts[MAXM][12], *types[MAXM][8], *fns[MAXM][8]; static int nc[MAXM], nt[MAXM], nf[MAXM];
static int faultable;
long scen_ask(int p, int w, const char *s) { (void) p; (void) w; (void) s; return 0; }
void scen_tell(int p, int w, const char *t, size_t n) { (void) p; (void) w; (void) t; (void) n; }
int scen_mayfault(int p, int o, const char *s) { (void) o; (void) s; return faultable && dprocs[p].top; }
static char *file(int i) { return loc[i] == 2 ? xsprintf("/S/home/lib/%s.c", NS[i]) : loc[i] == 1 ? xsprintf("/S/work/x/sub/%s.c", NS[i]) : xsprintf("/S/work/x/%s.c", NS[i]); }
static int reach_broken(int i) { if (broken[i]) return 1; for (int k = 0; k < nimp[i]; k++) if (reach_broken(order[i][k])) return 1; return 0; }
// parameters: returns the text as written; canon gets type name;type name;...
static char *params(int i, char **canon, char **uses) {
	int n = (int) sim_choose(5), k = 0; bytes_t t = {0}, c = {0}, u = {0};
	while (k < n) {
		static char *bt[] = {"int", "double", "size_t", "const char", "char", "bool", "uint8_t"};
		char *ty = bt[sim_choose(7)];
		int from = -1;
		if (sim_flip(1, 5) && nt[i]) { ty = types[i][sim_choose((u32) nt[i])]; from = i; }
		else if (nimp[i] && sim_flip(1, 4)) { int j = order[i][sim_choose((u32) nimp[i])]; if (nt[j]) { ty = xsprintf("%s.%s", NS[j], types[j][sim_choose((u32) nt[j])]); from = j; } }
		int ptr = from >= 0 || !strcmp(ty, "const char");
		bytes_str(&t, k ? ", " : ""); bytes_fmt(&t, "%s ", ty);
		int g = 1; if (sim_flip(1, 3)) { g = 1 + (int) sim_choose(3); }
		if (k + g > n) g = n - k;
		if (g > 1) sim_probe(5);
		for (int q = 0; q < g; q++, k++) {
			char *stars = ptr ? (sim_flip(1, 5) ? "**" : "*") : sim_flip(1, 4) ? "*" : "";
			char *nmx = xsprintf("a%d", k);
			char *ix = sim_flip(1, 8) ? (sim_flip(1, 2) ? "[]" : "[3]") : "";
			bytes_fmt(&t, "%s%s%s%s", q ? ", " : "", stars, nmx, ix);
			bytes_fmt(&c, "%s|%s%s%s;", ty, stars, nmx, ix);
			bytes_fmt(&u, ", %s", nmx);
		}
	}
	if (n && sim_flip(1, 6)) { bytes_str(&t, ", ..."); bytes_str(&c, "...;"); sim_probe(6); }
	bytes_add(&t, "", 1); bytes_add(&c, "", 1); bytes_add(&u, "", 1);
	*canon = (char *) c.p; *uses = (char *) u.p; return (char *) t.p;
}
static void module(int i) {
	bytes_t s = {0}; static int uid; bytes_t late = {0};
	for (int k = 0; k < nimp[i]; k++) bytes_fmt(&s, "#import %s\n", IMP[i][order[i][k]]);
	if (sim_flip(1, 3)) bytes_str(&s, "#include <unistd.h>\n");
	bytes_str(&s, "void use(int n, ...) {\n\tif (n) return;\n}\n");
	// imports have to be used
	for (int k = 0; k < nimp[i]; k++) { int j = order[i][k]; bytes_fmt(&late, "\tuse(1, %s.f%d());\n", NS[j], j); }
	bytes_fmt(&s, "pub int f%d() {\n\tuse(0);\n%s\treturn 1;\n}\n", i, late.p ? (char *) (bytes_add(&late, "", 1), late.p) : "");
	fns[i][nf[i]++] = xsprintf("int|f%d(", i);
	int parts = (int) sim_choose(9); if (!parts) sim_probe(7);
	for (int q = 0; q < parts; q++) {
		int v = uid++;
		switch (sim_choose(8)) {
		case 0: { if (nc[i] > 8) break; int k = 1 + (int) sim_choose(3); bytes_str(&s, "pub enum {\n"); for (int e = 0; e < k; e++) { char *nmx = xsprintf("K%d_%d", v, e); consts[i][nc[i]++] = nmx; bytes_fmt(&s, "\t%s%s,\n", nmx, sim_flip(1, 3) ? xsprintf(" = %u", sim_choose(100)) : ""); } bytes_str(&s, "}\n"); break; }
		case 1: if (nf[i] > 6) break; bytes_fmt(&s, "enum {\n\tH%d\n}\nint h%d() {\n\treturn H%d;\n}\npub int w%d() {\n\treturn h%d();\n}\n", v, v, v, v, v); fns[i][nf[i]++] = xsprintf("int|w%d(", v); break;
		case 2: if (nt[i] > 6) break; bytes_fmt(&s, "pub typedef {\n\tint a, b;\n\tchar *c;\n} t%d_t;\n", v); types[i][nt[i]++] = xsprintf("t%d_t", v); break;
		case 3: if (nt[i] > 6) break; bytes_fmt(&s, "pub typedef int n%d_t;\n", v); types[i][nt[i]++] = xsprintf("n%d_t", v); break;
		case 4: { if (nf[i] > 6) break; int al = sim_flip(1, 2); bytes_fmt(&s, "// pub int gone%d() {}\n/* pub int gone%d(); */\ntypedef %s hid%d_t;\npub int y%d() {\n\thid%d_t z%s\n}\n", v, v, al ? "int" : "{ int x; }", v, v, v, al ? " = 1;\n\treturn z;" : " = {};\n\tz.x = 1;\n\treturn z.x;"); fns[i][nf[i]++] = xsprintf("int|y%d(", v); break; }
		default: {
			if (nf[i] > 6) break;
			char *canon, *uses, *ps = params(i, &canon, &uses);
			static char *rt[] = {"int", "void", "bool", "double", "size_t"}; char *ty = rt[sim_choose(5)], *stars = "", *ret = !strcmp(ty, "void") ? "" : !strcmp(ty, "bool") ? "\treturn false;\n" : "\treturn 0;\n";
			if (sim_flip(1, 4)) { ty = sim_flip(1, 2) ? "char" : "const char"; stars = "*"; ret = "\treturn NULL;\n"; }
			if (sim_flip(1, 6) && nt[i]) { ty = types[i][sim_choose((u32) nt[i])]; stars = sim_flip(1, 3) ? "**" : "*"; ret = "\treturn NULL;\n"; }
			int hid = sim_flip(1, 5);
			bytes_fmt(&s, "%s%s%s%sg%d(%s) {\n\tuse(1%s);\n%s}\n", hid ? "" : "pub ", ty, " ", stars, v, ps, uses, ret);
			if (hid) { char *q0 = canon; int np = 0; while ((q0 = strchr(q0, '|'))) { q0++; np++; } bytes_fmt(&s, "pub void r%d() {\n", v); bytes_fmt(&s, "\tuse(0, g%d);\n}\n", v); fns[i][nf[i]++] = xsprintf("void|r%d(", v); }
			else fns[i][nf[i]++] = xsprintf("%s|%sg%d(%s", ty, stars, v, canon);
		} }
	}
	if (broken[i]) { sim_probe(8); static char *bad[] = {"pub int zz( {\n}\n", "int nobody() { return 1; }\n", "pub int zz() { return qq; }\n", "/* open\n", "#import nothere\n"}; u32 w = sim_choose(5); if (w == 4) { bytes_t b = {0}; bytes_str(&b, bad[4]); bytes_add(&b, s.p, s.n); s = b; } else bytes_str(&s, bad[w]); }
	d_put(file(i), s.p, s.n); sim_hash(d_hash(s.p, s.n));
}
static char *skip(char *p) { while (*p == ' ' || *p == '\t') p++; return p; }
// brings a printed function line into the canonical form: type|form(type|form;...
static char *canonical(char *l) {
	char *op = strchr(l, '('), *cl = strrchr(l, ')'); if (!op || !cl || *skip(cl + 1)) return "?";
	bytes_t r = {0}; char head[400], part[400], lastty[200] = ""; int first = 1;
	snprintf(head, sizeof head, "%.*s", (int) (op - l), l);
	char *pieces[40]; int np = 0; pieces[np++] = head;
	char rest[2000]; snprintf(rest, sizeof rest, "%.*s", (int) (cl - op - 1), op + 1);
	if (*skip(rest)) for (char *p = strtok(rest, ","); p && np < 40; p = strtok(NULL, ",")) pieces[np++] = p;
	for (int i = 0; i < np; i++) {
		char *p = skip(pieces[i]); snprintf(part, sizeof part, "%s", p); size_t n = strlen(part); while (n && part[n - 1] == ' ') part[--n] = 0;
		if (!strcmp(part, "...")) { bytes_str(&r, "...;"); continue; }
		// the last word with its stars is the form
		char *e = part + n; while (e > part && e[-1] != ' ' && e[-1] != '*') e--; char *name = e; while (e > part && (e[-1] == '*' || e[-1] == ' ')) e--;
		char stars[20]; int ns = 0; for (char *q = e; q < name; q++) if (*q == '*' && ns < 19) stars[ns++] = '*'; stars[ns] = 0;
		char ty[200] = ""; size_t m = 0; for (char *q = part; q < e && m < 199; q++) { if (*q == ' ' && (m == 0 || ty[m - 1] == ' ')) continue; ty[m++] = *q; } ty[m] = 0;
		if (!*ty) { if (i < 2) return "?"; strcpy(ty, lastty); }
		strcpy(lastty, ty);
		bytes_fmt(&r, "%s|%s%s%s", ty, stars, name, first ? "(" : ";"); first = 0;
	}
	bytes_add(&r, "", 1); return (char *) r.p;
}
static const char *base(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
static int nlines; static char *L[4000];
static void lines(char *out) { nlines = 0; for (char *p = strtok(out, "\n"); p && nlines < 4000; p = strtok(NULL, "\n")) L[nlines++] = p; }
static int at_; static char *who;
static void section(const char *name, char **w, int n, int fn) {
	if (!n) return;
	if (at_ >= nlines || strcmp(L[at_], name)) sim_violation("missing", "%s: no section '%s'", who, name);
	at_++;
	for (int k = 0; k < n; k++, at_++) {
		if (at_ >= nlines || L[at_][0] != '\t') sim_violation("missing", "%s: '%s' is not listed", who, w[k]);
		char *g = skip(L[at_]); if (fn) g = canonical(strdup(g));
		if (strcmp(g, w[k])) sim_violation("different", "%s: lists '%s' where the source says '%s'", who, esc(skip(L[at_]), strlen(skip(L[at_]))), w[k]);
	}
}
static void exported(int i) {
	char *h = at_ < nlines ? L[at_] : "";
	if (strncmp(h, "mod ", 4) || strcmp(base(h + 4), base(file(i)))) sim_violation("missing", "%s: '%s' instead of the module %s", who, esc(h, strlen(h)), base(file(i)));
	at_++;
	section("constants", consts[i], nc[i], 0); section("types", types[i], nt[i], 0); section("functions", fns[i], nf[i], 1);
}
static void tree(int i, int depth) {
	if (depth > 3) sim_probe(11);
	if (at_ >= nlines) sim_violation("missing", "%s: the tree ends before %s", who, NS[i]);
	char *l = L[at_++], *q = skip(l); int ind = (int) (q - l); if (q[0] == '-' && q[1] == ' ') q += 2;
	if (strcmp(base(q), base(file(i))) || ind != depth * 2) sim_violation("different", "%s: line %d is '%s', should be %s at depth %d", who, at_, esc(l, strlen(l)), base(file(i)), depth);
	for (int k = 0; k < nimp[i]; k++) tree(order[i][k], depth + 1);
}
void scen_setup(void) {
	nm = 1 + (int) sim_choose(MAXM);
	d_mkdirs("/S/work/x/sub"); d_mkdirs("/S/home/lib");
	for (int i = 0; i < nm; i++) { NS[i] = xsprintf("%s%d", (char *[]) {"main", "util", "net", "a"}[sim_choose(4)], i); loc[i] = i ? (int) sim_choose(3) : 0; for (int k = 0; k < i; k++) if (loc[k] == 2) loc[i] = 2; if (loc[i]) sim_probe(loc[i] == 2 ? 3 : 4); }
	for (int i = 0; i < nm; i++) for (int j = i + 1; j < nm; j++) {
		if (!(j == i + 1 ? sim_flip(2, 3) : sim_flip(1, 3))) continue;
		IMP[i][j] = loc[j] == 2 ? NS[j] : loc[i] == loc[j] ? xsprintf("%s.c", NS[j]) : loc[j] == 1 ? xsprintf("sub/%s.c", NS[j]) : xsprintf("../%s.c", NS[j]);
		order[i][nimp[i]++] = j;
	}
	for (int i = 0; i < nm; i++) for (int k = nimp[i] - 1; k > 0; k--) { int r = (int) sim_choose((u32) k + 1), t = order[i][k]; order[i][k] = order[i][r]; order[i][r] = t; }
	int bad = sim_flip(1, 6) ? (int) sim_choose((u32) nm) : -1; if (bad >= 0) broken[bad] = 1;
	for (int i = nm - 1; i >= 0; i--) module(i);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 60);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 60);
	sim_enable_some(F_EINTR, 3 + sim_choose(10), 20);
	int f = (int) sim_choose(12); static int ks[] = {F_OPEN_FAIL, F_READ_EIO, F_WRITE_EIO, F_ENOSPC, F_STAT_FAIL};
	if (f < 5) sim_enable_once(ks[f], 12);
	faultable = 1; d_stdout_faults = 1;
	int inv = 1 + (int) sim_choose(3);
	for (int v = 0; v < inv; v++) {
		int ex = sim_flip(3, 5), k = ex ? 1 + (int) sim_choose(3) : 1, which[3], absent = sim_flip(1, 15), failing = absent; char *argv[8] = {"che", ex ? "exports" : "deptree"};
		sim_probe(ex ? 0 : 1); if (k > 1) sim_probe(2); if (absent) sim_probe(9);
		for (int a = 0; a < k; a++) { which[a] = a && sim_flip(1, 2) ? (int) sim_choose((u32) nm) : (int) sim_choose_small((u32) nm); argv[2 + a] = loc[which[a]] == 2 || sim_flip(1, 3) ? file(which[a]) : file(which[a]) + strlen("/S/work/x/"); if (reach_broken(which[a])) failing = 1; }
		if (absent) argv[2 + sim_choose((u32) k)] = "nothing.c";
		who = xsprintf("%s %s", argv[1], argv[2]);
		sim_detail("%s x%d%s; ", who, k, failing ? " broken" : "");
		int p = d_start(xsprintf("che%d", v), "/S/work/x", argv, v); d_run();
		int st = dprocs[p].status, fault = fault_in(p); size_t on, en; char *out = d_stdout(p, &on), *err = d_stderr(p, &en);
		if (fault) sim_probe(10);
		if (st & 127) sim_violation("crash", "%s died of signal %d", who, st & 127);
		sim_hash(d_hash(out, on));
		if (st) { if (!failing && !fault) sim_violation("failure", "%s failed (exit %d) although nothing is wrong: %s", who, st >> 8, esc(err, en > 300 ? 300 : en)); if (!en) sim_violation("silent", "%s failed without a message", who); continue; }
		if (failing) sim_violation("success", "%s reported success for a program that cannot be read", who);
		lines(strdup(out)); at_ = 0;
		if (ex) for (int a = 0; a < k; a++) exported(which[a]); else tree(which[0], 0);
		if (at_ != nlines) sim_violation("more", "%s: '%s' is not in the source", who, esc(L[at_], strlen(L[at_])));
	}
	sim_detail("modules=%d fault=%d", nm, f);
}
void scen_end(void) {}
