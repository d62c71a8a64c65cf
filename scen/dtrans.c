#include "dcommon.h"
// che build of generated programs: what it hands to the compiler does what the source says; a program with a mistake in it is not handed over at all.
// The reference is the same program written by the generator as one plain C file with every operation in braces and every name spelled out.
#ifndef BAD_RUN
#define BAD_RUN 0
const char *scen_name = "dtrans";
#endif
const char *scen_probes[] = {"built", "ran", "refused", "panic", "switch_str", "function_pointer", "shadowed", "comment_inside", "multiline_string", "union", "tick_in_condition", "struct_by_value", "lib_module", "bad_in_module", "wrapped_right_operand", "boxed_function", "calloc_refused", NULL};
const char *scen_rule = "a run = one generated program of 2-5 modules (or the same with one mistake put in) built by one che with seeded short transfers and interrupted calls; the C that reached the compiler is compiled and run next to the reference program; non-trivial: a fault fired or a mistake was put in; distinct by the hash of the schedule and answers";
typedef struct { char *p; size_t n, cap; } tx;
static void put(tx *t, const char *f, ...) __attribute__((format(printf, 2, 3)));
static void put(tx *t, const char *f, ...) {
	va_list ap; va_start(ap, f); char *s; int k = vasprintf(&s, f, ap); va_end(ap);
	if (t->n + k + 1 > t->cap) { t->cap = (t->n + k + 1) * 2 + 4096; t->p = realloc(t->p, t->cap); }
	memcpy(t->p + t->n, s, k + 1); t->n += k; free(s);
}
static char *fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static char *fmt(const char *f, ...) { va_list ap; va_start(ap, f); char *s; if (vasprintf(&s, f, ap) < 0) s = ""; va_end(ap); return s; }
// ---------------------------------------------------------------- expressions
enum { X_ATOM, X_BIN, X_PRE, X_CAST, X_CALL, X_IDX, X_FLD };
typedef struct ex { int k; const char *che, *c, *op; struct ex *a, *b, *arg[4]; int na; } ex;
static ex *nx(int k) { ex *e = calloc(1, sizeof *e); e->k = k; return e; }
static ex *atom2(const char *che, const char *c) { ex *e = nx(X_ATOM); e->che = che; e->c = c; return e; }
static ex *atom(const char *s) { return atom2(s, s); }
static ex *bin(const char *op, ex *a, ex *b) { ex *e = nx(X_BIN); e->op = op; e->a = a; e->b = b; return e; }
static ex *pre(const char *op, ex *a) { ex *e = nx(X_PRE); e->op = op; e->a = a; return e; }
static ex *cast(const char *che, const char *c, ex *a) { ex *e = nx(X_CAST); e->che = che; e->c = c; e->a = a; return e; }
static ex *idx(ex *a, ex *b) { ex *e = nx(X_IDX); e->a = a; e->b = b; return e; }
static ex *fld(ex *a, const char *op, const char *f) { ex *e = nx(X_FLD); e->a = a; e->op = op; e->che = f; return e; }
static ex *call(ex *f, int n, ex **arg) { ex *e = nx(X_CALL); e->a = f; e->na = n; for (int i = 0; i < n; i++) e->arg[i] = arg[i]; return e; }
static int strength(const char *op) {
	static const char *t[] = {"||", "&&", "|", "^", "&", "== !=", "< > <= >=", "<< >>", "+ -", "* / %"};
	for (int i = 9; i >= 0; i--) { const char *q = strstr(t[i], op); if (q && (q[strlen(op)] == 0 || q[strlen(op)] == ' ') && (q == t[i] || q[-1] == ' ')) return i + 3; }
	sim_harness_error("operator %s", op);
}
static int level(ex *e) { return e->k == X_BIN ? strength(e->op) : e->k == X_PRE || e->k == X_CAST ? 13 : 14; }
static int comments;
static const char *sp(void) {
	if (!sim_flip(1, 14)) return " ";
	comments++; sim_probe(7);
	static const char *t[] = {"\n\t\t", " /* a - b */ ", "\t", " // (rest\n", "  ", " /* \"x */ ", " /**/ "};
	return t[sim_choose(7)];
}
static void pche(tx *t, ex *e, int min) {
	int wrap = level(e) < min || sim_flip(1, 15);
	if (wrap) put(t, "(");
	switch (e->k) {
	case X_ATOM: put(t, "%s", e->che); break;
	case X_BIN: pche(t, e->a, level(e)); put(t, "%s", sp()); put(t, "%s", e->op); put(t, "%s", sp()); if (level(e->b) == level(e)) sim_probe(14); pche(t, e->b, level(e) + 1); break;
	case X_PRE: put(t, "%s", e->op); if (e->a->k == X_PRE && e->a->op[0] == e->op[0]) put(t, " "); pche(t, e->a, 13); break;
	case X_CAST: put(t, "(%s)%s", e->che, sp()); pche(t, e->a, 13); break;
	case X_CALL: pche(t, e->a, 14); put(t, "("); for (int i = 0; i < e->na; i++) { if (i) put(t, ",%s", sp()); pche(t, e->arg[i], 0); } put(t, ")"); break;
	case X_IDX: pche(t, e->a, 14); put(t, "["); pche(t, e->b, 0); put(t, "]"); break;
	case X_FLD: pche(t, e->a, 14); put(t, "%s%s", e->op, e->che); break;
	}
	if (wrap) put(t, ")");
}
static void pc(tx *t, ex *e) {
	switch (e->k) {
	case X_ATOM: put(t, "%s", e->c); break;
	case X_BIN: put(t, "("); pc(t, e->a); put(t, " %s ", e->op); pc(t, e->b); put(t, ")"); break;
	case X_PRE: put(t, "(%s ", e->op); pc(t, e->a); put(t, ")"); break;
	case X_CAST: put(t, "((%s) ", e->c); pc(t, e->a); put(t, ")"); break;
	case X_CALL: pc(t, e->a); put(t, "("); for (int i = 0; i < e->na; i++) { if (i) put(t, ", "); pc(t, e->arg[i]); } put(t, ")"); break;
	case X_IDX: put(t, "("); pc(t, e->a); put(t, "["); pc(t, e->b); put(t, "])"); break;
	case X_FLD: put(t, "("); pc(t, e->a); put(t, "%s%s)", e->op, e->che); break;
	}
}
static const char *sche(ex *e) { tx t = {0}; put(&t, "%s", ""); pche(&t, e, 0); return t.p; }
static const char *sc(ex *e) { tx t = {0}; put(&t, "%s", ""); pc(&t, e); return t.p; }
// ---------------------------------------------------------------- names in scope
enum { T_U, T_W, T_Z, T_I, T_B, T_D, T_UA, T_UP, T_S, T_SP, T_STR, T_UG, T_SA };
typedef struct { const char *che, *c; int t, m, ro; const char *la, *lb; } var;          // m: the module whose rec_t it is
static var V[400]; static int nv;
typedef struct { const char *name, *cname; int m, pub, np, pure, used; } fn;
static fn F[80]; static int nf;
typedef struct { const char *che, *c; int used; } cst;
static cst K[4][8]; static int nk[4];
static const char *MN[4] = {"main", "u1", "u2", "u3"};
static int M, imports[4][4], nmods, infn;                              // the module being written
static int hidden_name(const char *n) { for (int i = 0; i < nv; i++) if (!strcmp(V[i].che, n)) return 1; return 0; }
static int shadowed(int i) { for (int j = i + 1; j < nv; j++) if (!strcmp(V[j].che, V[i].che)) return 1; return 0; }
static int only_local, blk;
static var *pick(int t) { int c[400], n = 0; for (int i = only_local ? infn : 0; i < nv; i++) if (V[i].t == t && !shadowed(i)) c[n++] = i; return n ? &V[c[sim_choose(n)]] : NULL; }
static ex *vx(var *v) { return atom2(v->che, v->c); }
static const char *fche(fn *f) { return f->m == M ? f->name : fmt("%s.%s", MN[f->m], f->name); }
static int callable(fn *f, int pure) { return (f->m == M || (f->pub && imports[M][f->m])) && f->pure == pure && !(f->m == M && hidden_name(f->name)); }
static fn *pickf(int pure, int np) { int c[80], n = 0; for (int i = 0; i < nf; i++) if (callable(&F[i], pure) && (np < 0 || F[i].np == np)) c[n++] = i; return n ? &F[c[sim_choose(n)]] : NULL; }
static const char *num(void) {
	u32 v = sim_choose(4) ? sim_choose(20) : sim_choose(2) ? sim_choose(70000) : sim_choose(0x7fffffff);
	switch (sim_choose(6)) { case 4: return fmt("0x%x", v); case 5: return sim_choose(2) ? fmt("0x%XU", v) : fmt("%uUL", v); default: return fmt("%u", v); }
}
static ex *gU(int d); static ex *gI(int d); static ex *gB(int d, int tick);
static ex *small(int d, int mask) { return sim_choose(3) ? atom(fmt("%u", sim_choose(mask + 1))) : bin("&", gU(d - 1), atom(fmt("%d", mask))); }
static ex *args2(fn *f, int d) { ex *a[4]; for (int i = 0; i < f->np; i++) a[i] = gU(d - 1); f->used = 1; return call(atom2(fche(f), f->cname), f->np, a); }
static ex *rec(int d) {                                                // something of a rec_t, as a target of '.'
	var *v = pick(sim_choose(2) ? T_S : T_SP); (void) d;
	var *q = sim_choose(3) ? NULL : pick(T_SA); if (q) return idx(vx(q), small(d, 1));
	if (!v) v = pick(T_S); if (!v) v = pick(T_SP); if (!v) return NULL;
	ex *e = v->t == T_S ? vx(v) : pre("*", vx(v));
	return e;
}
static ex *via(ex *r, const char *f) {                                 // r.f or (&r)->f or p->f
	if (r->k == X_PRE && !strcmp(r->op, "*") && sim_choose(4)) return fld(r->a, "->", f);
	if (sim_flip(1, 6)) return fld(pre("&", r), "->", f);
	return fld(r, ".", f);
}
static ex *lvalU(int d) {
	switch (sim_choose(8)) {
	case 1: { var *v = pick(T_UA); if (v) return idx(vx(v), small(d, 3)); break; }
	case 2: { var *v = pick(T_UP); if (v && sim_choose(2)) return pre("*", sim_choose(2) ? vx(v) : sim_choose(2) ? bin("+", vx(v), small(d, 3)) : bin("+", atom(fmt("%u", sim_choose(4))), vx(v))); if (v) return sim_choose(2) ? idx(vx(v), small(d, 3)) : idx(bin("+", vx(v), atom("1")), small(d, 1)); break; }
	case 3: { ex *r = rec(d); if (r) return via(r, "a"); break; }
	case 4: { ex *r = rec(d); if (r) return idx(via(r, "arr"), small(d, 3)); break; }
	case 5: { ex *r = rec(d); if (r) return sim_choose(2) ? fld(via(r, "next"), "->", "a") : via(r, "c"); break; }
	case 6: { var *v = pick(T_UG); if (v) return idx(idx(vx(v), small(d, 1)), small(d, 1)); break; }
	case 7: { ex *r = rec(d); if (r) { sim_probe(9); return sim_choose(2) ? fld(via(r, "v"), ".", "u") : idx(fld(via(r, "v"), ".", "bytes"), small(d, 3)); } break; }
	}
	for (int i = 0; i < 4; i++) { var *v = pick(sim_choose(4) ? T_U : T_W); if (v && !v->ro) return vx(v); }
	return NULL;
}
static ex *target(int d, int pure) { only_local = pure; ex *e = lvalU(d); only_local = 0; return e; }
static ex *leafU(int d) {
	switch (sim_choose(9)) {
	case 0: return atom(num());
	case 1: { int c[8], n = 0, o = sim_choose(2) ? M : sim_choose(4); if (o != M && !imports[M][o]) o = M; for (int i = 0; i < nk[o]; i++) if (o == M || strchr(K[o][i].che, 'P')) c[n++] = i; if (n) { cst *k = &K[o][c[sim_choose(n)]]; if (o == M) k->used = 1; return atom2(o == M ? k->che : fmt("%s.%s", MN[o], k->che), k->c); } break; }
	case 2: { var *v = pick(T_Z); if (v) return vx(v); break; }
	case 3: { var *v = pick(T_STR); if (v) return call(atom("strlen"), 1, (ex *[]) {vx(v)}); break; }
	case 4: { var *v = pick(T_UA); if (v && sim_choose(2)) return call(atom2("nelem", "NELEM"), 1, (ex *[]) {vx(v)}); return atom(sim_choose(2) ? "sizeof(uint32_t)" : "sizeof(char*)"); }
	case 5: { fn *f = pickf(1, -1); if (f && d > 0) return args2(f, d); break; }
	case 6: { static const int t[] = {T_U, T_UA, T_S, T_SA, T_UG, T_I}; var *v = sim_choose(2) ? pick(t[sim_choose(6)]) : NULL; if (v) return atom2(fmt("sizeof(%s)", v->che), fmt("sizeof(%s)", v->c)); if (!sim_choose(3)) return atom2("sizeof(rec_t)", fmt("sizeof(r%d_rec_t)", M)); break; }
	}
	ex *l = lvalU(d);
	if (l) return l;
	var *v = pick(T_U);
	return v ? vx(v) : atom(num());
}
static ex *gU(int d) {
	if (d <= 0) return leafU(0);
	static const char *ops[] = {"+", "-", "*", "&", "|", "^"};
	switch (sim_choose(12)) {
	case 0: case 1: return leafU(d);
	case 2: return bin(sim_choose(2) ? "<<" : ">>", gU(d - 1), small(d, 7));
	case 3: return bin(sim_choose(2) ? "/" : "%", gU(d - 1), sim_choose(2) ? bin("|", gU(d - 1), atom("1")) : atom(fmt("%u", 1 + sim_choose(30))));
	case 4: return pre(sim_choose(2) ? "-" : "~", gU(d - 1));
	case 5: { const char *t = sim_choose(2) ? "uint32_t" : "uint8_t"; return cast(t, t, gI(d - 1)); }
	default: return bin(ops[sim_choose(6)], gU(d - 1), gU(d - 1));
	}
}
static ex *gI(int d) {
	static const char *ops[] = {"+", "-", "*", "&", "^"};
	switch (d <= 0 ? sim_choose(3) : sim_choose(8)) {
	case 0: { var *v = pick(T_I); if (v) return vx(v); return atom(fmt("%u", sim_choose(50))); }
	case 1: { ex *r = rec(d); if (r) return via(r, "b"); return pre("-", atom(fmt("%u", sim_choose(9)))); }
	case 2: return atom(sim_choose(4) ? fmt("%u", sim_choose(100)) : "INT_MAX");
	case 3: return cast("int", "int", bin("&", gU(d - 1), atom("0xff")));
	case 4: return bin(sim_choose(2) ? "/" : "%", gI(d - 1), bin("+", bin("&", gI(d - 1), atom("7")), atom("1")));
	case 5: return pre(sim_choose(2) ? "-" : "~", gI(d - 1));
	default: return bin(ops[sim_choose(5)], gI(d - 1), gI(d - 1));
	}
}
static ex *gD(int d) {
	static const char *lit[] = {"1.5", "2.25", "0.125", "10.0", "1e2", "5E-1", "3.0f"};
	static const char *ops[] = {"+", "-", "*"};
	if (d <= 0 || sim_flip(1, 3)) { var *v = pick(T_D); if (v && sim_choose(2)) return vx(v); return sim_choose(3) ? atom(lit[sim_choose(7)]) : cast("double", "double", gI(d - 1)); }
	return bin(ops[sim_choose(3)], gD(d - 1), gD(d - 1));
}
static ex *gB(int d, int tick) {
	static const char *cmp[] = {"<", ">", "<=", ">=", "==", "!="};
	if (tick && ((M == 1 && !hidden_name("tick")) || imports[M][1]) && sim_flip(1, 5)) { sim_probe(10); return bin(cmp[sim_choose(6)], call(atom2(M == 1 ? "tick" : "u1.tick", "r1_tick"), 1, (ex *[]) {atom(fmt("%u", sim_choose(9)))}), atom(fmt("%u", sim_choose(9)))); }
	switch (d <= 0 ? sim_choose(4) : sim_choose(11)) {
	case 0: { var *v = pick(T_B); if (v) return vx(v); break; }
	case 1: return bin(cmp[sim_choose(6)], gI(d - 1), gI(d - 1));
	case 2: { var *v = pick(T_STR); if (v) return bin(sim_choose(2) ? "==" : "!=", idx(vx(v), atom(fmt("%u", sim_choose(3)))), atom((char *[]) {"'a'", "'\\n'", "'\\''", "'\"'", "'/'", "'\\\\'"}[sim_choose(6)])); break; }
	case 3: { var *v = pick(sim_choose(2) ? T_UP : T_SP); if (v) return sim_choose(2) ? vx(v) : bin(sim_choose(2) ? "==" : "!=", vx(v), sim_choose(2) ? atom("NULL") : vx(v)); break; }
	case 4: { var *v = sim_choose(4) ? NULL : pick(sim_choose(2) ? T_U : T_I); return pre("!", v ? vx(v) : gB(d - 1, tick)); }
	case 5: { ex *a = gB(d - 1, 0), *b = gB(d - 1, 0); if (a->k == X_ATOM) a = pre("!", a); if (b->k == X_ATOM) b = pre("!", b); return bin(sim_choose(2) ? "==" : "!=", a, b); }
	case 6: { var *v = pick(sim_choose(2) ? T_U : T_I); if (v) return bin(sim_choose(2) ? "&&" : "||", vx(v), gB(d - 1, tick)); break; }
	case 7: return bin(cmp[sim_choose(6)], gD(d - 1), gD(d - 1));
	case 8: case 9: return bin(sim_choose(2) ? "&&" : "||", gB(d - 1, tick), gB(d - 1, tick));
	}
	return bin(cmp[sim_choose(6)], gU(d - 1), gU(d - 1));
}
// ---------------------------------------------------------------- strings
// The same text as a che literal and as a C literal.
static void gstr(const char **che, const char **c, int pct) {
	static const char *w[] = {"abc", "a b", "//x", "/*y*/", "it's", "\\\"q\\\"", "\\\\", "x\\ty", "x\\n", "{}", "é", "; }", "#import"};
	tx a = {0}, b = {0}; put(&a, "\""); put(&b, "\"xyz");
	put(&a, "xyz");
	int n = sim_choose(4);
	for (int i = 0; i < n; i++) {
		int k = sim_choose(16);
		if (k == 13) { put(&a, "\n"); put(&b, "\\n"); sim_probe(8); }
		else if (k == 14) { put(&a, "\"%s\"", sim_choose(2) ? " " : "\n\t"); }
		else if (k == 15) { put(&a, pct ? "%%%%" : "%%"); put(&b, pct ? "%%%%" : "%%"); }
		else { put(&a, "%s", w[k]); put(&b, "%s", w[k]); }
	}
	put(&a, "\""); put(&b, "\"");
	*che = a.p; *c = b.p;
}
// ---------------------------------------------------------------- mistakes
static int bad = -1, bad_module, bad_wait, bad_done;
static const char *BAD[] = {
	"uint32_t zz9 = 1;", "zz9 = 1;", "zz9(1);", "nosuch_t zz9 = 1;", "nosuch_t *zz9 = NULL;", "uint32_t zz9 = 1; zz9(2);", "uint32_t zz9 = 1; *zz9 = 2;",
	"strlen(\"a\", \"b\");", "strlen();", "double zz9 = 1.5; while (zz9) { break; }", "double zz9 = 1.5; for (int i = 0; zz9; i++) { break; }",
	"int zz8 = 1; uint32_t zz9 = 2; if (zz8 < zz9) { puts(\"\"); }", "int zz8 = 1; double zz9 = 2.0; if (zz8 == zz9) { puts(\"\"); }", "bool zz9 = true; printf(\"%d\", zz9 * 2);",
	"bool zz9 = true; printf(\"%d\", zz9 + 1);", "double zz9 = 1.5; if (zz9 && true) { puts(\"\"); }", "puts(\"a\")", "puts(\"a\";", "if true { puts(\"\"); }", "puts('ab');", "puts(\"a);",
	"puts(\"x\"); }", "{", "uint32_t 9zz = 1;", "@;", "12abc;", "uint32_t zz9 = 1; uint32_t zz9 = 2; printf(\"%u\", zz9);", "switch (1) { case 1 { puts(\"\"); } }", "goto x;",
	"int zz9 = (3;", "int zz9 = 3 +; printf(\"%d\", zz9);", "printf(\"%u\", zz7);", "for (int zz9 = 0; true; puts(\"a\")) { break; }", "while (true) { uint32_t zz9 = 1; break; }", "uint32_t zz9[3] = {1, zz8, 3}; printf(\"%u\", zz9[0]);",
	"char *zz9 = \"a\"; switch str (zz9) { case \"a\": { zz8 = 1; } }", "if (1 < 2) { puts(\"\"); } else { zz9++; }", "uint32_t zz9 = sizeof(zz8); printf(\"%u\", zz9);", "return zz9;", "panic(zz9);", "uint32_t zz9[2] = {1, 2}; if (zz9[0] < zz9) { puts(\"\"); }", "char *zz9 = \"a\"; printf(\"%d\", zz9 * 2);", "char *zz9 = \"a\"; printf(\"%d\", zz9 & 2);", "struct foo zz9;", "double zz9 = 1.0; for (; zz9;) { break; }", "nons.f(1);", "switch (1) { case zz9: { puts(\"\"); } }", "puts('a);", "int zz9 = 1 2;", "int = 3;", "case 1: { puts(\"\"); }", "if (true) { int zz9 = 1; }", "switch (1) { case 1: { int zz9 = 1; } }", "switch (1) { default: { int zz9 = 1; } }", "for (int zz9 = 0; true;) { break; }", "if (true) { int zz9 = 1; printf(\"%d\", zz9); } printf(\"%d\", zz9);", "for (int zz9 = 0; zz9 < 1; zz9++) { puts(\"\"); } printf(\"%d\", zz9);", "if (true) { puts(\"\"); } else if (zz9) { puts(\"\"); }", "while (zz9) { puts(\"\"); }", "printf(\"%d\", (zz9_t) 1);", "printf(\"%d\", (int) zz9);", "printf(\"%d\", -zz9);", "printf(\"%d\", 1 + zz9);", "printf(\"%d\", zz9[1]);", "int zz9[2] = {}; printf(\"%d\", zz9[zz8]);", "puts(\"a\" \"b);", "return 1", "break", "char *zz9 = \"a\"; switch str (zz9) { case \"b\": { puts(\"\"); } default: { zz8(); } }", "char *zz9 = \"a\"; switch str (zz8) { case \"b\": { puts(zz9); } }", "uint32_t zz9[2] = {[zz8] = 1}; printf(\"%u\", zz9[0]);", "puts(strlen);;x", "fprintf(zz9, \"a\");", "int zz9 = {.a = zz8}; printf(\"%d\", zz9);", "uint32_t zz9 = sizeof(nosuch_t); printf(\"%u\", zz9);", "char *zz9 = calloc!(1, zz8); free(zz9);", "panic(\"a %d\", zz9);", "if (strlen(\"a\", \"b\") > 1) { puts(\"\"); }", "double zz9 = 1.5; printf(\"%d\", true && zz9);", "bool zz9 = true; if (zz9 < 1) { puts(\"\"); }", "bool zz9 = true; printf(\"%d\", 1 - zz9);", "double zz9 = 1.5; char zz8 = 1; if (zz9 > zz8) { puts(\"\"); }", "char *zz9 = \"a\"; if (zz9 == 1) { puts(\"\"); }", "char *zz9 = \"a\"; printf(\"%p\", zz9 + zz9);", "size_t zz9 = 1; int zz8 = 2; if (zz8 >= zz9) { puts(\"\"); }",
	"uint32_t zz8 = 1; int zz9 = 2; if (zz8 + 1 < zz9) { puts(\"\"); }", "double zz9 = 1.5; while (zz9 - 1) { break; }", "puts(calloc!(zz9, 1));", "printf();", "fprintf(stdout);", "sprintf(\"a\");",
	"double zz9 = 1.5; if (true || zz9) { puts(\"\"); }", "bool zz9 = true; printf(\"%d\", zz9 & 1);", "uint32_t zz9 = 1; printf(\"%u\", *&*zz9);", "int zz9 = 1; double zz8 = 1.0; if (!(zz9 < zz8)) { puts(\"\"); }"};
static const char *BADM[] = {
	"pub int zz9f(int x) { x++; }", "pub int zz9f(int x) { x += 2; }", "pub int zz9f(int x) { for (int i = 0; i < x; i++) { puts(\"\"); } }", "pub int zz9f(int x) { if (x > 1) { x++; } }", "pub char *zz9f(char *x) { switch str (x) { case \"a\": { return x; } } }", "pub void *zz9f(void *x) { puts(x); }", "pub int zz9f(int x) { int y = x; }", "pub typedef int zz9_t(nosuch_t);", "pub enum { ZZ1 = 1 << zz9 }",
	"pub int zz9f(int x) { if (x > 1) { puts(\"\"); } else { return 2; } }", "pub int zz9f(int x) { switch (x) { case 1: { return 1; } } }", "pub int zz9f(int x) { switch (x) { case 1: { puts(\"\"); } default: { return 1; } } }", "pub int zz9f() { }", "pub void zz9f(int a, int a) { printf(\"%d\", a); }", "pub typedef { uint32_t a } zz9_t;", "pub void zz9f() { int zz9 = 1; }", "#define", "pub void zz9f() { return }", "pub enum { ZZ9 = }", "pub int zz9f(int) { return 1; }", "pub void zz9f(nomod.t *a) { free(a); }", "x;", "int 5;", "#import ./u9.c", "pub void zz9f() { zz9: }", "pub typedef { int a; zz9", "pub typedef", "pub void zz9f(int a { printf(\"%d\", a); }", "pub int zz9f(int x) { return zz8; }", "uint32_t zz9v = zz8; pub uint32_t zz9f() { return zz9v; }", "uint32_t zz9v[zz8]; pub uint32_t zz9f() { return zz9v[0]; }", "pub void zz9f(int a) { for (int a2 = 0; a2 < a; a2++) { int b2 = a2; } }", "typedef { int x; } zz9_t; uint32_t zz9v = ;", "pub void zz9f() { if (true) { puts(\"\"); }", "pub void zz9f() { switch (1) { case 1: { puts(\"\"); }", "pub void zz9f() { puts(\"", "pub void zz9f() { int a = (1 + ", "pub void zz9f() { f(", "pub typedef int zz9_t(", "pub enum { A,", "enum", "uint32_t", "uint32_t zz9v = {1, ", "pub void zz9f() { for (", "pub void zz9f() { while (true", "pub void zz9f() { int a[",
	"pub uint32_t zz9f(uint32_t a) { printf(\"%u\", a); }", "pub uint32_t zz9f(uint32_t a) { return 1; }", "uint32_t zz9f() { return 1; }", "enum { ZZ9 = 1 }", "#define ZZ9 1", "uint32_t zz9v = 1;", "pub uint32_t zz9v = 1;",
	"#import zz9mod", "#import alpha", "#import zz9.c", "pub nosuch_t zz9f() { return 1; }", "pub void zz9f(nosuch_t *a) { free(a); }", "pub void zz9f() { while (true) { } ", "pub typedef { nosuch_t a; } zz9_t;", "pub uint32_t zz9f( { return 1; }", "pub uint32_t zz9f() { return 1;",
	"#import LOOP", "pub enum { zz9 = zz8 }", "pub char *zz9f() { puts(\"\"); }", "pub int zz9f(int x) { switch (x) { case 1: { return 1; } default: { puts(\"\"); } } }", "pub void zz9f() { zz8(); }", "pub int zz9f(int x) { while (x > 1) { x--; } }", "/* no end { ", "pub typedef nosuch_t zz9_t;", "pub void zz9f() { int a = 1; { a = 2; }"};
enum { NBAD = sizeof BAD / sizeof *BAD, NBADM = sizeof BADM / sizeof *BADM, NBADU = 18 };
static const char *BADU[] = {"u1.nosuch_t zz9 = {}; free(&zz9);", "printf(\"%d\", u1.NOPE);", "printf(\"%d\", u1.K0);", "printf(\"%u\", u1.ticks);", "switch (1) { case u1.zz9: { puts(\"\"); } }", "u1.tick();", "u1.apply(zz9, 1);", "printf(\"%d\", u1.tick);;;)", "uint32_t zz9 = u1.gettick(1); printf(\"%u\", zz9);", "u1.rec_t *zz9 = u1.mk(1, zz8); free(zz9);", "uint32_t zz9 = sizeof(u1.deep_t); printf(\"%u\", zz9);", "u1 = 3;", "u1.deep_t *zz9 = NULL; free(zz9);", "u1.say();", "u1.nothing(1);", "u1.deep(1);", "u1.deep_t zz9 = {}; zz9.x = 1;", "u1.tick(1, 2);"};
// ---------------------------------------------------------------- statements
static tx *A, *C;                                                       // the che text and the C text
static int depth; static void ind(void) { for (int i = 0; i < depth; i++) { put(A, "\t"); put(C, "\t"); } }
#define BOTH(e, ...) do { ex *e_ = (e); put(A, "%s", sche(e_)); put(C, "%s", sc(e_)); } while (0)
static void S(const char *s) { put(A, "%s", s); put(C, "%s", s); }
static int uniq; static char *newname(const char *b) {
	static const char *pool[] = {"x", "y", "n", "acc", "k", "count", "mix", "fold", "pick", "len", "all", "tick"};
	for (int i = 0; i < 5; i++) { const char *s = pool[sim_choose(12)]; int taken = 0; for (int j = blk; j < nv; j++) if (!strcmp(V[j].che, s)) taken = 1; if (!taken) { for (int j = 0; j < nf; j++) if (F[j].m == M && !strcmp(F[j].name, s)) sim_probe(6); return fmt("%s", s); } }
	return fmt("%s%d", b, uniq++);
}
static void addv(const char *che, const char *c, int t, int m, int ro) { V[nv++] = (var) {che, c, t, m, ro}; }
static void rectype(int m, const char **che, const char **c) { *che = m == M ? "rec_t" : fmt("%s.rec_t", MN[m]); *c = fmt("r%d_rec_t", m); }
static void decl(int d, int pure) {
	int t = sim_choose(13); char *n = newname("v"); const char *a, *b, *la = NULL, *lb = NULL; int ro = 0, m = 0;
	addv(n, n, -1, 0, 1);                                              // not to be used in its own value
	only_local = pure; if (t == T_UP && !pick(T_UA)) t = T_U; only_local = 0;
	if (t == T_SP && !pick(T_S)) t = T_U;
	const char *z1 = M == 1 ? "Z1" : imports[M][1] ? "u1.Z1" : "1";
	if (t == T_W && M != 0 && M != 2) t = T_U;
	ind();
	switch (t) {
	case T_U: if (sim_flip(1, 8)) { S("const "); ro = 1; } if (sim_flip(1, 6) && (M == 1 || imports[M][1])) { put(A, M == 1 ? "num_t " : "u1.num_t "); put(C, "uint32_t "); t = T_W; } else S("uint32_t "); S(n); if (!ro && sim_flip(1, 10)) { S(";\n"); ind(); S(n); } S(" = "); BOTH(gU(d)); break;
	case T_W: put(A, "word_t"); put(C, "uint32_t"); S(" "); S(n); S(" = "); BOTH(gU(d)); break;
	case T_Z: S("size_t "); S(n); S(" = "); BOTH(gU(d)); ro = 1; break;
	case T_I: S("int "); S(n); S(" = "); BOTH(gI(d)); break;
	case T_B: S("bool "); S(n); S(" = "); BOTH(gB(d, 0)); break;
	case T_D: S("double "); S(n); S(" = "); BOTH(gD(d)); break;
	case T_UA: S("uint32_t "); S(n); if (sim_choose(2)) { S("[] = {"); for (int i = 0; i < 4; i++) { if (i) S(", "); BOTH(gU(d - 1)); } S("}"); } else if (sim_choose(2)) { S("[4] = {"); BOTH(gU(d - 1)); S("}"); } else if (sim_choose(2)) { S("[4] = {[3] = "); BOTH(gU(d - 1)); put(A, ", [%s] = ", z1); put(C, ", [1] = "); BOTH(gU(d - 1)); S("}"); } else { put(A, "[4] = {}"); put(C, "[4] = {0}"); } break;
	case T_UP: { only_local = pure; var *v = pick(T_UA); only_local = 0; S("uint32_t *"); S(n); S(" = "); BOTH(sim_choose(2) ? vx(v) : pre("&", idx(vx(v), atom("0")))); break; }
	case T_UG: S("uint32_t "); S(n); S("[2][2] = {{"); BOTH(gU(d - 1)); S(", 2}, {"); BOTH(gU(d - 1)); S(", "); BOTH(gU(d - 1)); S("}}"); break;
	case T_S:
		m = sim_choose(2) && imports[M][1] ? 1 : M; if (m == 3) m = 3;
		rectype(m, &a, &b); put(A, "%s %s = ", a, n); put(C, "%s %s = ", b, n);
		if (sim_choose(2)) { S("{.b = "); BOTH(gI(d - 1)); S(", .a = "); BOTH(gU(d - 1)); if (sim_choose(2)) { S(", .arr = {1, "); BOTH(gU(d - 1)); S(", 3, 4}"); } S("}"); }
		else { put(A, "{}"); put(C, "{0}"); }
		S(";\n"); ind(); put(A, "%s.next = &%s", n, n); put(C, "%s.next = &%s", n, n);
		break;
	case T_SA:
		m = sim_choose(2) && imports[M][1] ? 1 : M; rectype(m, &a, &b); put(A, "%s %s[2] = ", a, n); put(C, "%s %s[2] = ", b, n);
		if (sim_choose(2)) { S("{{.a = "); BOTH(gU(d - 1)); S("}, {.b = "); BOTH(gI(d - 1)); S("}}"); } else { put(A, "{}"); put(C, "{{0}}"); }
		S(";\n"); ind(); S(n); S("[0].next = &"); S(n); S("[1];\n"); ind(); S(n); S("[1].next = "); S(n);
		break;
	case T_SP: {
		var *v = pick(T_S); m = v->m; rectype(m, &a, &b); put(A, "%s *%s = ", a, n); put(C, "%s *%s = ", b, n);
		if (sim_flip(1, 3)) { put(A, "calloc!(1, sizeof(%s))", m == M || sim_choose(2) ? a : fmt("*%s", n)); put(C, "calloc(1, sizeof(%s))", b); S(";\n"); ind(); put(A, "%s->next = %s", n, n); put(C, "%s->next = %s", n, n); }
		else BOTH(pre("&", vx(v)));
		break; }
	case T_STR: { const char *x, *y; gstr(&x, &y, 0); la = x; lb = y; S("char *"); S(n); put(A, " = %s", x); put(C, " = %s", y); break; }
	}
	S(";\n");
	V[nv - 1] = (var) {n, n, t, m, ro, la, lb};
}
// Every variable has to be used: goes into what is printed or returned.
static void use(var *v) {
	ex *e = vx(v);
	switch (v->t) {
	case T_UA: case T_UP: e = idx(e, atom("1")); break;
	case T_UG: e = idx(idx(e, atom("1")), atom("0")); break;
	case T_S: e = fld(e, ".", "a"); break;
	case T_SA: e = fld(idx(e, atom("1")), ".", "a"); break;
	case T_SP: e = fld(e, "->", "a"); break;
	case T_STR: e = idx(e, atom("0")); break;
	}
	ind(); put(A, "sum += (uint32_t) "); put(C, "sum += (uint32_t) ");
	if (v->t == T_D) { put(A, "(%s > 1.0 && true)", v->che); put(C, "(%s > 1.0)", v->c); } else { pche(A, e, 13); pc(C, e); }
	S(";\n");
}
static void block(int d, int n, int pure, int loop, int ret);
static void body(int d, int n, int pure, int loop, int ret) {
	int keep = nv, b = blk; depth++; blk = nv;
	block(d, n, pure, loop, ret);
	for (int i = keep; i < nv; i++) use(&V[i]);
	nv = keep; depth--; blk = b;
}
static int bigloops; static size_t size_limit = 9000;
static void mistake(int end) {
	if (bad < 0 || bad_done || bad >= NBAD + NBADU || M != bad_module || (!end && bad_wait-- > 0)) return;
	bad_done = 1; sim_probe(13);
	ind(); put(A, "%s\n", bad < NBAD ? BAD[bad] : BADU[bad - NBAD]);
}
// Small programs in themselves: # is a fresh number, @ a value of the right type; what is between ` and ` is only for che, between ~ and ~ only for C.
static void idiom(int d, int pure) {
	static const char *t[] = {
		"uint32_t a# = @; sum += a#++ + 3; sum ^= --a#; sum -= ++a#; sum |= a#--;",
		"uint32_t a#[] = {@, 5, 6}; uint32_t *p# = a#; sum += *p#++; sum += *p#; sum ^= *++p#;",
		"uint32_t *p# = &sum; uint32_t **h# = &p#; **h# += 3; (*h#)[0] ^= @;",
		"uint32_t a# = 1; uint32_t b# = 2; a# = b# = @; sum += a# ^ b#; a# += b# -= 3; sum ^= a# - b#;",
		"sum += (uint32_t) `OS.`abs(-(-4) - 9);",
		"char c# = 'a'; c# += 2; sum += (uint32_t) c#;",
		"bool b# = true; b# = !b#; if (!b#) { sum++; } else { sum--; }",
		"const char *s# = \"wxyz\"; while (*s# != 'y') { sum += (uint32_t) *s#; s#++; }",
		"uint64_t w# = @; w# = w# << 20 << 15; sum += (uint32_t) (w# >> 30);",
		"int64_t w# = -3; w# = w# * 1000000 * 1000000; sum += (uint32_t) (w# / 1000000);",
		"uint8_t *b# = (uint8_t *) &sum; sum += b#[0] ^ b#[1];",
		"uint8_t s# = 250; s# += 10; int8_t t# = -3; sum += (uint32_t) s# - (uint32_t) t#;",
		"while (false) { sum = 0; } for (; false;) { sum = 1; }",
		"uint32_t a#[3] = {}; uint32_t *p# = a# + 2; uint32_t *q# = &a#[0]; sum += (uint32_t) (p# - q#);",
		"double d# = 7.0 / 2.0; d# = d# / 3.0 - (1.0 - 0.25) - 0.5; d# *= 100.0; sum += (uint32_t) d#;",
		"float f# = 1.5; f# = f# - (0.5 - 2.0); sum += (uint32_t) (f# * 10.0);",
		"int i# = -7; sum += (uint32_t) (i# / 2) ^ (uint32_t) (i# % 3) ^ (uint32_t) (i# >> 1);",
		"uint32_t a#[2][3] = {{1, 2, 3}, {4, 5, 6}}; for (int i# = 0; i# < 2; i#++) { for (int j# = 2; j# >= 0; j#--) { if (i# == j#) continue; sum = sum * 3 + a#[i#][j#]; } }",
		"uint32_t n# = 0; while (true) { n#++; if (n# % 2 == 0) { continue; } if (n# > 6) { break; } sum += n#; }",
		"uint32_t n# = 5; while (n#) { n#--; if (n# == 3) continue; sum = sum * 2 + n#; }",
		"uint32_t n# = 0; for (int i# = 0; i# < 4; i#++) { switch (i#) { case 1`, `~: case ~2: { n# += 10; } ~break;~ default: { n#++; } } if (n# > 20) { break; } } sum += n#;",
		"char s#[10] = {}; sprintf(s#, \"%%%d/\", 42); sum += (uint32_t) s#[1] + (uint32_t) s#[3] + strlen(s#);",
		"uint32_t a# = 3; uint32_t b# = 5; sum += a# - (b# - a#) - (a# + b#) * 2 / (b# % 3); sum ^= ~a# & ~(b# | 1); sum += (a# << 2) + (b# >> 1) << 1;",
		"if (sum > 5) if (sum > 1000) sum += 2; else sum += 7;",
		"if (sum & 1) { if (sum & 2) { sum += 2; } } else { sum += 7; }",
		"`quad_t q#`~uint32_t q#[4]~ = {1, @, 3}; sum += q#[1] + q#[3] + nelem(q#);",
		"`void *v# = u1.same(&sum); uint32_t *p# = v#;`~uint32_t *p# = &sum;~ *p# += 1;",
		"sum += (uint32_t) `u1.shout(&printf)`~printf(\"%d-%s\\n\", 4, \"x\")~;",
		"`u1.rec_t`~r1_rec_t~ r# = `u1.mk(7, -2)`~r1_mk(7, -2)~; `u1.rec_t`~r1_rec_t~ *p#[2] = {NULL, &r#}; p#[1]->b *= 3; if (!p#[0] && p#[1]) { sum += (uint32_t) r#.b; }",
	};
	int n = sizeof t / sizeof *t, k = sim_choose(n), id = uniq++;
	if (k >= n - 3 && (!imports[M][1] || pure)) k = 0;
	if (k == n - 4 && M != 0 && M != 2) k = 1;
	int mode = 3; ind();
	for (const char *p = t[k]; *p; p++) {
		char one[2] = {*p, 0};
		if (*p == '`') mode = mode == 3 ? 1 : 3;
		else if (*p == '~' && k != 22) mode = mode == 3 ? 2 : 3;
		else if (*p == '@') BOTH(gU(d));
		else for (int z = 1; z < 3; z++) if (mode & z) { tx *o = z == 1 ? A : C; if (*p == '#') put(o, "%d", id); else if (z == 2 && !strncmp(p, "nelem", 5)) { put(o, "NELEM"); } else if (z == 2 && p - t[k] >= 4 && (!strncmp(p - 1, "nelem", 5) || !strncmp(p - 2, "nelem", 5) || !strncmp(p - 3, "nelem", 5) || !strncmp(p - 4, "nelem", 5))) {} else put(o, "%s", one); }
	}
	S("\n");
}
static void stmt(int d, int pure, int loop, int ret) {
	mistake(0);
	int k = sim_choose(pure ? 14 : 21); if (k == (pure ? 13 : 20)) { idiom(d, pure); return; }
	switch (k) {
	case 0: case 1: decl(d, pure); return;
	case 2: case 3: {
		ex *l = target(d - 1, pure); if (!l) { decl(d, pure); return; }
		static const char *op[] = {"=", "+=", "-=", "*=", "|=", "&=", "^=", "<<=", ">>=", "/=", "%="};
		int o = sim_choose(11); ind(); BOTH(l); S(" "); S(op[o]); S(" ");
		if (o == 7 || o == 8) BOTH(small(d - 1, 7)); else if (o > 8) BOTH(bin("|", gU(d - 1), atom("1"))); else BOTH(gU(d));
		S(";\n"); return; }
	case 4: {
		ex *l = target(d - 1, pure); if (!l) return;
		ind(); int o = sim_choose(4);
		if (o < 2) { S(o ? "++" : "--"); pche(A, l, 13); put(C, "("); pc(C, l); put(C, ")"); } else { pche(A, l, 14); put(C, "("); pc(C, l); put(C, ")"); S(o == 2 ? "++" : "--"); }
		S(";\n"); return; }
	case 5: case 6: {
		ind(); S("if ("); BOTH(gB(d, !pure)); S(") ");
		int braces = sim_choose(4) > 0;
		if (braces) { S("{\n"); body(d - 1, 2, pure, loop, ret); ind(); S("}"); } else { ex *l = target(0, pure); if (!l) l = atom("sum"); put(A, "\n"); put(C, "\n"); depth++; ind(); BOTH(l); S(" += 3;"); depth--; }
		int e = sim_choose(4);
		if (e >= 2) { S(e == 3 ? " else if (" : " else {\n"); if (e == 3) { BOTH(gB(d, !pure)); S(") {\n"); body(d - 1, 2, pure, loop, ret); ind(); S("} else {\n"); } body(d - 1, 2, pure, loop, ret); ind(); S("}"); }
		S("\n"); return; }
	case 7: case 8: {
		if (bigloops >= 2) { decl(d, pure); return; }
		bigloops++;
		char *n = fmt("i%d", uniq++); int cnt = 2 + sim_choose(4), form = sim_choose(6);
		ind();
		if (form == 0) { put(A, "for (uint32_t %s = 0; %s < %d; %s++) {\n", n, n, cnt, n); put(C, "for (uint32_t %s = 0; %s < %d; %s++) {\n", n, n, cnt, n); }
		else if (form == 5) { for (int z = 0; z < 2; z++) put(z ? C : A, "uint32_t %s = 9;\n", n); ind(); for (int z = 0; z < 2; z++) put(z ? C : A, "for (%s = 1; %s <= %d; %s += 2) {\n", n, n, cnt + 3, n); }
		else if (form == 1) { put(A, "for (int %s = %d; %s > 0; --%s) {\n", n, cnt, n, n); put(C, "for (int %s = %d; %s > 0; --%s) {\n", n, cnt, n, n); }
		else if (form == 2) { for (int z = 0; z < 2; z++) put(z ? C : A, "uint32_t %s = %d;\n", n, cnt); ind(); for (int z = 0; z < 2; z++) put(z ? C : A, "while (%s-- > 0) {\n", n); }
		else if (form == 3) { for (int z = 0; z < 2; z++) put(z ? C : A, "uint32_t %s = 0;\n", n); ind(); for (int z = 0; z < 2; z++) put(z ? C : A, "for (;;) {\n"); depth++; ind(); for (int z = 0; z < 2; z++) put(z ? C : A, "if (%s++ >= %d) { break; }\n", n, cnt); depth--; }
		else { for (int z = 0; z < 2; z++) put(z ? C : A, "uint32_t %s = 0;\n", n); ind(); for (int z = 0; z < 2; z++) put(z ? C : A, "while (true) {\n"); depth++; ind(); for (int z = 0; z < 2; z++) put(z ? C : A, "if (++%s > %d) break;\n", n, cnt); depth--; }
		addv(n, n, form == 1 ? T_I : T_Z, 0, 1);
		int keep = nv, b = blk; depth++; blk = nv;
		block(d - 1, 3, pure, 1, ret);
		for (int i = keep; i < nv; i++) use(&V[i]);
		nv = keep; depth--; blk = b;
		ind(); S("}\n");
		if (form < 2) nv--; 
		bigloops--;
		return; }
	case 9: {
		if (!loop) { decl(d, pure); return; }
		ind(); S("if ("); BOTH(gB(d, 0)); S(sim_choose(2) ? ") { break; }\n" : ") { continue; }\n"); return; }
	case 10: {
		int how = sim_choose(4); var *sv = pick(T_STR);
		if (how == 0 && sv) {
			ind(); S("switch ("); BOTH(idx(vx(sv), atom(fmt("%u", sim_choose(3))))); S(") {\n");
			static const char *ch[] = {"'x'", "'y'", "'z'", "'\\''", "'\\n'", "'\"'"}; int o = sim_choose(6), n = 1 + sim_choose(3);
			for (int c = 0; c < n; c++) { ind(); S("case "); S(ch[(o + c) % 6]); S(": {\n"); body(d - 1, 2, pure, 0, ret); ind(); S("}"); put(C, " break;"); S("\n"); }
			if (sim_choose(2)) { ind(); S("default: {\n"); body(d - 1, 2, pure, 0, ret); ind(); S("}\n"); }
			ind(); S("}\n"); return;
		}
		if (how == 1) {
			cst *c[40]; const char *nm[40]; int n = 0;
			for (int o = 0; o < 4; o++) if (o == M || imports[M][o]) for (int i = 0; i < nk[o]; i++) if (o == M || strchr(K[o][i].che, 'P')) { int dup = 0; for (int j = 0; j < n; j++) if (!strcmp(c[j]->c, K[o][i].c)) dup = 1; if (!dup) { c[n] = &K[o][i]; nm[n++] = o == M ? K[o][i].che : fmt("%s.%s", MN[o], K[o][i].che); } }
			int at = sim_choose(n), k = 1 + sim_choose(n < 4 ? n : 4), one = sim_choose(3) == 0;
			ind(); S("switch ("); BOTH(bin("+", atom2(nm[at], c[at]->c), small(d, 1))); c[at]->used = 1; S(") {\n");
			for (int i = 0; i < k; i++) {
				int j = (at + i) % n; c[j]->used = 1;
				ind(); put(A, "case %s", nm[j]); put(C, "case %s: ", c[j]->c);
				if (one && i + 1 < k) { j = (at + ++i) % n; c[j]->used = 1; put(A, ", %s", nm[j]); put(C, "case %s: ", c[j]->c); }
				put(A, ": {\n"); put(C, "{\n"); body(d - 1, 2, pure, 0, ret); ind(); S("}"); put(C, " break;"); S("\n");
			}
			if (sim_choose(2)) { ind(); S("default: {\n"); body(d - 1, 2, pure, 0, ret); ind(); S("}\n"); }
			ind(); S("}\n"); return;
		}
		ind(); S("switch ("); BOTH(bin("&", gU(d), atom("7"))); S(") {\n");
		int v[8], n = 0, cs = 1 + sim_choose(3); for (int i = 0; i < 8; i++) v[i] = i; for (int i = 7; i > 0; i--) { int j = sim_choose(i + 1), x = v[i]; v[i] = v[j]; v[j] = x; }
		for (int c = 0; c < cs; c++) {
			int m = 1 + sim_choose(3); if (n + m > 8) m = 1;
			ind(); put(A, "case "); for (int i = 0; i < m; i++) { if (i) put(A, ", "); put(A, "%d", v[n + i]); put(C, "case %d: ", v[n + i]); }
			put(A, ": {\n"); put(C, "{\n"); n += m;
			body(d - 1, 2, pure, 0, ret);
			ind(); S("}"); put(C, " break;"); S("\n");
		}
		if (sim_choose(2)) { ind(); S("default: {\n"); body(d - 1, 2, pure, 0, ret); ind(); S("}\n"); }
		ind(); S("}\n"); return; }
	case 11: {
		var *v = pick(T_STR); if (!v) { decl(d, pure); return; }
		sim_probe(4); int cs = 1 + sim_choose(3); ind(); put(A, "switch str (%s) {\n", v->che);
		const char *a, *b; int first = 1;
		for (int c = 0; c < cs; c++) {
			int m = 1 + sim_choose(3);
			depth++; if (c) { depth--; ind(); depth++; } depth--;
			put(A, "case "); put(C, c ? "else if (" : "if (");
			for (int i = 0; i < m; i++) { if (v->la && sim_flip(1, 4)) { a = v->la; b = v->lb; } else gstr(&a, &b, 0); put(A, "%s%s", i ? ", " : "", a); put(C, "%s!strcmp(%s, %s)", i ? " || " : "", v->c, b); }
			put(A, ": {\n"); put(C, ") {\n"); first = 0;
			body(d - 1, 2, pure, loop, ret);
			ind(); S("}\n");
		}
		if (sim_choose(2)) { ind(); put(A, "default: {\n"); put(C, "else {\n"); body(d - 1, 2, pure, loop, ret); ind(); S("}\n"); }
		(void) first; ind(); put(A, "}\n"); put(C, "\n"); return; }
	case 12: {
		if (!ret || !sim_flip(1, 3)) { decl(d, pure); return; }
		ind(); S("if ("); BOTH(gB(d, 0)); S(") { return "); BOTH(gU(d)); S("; }\n"); return; }
	case 13: { fn *f = pickf(0, -1); if (!f || bigloops > 1) return; ex *a[4]; for (int i = 0; i < f->np; i++) a[i] = gU(d); f->used = 1; ind(); BOTH(call(atom2(fche(f), f->cname), f->np, a)); S(";\n"); return; }
	case 14: { const char *a, *b; gstr(&a, &b, 1); ind(); put(A, "printf(%s \" %%u %%d\\n\", (uint32_t) (", a); put(C, "printf(%s \" %%u %%d\\n\", (uint32_t) (", b); BOTH(gU(d)); S("), "); BOTH(gI(d)); S(");\n"); return; }
	case 15: { const char *a, *b; gstr(&a, &b, 0); ind(); put(A, "puts(%s);\n", a); put(C, "puts(%s);\n", b); return; }
	case 16: { fn *f = NULL; for (int t = 0; t < 4 && !f; t++) { f = pickf(1, 1); if (f && f->m != M) f = NULL; } if (!f || hidden_name(f->name) || !(M == 1 || imports[M][1])) return; sim_probe(5); f->used = 1; ind(); put(A, "sum += %s(%s%s, ", M == 1 ? "apply" : "u1.apply", sim_choose(2) ? "&" : "", f->name); put(C, "sum += r1_apply(%s, ", f->cname); BOTH(gU(d)); S(");\n"); return; }
	case 17: { if (!(M == 1 || imports[M][1])) return; sim_probe(11); ind(); put(A, "sum ^= %s(", M == 1 ? "mk" : "u1.mk"); put(C, "sum ^= r1_mk("); BOTH(gU(d)); S(", "); BOTH(gI(d)); S(")"); S(sim_choose(2) ? ".a;\n" : ".arr[1];\n"); return; }
	case 18: { if (!(M == 1 || imports[M][1])) return; const char *u = M == 1 ? "" : "u1."; if (M == 1 && (hidden_name("say") || hidden_name("name"))) return; ind(); if (sim_choose(2)) { put(A, "%ssay(\"%%s %%u %%d\\n\", %sname(%u), (uint32_t) (", u, u, 0); put(C, "printf(\"[%%d] \", %d); printf(\"%%s %%u %%d\\n\", r1_name(0), (uint32_t) (", 3); BOTH(gU(d)); S("), "); BOTH(gI(d)); S(");\n"); } else { put(A, "%ssay(\"plain\\n\");\n", u); put(C, "printf(\"[%%d] plain\\n\", 3);\n"); } return; }
	case 19: {
		if (M != 0 || !imports[0][2] || !imports[2][1]) return;
		fn *f = NULL; for (int t = 0; t < 4 && !f; t++) { f = pickf(1, 1); if (f && f->m != M) f = NULL; }
		if (!f || hidden_name(f->name)) return;
		f->used = 1; char *b = fmt("box%d", uniq++); sim_probe(15);
		ind(); put(A, "u2.box_t %s = {.n = ", b); put(C, "r2_box_t %s = {.n = ", b); BOTH(gU(d)); put(A, ", .f = %s%s};\n", sim_choose(2) ? "&" : "", f->name); put(C, ", .f = %s};\n", f->cname);
		ind(); S(b); S(".inner.arr[1] = "); BOTH(gU(d - 1)); S(";\n");
		ind(); put(A, "sum += u2.unbox(&%s) ^ u1.apply(%s.f, 3);\n", b, b); put(C, "sum += (r2_unbox(&%s) ^ r1_apply(%s.f, 3));\n", b, b); return; }
	}
}
static void block(int d, int n, int pure, int loop, int ret) { int k = 1 + sim_choose(n); for (int i = 0; i < k && C->n < size_limit; i++) stmt(d, pure, loop, ret); }
// ---------------------------------------------------------------- modules
static tx item[60]; static int nitem; static tx rtypes, rvars, rprotos, rbodies, che[4];
static tx *newitem(void) { item[nitem] = (tx) {0}; put(&item[nitem], "%s", ""); return &item[nitem++]; }
static int fnames_used;
static void function(int pure, int np, const char *name, int pub) {
	fn f = {name, fmt("r%d_%s", M, name), M, pub, np, pure, 0};
	static const char *pn[] = {"p", "q", "r"};
	int keep = nv; infn = blk = nv;
	A = newitem(); C = &rbodies; depth = 0; bigloops = 0;
	put(A, "%s%s %s(", pub ? "pub " : "", pure ? "uint32_t" : "void", name);
	put(&rprotos, "static %s %s(", pure ? "uint32_t" : "void", f.cname); put(C, "static %s %s(", pure ? "uint32_t" : "void", f.cname);
	int grouped = sim_choose(2);
	for (int i = 0; i < np; i++) {
		put(A, "%s%s%s", i ? ", " : "", i && grouped ? "" : "uint32_t ", pn[i]);
		put(C, "%suint32_t %s", i ? ", " : "", pn[i]); put(&rprotos, "%suint32_t %s", i ? ", " : "", pn[i]);
	}
	if (!np) { put(C, "void"); put(&rprotos, "void"); }
	put(A, ") {\n"); put(C, ") {\n"); put(&rprotos, ");\n");
	for (int i = 0; i < np; i++) addv(pn[i], pn[i], T_U, 0, 0);
	depth = 1; ind(); S("uint32_t sum = "); if (np) S("p"); else S(fmt("%u", sim_choose(100))); S(";\n");
	addv("sum", "sum", T_U, 0, 0);
	int first = nv;
	block(3, pure ? 4 : 7, pure, 0, pure);
	for (int i = 1; i < np; i++) { ind(); S("sum ^= "); S(pn[i]); S(";\n"); }
	for (int i = first; i < nv; i++) use(&V[i]);
	if (pure) {
		int how = sim_choose(10); ex *e = bin("^", vx(&V[first - 1]), gU(3));
		switch (how) {
		case 0: ind(); S("if ("); BOTH(gB(2, 0)); S(") {\n\t\treturn "); BOTH(gU(2)); S(";\n\t} else {\n\t\treturn "); BOTH(e); S(";\n\t}\n"); break;
		case 1: ind(); S("switch ("); BOTH(bin("&", gU(2), atom("1"))); S(") {\n\tcase 1: { return "); BOTH(gU(2)); S("; }\n\tdefault: { return "); BOTH(e); S("; }\n\t}\n"); break;
		case 2: ind(); S("while (true) {\n\t\tif ("); BOTH(gB(2, 0)); S(") { return "); BOTH(gU(2)); S("; }\n\t\treturn "); BOTH(e); S(";\n\t}\n"); break;
		case 3: ind(); S("if (sum == sum) { return "); BOTH(e); put(A, "; }\n\tpanic(\"never\");\n"); put(C, "; }\n\tabort();\n"); break;
		default: ind(); S("return "); BOTH(e); S(";\n");
		}
	}
	else { ind(); put(A, "printf(\"%d.%s %%u\\n\", sum);\n", M, name); put(C, "printf(\"%d.%s %%u\\n\", sum);\n", M, name); }
	put(A, "}\n"); put(C, "}\n\n");
	nv = keep; infn = 0;
	F[nf++] = f;
}
static void module(int m) {
	M = m; nitem = 0; nv = 0; size_limit = rbodies.n + 500 + sim_choose_small(6000);
	static const char *names[] = {"mix", "fold", "pick", "step", "twist", "weigh"};
	int off = sim_choose(6), nfun = 0;
	tx *t;
	// what every module has: constants, a record, variables
	t = newitem(); int n = 1 + sim_choose(3), val = sim_choose(50);
	put(t, "enum {%s", sp());
	for (int i = 0; i < n; i++) { const char *nm = fmt("K%d", i); if (i == 0 || sim_choose(2)) val = sim_choose(100), put(t, i && sim_choose(2) ? "%s = K0 + %d - 1" : "%s = %d", nm, val), val += !strcmp(item[nitem - 1].p + item[nitem - 1].n - 3, "- 1") ? atoi(K[m][0].c) - 1 : 0; else { val++; put(t, "%s", nm); } put(t, i + 1 < n ? ", " : sim_choose(2) ? "," : ""); K[m][nk[m]++] = (cst) {nm, fmt("%d", val), 0}; }
	put(t, " }%s\n", sim_choose(2) ? ";" : "");
	if (m) { t = newitem(); put(t, "pub enum { P%d = %d, PX }\n", m, m * 10); K[m][nk[m]++] = (cst) {fmt("P%d", m), fmt("%d", m * 10), 1}; K[m][nk[m]++] = (cst) {"PX", fmt("%d", m * 10 + 1), 1}; }
	if (sim_choose(2)) { t = newitem(); int v = sim_choose(1000); put(t, "#define LIM%d %d\n", m, v); K[m][nk[m]++] = (cst) {fmt("LIM%d", m), fmt("%d", v), 0}; }
	t = newitem();
	static const char *fl[] = {"uint32_t a;", "int b;", "uint32_t arr[4];", "uint8_t c, d;", "rec_t *next;", "union { uint32_t u; uint8_t bytes[4]; } v;"};
	static const char *rl[] = {"uint32_t a;", "int b;", "uint32_t arr[4];", "uint8_t c, d;", "NEXT", "union { uint32_t u; uint8_t bytes[4]; } v;"};
	put(t, "%stypedef {\n", m == 1 ? "pub " : ""); put(&rtypes, "typedef struct r%d_rec {\n", m);
	int rot = sim_choose(6);
	for (int i = 0; i < 6; i++) { int k = (i + rot) % 6; put(t, "\t%s\n", fl[k]); if (k == 4) put(&rtypes, "\tstruct r%d_rec *next;\n", m); else put(&rtypes, "\t%s\n", rl[k]); }
	put(t, "} rec_t;\n"); put(&rtypes, "} r%d_rec_t;\n", m);
	if (m == 0 || m == 2) { t = newitem(); put(t, "typedef uint32_t word_t;\n"); t = newitem(); put(t, "typedef uint32_t quad_t[4];\n"); }
	int mvu = sim_choose(100);
	t = newitem(); put(t, "uint32_t count = %d;\n", mvu); put(&rvars, "static uint32_t r%d_count = %d;\n", m, mvu); addv("count", fmt("r%d_count", m), T_U, 0, 0);
	t = newitem(); put(t, sim_choose(2) ? "uint32_t table[] = {%d, 2, K0, 4};\n" : "enum { SZ = 1 << 1 };\nuint32_t table[SZ + 2] = {%d, 2, K0, 4};\n", mvu + 1); put(&rvars, "static uint32_t r%d_table[] = {%d, 2, %s, 4};\n", m, mvu + 1, K[m][0].c); addv("table", fmt("r%d_table", m), T_UA, 0, 0); K[m][0].used = 1;
	const char *sa, *sb; gstr(&sa, &sb, 0);
	t = newitem(); put(t, "char *title = %s;\n", sa); put(&rvars, "static char *r%d_title = %s;\n", m, sb); addv("title", fmt("r%d_title", m), T_STR, 0, 1); V[nv - 1].la = sa; V[nv - 1].lb = sb;
	int top = nv; (void) top;
	if (m == 1) {
		t = newitem(); put(t, "uint32_t ticks = 1;\n"); put(&rvars, "static uint32_t r1_ticks = 1;\n");
		t = newitem(); put(t, "pub int tick(int k) {\n\tticks = ticks * 31 + (uint32_t) k;\n\treturn k;\n}\n"); put(&rprotos, "static int r1_tick(int k);\n"); put(&rbodies, "static int r1_tick(int k) { r1_ticks = r1_ticks * 31 + (uint32_t) k; return k; }\n");
		t = newitem(); put(t, "pub uint32_t gettick() { return ticks; }\n"); put(&rprotos, "static uint32_t r1_gettick(void);\n"); put(&rbodies, "static uint32_t r1_gettick(void) { return r1_ticks; }\n");
		t = newitem(); put(t, "pub typedef uint32_t fn_t(uint32_t);\n"); put(&rtypes, "typedef uint32_t r1_fn_t(uint32_t);\n");
		t = newitem(); put(t, "pub uint32_t apply(fn_t *f, uint32_t x) {\n\treturn f(x) + f(x + 1) * 2;\n}\n"); put(&rprotos, "static uint32_t r1_apply(r1_fn_t *f, uint32_t x);\n"); put(&rbodies, "static uint32_t r1_apply(r1_fn_t *f, uint32_t x) { return f(x) + (f(x + 1) * 2); }\n");
		t = newitem(); put(t, "pub rec_t mk(uint32_t a, int b) {\n\trec_t r = {.a = a, .b = b, .arr = {a, a + 1}};\n\treturn r;\n}\n"); put(&rprotos, "static r1_rec_t r1_mk(uint32_t a, int b);\n"); put(&rbodies, "static r1_rec_t r1_mk(uint32_t a, int b) { r1_rec_t r = {0}; r.a = a; r.b = b; r.arr[0] = a; r.arr[1] = a + 1; return r; }\n");
		t = newitem(); put(t, "typedef { int x; } deep_t;\nuint32_t deep(uint32_t x) {\n\tdeep_t d = {.x = 5};\n\treturn x * (uint32_t) d.x;\n}\n"); put(&rprotos, "static uint32_t r1_deep(uint32_t x);\n"); put(&rbodies, "static uint32_t r1_deep(uint32_t x) { return x * 5; }\n");
		F[nf++] = (fn) {"deep", "r1_deep", 1, 0, 1, 1, 0};
	}
	if (m == 1) {
		t = newitem(); put(t, "pub typedef uint32_t num_t;\n");
		t = newitem(); put(t, "pub enum { Z0, Z1 }\n");
		t = newitem(); put(t, "pub void *same(void *p) {\n\treturn p;\n}\n");
		t = newitem(); put(t, "pub typedef int pf_t(const char *, ...);\n");
		t = newitem(); put(t, "pub int shout(pf_t *f) {\n\treturn f(\"%%d-%%s\\n\", 4, \"x\");\n}\n");
		t = newitem(); put(t, "pub char *name(int k) {\n\tif (k == 1) return \"one\";\n\treturn \"oth\\\"er\";\n}\n"); put(&rprotos, "static char *r1_name(int k);\n"); put(&rbodies, "static char *r1_name(int k) { if (k == 1) return \"one\"; return \"oth\\\"er\"; }\n");
		t = newitem(); put(t, "pub void say(const char *fmt, ...) {\n\tva_list args = {};\n\tprintf(\"[%%d] \", 3);\n\tva_start(args, fmt);\n\tvprintf(fmt, args);\n\tva_end(args);\n}\n");
	}
	if (m == 2 && imports[2][1]) {
		t = newitem(); put(t, "pub typedef { u1.rec_t inner; u1.fn_t *f; uint32_t n; } box_t;\n"); put(&rtypes, "typedef struct { r1_rec_t inner; r1_fn_t *f; uint32_t n; } r2_box_t;\n");
		t = newitem(); put(t, "pub uint32_t unbox(box_t *b) {\n\treturn u1.apply(b->f, b->n) + b->inner.arr[1];\n}\n"); put(&rprotos, "static uint32_t r2_unbox(r2_box_t *b);\n"); put(&rbodies, "static uint32_t r2_unbox(r2_box_t *b) { return r1_apply(b->f, b->n) + b->inner.arr[1]; }\n");
	}
	int np = 1 + sim_choose(2), ni = m == 3 ? 0 : m == 0 ? 1 : sim_choose(2);
	for (int i = 0; i < np; i++) function(1, 1 + sim_choose(i ? 3 : 1), names[(off + nfun++) % 6], m && sim_choose(2));
	for (int i = 0; i < ni; i++) function(0, sim_choose(3), names[(off + nfun++) % 6], m && sim_choose(2));
	// the last function uses whatever is left
	A = newitem(); C = &rbodies; depth = 1; infn = blk = nv; bigloops = 0;
	if (m) { put(A, "pub void all() {\n"); put(C, "static void r%d_all(void) {\n", m); put(&rprotos, "static void r%d_all(void);\n", m); }
	else { put(A, "int main() {\n"); put(C, "int main(void) {\n"); }
	ind(); S("uint32_t sum = 7;\n"); int keep = nv; addv("sum", "sum", T_U, 0, 0); int first = nv;
	for (int i = 0; i < nf; i++) if (F[i].m == m && !F[i].pub && !F[i].used) {
		F[i].used = 1; ind();
		ex *a[4]; for (int j = 0; j < F[i].np; j++) a[j] = atom(num());
		if (F[i].pure) S("sum += ");
		BOTH(call(atom2(F[i].name, F[i].cname), F[i].np, a)); S(";\n");
	}
	for (int i = 0; i < nk[m]; i++) if (!K[m][i].used) { ind(); put(A, "sum += %s;\n", K[m][i].che); put(C, "sum += %s;\n", K[m][i].c); }
	for (int i = 0; i < 3; i++) use(&V[i]);
	block(3, m ? 3 : 8, 0, 0, 0);
	for (int i = 0; i < 4; i++) if (imports[m][i]) { ind(); if (i == 1 && !sim_choose(2)) { put(A, "u1.tick(3);\n"); put(C, "r1_tick(3);\n"); ind(); } put(A, "%s.all();\n", MN[i]); put(C, "r%d_all();\n", i); }
	for (int i = first; i < nv; i++) use(&V[i]);
	if (m == 0 || m == 2) { ind(); put(A, "word_t last%d = sum;\n", m); put(C, "uint32_t last%d = sum;\n", m); ind(); put(A, "sum += last%d >> 1;\n", m); put(C, "sum += last%d >> 1;\n", m); }
	ind(); put(A, "rec_t fin = {.a = 3};\n"); put(C, "r%d_rec_t fin = {.a = 3};\n", m); ind(); S("sum += fin.a;\n");
	if (m == 1) { ind(); put(A, "sum += ticks;\n"); put(C, "sum += r1_ticks;\n"); }
	if (m == 3) { ind(); put(A, "sum += u1.half(sum) - u1.P1;\n"); put(C, "sum += (sum / 2 + 5) - 77;\n"); }
	mistake(1);
	ind(); put(A, "printf(\"%d all %%u\\n\", sum);\n", m); put(C, "printf(\"%d all %%u\\n\", sum);\n", m);
	if (!m) {
		ind(); put(A, "printf(\"ticks %%u\\n\", u1.gettick());\n"); put(C, "printf(\"ticks %%u\\n\", r1_gettick());\n");
		if (sim_flip(1, 12)) { sim_probe(16); ind(); put(A, "char *huge = calloc!(0x7fffffffffffffff, 0x7fffffffffffffff);\n"); put(C, "fflush(stdout); fprintf(stderr, \"calloc failed\"); exit(1);\n"); ind(); put(A, "free(huge);\n"); ind(); put(A, "return 5;\n"); }
		else if (sim_flip(1, 6)) { sim_probe(3); ind(); put(A, "panic(\"stop %%u\", sum);\n"); put(C, "fflush(stdout); fprintf(stderr, \"stop %%u\\n\", sum); exit(1);\n"); }
		else { ind(); S("return (int) (sum & 127);\n"); }
	}
	put(A, "}\n"); put(C, "}\n\n"); nv = keep;
	// lay the parts out in any order
	tx *o = &che[m];
	static const char *imp[4][4] = {{0, "u1.c", "sub/u2.c", "gen/u3"}, {0}, {0, "../u1.c", 0, "gen/u3"}, {0}};
	int order[4] = {1, 2, 3, 0}; for (int i = 2; i > 0; i--) { int j = sim_choose(i + 1), x = order[i]; order[i] = order[j]; order[j] = x; }
	for (int i = 0; i < 3; i++) if (imports[m][order[i]]) put(o, "#import %s\n", imp[m][order[i]]);
	if (m == 3) put(o, "#import alt/u1\n");
	for (int i = nitem - 1; i > 0; i--) { int j = sim_choose(i + 1); tx x = item[i]; item[i] = item[j]; item[j] = x; }
	int at = bad >= NBAD + NBADU && m == bad_module ? (int) sim_choose(nitem + 1) : -1;
	const char *bm = at >= 0 ? BADM[bad - NBAD - NBADU] : NULL;
	if (bm && !strcmp(bm, "#import LOOP")) bm = m == 0 ? "#import main.c" : m == 1 ? "#import main.c" : m == 2 ? "#import ../main.c" : "#import gen/u3";
	if (bm) { int u = 0; for (const char *q = bm; *q; q++) u += *q == '{', u -= *q == '}'; if (u > 0) at = nitem; sim_probe(13); bad_done = 1; }
	for (int i = 0; i <= nitem; i++) {
		if (i == at) put(o, "%s\n", bm);
		if (i == nitem) break;
		if (sim_flip(1, 10)) put(o, "// %d\n/* x\n } */\n", i);
		put(o, "%s\n", item[i].p);
	}
}
// ---------------------------------------------------------------- running things natively
static int asked;
long scen_ask(int p, int what, const char *path) { (void) p; (void) path; if (what == ASK_C99) asked++; return 0; }
int scen_mayfault(int p, int op, const char *path) { (void) op; (void) path; return dprocs[p].top && !dprocs[p].exe; }
static int sh(const char *out, char **argv, int secs) {
	pid_t pid = fork();
	if (!pid) {
		setpgid(0, 0);
		int o = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open(fmt("%s.err", out), O_WRONLY | O_CREAT | O_TRUNC, 0644), n = open("/dev/null", O_RDONLY);
		dup2(n, 0); dup2(o, 1); dup2(e, 2);
		for (int i = 3; i < 256; i++) close(i);
		for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
		alarm(secs); execvp(argv[0], argv); _exit(127);
	}
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	return st;
}
static char *slurp(const char *p, size_t *n) { int fd = open(p, O_RDONLY); struct stat st; if (fd < 0) { *n = 0; return ""; } fstat(fd, &st); char *b = calloc(1, st.st_size + 1); ssize_t k = read(fd, b, st.st_size); close(fd); *n = k < 0 ? 0 : k; return b; }
static void spit(const char *p, const char *b, size_t n) { int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || write(fd, b, n) != (ssize_t) n) sim_harness_error("cannot write %s", p); close(fd); }
static char *dir(const char *n) { return fmt("%s/%s", droot, n); }
void scen_setup(void) {
	lay_sources();
	d_mkdirs("/S/work/t/sub"); d_mkdirs("/S/home/lib/gen");
	int has2 = sim_choose(3) > 0, has3 = sim_choose(2);
	imports[0][1] = 1; imports[0][2] = has2; imports[0][3] = has3; imports[2][1] = sim_choose(2); imports[2][3] = has3 && sim_choose(2);
	if (BAD_RUN) {
		bad = sim_choose(NBAD + NBADU + NBADM); bad_wait = sim_choose(20);
		if (getenv("DTRANS_MISTAKE")) bad = atoi(getenv("DTRANS_MISTAKE"));
		do bad_module = sim_choose(4); while ((bad_module == 2 && !has2) || (bad_module == 3 && !has3) || (bad >= NBAD && bad < NBAD + NBADU && !imports[bad_module][1]));
	}
	if (has3) { sim_probe(12); module(3); }
	module(1); if (has2) module(2); module(0);
	for (int m = 0; m < 4; m++) if (che[m].p) d_put(m == 0 ? "/S/work/t/main.c" : m == 1 ? "/S/work/t/u1.c" : m == 2 ? "/S/work/t/sub/u2.c" : "/S/home/lib/gen/u3.c", che[m].p, che[m].n);
	if (has3) { d_mkdirs("/S/home/lib/alt"); const char *h = "uint32_t count = 5;\npub enum { P1 = 77 }\npub uint32_t half(uint32_t x) {\n\treturn x / 2 + count;\n}\n"; d_put("/S/home/lib/alt/u1.c", h, strlen(h)); }
	if (bad >= 0 && !bad_done) sim_harness_error("the mistake %d was not put in", bad);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 50);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 50);
	sim_enable_some(F_EINTR, 3 + sim_choose(10), 20);
	const char *what = bad < 0 ? "none" : bad < NBAD ? BAD[bad] : bad < NBAD + NBADU ? BADU[bad - NBAD] : BADM[bad - NBAD - NBADU];
	sim_detail("modules main u1%s%s; mistake: %s%s%s; ", has2 ? " u2" : "", has3 ? " u3" : "", what, bad >= 0 ? " in " : "", bad >= 0 ? MN[bad_module] : "");
	if (getenv("DTRANS_DUMP")) { for (int m = 0; m < 4; m++) if (che[m].p) { spit(fmt("%s/%s.c", getenv("DTRANS_DUMP"), MN[m]), che[m].p, che[m].n); } }
	int p = d_start("che", "/S/work/t", (char *[]) {"che", "build", "main.c", "result", NULL}, 0);
	d_run();
	int st = dprocs[p].status; size_t en, n; char *err = d_stderr(p, &en);
	if (st & 127) sim_violation("crash", "che died of signal %d", st & 127);
	if (bad >= 0) {
		sim_probe(2);
		if (asked) sim_violation("accepted", "a program with this mistake in %s was handed to the compiler: %s", MN[bad_module], what);
		if (st == 0) sim_violation("accepted", "success was reported for a program with this mistake in %s: %s", MN[bad_module], what);
		if (!en) sim_violation("silent", "a program with a mistake was refused without a message: %s", what);
		return;
	}
	if (st) sim_violation("refused", "a right program was refused: %s", esc(err, en > 600 ? 600 : en));
	char *art = d_file("/S/work/t/result", &n);
	if (!art || asked != 1) sim_violation("refused", "success was reported, but the compiler was called %d times", asked);
	sim_probe(0);
	// the C files as the compiler saw them
	char *argv[60] = {"gcc", "-std=c99", "-pedantic-errors", "-Wno-overflow", "-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types", "-Werror=discarded-qualifiers", "-Werror=unused-function", "-Werror=unused-variable", "-Werror=unused-parameter", "-Werror=return-type", "-Werror=format", "-O0", "-fwrapv", "-o", dir("got")}; int na = 17, nm = 0;
	char *q = art + 7;
	for (char *e; (e = strstr(q, "\n@@end\n")); q = e + 7) { char *f = dir(fmt("m%d.c", nm++)); spit(f, q, e - q + 1); argv[na++] = f; if (nm > 8) break; }
	argv[na++] = "-lm"; argv[na] = NULL;
	int wantm = 2 + has2 + has3 * 2;
	if (nm != wantm) sim_violation("modules", "%d modules were handed to the compiler, the program has %d", nm, wantm);
	tx ref = {0};
	put(&ref, "#include <stdbool.h>\n#include <stdint.h>\n#include <stddef.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <limits.h>\n#define NELEM(x) (sizeof(x) / sizeof((x)[0]))\n%s%s%s%s", rtypes.p, rvars.p, rprotos.p, rbodies.p);
	spit(dir("ref.c"), ref.p, ref.n);
	if (getenv("DTRANS_DUMP")) spit(fmt("%s/ref_.c", getenv("DTRANS_DUMP")), ref.p, ref.n);
	size_t k;
	if (sh(dir("o1"), (char *[]) {"gcc", "-std=c99", "-w", "-O0", "-fwrapv", "-o", dir("want"), dir("ref.c"), "-lm", NULL}, 25)) { char *m = slurp(dir("o1.err"), &k); sim_harness_error("the reference does not compile: %.1500s", m); }
	if (sh(dir("o2"), argv, 25)) { char *m = slurp(dir("o2.err"), &k); for (char *x = m; (x = strstr(x, "/tmp/cc")) && strlen(x) > 13; x += 13) memcpy(x + 7, "000000", 6);
		for (char *x; (x = strstr(m, droot)); k = strlen(m)) memmove(x, x + strlen(droot), strlen(x + strlen(droot)) + 1); sim_violation("c-error", "the C made of a right program does not compile: %s", esc(m, k > 600 ? 600 : k)); }
	int s1 = sh(dir("o3"), (char *[]) {dir("want"), NULL}, 10), s2 = sh(dir("o4"), (char *[]) {dir("got"), NULL}, 10);
	if (s1 & 127) sim_harness_error("the reference program died of signal %d", s1 & 127);
	size_t n1, n2, e1, e2; char *w = slurp(dir("o3"), &n1), *g = slurp(dir("o4"), &n2), *we = slurp(dir("o3.err"), &e1), *ge = slurp(dir("o4.err"), &e2);
	sim_probe(1); sim_hash(d_hash(w, n1));
	if (n1 != n2 || memcmp(w, g, n1)) { size_t i = 0; while (i < n1 && i < n2 && w[i] == g[i]) i++; size_t b = i; while (b > 0 && w[b - 1] != '\n') b--; sim_violation("output", "the program printed '%s', its source means '%s'", esc(g + b, n2 - b > 80 ? 80 : n2 - b), esc(w + b, n1 - b > 80 ? 80 : n1 - b)); }
	if (s1 != s2) sim_violation("output", "the program ended with %x, its source means %x", s2, s1);
	char *pp = strstr(che[0].p, "panic(\"stop");
	if (pp && e1) { int line = 1; for (char *x = che[0].p; x < pp; x++) line += *x == '\n'; if (!memmem(ge, e2, fmt("main.c:%d:", line), strlen(fmt("main.c:%d:", line)))) sim_violation("output", "a panic at line %d of main.c was reported as '%s'", line, esc(ge, e2)); }
	if (e1 && (e2 < e1 || memcmp(ge + e2 - e1, we, e1))) sim_violation("output", "the program failed with '%s' instead of '%s'", esc(ge, e2), esc(we, e1));
}
void scen_end(void) {}
