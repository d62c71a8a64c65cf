#include "nat.h"
// The XML cursor: it is where the document says, and damaged documents are refused in bounded time.
const char *scen_name = "xml";
const char *scen_probes[] = {"entered_empty", "skipped_tree", "left_early", "deepest", "long_value", "many_attributes", "cut", "damaged", "read_failed", "error_reported", "whole_walk", "too_deep", "absent_attribute", "self_closing_root", "wrong_closing_tag", "similar_attribute", NULL};
const char *scen_rule = "a run = one generated document, possibly cut or damaged, and 1-60 cursor movements; non-trivial: a fault fired; distinct by the hash of the document and the movements";
enum { STATE = 1, ENTERED, ATTR, END, OPEN };
typedef struct el { char name[16]; int mono, na; struct { char n[16]; bytes_t v; } a[66]; struct el *up, *down, *next; } el;
static proc_t *app; static el *root, *cur, *stack[40]; static int sp, nel, finished, ops, errseen, damage, deep, maxdepth; static bytes_t doc, got;
static int pend, misname; static char askname[100]; static el *askat; static int whole, err_at_open, lastop;
static void ws(int must) { u32 n = must ? 1 + sim_choose(3) : sim_flip(1, 3) ? sim_choose(4) : 0; while (n--) bytes_str(&doc, (char *[]) {" ", "\n", "\t", "\r\n"}[sim_choose(4)]); }
static void word(char *b, int max) { int n = 1 + (int) (sim_flip(1, 8) ? sim_choose((u32) max) : sim_choose(5)); if (n > max) n = max; for (int i = 0; i < n; i++) b[i] = (char) ((sim_flip(1, 4) ? 'A' : 'a') + (int) sim_choose(sim_flip(1, 2) ? 3 : 26)); b[n] = 0; }
static el *element(el *up, int depth) {
	el *e = calloc(1, sizeof *e); e->up = up; nel++;
	word(e->name, 15); if (sim_flip(1, 3) && up) strcpy(e->name, up->name);
	bytes_fmt(&doc, "<%s", e->name);
	u32 na = sim_flip(1, 3) ? 0 : sim_choose(4); if (sim_flip(1, 60)) { na = 64; sim_probe(5); }
	for (u32 k = 0; k < na; k++) {
		word(e->a[k].n, 15); if (na == 64 && sim_flip(1, 2)) snprintf(e->a[k].n, 16, "x%c%c", 'a' + (int) k / 26, 'a' + (int) k % 26);
		u32 n = sim_flip(1, 50) ? (sim_probe(4), 4000 + sim_choose(96)) : sim_choose(12);
		for (u32 i = 0; i < n; i++) { static char *cs = "abz019 <>/='&;\t.-_"; u8 c = (u8) cs[sim_choose(18)]; if (sim_flip(1, 12)) c = (u8) (128 + sim_choose(128)); bytes_add(&e->a[k].v, &c, 1); }
		ws(1); bytes_fmt(&doc, "%s=\"", e->a[k].n); bytes_add(&doc, e->a[k].v.p, e->a[k].v.n); bytes_str(&doc, "\"");
	}
	e->na = (int) na; ws(0);
	e->mono = sim_flip(2, 5) && (up || sim_flip(1, 4)); if (depth == 4 && !deep) e->mono = 1; if (!e->mono && depth > maxdepth) maxdepth = depth; if (e->mono) { bytes_str(&doc, "/>"); if (!up) sim_probe(13); return e; }
	bytes_str(&doc, ">"); ws(0);
	u32 n = depth >= (deep ? 9 : 4) ? 0 : nel > 40 ? sim_choose(2) : sim_choose(5); if (!up && !n) n = sim_choose(4);
	el **l = &e->down;
	for (u32 k = 0; k < n; k++) { *l = element(e, depth + 1); l = &(*l)->next; ws(0); }
	char cl[20]; strcpy(cl, e->name);
	if (misname == 1 && (!up || sim_flip(1, 3))) { misname = 2; damage = 4; sim_probe(14); size_t k = strlen(cl); if (k < 15 && sim_flip(1, 2)) strcat(cl, "q"); else if (k > 1 && sim_flip(1, 2)) cl[k - 1] = 0; else cl[sim_choose((u32) k)] ^= 32; }
	bytes_fmt(&doc, "</%s>", cl); ws(0);
	return e;
}
long scen_arg(int i) {
	(void) i; int op = 0;
	if (ops-- <= 0) return 0;
	if (whole && errseen) whole = 2;
	if (whole == 1) { // visits every element, in order
		if (!cur) op = sp ? 3 : 0; else op = cur->mono ? 2 : 1;
		if (!op) sim_probe(10);
		if (op) ops++;
	} else {
		op = 1 + (int) sim_choose(4);
		if (op == 3 && !sp) op = 2;
		if (op == 3 && cur && sim_flip(1, 2)) op = sim_flip(1, 2) ? 1 : 2;
	}
	lastop = op; sim_hash((u64) op);
	if (errseen) return op;
	switch (op) {
	case 1: pend = cur && !cur->mono; if (pend) { if (!cur->down) sim_probe(0); stack[sp++] = cur; cur = cur->down; if (sp == 4) sim_probe(3); } break;
	case 2: if (cur) { if (!cur->mono) sim_probe(1); cur = cur->next; } break;
	case 3: if (cur) sim_probe(2); cur = stack[--sp]->next; break;
	case 4: { askat = cur; if (cur && cur->na && sim_flip(3, 4)) strcpy(askname, cur->a[sim_choose((u32) cur->na)].n); else { word(askname, 15); sim_probe(12); }
		if (cur && cur->na && sim_flip(1, 4)) { sim_probe(15); strcpy(askname, cur->a[sim_choose((u32) cur->na)].n); size_t k = strlen(askname); u32 w = sim_choose(3); if (w == 0) strcat(askname, "a"); else if (w == 1) askname[k - 1] = 0; else askname[k - 1] ^= (char) (1 + sim_choose(3)); } break; }
	}
	return op;
}
size_t scen_str(int id, void *buf, size_t n) { (void) id; size_t k = strlen(askname); if (k > n) k = n; memcpy(buf, askname, k); return k; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; got.n = 0; bytes_add(&got, p, n); }
static int bad(void) { return damage || sim_fired(F_READ_EIO); }
void scen_note(int w, long a, long b) {
	if (w == END) { finished = 1; return; }
	if (w == OPEN) { err_at_open = (int) a; return; }
	if (w == STATE) {
		if (b) { if (!bad()) sim_violation("refused", "a good document of %zu bytes: an error after operation %d", doc.n, lastop); errseen = 1; sim_probe(9); if (a) sim_violation("after-error", "there is a node after an error"); return; }
		if (bad() || errseen) { if (errseen) sim_violation("after-error", "an error is forgotten"); return; }
		if (!a != !cur) sim_violation("cursor", "after operation %d the cursor is %s, should be %s", lastop, a ? esc(got.p, got.n) : "nowhere", cur ? cur->name : "nowhere");
		if (a && (got.n != strlen(cur->name) || memcmp(got.p, cur->name, got.n))) sim_violation("cursor", "after operation %d the cursor is at %s, should be at %s", lastop, esc(got.p, got.n), cur->name);
	}
	if (bad() || errseen) return;
	if (w == ENTERED && !a != !pend) sim_violation("enter", "enter gave %ld, should give %d", a, pend);
	if (w == ATTR) {
		int k = -1; if (askat) for (int i = 0; i < askat->na; i++) if (!strcmp(askat->a[i].n, askname)) { k = i; break; }
		if (!a != (k < 0)) sim_violation("attribute", "the attribute %s %s", askname, a ? "is not there and has a value" : "has no value");
		if (a && (got.n != askat->a[k].v.n || memcmp(got.p, askat->a[k].v.p, got.n))) { // a name given twice has any of its values
			int any = 0; for (int i = 0; i < askat->na; i++) if (!strcmp(askat->a[i].n, askname) && got.n == askat->a[i].v.n && !memcmp(got.p, askat->a[i].v.p, got.n)) any = 1;
			if (!any) sim_violation("attribute", "the attribute %s is '%s'", askname, esc(got.p, got.n > 100 ? 100 : got.n)); }
	}
}
void scen_setup(void) {
	fs_mkdir("/w"); deep = sim_flip(1, 25); whole = sim_flip(1, 3);
	ws(0); bytes_str(&doc, (char *[]) {"<?xml version=\"1.0\" encoding=\"utf-8\"?>", "<?xml version=\"1.0\"?>", "<?xml?>"}[sim_choose(3)]); ws(0);
	int f = (int) sim_choose(7); misname = f == 4;
	root = element(NULL, 0); cur = root; ops = 1 + (int) sim_choose(60);
	size_t end = doc.n; while (end && strchr(" \t\r\n", doc.p[end - 1])) end--;
	if (f == 0) { damage = 1; doc.n = sim_choose((u32) end); sim_probe(6); }
	if (f == 1) { damage = 2; sim_probe(7); u32 k = 1 + sim_choose(3); while (k--) { u32 at = sim_choose((u32) doc.n); u32 w = sim_choose(3); if (w == 0) doc.p[at] = (u8) "<>/=\" a?&"[sim_choose(9)]; else if (w == 1) doc.p[at] = (u8) sim_choose(256); else { memmove(doc.p + at, doc.p + at + 1, doc.n - at - 1); doc.n--; } if (!doc.n) bytes_str(&doc, "x"); } }
	fs_put("/w/doc.xml", doc.p, doc.n);
	if (f == 2) { fs_bad_from("/w/doc.xml", sim_choose((u32) end)); damage = 3; sim_probe(8); }
	if (f == 3) sim_enable(F_OPEN_FAIL, 1, 1);
	if (deep && maxdepth > 3 && !damage) sim_probe(11);
	static u32 bufs[] = {4096, 1, 16, 512}; sim_set_iobuf(bufs[sim_choose(4)]);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 3000);
	sim_set_step_limit(2000000); sim_set_preempt(0);
	sim_hash(hash_bytes(5, doc.p, doc.n));
	sim_detail("doc=%zu elements=%d damage=%d whole=%d", doc.n, nel, damage, whole);
	app = sim_app("xml", 1, (char *[]) {"xml", NULL}, NULL);
}
void scen_end(void) {
	int st; size_t en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "does not end: %s", sim_blocked_report());
	const char *e = sim_stderr_of(app, &en);
	if ((st & 0x7f) && (st & 0x7f) != SIGABRT) sim_violation("crash", "died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	if (st) {
		if (!damage && maxdepth <= 3 && !sim_fired(F_OPEN_FAIL)) sim_violation("died", "a good document of %zu bytes: %s", doc.n, esc(e, en > 200 ? 200 : en));
		if (!en) sim_violation("silent", "failed without a message");
		return;
	}
	if (!finished) sim_violation("died", "ended early");
	if (sim_fired(F_OPEN_FAIL)) sim_violation("success", "read a document that cannot be opened");
	if (whole && (damage == 1 || damage >= 3) && !errseen) sim_violation("accepted", "a document %s was read to its end without an error", damage == 1 ? "without its end" : damage == 4 ? "with a wrong closing tag" : "that cannot be read");
	if (sim_proc_live_blocks(app)) sim_violation("leak", "%d blocks are still allocated", sim_proc_live_blocks(app));
}
