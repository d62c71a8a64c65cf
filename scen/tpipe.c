#include "../sim/sim.h"
// Thread pipes: every item written is read exactly once, in order, readers
// end only after the close, nobody is left waiting.
const char *scen_name = "tpipe";
const char *scen_probes[] = {"pipe_full", "reader_blocked_at_close", "reader_eof_after_drain", "multi_writer", "multi_reader", "null_read", "quota_readers", NULL};
const char *scen_rule = "a run = 1-4 writer and 1-4 reader threads over 1-3 pipes under one seeded schedule; non-trivial: at least one preemption or spurious wake-up fired; distinct by the hash of the sequence of scheduled threads";
enum { WBEGIN = 1, WEND, READ, EOFN, DONE, RBEGIN, CLOSE, NULLREAD, JOIN, CLOSED };
#define MAXV 1200
static int W, Rd, P, items[8], closer, nullr;
typedef struct { long v; int pipe; u64 wb, we, r; int reads; int reader; } item_t;
static item_t it[MAXV]; static int nit;
static u64 ev; static int done;
static int closing[8], eofs, joins;
static int waiting[16]; // reader in pread
static int nulls[8], reads_of[8];
static u64 rbegin[16];
static long args[40];
static int freeit, quotas;
static proc_t *app;
static item_t *find(long v) { for (int i = 0; i < nit; i++) if (it[i].v == v) return &it[i]; return NULL; }
long scen_arg(int i) { return args[i]; }
void scen_note(int what, long a, long b) {
	ev++;
	item_t *x;
	switch (what) {
	case WBEGIN:
		if (nit >= MAXV) sim_harness_error("too many items");
		it[nit++] = (item_t) {.v = a, .pipe = (int) b, .wb = ev};
		break;
	case WEND: x = find(a); x->we = ev; break;
	case RBEGIN: waiting[a] = 1; rbegin[a] = ev; break;
	case READ: {
		x = find(a);
		if (!x) sim_violation("invented", "a reader got %ld, which nobody wrote", a);
		if (x->reads) sim_violation("duplicate", "item %ld was read twice", a);
		int pipe = b >= 1000 ? (int) b - 1000 : (int) b % 16;
		if (x->pipe != pipe) sim_violation("misrouted", "item %ld written to pipe %d came out of pipe %d", a, x->pipe, pipe);
		x->reads = 1; x->r = ev; x->reader = b >= 1000 ? 99 : (int) b / 16;
		reads_of[pipe]++;
		if (b >= 1000) sim_violation("early-eof", "readers saw the end of pipe %d while item %ld was still in it", pipe, a);
		waiting[b / 16] = 0;
		break;
	}
	case NULLREAD: nulls[b]++; waiting[a] = 0; sim_probe(5); break;
	case CLOSE:
		closing[a] = 1;
		for (int i = 0; i < Rd; i++) if (waiting[i]) sim_probe(1);
		break;
	case EOFN:
		if (!closing[b]) sim_violation("early-eof", "reader %ld saw the end of pipe %ld before it was closed", a, b);
		if (a < 1000) { waiting[a] = 0; eofs++; }
		if (reads_of[b]) sim_probe(2);
		break;
	case JOIN:
		if (a != 0) sim_violation("join", "waiting for a thread gave error %ld", a);
		if (b != 7000 && b != 8000) sim_violation("join", "a thread's result is %ld instead of its return value", b);
		joins++;
		break;
	case DONE: done = 1; break;
	}
	sim_hash(what * 131 + a * 7 + b);
	// fullness probe
	if (what == WEND) { int in = 0; for (int i = 0; i < nit; i++) if (it[i].we && !it[i].reads) in++; if (in >= 30) sim_probe(0); }
}
void scen_setup(void) {
	W = 1 + sim_choose(4); Rd = 1 + sim_choose(4); P = 1;
	if (sim_flip(1, 4)) P = 1 + sim_choose(Rd > 3 ? 3 : Rd);
	if (P > Rd) P = Rd; // every pipe has a reader
	closer = sim_choose(2);
	nullr = sim_flip(1, 5);
	args[0] = W; args[1] = Rd; args[3] = closer; args[4] = nullr; args[5] = P; args[6] = sim_choose(2);
	freeit = args[7] = sim_flip(3, 4);
	int big = sim_choose(3);
	for (int i = 0; i < W; i++) items[i] = args[16 + i] = big == 0 ? sim_choose(5) : big == 1 ? sim_choose(45) : sim_choose(120);
	// Quota mode: each reader takes a fixed number of items and leaves; the pipe stays open meanwhile.
	quotas = sim_flip(1, 3);
	if (quotas) {
		P = args[5] = 1; closer = args[3] = 0; args[8] = 1;
		int total = 0; for (int i = 0; i < W; i++) total += items[i];
		if (total < Rd) { items[0] += Rd - total; args[16] = items[0]; total = Rd; }
		int left = total - Rd;
		for (int i = 0; i < Rd; i++) { int q = i == Rd - 1 ? left : sim_choose(left + 1); left -= q; args[24 + i] = 1 + q; }
		sim_probe(6);
	}
	if (W > 1) sim_probe(3);
	if (Rd > 1) sim_probe(4);
	sim_enable_some(F_SPURIOUS, 1 + 2 * sim_choose(5), 40);
	static u32 mm[] = {0, 7, 30, 150, 800};
	sim_set_mem_preempt(mm[sim_choose(5)]);
	sim_detail("writers=%d readers=%d pipes=%d items=%ld,%ld,%ld,%ld closer=%s", W, Rd, P, args[16], args[17], args[18], args[19], closer ? "last writer" : "main");
	app = sim_app("app", 1, (char *[]) {"app", NULL}, NULL);
}
void scen_end(void) {
	int st;
	if (!sim_proc_exited(app, &st)) sim_violation("deadlock", "threads wait forever: %s", sim_blocked_report());
	if (st != 0 || !done) sim_violation("abnormal-exit", "the program ended with status %x: %s", st, esc(sim_stderr_of(app, NULL), strlen(sim_stderr_of(app, NULL))));
	int total[8] = {0}, read[8] = {0};
	for (int i = 0; i < nit; i++) { total[it[i].pipe]++; read[it[i].pipe] += it[i].reads; }
	for (int p = 0; p < P; p++)
		if (read[p] + nulls[p] != total[p]) sim_violation("lost", "pipe %d: %d written, %d read", p, total[p], read[p] + nulls[p]);
	if (!quotas && eofs != Rd) sim_violation("lost", "%d of %d readers saw the end", eofs, Rd);
	if (joins != W + Rd) sim_violation("join", "%d joins", joins);
	if (freeit && sim_proc_live_blocks(app) != 0) sim_violation("leak", "%d blocks are still allocated after the pipes were freed", sim_proc_live_blocks(app));
	// FIFO: a write finished before another began comes out no later, as far as
	// the same reader or non-overlapping reads can tell.
	for (int i = 0; i < nit; i++) for (int j = 0; j < nit; j++) {
		item_t *a = &it[i], *b = &it[j];
		if (a->pipe != b->pipe || !a->reads || !b->reads) continue;
		if (a->we && a->we < b->wb && a->reader == b->reader && a->r > b->r)
			sim_violation("reordered", "items %ld and %ld were written in this order and read by one reader in the other", a->v, b->v);
	}
}
