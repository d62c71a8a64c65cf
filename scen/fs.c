#include "nat.h"
// os/fs against a model of the file system: whole contents or failure, every directory entry once.
const char *scen_name = "fs";
const char *scen_probes[] = {"read_failed", "write_failed", "dir_listed", "dots_in_odd_order", "disk_full", "close_error", "write_replaced", "realpath_too_long", NULL};
const char *scen_rule = "a run = 1-16 file operations over 8 paths with seeded disk faults and directory orders; non-trivial: a fault fired; distinct by the hash of the schedule and history";
enum { BEGIN = 1, OK, FAIL, DONE, ENDDIR = 6 };
static const char *PATHS[] = {"/data/a", "/data/b.txt", "/data/sub/c", "/data/empty", "/data/none", "/data/sub", "/nodir/x", "/data/link"};
static int nops; static long args[256];
// model: contents per path; NULL = absent; known=0 after a failed write
static struct { int exists, isdir, known; u8 *p; size_t n; } M[8];
static u64 before; static int done; static bytes_t got[64]; static char names[64][16][32]; static int nnames[64];
static proc_t *app;
long scen_arg(int i) { return args[i]; }
static u64 fired(void) { static int ks[] = {F_READ_EIO, F_WRITE_EIO, F_ENOSPC, F_OPEN_FAIL, F_CLOSE_FAIL, F_SEEK_FAIL, F_STAT_FAIL}; u64 s = 0; for (int i = 0; i < 7; i++) s += sim_fired(ks[i]); return s; }
void scen_bytes(int what, const void *p, size_t n) {
	int k = what % 100;
	if (what >= 200) {
		if (nnames[k] >= 16) sim_violation("directory", "the directory iterator does not end");
		snprintf(names[k][nnames[k]++], 32, "%.*s", (int) n, (const char *) p);
		return;
	}
	got[k].n = 0; bytes_add(&got[k], p, n);
}
static int target(int f) { return f == 7 ? 0 : f; } // the link points to /data/a
static void check(int k, int ok, long b) {
	int f = target((int) args[64 + k]); u64 hit = fired() - before;
	int real = M[f].exists && !M[f].isdir, failable = hit > 0;
	const char *path = PATHS[args[64 + k]];
	switch (args[16 + k]) {
	case 0: case 1:
		if (!ok) { if (failable) sim_probe(0); if (real && !failable) sim_violation("read", "reading %s failed although nothing went wrong", path); if (real == 0 && M[f].isdir) return; return; }
		if (M[f].isdir) sim_violation("read", "reading directory %s succeeded", path);
		if (!real) sim_violation("read", "reading %s succeeded although there is no such file", path);
		if (b != (long) got[k].n) sim_violation("read", "size %ld reported for %zu bytes", b, got[k].n);
		size_t mn = args[16 + k] == 1 ? strnlen((char *) M[f].p, M[f].n) : M[f].n;
		if (M[f].known && (got[k].n != mn || memcmp(got[k].p ? got[k].p : (u8 *) "", M[f].p ? M[f].p : (u8 *) "", mn))) sim_violation("read", "%s has %zu bytes, reading it gave %zu bytes or different ones", path, mn, got[k].n);
		return;
	case 2: {
		size_t n = args[112 + k]; size_t fn; const u8 *fp = fs_get(PATHS[args[64 + k]] , &fn);
		if (args[64 + k] == 7) fp = fs_get(PATHS[0], &fn);
		if (f == 6 || f == 5) { if (ok) sim_violation("write", "writing to %s succeeded", path); return; }
		if (!ok) { if (!failable) sim_violation("write", "writing %s failed although nothing went wrong", path); sim_probe(1); M[f].exists = fp != NULL; M[f].known = 1; free(M[f].p); M[f].p = malloc(fn + 1); M[f].n = fp ? fn : 0; if (fp) memcpy(M[f].p, fp, fn); return; }
		if (!fp || fn != n) sim_violation("write", "writing %zu bytes to %s was reported as done, the file has %zu", n, path, fp ? fn : 0);
		for (size_t i = 0; i < n; i++) if (fp[i] != 1 + (i * 7 + k * 31 + i / 251 * 13) % 255) sim_violation("write", "byte %zu of %s is wrong after a write reported as done", i, path);
		if (M[f].exists && M[f].n) sim_probe(6);
		free(M[f].p); M[f].p = malloc(n + 1); memcpy(M[f].p, fp, n); M[f].n = n; M[f].exists = M[f].known = 1;
		return; }
	case 3: {
		if (!ok) { if (M[f].isdir && !failable) sim_violation("directory", "opening directory %s failed although nothing went wrong", path); return; }
		if (!M[f].isdir) sim_violation("directory", "%s was listed as a directory", path);
		sim_probe(2);
		// /data/sub holds c (if it exists), d, e and ..x
		int want = 3 + M[2].exists;
		for (int i = 0; i < nnames[k]; i++) {
			if (!strcmp(names[k][i], ".") || !strcmp(names[k][i], "..")) sim_violation("directory", "the listing contains '%s'", names[k][i]);
			for (int j = 0; j < i; j++) if (!strcmp(names[k][i], names[k][j])) sim_violation("directory", "'%s' was listed twice", names[k][i]);
			if (strcmp(names[k][i], "d") && strcmp(names[k][i], "e") && strcmp(names[k][i], "..x") && !(M[2].exists && !strcmp(names[k][i], "c"))) sim_violation("directory", "'%s' is not in the directory", names[k][i]);
		}
		if (nnames[k] != want && !failable) sim_violation("directory", "%d of %d entries were listed", nnames[k], want);
		return; }
	case 4:
		if (M[f].isdir) return;
		if (ok && !real) sim_violation("stat", "size of the missing file %s reported", path);
		if (ok && M[f].known && b != (long) M[f].n) sim_violation("stat", "size of %s is %zu, reported %ld", path, M[f].n, b);
		if (!ok && real && !failable) sim_violation("stat", "no size of %s", path);
		return;
	case 5: if (ok && !M[f].isdir) sim_violation("stat", "%s was taken for a directory", path); if (!ok && M[f].isdir && !failable) sim_violation("stat", "directory %s was not recognised", path); return;
	case 6: if (M[f].isdir) return; if (ok && !real) sim_violation("stat", "%s does not exist", path); if (!ok && real && !failable) sim_violation("stat", "%s exists", path); return;
	case 7: {
		int f2 = (int) args[64 + k];
		if (f2 == 7) return; // not generated
		int now = fs_exists(PATHS[f2]);
		if (ok && (now || !real)) sim_violation("unlink", "%s was reported as deleted", path);
		if (!ok && real && now && !failable) sim_violation("unlink", "%s was not deleted", path);
		if (ok) { M[f2].exists = 0; M[f2].n = 0; }
		return; }
	case 8: {
		const char *want = PATHS[f];
		if (ok && strcmp(want, (bytes_add(&got[k], "", 1), (char *) got[k].p))) sim_violation("realpath", "real path of %s is '%s'", path, got[k].p);
		if (ok && strlen(want) + 1 > (size_t) args[112 + k]) sim_violation("realpath", "a real path longer than the buffer was returned");
		if (!ok && M[f].exists && !failable && strlen(want) + 1 <= (size_t) args[112 + k]) sim_violation("realpath", "no real path of %s", path);
		if (!ok && strlen(want) + 1 > (size_t) args[112 + k]) sim_probe(7);
		return; }
	}
}
void scen_note(int what, long a, long b) {
	sim_hash(what * 131 + a * 7 + b);
	switch (what) {
	case BEGIN: before = fired(); got[a].n = 0; break;
	case OK: check((int) a, 1, b); break;
	case FAIL: check((int) a, 0, b); break;
	case DONE: done = 1; break;
	}
	if ((what == OK || what == FAIL) && sim_proc_openfds(app) != 0) sim_violation("fd-leak", "operation %ld left %d descriptors open", args[16 + a], sim_proc_openfds(app));
}
static void put(int i, size_t n) {
	u8 *p = malloc(n + 1); for (size_t k = 0; k < n; k++) p[k] = patt(i, k);
	fs_put(PATHS[i], p, n); M[i].exists = M[i].known = 1; M[i].p = p; M[i].n = n;
}
void scen_setup(void) {
	fs_mkdir("/data"); fs_mkdir("/data/sub");
	static int sizes[] = {1, 20, 300, 4096, 9000};
	put(0, sim_choose(sizes[sim_choose(5)] + 1)); put(1, sizes[sim_choose(5)]); put(2, sim_choose(50)); put(3, 0);
	fs_put("/data/sub/d", "1", 1); fs_put("/data/sub/e", "", 0); fs_put("/data/sub/..x", "", 0);
	fs_symlink("/data/link", "/data/a");
	M[5].exists = M[5].isdir = 1;
	nops = 1 + sim_choose(16); args[0] = nops;
	for (int i = 0; i < nops; i++) {
		args[16 + i] = sim_choose(9); args[64 + i] = sim_choose(8);
		if (args[16 + i] == 3 && sim_flip(2, 3)) args[64 + i] = 5;
		if (args[16 + i] == 7 && (args[64 + i] == 7 || args[64 + i] == 0 || args[64 + i] == 5)) args[64 + i] = 1;
		args[112 + i] = args[16 + i] == 8 ? 1 + sim_choose(20) : sim_choose(sizes[sim_choose(5)]);
	}
	static u32 bufs[] = {4096, 1, 16, 512};
	sim_set_iobuf(bufs[sim_choose(4)]);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 100);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 100);
	sim_enable_some(F_READDIR_ORDER, 1, 100);
	int f = sim_choose(12);
	int ks[] = {F_READ_EIO, F_WRITE_EIO, F_ENOSPC, F_OPEN_FAIL, F_CLOSE_FAIL, F_SEEK_FAIL, F_STAT_FAIL};
	if (f < 7) sim_enable(ks[f], 1 + sim_choose(20), 3);
	if (f == 7) for (int i = 0; i < 7; i++) sim_enable_some(ks[i], 3 + sim_choose(20), 3);
	sim_detail("operations=%d fault=%d", nops, f);
	app = sim_app("app", 1, (char *[]) {"app", NULL}, NULL);
}
void scen_end(void) {
	int st;
	if (sim_fired(F_READDIR_ORDER)) sim_probe(3);
	if (sim_fired(F_ENOSPC)) sim_probe(4);
	if (sim_fired(F_CLOSE_FAIL)) sim_probe(5);
	if (!sim_proc_exited(app, &st)) sim_violation("deadlock", "the program waits forever: %s", sim_blocked_report());
	if (st != 0 || !done) sim_violation("abnormal-exit", "the program ended with status %x: %s", st, esc(sim_stderr_of(app, NULL), strlen(sim_stderr_of(app, NULL))));
	if (sim_proc_live_blocks(app) != 0) sim_violation("leak", "%d blocks are still allocated", sim_proc_live_blocks(app));
}
