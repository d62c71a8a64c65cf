#include "nat.h"
#include "sha1.h"
// prog/torrent create and info: a torrent file says exactly what the shared file is; damaged ones are refused.
const char *scen_name = "mktorrent";
const char *scen_probes[] = {"created", "info", "several_pieces", "exact_pieces", "empty_file", "bad_sector", "output_failed", "large_torrent", "multi_file", "truncated", "damaged", "no_such_file", "long_name", "after_2038", NULL};
const char *scen_rule = "a run = one torrent file created on a faulty disk, or one read, whole or damaged; non-trivial: a fault fired or the file is damaged; distinct by the hash of input, schedule and output";
static proc_t *app; static int mode, missing, badread, damage, toolong; static bytes_t data, tor; static long long wall, total; static char path[700], name[400], *argvv[6]; static char ih[41]; static bytes_t lines; static long np;
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
long scen_arg(int i) { (void) i; return 0; }
// bencode reading for the check
static const u8 *bp, *bend;
#define BAD(...) sim_violation("format", __VA_ARGS__)
static long long bnum(int endc) { int neg = 0; long long v = 0; if (bp < bend && *bp == '-') { neg = 1; bp++; } const u8 *s = bp; while (bp < bend && *bp >= '0' && *bp <= '9') v = v * 10 + *bp++ - '0'; if (s == bp || bp >= bend || *bp != endc) BAD("no number at byte %zu of the torrent file", (size_t) (bp - tor.p)); bp++; return neg ? -v : v; }
static bytes_t bstr(void) { long long n = bnum(':'); if (n < 0 || n > bend - bp) BAD("a string of %lld bytes in %zu left", n, (size_t) (bend - bp)); bytes_t r = {(u8 *) bp, (size_t) n, 0}; bp += n; return r; }
static int is(bytes_t b, const char *s) { return b.n == strlen(s) && !memcmp(b.p, s, b.n); }
static void eat(int c) { if (bp >= bend || *bp != c) BAD("'%c' expected at byte %zu of the torrent file, which has %zu", c, (size_t) (bp - tor.p), tor.n); bp++; }
static void check_created(void) {
	size_t n; const u8 *f = fs_get("/w/out.torrent", &n); if (!f) sim_violation("lost", "there is no torrent file");
	tor.n = 0; bytes_add(&tor, f, n); bp = tor.p; bend = bp + n;
	int seen = 0; bytes_t last = {0};
	eat('d');
	while (bp < bend && *bp != 'e') {
		bytes_t k = bstr(); if (last.p) { size_t m = last.n < k.n ? last.n : k.n; int c = memcmp(last.p, k.p, m); if (c > 0 || (c == 0 && last.n >= k.n)) BAD("the keys are not in order"); } last = k;
		if (is(k, "info")) {
			eat('d'); long long len = -1, pl = -1; bytes_t nm = {0}, pc = {0}; int got = 0; bytes_t l2 = {0};
			while (bp < bend && *bp != 'e') {
				bytes_t q = bstr(); if (l2.p && (l2.n < q.n ? memcmp(l2.p, q.p, l2.n) > 0 : memcmp(l2.p, q.p, q.n) >= 0)) BAD("the keys of info are not in order"); l2 = q;
				if (is(q, "length")) { eat('i'); len = bnum('e'); got |= 1; } else if (is(q, "piece length")) { eat('i'); pl = bnum('e'); got |= 2; } else if (is(q, "name")) { nm = bstr(); got |= 4; } else if (is(q, "pieces")) { pc = bstr(); got |= 8; } else BAD("unknown key in info: %s", esc(q.p, q.n));
			}
			eat('e'); if (got != 15) BAD("info is incomplete");
			if (len != (long long) data.n) BAD("length is %lld, the file has %zu bytes", len, data.n);
			if (!is(nm, name)) BAD("name is '%s', not '%s'", esc(nm.p, nm.n), name);
			if (pl <= 0) BAD("piece length is %lld", pl);
			size_t cnt = (data.n + (size_t) pl - 1) / (size_t) pl; if (pc.n != cnt * 20) BAD("%zu bytes of hashes for %zu pieces", pc.n, cnt);
			for (size_t i = 0; i < cnt; i++) { u8 h[20]; size_t o = i * (size_t) pl, m = data.n - o; if (m > (size_t) pl) m = (size_t) pl; sha1_of(data.p + o, m, h); if (memcmp(h, pc.p + i * 20, 20)) BAD("the hash of piece %zu of %zu is wrong", i, cnt); }
			if (cnt > 1) sim_probe(2);
			seen |= 1;
		} else if (is(k, "creation date")) { eat('i'); long long d = bnum('e'); if (d < wall || d > wall + 3600) BAD("creation date is %lld, it is %lld", d, wall); seen |= 2; } else bstr();
	}
	eat('e'); if (seen != 3) BAD("the torrent file is incomplete"); if (bp != bend) BAD("%zu bytes follow the end", (size_t) (bend - bp));
}
static void s(const char *x) { bytes_fmt(&tor, "%zu:", strlen(x)); bytes_str(&tor, x); }
static void make(void) { // a torrent file of another program
	static long long sizes[] = {1, 1000, 262144, 262145, 5000000, 2147483647, 2147483648ll, 4294967296ll, 6114656256ll, 1099511627776ll, 33333333333333ll};
	bytes_str(&tor, "d"); s("announce"); s("https://tracker.example/announce");
	if (sim_flip(1, 3)) { s("announce-list"); bytes_str(&tor, "ll1:aei-5ed1:k1:vee"); }
	if (sim_flip(1, 2)) { s("comment"); s("some comment"); }
	s("creation date"); long long when = sim_flip(1, 3) ? 4102444800ll + sim_choose(100000) : 1714046391; if (when > 2147483647ll) sim_probe(13); bytes_fmt(&tor, "i%llde", when);
	s("info"); size_t at = tor.n; bytes_str(&tor, "d");
	int multi = sim_flip(1, 2), n = multi ? 1 + (int) sim_choose(sim_flip(1, 8) ? 130 : 12) : 1; snprintf(name, sizeof name, "some name %u", sim_choose(1000));
	if (sim_flip(1, 6)) { size_t to = 199, have = strlen(name); memset(name + have, 'n', to - have); name[to] = 0; sim_probe(12); }
	if (multi) {
		sim_probe(8); s("files"); bytes_str(&tor, "l");
		for (int i = 0; i < n; i++) {
			long long l = n > 20 ? 1 + (long long) sim_choose(100000) : sizes[sim_choose(11)]; char p[400] = ""; int parts = 1 + (int) sim_choose(3);
			bytes_fmt(&tor, "d6:lengthi%llde4:pathl", l); for (int k = 0; k < parts; k++) { char c[210]; snprintf(c, sizeof c, "p%d_%d", i, k); if (k == parts - 1 && sim_flip(1, 20)) { size_t h = strlen(c), want = 199 - strlen(p) - (k ? 1 : 0); memset(c + h, 'p', want - h); c[want] = 0; } s(c); if (k) strcat(p, "/"); strcat(p, c); } bytes_str(&tor, "ee");
			bytes_fmt(&lines, "%d: %10lld .. %-10lld %s/%s\n", i, total, total + l, name, p); total += l;
		}
		bytes_str(&tor, "e");
	} else { total = sizes[sim_choose(11)]; s("length"); bytes_fmt(&tor, "i%llde", total); bytes_fmt(&lines, "0: %10d .. %-10lld %s\n", 0, total, name); }
	if (total > 2147483647ll) sim_probe(7);
	s("name"); s(name);
	long long pl = 262144; while (total / pl > 40) pl *= 2; np = (long) ((total + pl - 1) / pl);
	s("piece length"); bytes_fmt(&tor, "i%llde", pl); s("pieces"); bytes_fmt(&tor, "%ld:", np * 20); for (long i = 0; i < np * 20; i++) { u8 b = patt(5, i); bytes_add(&tor, &b, 1); }
	if (sim_flip(1, 4)) { s("private"); bytes_str(&tor, "i1e"); }
	bytes_str(&tor, "e"); u8 h[20]; sha1_of(tor.p + at, tor.n - at, h); for (int i = 0; i < 20; i++) sprintf(ih + 2 * i, "%02x", h[i]);
	bytes_str(&tor, "e");
	if (sim_flip(1, 2)) { damage = 1 + (int) sim_choose(2); sim_probe(8 + damage); }
	if (damage == 1) tor.n = sim_choose((u32) tor.n);
	if (damage == 2) { int k = 1 + (int) sim_choose(5); while (k--) { u32 i = sim_choose((u32) tor.n); static const char *r = "0123456789:eidl-\xff\0"; tor.p[i] = sim_flip(1, 2) ? (u8) r[sim_choose(18)] : (u8) sim_choose(256); } }
}
void scen_setup(void) {
	mode = sim_flip(1, 2); sim_probe(mode);
	fs_mkdir("/w");
	wall = sim_flip(1, 4) ? 2147483648ll + sim_choose(1000000000) : 1700000000 + (long long) sim_choose(100000000); sim_set_wall(wall);
	static u32 bufs[] = {4096, 4096, 65536, 1000};
	sim_set_iobuf(bufs[sim_choose(4)]); sim_set_preempt(0); sim_set_step_limit(8000000);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 1000); sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 1000);
	int f = sim_choose(8);
	argvv[0] = "torrent";
	if (!mode) {
		static u32 sz[] = {0, 1, 5000, 262143, 262144, 262145, 524288, 524289, 800000}; u32 n = sim_flip(2, 3) ? sim_choose(3000) : sz[sim_choose(9)];
		if (!n) sim_probe(4);
		if (n && n % 262144 == 0) sim_probe(3);
		if (wall > 2147483647ll) sim_probe(13);
		u32 mul = 1 + 2 * sim_choose(100); data.p = malloc(n + 1); data.n = n; for (u32 i = 0; i < n; i++) data.p[i] = (u8) (i * mul + (i >> 9));
		snprintf(name, sizeof name, "file-%u.bin", sim_choose(100)); if (sim_flip(1, 6)) { size_t to = 150 + sim_choose(100), have = strlen(name); memset(name + have, 'n', to - have); name[to] = 0; sim_probe(12); toolong = to > 199; }
		snprintf(path, sizeof path, "%s%s", sim_flip(1, 2) ? "" : sim_flip(1, 2) ? "/w/" : "./", name);
		char full[800]; snprintf(full, sizeof full, "/w/%s", name);
		if (f == 7) { missing = 1; sim_probe(11); } else fs_put(full, data.p, n);
		if (f == 0 && n) { badread = 1; sim_probe(5); fs_bad_from(full, sim_choose(n)); }
		if (f == 1) sim_enable_once(F_WRITE_EIO, 1 + sim_choose(4));
		if (f == 2) { fs_set_capacity(n + sim_choose(400)); }
		if (f == 3) sim_enable_once(F_CLOSE_FAIL, 2);
		if (f == 4) sim_enable_once(F_OPEN_FAIL, 2);
		if (sim_flip(1, 3)) { bytes_t old = {0}; for (int i = 0; i < 400; i++) bytes_str(&old, "o"); fs_put("/w/out.torrent", old.p, old.n); free(old.p); }
		argvv[1] = "create"; argvv[2] = path; argvv[3] = "out.torrent";
		sim_hash(hash_bytes(n, data.p, n));
	} else {
		make(); fs_put("/w/t.torrent", tor.p, tor.n);
		if (f == 0 && tor.n) { badread = 1; sim_probe(5); fs_bad_from("/w/t.torrent", sim_choose((u32) tor.n)); }
		argvv[1] = "info"; argvv[2] = "t.torrent";
		sim_hash(hash_bytes(tor.n, tor.p, tor.n));
	}
	sim_detail("mode=%d size=%zu fault=%d damage=%d name=%zu", mode, mode ? tor.n : data.n, f, damage, strlen(name));
	app = sim_app("torrent", mode ? 3 : 4, argvv, NULL);
	sim_proc_cwd(app, "/w");
}
static int has_line(const char *o, size_t n, const char *l) { size_t k = strlen(l); for (size_t i = 0; i + k <= n; i++) if ((i == 0 || o[i - 1] == '\n') && !memcmp(o + i, l, k)) return 1; return 0; }
void scen_end(void) {
	int st; size_t on, en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "torrent does not end: %s", sim_blocked_report());
	const char *o = sim_stdout_of(app, &on), *e = sim_stderr_of(app, &en);
	if ((st & 0x7f) && (st & 0x7f) != SIGABRT) sim_violation("crash", "torrent died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	int io = sim_fired(F_READ_EIO) || sim_fired(F_WRITE_EIO) || sim_fired(F_CLOSE_FAIL) || sim_fired(F_OPEN_FAIL) || sim_fired(F_ENOSPC);
	if (sim_fired(F_WRITE_EIO) || sim_fired(F_CLOSE_FAIL) || sim_fired(F_ENOSPC)) sim_probe(6);
	sim_hash(hash_bytes((u64) st, o, on));
	if (st) {
		if (!io && !missing && !damage && !toolong && !badread) sim_violation("refused", "torrent %s failed (%d) although nothing went wrong: %s", argvv[1], st >> 8, esc(e, en > 200 ? 200 : en));
		if (!en) sim_violation("silent", "torrent %s failed without a message", argvv[1]);
		return;
	}
	if (missing) sim_violation("status", "there is no such file; exit status 0");
	if (badread) sim_violation("status", "a part of the file cannot be read; exit status 0");
	if (sim_fired(F_OPEN_FAIL)) sim_violation("status", "a file could not be opened; exit status 0");
	if (!mode) { check_created(); return; }
	if (damage == 1) sim_violation("accepted", "a torrent file without its end was accepted");
	if (damage) return;
	char b[900];
	snprintf(b, sizeof b, "name = %s\n", name); if (!has_line(o, on, b)) sim_violation("info", "not shown: %s", b);
	snprintf(b, sizeof b, "infohash = %s\n", ih); if (!has_line(o, on, b)) sim_violation("info", "not shown: %s", b);
	snprintf(b, sizeof b, "length = %lld (", total); if (!has_line(o, on, b)) sim_violation("info", "not shown: %s", b);
	snprintf(b, sizeof b, " %ld pieces\n", np); if (!memmem(o, on, b, strlen(b))) sim_violation("info", "not shown: %s", b);
	const char *p = (const char *) lines.p, *end = p + lines.n; while (p < end) { const char *nl = memchr(p, '\n', (size_t) (end - p)); size_t k = (size_t) (nl - p) + 1; char *l = strndup(p, k); if (!has_line(o, on, l)) sim_violation("info", "not shown: %s", l); free(l); p = nl + 1; }
}
