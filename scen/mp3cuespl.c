#include "nat.h"
// prog/mp3cuespl: the tracks together are the recording, cut at the right frames; anything else is reported.
const char *scen_name = "mp3cuespl";
const char *scen_probes[] = {"cue", "txt", "info_frame", "mono_info", "small_info", "leading_junk", "cut_frame", "bad_frame", "bad_list", "no_list", "ends_early", "empty_track", "long_title", "slashes", "many_tracks", "crlf", "half_hour", "output_failed", "bad_sector", "stale_output", NULL};
const char *scen_rule = "a run = one generated recording cut by one generated list on a faulty disk; non-trivial: a fault fired or an input is odd; distinct by the hash of inputs, schedule and output";
static proc_t *app; static bytes_t mp3, list; static int n, txt, info, refuse, either, mono; static size_t off[4000], len[4000]; static int frames; static bytes_t ifr; static size_t xpos; static long long start[120]; static char name[120][600]; static char *argvv[4];
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t k) { (void) w; (void) p; (void) k; }
long scen_arg(int i) { (void) i; return 0; }
static void ch(bytes_t *b, int c) { u8 x = (u8) c; bytes_add(b, &x, 1); }
static const int rates[] = {32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320};
static size_t frame(bytes_t *b, int r, int pad, int md, u32 salt) {
	size_t l = (size_t) (144 * rates[r] * 1000 / 44100 + pad), at = b->n;
	ch(b, 0xff); ch(b, 0xfb); ch(b, (r + 1) << 4 | pad << 1); ch(b, md << 6 | (int) (salt & 0x3f));
	for (size_t i = 4; i < l; i++) ch(b, (int) (i * (salt * 2 + 3) + (i >> 3) * salt + salt));
	(void) at; return l;
}
static void title(bytes_t *t, int i) {
	u32 k = sim_flip(1, 12) ? 60 + sim_choose(39) : sim_choose(30); if (k > 50) sim_probe(12);
	static const char *odd[] = {"/", ":", "../", "'", "  ", "\xc3\xa9", "%s", ".", "\\", "&"};
	bytes_fmt(t, "T%d", i);
	while (t->n < k) { if (sim_flip(1, 8)) { u32 q = sim_choose(10); if (q < 3) sim_probe(13); bytes_str(t, odd[q]); } else ch(t, 'a' + (int) sim_choose(26)); }
	while (t->n && t->p[t->n - 1] == ' ') t->n--;
	if (t->n > 99) t->n = 98;
}
void scen_setup(void) {
	fs_mkdir("/w"); fs_mkdir("/w/in");
	txt = sim_flip(1, 2); sim_probe(txt);
	static u32 bufs[] = {4096, 4096, 65536, 1000};
	sim_set_iobuf(bufs[sim_choose(4)]); sim_set_preempt(0); sim_set_step_limit(20000000);
	// the recording
	if (sim_flip(1, 4)) { sim_probe(5); u32 j = 1 + sim_choose(60); while (j--) ch(&mp3, (int) sim_choose(255)); }
	mono = sim_flip(1, 4) ? 3 : sim_flip(1, 3) ? 1 : 0;
	int vbr = sim_flip(1, 2), r = sim_choose(14); u32 cnt = 1 + sim_choose(sim_flip(1, 3) ? 1500 : 200); if (sim_flip(1, 12)) cnt = 1 + sim_choose(3);
	if (sim_flip(1, 2)) {
		int ir = 4 + (int) sim_choose(10); size_t l; xpos = mono == 3 ? 21 : 36;
		if (sim_flip(1, 8)) { sim_probe(4); ir = mono == 3 ? 0 : (int) sim_choose(2); }
		size_t at = mp3.n; l = frame(&mp3, ir, 0, mono, 1); u8 *x = mp3.p + at;
		memset(x + 4, 0, l - 4); memcpy(x + xpos, "Xing", 4); x[xpos + 7] = (u8) sim_choose(16); for (size_t i = xpos + 8; i < l; i++) x[i] = (u8) (i * 5);
		if (l >= xpos + 116) { info = 1; sim_probe(2); if (mono == 3) sim_probe(3); bytes_add(&ifr, x, l); } else { off[0] = at; len[0] = l; frames = 1; }
	}
	while (cnt-- && frames < 3900) { off[frames] = mp3.n; if (vbr) r = sim_choose(14); len[frames] = frame(&mp3, r, sim_flip(1, 3), mono, 7u + (u32) frames); frames++; }
	if (frames == 1 && !info) frames = 1;
	if (sim_flip(1, 8)) { sim_probe(6); size_t l = frame(&mp3, r, 0, mono, 3); mp3.n -= 1 + sim_choose((u32) l - 1); }
	else if (sim_flip(1, 10)) { // a frame that cannot be right
		sim_probe(7); refuse = 1; bytes_t m = {0}; int at = 1 + (int) sim_choose((u32) frames); size_t o = at == frames ? mp3.n : off[at]; bytes_add(&m, mp3.p, o);
		static const u8 bad[][4] = {{0xff, 0xfb, 0x00, 0}, {0xff, 0xfb, 0xf0, 0}, {0xff, 0xfb, 0x94, 0}, {0xff, 0xfa, 0x90, 0}, {'T', 'A', 'G', 'x'}, {0xff, 0xfd, 0x90, 0}, {0xff, 0xf3, 0x90, 0}, {0xff, 0xfb, 0x9c, 0}, {0xff, 0xeb, 0x90, 0}};
		bytes_add(&m, bad[sim_choose(9)], 4); for (u32 k = sim_choose(400); k; k--) ch(&m, 0x55);
		bytes_add(&m, mp3.p + o, mp3.n - o); free(mp3.p); mp3 = m;
	}
	// the list
	double secs = frames * 1152.0 / 44100;
	n = 1 + (int) sim_choose(sim_flip(1, 8) ? 100 : 6); if (n > 50) sim_probe(14);
	const char *nl = sim_flip(1, 4) ? "\r\n" : "\n"; if (nl[0] == '\r') sim_probe(15);
	if (!txt) {
		if (sim_flip(1, 2)) bytes_fmt(&list, "REM GENRE \"x y\"%s", nl);
		if (sim_flip(1, 12)) { bytes_str(&list, "REM "); for (int i = 0; i < 1500; i++) ch(&list, 'r'); bytes_str(&list, nl); }
		if (sim_flip(1, 2)) bytes_fmt(&list, "PERFORMER \"Some body\"%sTITLE \"The whole\"%s", nl, nl);
		bytes_fmt(&list, "FILE \"some file.mp3\" %s%s", sim_flip(1, 6) ? "MP3 and more than twenty bytes" : "MP3", nl);
	}
	long long cs = 0; int per = (int) (secs * (txt ? 1000 : 75)) / n + 1, over = sim_flip(1, 12);
	long long prev = 0;
	for (int i = 0; i < n; i++) {
		bytes_t t = {0}; title(&t, i);
		bytes_t nm = {0}; bytes_fmt(&nm, "/w/%02d. ", i + 1); for (size_t k = 0; k < t.n; k++) { if (t.p[k] == ':') bytes_str(&nm, " -"); else ch(&nm, t.p[k] == '/' ? '-' : t.p[k]); } bytes_str(&nm, ".mp3"); ch(&nm, 0); snprintf(name[i], sizeof name[i], "%s", (char *) nm.p); free(nm.p);
		long long step = sim_flip(1, 10) ? 0 : (long long) sim_choose((u32) per * 2) + (over ? per * 3 : 0);
		if (txt) {
			long long d = i == n - 1 && sim_flip(1, 6) ? 2400000 + sim_choose(100000000) : step; // milliseconds
			if (d > 2147483) sim_probe(16);
			start[i] = prev; prev += d * 1000;
			int h = d >= 3600000 && sim_flip(1, 2);
			bytes_fmt(&list, "%02d.%s", sim_flip(1, 3) ? (int) sim_choose(200) : i + 1, sim_flip(1, 8) ? "" : " "); bytes_add(&list, t.p, t.n); bytes_str(&list, sim_flip(1, 2) ? "\t\t" : " ");
			if (h) bytes_fmt(&list, "%lld:%02lld:%02lld", d / 3600000, d / 60000 % 60, d / 1000 % 60); else bytes_fmt(&list, "%lld:%02lld", d / 60000, d / 1000 % 60);
			if (d % 1000) bytes_fmt(&list, ".%03lld", d % 1000);
			if (sim_flip(1, 8)) ch(&list, ' ');
			if (i < n - 1 || sim_flip(2, 3)) bytes_str(&list, nl);
			if (sim_flip(1, 10) && i < n - 1) bytes_str(&list, nl);
		} else {
			if (i) cs += step;
			start[i] = cs * 1000000 / 75;
			bytes_fmt(&list, "  TRACK %02d AUDIO%s    TITLE \"", i + 1, nl); bytes_add(&list, t.p, t.n); bytes_fmt(&list, "\"%s", nl);
			if (sim_flip(1, 2)) bytes_fmt(&list, "    PERFORMER \"Any body\"%s", nl);
			if (i && sim_flip(1, 3)) { long long z = cs - (long long) sim_choose(cs > 200 ? 200 : (u32) cs + 1); bytes_fmt(&list, "    INDEX 00 %02lld:%02lld:%02lld%s", z / 75 / 60, z / 75 % 60, z % 75, nl); }
			bytes_fmt(&list, "    INDEX 01 %02lld:%02lld:%02lld", cs / 75 / 60, cs / 75 % 60, cs % 75); if (i < n - 1 || sim_flip(2, 3)) bytes_str(&list, nl);
		}
		free(t.p);
	}
	if (sim_flip(1, 10)) { // a list that cannot be right
		sim_probe(8);
		static const char *bt[] = {"no number here 4:20\n", "05. no duration\n", "4:22\n", "05 no dot 4:22\n", "06. x 4:2x\n", "07. x 12\n", "08. x 1:2:3:4\n"}, *bc[] = {"  NONSENSE 5\n", "  TRACK x AUDIO\n", "    TITLE no quotes\n", "    INDEX 01 nothing\n", "    TITLE \"never ends", "    INDEX 02 99:00:00\n"};
		either = 0; refuse = 1;
		if (list.n && list.p[list.n - 1] != '\n') bytes_str(&list, nl);
		u32 k = sim_choose(10);
		if (k == 8) { if (!txt) bytes_str(&list, "    TITLE \""); else bytes_str(&list, "09. "); for (int i = 0; i < 1200; i++) ch(&list, 't'); bytes_str(&list, txt ? " 1:00\n" : "\"\n"); }
		else if (k == 9) { for (int i = 0; i < 101; i++) bytes_str(&list, txt ? "09. x 1:00\n" : "  TRACK 77 AUDIO\n"); }
		else if (k == 7 && !txt) { bytes_str(&list, "    INDEX 01 "); for (int i = 0; i < 500; i++) ch(&list, '0'); bytes_str(&list, "\n"); }
		else bytes_str(&list, txt ? bt[k % 7] : bc[k % 6]);
	} else if (sim_flip(1, 30)) { sim_probe(8); refuse = 1; list.n = 0; }
	const char *lp = txt ? "/w/in/l.txt" : "/w/in/l.cue";
	int f = sim_choose(10);
	if (f == 9 && sim_flip(1, 2)) { sim_probe(9); refuse = 1; } else fs_put(lp, list.p ? list.p : (u8 *) "", list.n);
	if (f == 9 && sim_flip(1, 3)) refuse = 1; else fs_put("/w/in/a.mp3", mp3.p, mp3.n);
	if (f == 8) { refuse = 1; sim_probe(18); if (sim_flip(1, 3) && list.n) fs_bad_from(lp, sim_choose((u32) list.n)); else fs_bad_from("/w/in/a.mp3", sim_choose((u32) mp3.n)); }
	if (f == 0) sim_enable_once(F_WRITE_EIO, 1 + sim_choose(6));
	if (f == 1) fs_set_capacity((long) (mp3.n + list.n + sim_choose((u32) mp3.n)));
	if (f == 2) sim_enable_once(F_CLOSE_FAIL, 2);
	if (f == 3) sim_enable_once(F_OPEN_FAIL, 2);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(6), 300); sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 300);
	if (sim_flip(1, 4)) { sim_probe(19); bytes_t o = {0}; for (int i = 0; i < 9000; i++) bytes_str(&o, "old old old "); fs_put(name[0], o.p, o.n); free(o.p); }
	argvv[0] = "mp3cuespl"; argvv[1] = txt ? "in/l.txt" : "in/l.cue"; argvv[2] = "in/a.mp3";
	sim_hash(hash_bytes(hash_bytes(1, list.p, list.n), mp3.p, mp3.n));
	sim_detail("list=%s tracks=%d frames=%d info=%d refuse=%d fault=%d", txt ? "txt" : "cue", n, frames, info, refuse, f);
	app = sim_app("mp3cuespl", 3, argvv, NULL); sim_proc_cwd(app, "/w");
}
static void stray(const char *p, int isdir, const u8 *d, size_t k) {
	(void) d; (void) k; if (isdir || strncmp(p, "/w/", 3) || !strncmp(p, "/w/in/", 6)) { if (!isdir && strcmp(p, "/w/in/l.txt") && strcmp(p, "/w/in/l.cue") && strcmp(p, "/w/in/a.mp3")) sim_violation("stray", "there is a file %s", p); return; }
	for (int i = 0; i < n; i++) if (!strcmp(p, name[i])) return;
	if (!refuse) sim_violation("stray", "there is a file %s", p);
}
static u32 be(const u8 *p) { return (u32) p[0] << 24 | (u32) p[1] << 16 | (u32) p[2] << 8 | p[3]; }
void scen_end(void) {
	int st; size_t on, en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "mp3cuespl does not end: %s", sim_blocked_report());
	const char *o = sim_stdout_of(app, &on), *e = sim_stderr_of(app, &en);
	if ((st & 0x7f) && (st & 0x7f) != SIGABRT) sim_violation("crash", "mp3cuespl died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	sim_hash(hash_bytes((u64) st, o, on));
	size_t k; const u8 *d = fs_get("/w/in/a.mp3", &k); if (d && (k != mp3.n || memcmp(d, mp3.p, k))) sim_violation("changed", "the recording was changed");
	fs_walk(stray);
	int io = sim_fired(F_READ_EIO) || sim_fired(F_WRITE_EIO) || sim_fired(F_CLOSE_FAIL) || sim_fired(F_OPEN_FAIL) || sim_fired(F_ENOSPC);
	if (sim_fired(F_WRITE_EIO) || sim_fired(F_CLOSE_FAIL) || sim_fired(F_ENOSPC)) sim_probe(17);
	double end = frames * 1152e6 / 44100; int early = start[n - 1] > end - 60000;
	if (early) sim_probe(10);
	if (st) {
		if (!en) sim_violation("silent", "failed without a message");
		if (!io && !refuse && !early) sim_violation("refused", "failed (%d) although nothing is wrong: %s", st >> 8, esc(e, en > 200 ? 200 : en));
		return;
	}
	if (refuse) sim_violation("accepted", "an input is missing, cannot be read or is malformed; exit status 0");
	if (start[n - 1] > end + 60000) sim_violation("accepted", "the recording ends before the last track; exit status 0");
	int at = 0;
	for (int i = 0; i < n; i++) {
		size_t m; const u8 *f = fs_get(name[i], &m); if (!f) sim_violation("lost", "there is no file %s", name[i]);
		size_t p = 0; int first = at;
		if (info) {
			if (m < ifr.n) sim_violation("lost", "%s has only %zu bytes", name[i], m);
			if (memcmp(f, ifr.p, xpos) || memcmp(f + xpos + 116, ifr.p + xpos + 116, ifr.n - xpos - 116) || memcmp(f + xpos, "Xing\0\0\0\7", 8)) sim_violation("info", "%s does not begin with a proper info frame", name[i]);
			p = ifr.n;
		}
		while (p < m) { if (at >= frames) sim_violation("extra", "%s has %zu bytes more than the recording has", name[i], m - p); if (m - p < len[at] || memcmp(f + p, mp3.p + off[at], 0) || memcmp(f + p, off[at] < mp3.n ? mp3.p + off[at] : f, len[at])) sim_violation("frames", "frame %d of the recording is not at byte %zu of %s", at, p, name[i]); p += len[at++]; }
		if (at == first) sim_probe(11);
		if (info) {
			const u8 *x = f + xpos + 8; if (be(x) != (u32) (at - first) + 1 || be(x + 4) != m) sim_violation("info", "%s: its info frame says %u frames, %u bytes; it has %d and %zu", name[i], be(x), be(x + 4), at - first + 1, m);
			if (at > first) for (int t = 0; t < 100; t++) { size_t q = ifr.n; for (int z = first; z < first + (at - first) * t / 100; z++) q += len[z]; long w = (long) (q * 255 / m), g = x[8 + t]; if (g < w - 3 || g > w + 3) sim_violation("info", "%s: %d%% of the time are at %ld/255, the table says %ld", name[i], t, w, g); }
		}
		if (i + 1 < n) { double b = at * 1152e6 / 44100; if (b < start[i + 1] - 55000 - at / 1e4 || b > start[i + 1] + 30000 + at / 1e4 ? 1 : 0) { if (!(at == frames || (start[i + 1] <= 0))) sim_violation("cut", "track %d begins at %.0f us instead of %lld", i + 2, b, start[i + 1]); } }
		const char *base = strrchr(name[i], '/') + 1; if (!memmem(o, on, base, strlen(base))) sim_violation("silent", "%s is not listed", base);
	}
	if (at != frames) sim_violation("lost", "frames from %d on, of %d, are in no track", at, frames);
}
