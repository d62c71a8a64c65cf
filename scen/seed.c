#include "nat.h"
#include "sha1.h"
// prog/torrent seed: every proper peer gets exactly the blocks it asks for, whatever the other peers, the tracker and the disk do.
const char *scen_name = "seed";
const char *scen_probes[] = {"multi_file", "block_across_files", "many_pieces", "bad_handshake", "huge_length", "bad_request", "short_message", "unsolicited_piece", "peer_reset", "peer_left", "staller", "unreadable_file", "disk_fault_drop", "tracker_down", "tracker_answer", "tracker_garbage", "slow_reader", NULL};
const char *scen_rule = "a run = the real torrent seeder with a seeded torrent, tracker and up to 8 peers (proper, slow, malformed, quitting, stalling) under fragmentation, delays and failing disk calls; non-trivial: a fault or preemption fired; distinct by the hash of the schedule and history";
static proc_t *app;
static bytes_t content, meta; static size_t total, plen, npieces;
static int nfiles; static size_t fbeg[9], flen[8]; static char fname[8][64];
static int badfile = -1; static size_t badfrom;      // a file that is missing, cut short or unreadable from an offset on
static u8 infohash[20], ourid[20]; static int haveid;
enum { GOOD, SLOW, BADHS, HUGE_, BADREQ, SHORTMSG, PIECE, RESET_, LEAVE, STALL_, NK };
static struct { int kind, done, port; bytes_t out, want; size_t got, from; int badreq; } P[32];
static int np, round_, finished, tracker_mode, tracker_done, disk_faults, stall;
static int fds1, blocks1;
static u8 byte_at(size_t i) { return patt(3, i) ^ (u8) (i >> 12); }
static void put4(bytes_t *b, u32 v) { u8 x[4] = {v >> 24, v >> 16, v >> 8, v}; bytes_add(b, x, 4); }
static void put1(bytes_t *b, u8 v) { bytes_add(b, &v, 1); }
static int overlaps_bad(size_t a, size_t n) {
	if (badfile < 0) return 0;
	size_t s = fbeg[badfile] + badfrom, e = fbeg[badfile] + flen[badfile];
	return a < e && a + n > s;
}
static void hs(bytes_t *b, const u8 *id) { put1(b, 19); bytes_add(b, "BitTorrent protocol\0\0\0\0\0\0\0\0", 27); bytes_add(b, infohash, 20); bytes_add(b, id, 20); }
// what a peer sends and what it has to get; P.from: everything after it may be missing (the connection is closed)
static int huge;
static void script(int i) {
	bytes_t *o = &P[i].out, *w = &P[i].want;
	P[i].from = (size_t) -1;
	if (P[i].kind == STALL_) { int k = sim_choose(68); bytes_t t = {0}; hs(&t, (u8 *) "--------------------"); bytes_add(o, t.p, k); sim_probe(10); return; }
	if (P[i].kind == BADHS) { sim_probe(3); put1(o, sim_flip(1, 2) ? 18 : sim_choose(256) == 19 ? 255 : 0); for (int k = 0; k < 80; k++) put1(o, patt(i, k)); P[i].from = 0; return; }
	hs(o, (u8 *) xsprintf("-HARNESS-PEER-%06d", i));
	put1(w, 19); bytes_add(w, "BitTorrent protocol\0\0\0\0\0\0\0\0", 27); bytes_add(w, infohash, 20); bytes_add(w, "????????????????????", 20);
	int n = sim_choose(10);
	int evil = P[i].kind == HUGE_ || P[i].kind == BADREQ || P[i].kind == SHORTMSG || P[i].kind == PIECE ? (int) sim_choose(n + 1) : -1;
	for (int k = 0; k <= n; k++) {
		if (k == evil) {
			P[i].from = w->n;
			if (P[i].kind == HUGE_) {
				sim_probe(4); static u32 l[] = {0xffffffff, 0x7fffffff, 0xfffffffc, 900001, 0x80000000, 1000000};
				put4(o, l[sim_choose(6)]); put1(o, sim_choose(10)); for (int q = 0; q < 3000; q++) put1(o, 0);
			} else if (P[i].kind == BADREQ) {
				sim_probe(5); put4(o, 13); put1(o, 6);
				u32 idx = sim_choose(npieces), beg = 0, len = 10; size_t pl = idx == npieces - 1 ? total - idx * plen : plen;
				switch (huge && sim_flip(1, 2) ? 6 : (int) sim_choose(6)) {
				case 0: idx = npieces + sim_choose(3); break;
				case 1: idx = 0xffffffff - sim_choose(5); break;
				case 2: beg = pl; len = 1; break;
				case 3: beg = 0xffffffff - sim_choose(9); len = 10; break;
				case 4: len = pl + 1; break;
				case 6: idx = 0; len = 1000000 - sim_choose(13); break;
				case 5: len = 0xffffffff - sim_choose(14); beg = sim_choose(14); break;
				}
				put4(o, idx); put4(o, beg); put4(o, len);
			} else if (P[i].kind == SHORTMSG) {
				sim_probe(6); static u8 ids[] = {6, 7, 6}; u8 id = ids[sim_choose(3)];
				u32 l = 1 + sim_choose(id == 6 ? 12 : 9); put4(o, l); put1(o, id); for (u32 q = 1; q < l; q++) put1(o, 0);
			} else {
				sim_probe(7); u32 l = 1 + sim_choose(50); put4(o, 9 + l); put1(o, 7); put4(o, 0); put4(o, 0); for (u32 q = 0; q < l; q++) put1(o, 'E');
			}
			break;
		}
		int m = sim_choose(12);
		if (m < 6) {
			u32 idx = sim_choose(npieces); size_t pl = idx == npieces - 1 ? total - idx * plen : plen;
			u32 beg = sim_flip(1, 2) ? 0 : sim_choose(pl), len = sim_flip(1, 2) ? pl - beg : 1 + sim_choose(pl - beg);
			if (len > 16384) len = 16384;
			if (sim_flip(1, 3)) { // over a file boundary if there is one
				int f = sim_choose(nfiles); size_t e = fbeg[f] + flen[f];
				if (e > idx * plen + 1 && e < total) { idx = (e - 1) / plen; pl = idx == npieces - 1 ? total - idx * plen : plen; beg = e - 1 - idx * plen; if (beg > 2) beg -= 2; len = pl - beg; if (len > 5000) len = 5000; }
			}
			put4(o, 13); put1(o, 6); put4(o, idx); put4(o, beg); put4(o, len);
			size_t a = idx * plen + beg;
			for (int f = 0; f < nfiles; f++) if (a < fbeg[f] && a + len > fbeg[f]) sim_probe(1);
			if (len > 0 && overlaps_bad(a, len) && P[i].from == (size_t) -1) { P[i].from = w->n; P[i].badreq = 1; sim_probe(11); }
			put4(w, 9 + len); put1(w, 7); put4(w, idx); put4(w, beg); bytes_add(w, content.p + a, len);
		} else if (m == 6) { put4(o, 0); put4(w, 0); }
		else if (m == 7) { u32 l = (npieces + 7) / 8; if (sim_flip(1, 3)) l = sim_choose(400); put4(o, 1 + l); put1(o, 5); for (u32 q = 0; q < l; q++) put1(o, 0xf0); }
		else if (m == 8) { put4(o, 1); put1(o, sim_choose(4)); }
		else if (m == 9) { put4(o, 5); put1(o, 4); put4(o, sim_choose(npieces)); }
		else if (m == 10) { put4(o, 13); put1(o, 8); put4(o, 0); put4(o, 0); put4(o, 1); }
		else { u32 l = sim_choose(300); put4(o, 1 + l); put1(o, 9 + sim_choose(200)); for (u32 q = 0; q < l; q++) put1(o, q); }
	}
}
static int lossy(void) { return disk_faults && (sim_fired(F_READ_EIO) || sim_fired(F_OPEN_FAIL) || sim_fired(F_SEEK_FAIL)); }
static void got(int i, const u8 *b, size_t n) {
	bytes_t *w = &P[i].want;
	for (size_t k = 0; k < n; k++) {
		size_t o = P[i].got++;
		if (o >= w->n) sim_violation("answer", "peer %d got more than it asked for: %zu bytes are due", i, w->n);
		if (P[i].from != (size_t) -1 && o >= P[i].from) sim_violation("answer", "peer %d was answered after %s", i, P[i].badreq ? "asking for data that cannot be read" : "a malformed message");
		if (o >= 48 && o < 68) { if (!haveid || o == 48) {} ; static u8 tmp[20]; tmp[o - 48] = b[k]; if (o == 67) { if (haveid && memcmp(tmp, ourid, 20)) sim_violation("peer-id", "the seeder uses two peer ids"); memcpy(ourid, tmp, 20); haveid = 1; } continue; }
		if (w->p[o] != b[k]) sim_violation("answer", "peer %d: byte %zu of the answers is %02x instead of %02x", i, o, b[k], w->p[o]);
	}
}
static int drain(int i, int fd) {
	static u8 buf[32][4096];
	ssize_t r = sim_recv(fd, buf[i], 1 + sim_choose(4096), MSG_DONTWAIT);
	if (r > 0) { got(i, buf[i], r); return 1; }
	if (r < 0 && errno == EAGAIN) return 0;
	return -1;
}
static void lost(int i) {
	if (P[i].from != (size_t) -1 || lossy() || sim_fired(F_ACCEPT_FAIL)) { if (lossy()) sim_probe(12); return; }
	sim_violation("dropped", "the seeder closed the connection of peer %d, which did nothing wrong, after %zu of %zu bytes", i, P[i].got, P[i].want.n);
}
static int fault;
static void disk_on(void) {
	static int on; if (on) return; on = 1; int f = fault;
	if (f == 0) sim_enable(F_READ_EIO, 2 + sim_choose(30), 2);
	if (f == 1) sim_enable(F_OPEN_FAIL, 4 + sim_choose(30), 2);
	if (f == 2) sim_enable(F_SEEK_FAIL, 2 + sim_choose(30), 2);
}
static void peer(void *arg) {
	int i = (int) (long) arg, fd;
	sim_sleep(sim_choose(500) * MS);
	for (int t = 0; ; t++) {
		fd = sim_socket(AF_INET, SOCK_STREAM, 0);
		struct sockaddr_in a = {.sin_family = AF_INET, .sin_port = htons(6881), .sin_addr.s_addr = htonl(0x7f000001)};
		if (sim_connect(fd, (void *) &a, sizeof a) == 0) break;
		sim_close(fd);
		if (t > 50) sim_violation("stuck", "peer %d cannot connect", i);
		sim_sleep((50 + t * t * 20) * MS);
	}
	disk_on();
	size_t s = 0, stop = P[i].out.n;
	int dead = 0;
	if (P[i].kind == RESET_ || P[i].kind == LEAVE) stop = sim_choose(P[i].out.n + 1);
	u32 chunk = (u32[]) {5000, 1, 13, 200}[sim_choose(4)]; if (stop > 2000 && chunk < 13) chunk = 100;
	while (s < stop) {
		size_t k = stop - s; if (k > chunk) k = chunk;
		k = 1 + sim_choose(k);
		ssize_t r = sim_send(fd, P[i].out.p + s, k, MSG_NOSIGNAL);
		if (r <= 0) { lost(i); dead = 1; break; }
		s += r;
		if (sim_flip(1, 5)) sim_sleep(sim_choose(100) * MS);
		if (P[i].kind != SLOW && sim_flip(1, 3) && drain(i, fd) < 0) { lost(i); dead = 1; break; }
	}
	if (dead) goto out;
	if (P[i].kind == RESET_) { sim_probe(8); sim_count_fault(F_RESET); net_drop_conn(sim_ofd(fd)); goto out; }
	if (P[i].kind == LEAVE) { sim_probe(9); sim_count_fault(F_PEER_CLOSE); goto out; }
	if (P[i].kind == STALL_) { while (P[i].got < P[i].want.n || sim_now() < 300 * SEC) { sim_sleep(1 * SEC); if (drain(i, fd) < 0) { lost(i); break; } } goto out; }
	if (P[i].kind == SLOW) { sim_probe(16); sim_sleep(sim_choose(20000) * MS); }
	size_t need = P[i].from != (size_t) -1 ? P[i].from : P[i].want.n;
	u64 t0 = sim_now();
	while (P[i].got < need || P[i].from != (size_t) -1) {
		int r = drain(i, fd);
		if (r < 0) { lost(i); goto out; }
		if (r == 0) sim_sleep(20 * MS);
		if (sim_now() - t0 > (stall ? 3000 : 200) * SEC) {
			if (P[i].from != (size_t) -1 && P[i].got == need) sim_violation("kept", "the connection of peer %d is kept after %s", i, P[i].badreq ? "its request could not be answered" : "a malformed message");
			sim_violation("stuck", "peer %d still waits: it got %zu of %zu bytes", i, P[i].got, need);
		}
	}
	// nothing more may come
	sim_sleep(300 * MS);
	while (drain(i, fd) > 0) {}
out:
	sim_close(fd);
	P[i].done = 1;
}
static int unhex(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int param(const char *q, const char *name, u8 out[20]) {
	const char *p = strstr(q, xsprintf("%s=", name)); if (!p) return 0;
	p += strlen(name) + 1;
	int n = 0;
	while (*p && *p != '&' && *p != ' ' && n < 20) { if (*p == '%' && p[1] && p[2]) { out[n++] = unhex(p[1]) << 4 | unhex(p[2]); p += 3; } else out[n++] = *p == '+' ? ' ' : *p, p++; }
	return n == 20;
}
static void tracker(void *arg) {
	(void) arg;
	int l = sim_socket(AF_INET, SOCK_STREAM, 0);
	struct sockaddr_in a = {.sin_family = AF_INET, .sin_port = htons(8000), .sin_addr.s_addr = htonl(0x7f000001)};
	if (sim_bind(l, (void *) &a, sizeof a) || sim_listen(l, 16)) sim_harness_error("tracker");
	int fd = sim_accept(l, NULL, NULL);
	if (fd < 0) sim_harness_error("accept");
	static char rq[4096]; size_t n = 0;
	if (tracker_mode == 2) { sim_close(fd); tracker_done = 1; return; }
	while (n < sizeof rq - 1) { ssize_t r = sim_recv(fd, rq + n, sizeof rq - 1 - n, 0); if (r <= 0) break; n += r; rq[n] = 0; if (strstr(rq, "\r\n\r\n")) break; }
	u8 h[20], id[20];
	if (!strstr(rq, "\r\n\r\n") || strncmp(rq, "GET /announce?", 14)) sim_violation("announce", "the tracker got %s", esc(rq, n));
	if (!param(rq, "info_hash", h) || memcmp(h, infohash, 20)) sim_violation("announce", "wrong info_hash in %s", esc(rq, n));
	if (!param(rq, "peer_id", id)) sim_violation("announce", "no peer_id in %s", esc(rq, n));
	if (haveid && memcmp(id, ourid, 20)) sim_violation("peer-id", "the seeder uses two peer ids");
	memcpy(ourid, id, 20); haveid = 1;
	bytes_t b = {0}, r = {0};
	bytes_str(&b, "d8:completei3e10:incompletei5e8:intervali1800e5:peersl");
	int k = sim_choose(4);
	for (int q = 0; q < k; q++) bytes_fmt(&b, "d2:ip9:127.0.0.17:peer id20:-XX0000-%012d4:porti%dee", q, 7000 + q);
	bytes_str(&b, "ee");
	if (tracker_mode == 5) bytes_str(&r, "This is not HTTP at all\r\n\r\nd8:complete");
	else if (tracker_mode == 4) { bytes_fmt(&r, "HTTP/1.0 200 OK\r\nContent-Type: text/plain\r\n%s\r\n", sim_flip(2, 3) ? "Connection: close\r\n" : ""); bytes_add(&r, b.p, b.n); }
	else { bytes_fmt(&r, "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: %zu\r\n\r\n", b.n); bytes_add(&r, b.p, b.n); }
	sim_probe(tracker_mode == 5 ? 15 : 14);
	size_t s = 0;
	while (s < r.n) { ssize_t w = sim_send(fd, r.p + s, 1 + sim_choose(r.n - s), MSG_NOSIGNAL); if (w <= 0) break; s += w; if (sim_flip(1, 3)) sim_sleep(sim_choose(3000) * MS); }
	if (tracker_mode == 6) { sim_sleep(100000 * SEC); return; }
	sim_close(fd);
	tracker_done = 1;
}
static void nodownload(const char *path, int isdir, const u8 *data, size_t n) {
	(void) isdir; (void) n; (void) data;
	if (!strncmp(path, "/w/download/", 12)) sim_violation("wrote", "the seeder wrote %s", path);
}
static void unchanged(void) {
	fs_walk(nodownload);
	for (int f = 0; f < nfiles; f++) {
		size_t n; const u8 *d = fs_get(fname[f], &n);
		if (!d) { if (f == badfile) continue; sim_violation("wrote", "the seeder removed %s", fname[f]); }
		if (n > flen[f] || (f != badfile && n != flen[f]) || memcmp(d, content.p + fbeg[f], n)) sim_violation("wrote", "the seeder changed %s", fname[f]);
	}
}
static int alldone(int a, int b) { for (int i = a; i < b; i++) if (!P[i].done) return 0; return 1; }
static void faults_off(void) { sim_disable(F_READ_EIO); sim_disable(F_OPEN_FAIL); sim_disable(F_SEEK_FAIL); sim_disable(F_ACCEPT_FAIL); sim_disable(F_STALL); }
static void start(int i) { sim_task("peer", peer, (void *) (long) i); }
static void conduct(void *arg) {
	(void) arg;
	int n1 = np;
	for (int i = 0; i < n1; i++) start(i);
	while (!alldone(0, n1)) sim_sleep(100 * MS);
	faults_off();
	sim_sleep(400 * SEC);   // the rest of the tracker's answer, the last wake-ups
	fds1 = sim_proc_openfds(app); blocks1 = sim_proc_live_blocks(app);
	int want = 1 + (tracker_mode == 6);
	if (fds1 != want) sim_violation("fd-leak", "%d descriptors are open after all peers have gone, %d are in use", fds1, want);
	// the seeder goes on serving; one-time allocations are over after the first of these
	disk_faults = 0;
	for (round_ = 2; round_ < 5; round_++) {
		blocks1 = sim_proc_live_blocks(app);
		memset(&P[np], 0, sizeof P[0]); P[np].kind = GOOD;
		script(np); start(np); np++;
		while (!P[np - 1].done) sim_sleep(100 * MS);
		if (P[np - 1].from == (size_t) -1 && P[np - 1].got < P[np - 1].want.n) sim_violation("dropped", "a peer that came after the others was not served");
		sim_sleep(20 * SEC);
		if (sim_proc_openfds(app) != fds1) sim_violation("fd-leak", "%d descriptors are open after one more peer, %d before", sim_proc_openfds(app), fds1);
		if (round_ > 2 && sim_proc_live_blocks(app) != blocks1) sim_violation("leak", "%d blocks are allocated after one more peer, %d before", sim_proc_live_blocks(app), blocks1);
	}
	unchanged();
	size_t on; char *o = strdup(sim_stdout_of(app, &on));
	if (!sim_fired(F_READ_EIO) && !sim_fired(F_OPEN_FAIL) && !sim_fired(F_SEEK_FAIL)) for (size_t i = 0; i < npieces; i++) {
		size_t a = i * plen, n = total - a < plen ? total - a : plen;
		// the output is buffered: whatever of the line has been written must be right
		char *q = strstr(o, xsprintf("\n%zu: ", i)), *e = q ? strchr(q + 1, '\n') : NULL;
		if (!e) continue;
		char *l = xsprintf("\n%zu: %s\n", i, overlaps_bad(a, n) ? "mismatch" : "OK");
		if (strncmp(q, l, strlen(l))) sim_violation("check", "the seeder's report of piece %zu is not %s", i, esc(l, strlen(l)));
	}
	finished = 1;
	sim_finish();
}
static void make_torrent(void) {
	static int pls[] = {16384, 1000, 100, 7, 30000, 1};
	plen = pls[sim_choose(6)];
	if (sim_flip(1, 80)) { plen = 1200000; total = 1050000 + sim_choose(100000); huge = 1; } else
	total = 1 + sim_choose(plen == 1 ? 1500 : plen == 7 ? 12000 : plen == 100 ? 5000 : 60000);
	npieces = (total + plen - 1) / plen;
	if (npieces > 1000) sim_probe(2);
	for (size_t i = 0; i < total; i++) { u8 c = byte_at(i); bytes_add(&content, &c, 1); }
	nfiles = sim_flip(1, 2) ? 1 : 2 + sim_choose(4);
	int multi = nfiles > 1 || sim_flip(1, 6);
	if (multi) sim_probe(0);
	size_t cut[9]; cut[0] = 0; cut[nfiles] = total;
	for (int i = 1; i < nfiles; i++) cut[i] = sim_choose(total + 1);
	for (int i = 1; i < nfiles; i++) for (int j = 1; j < nfiles - 1; j++) if (cut[j] > cut[j + 1]) { size_t t = cut[j]; cut[j] = cut[j + 1]; cut[j + 1] = t; }
	fs_mkdir("/w"); fs_mkdir("/w/download"); fs_mkdir("/w/dir"); fs_mkdir("/w/dir/sub");
	bytes_t info = {0};
	bytes_str(&info, "d");
	if (multi) bytes_str(&info, "5:filesl");
	for (int i = 0; i < nfiles; i++) {
		fbeg[i] = cut[i]; flen[i] = cut[i + 1] - cut[i];
		if (multi) { if (i % 2) { snprintf(fname[i], 64, "/w/dir/sub/f%d", i); bytes_fmt(&info, "d6:lengthi%zue4:pathl3:sub2:f%dee", flen[i], i); } else { snprintf(fname[i], 64, "/w/dir/f%d", i); bytes_fmt(&info, "d6:lengthi%zue4:pathl2:f%dee", flen[i], i); } }
		else snprintf(fname[i], 64, "/w/single.bin");
		fs_put(fname[i], content.p + fbeg[i], flen[i]);
	}
	fbeg[nfiles] = total;
	if (multi) bytes_str(&info, "e4:name3:dir"); else bytes_fmt(&info, "6:lengthi%zue4:name10:single.bin", total);
	bytes_fmt(&info, "12:piece lengthi%zue6:pieces%zu:", plen, npieces * 20);
	for (size_t i = 0; i < npieces; i++) { u8 h[20]; sha1_of(content.p + i * plen, total - i * plen < plen ? total - i * plen : plen, h); bytes_add(&info, h, 20); }
	bytes_str(&info, "e");
	sha1_of(info.p, info.n, infohash);
	bytes_str(&meta, "d8:announce21:http://localhost:80004:info"); bytes_add(&meta, info.p, info.n); bytes_str(&meta, "e");
	fs_put("/w/t.torrent", meta.p, meta.n);
	if (sim_flip(1, 6)) {
		badfile = sim_choose(nfiles);
		if (!flen[badfile]) badfile = -1;
		else switch (sim_choose(3)) {
		case 0: badfrom = 0; fs_remove(fname[badfile]); break;
		case 1: badfrom = sim_choose(flen[badfile]); fs_put(fname[badfile], content.p + fbeg[badfile], badfrom); break;
		case 2: badfrom = sim_choose(flen[badfile]); fs_bad_from(fname[badfile], badfrom); break;
		}
	}
}
void scen_proc_exit(proc_t *p, int status) { if (p == app && !finished) sim_violation("ended", "the seeder ended with status %x: %s", status, esc(sim_stderr_of(app, NULL), strlen(sim_stderr_of(app, NULL)))); }
long scen_arg(int i) { (void) i; return 0; }
void scen_note(int w, long a, long b) { (void) w; (void) a; (void) b; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
size_t scen_str(int id, void *b, size_t n) { (void) id; (void) b; (void) n; return 0; }
void scen_setup(void) {
	net_host("localhost", 0x7f000001);
	make_torrent();
	static u32 caps[] = {65536, 4096, 512};
	net_set_capacity(caps[sim_choose(3)]);
	np = 1 + sim_choose(6);
	for (int i = 0; i < np; i++) { int k = sim_choose(16); P[i].kind = k < 6 ? GOOD : k == 6 ? SLOW : k - 5; if (P[i].kind >= NK) P[i].kind = GOOD; script(i); }
	tracker_mode = sim_choose(7);   // 0, 1: nobody listens, 2: closes, 3: answers, 4: without a length, 5: garbage, 6: answers and stays
	if (tracker_mode < 2) sim_probe(13); else sim_task("tracker", tracker, NULL);
	sim_enable_some(F_SHORT_READ, 1 + sim_choose(8), 100);
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(8), 100);
	sim_enable_some(F_FRAGMENT, 1 + sim_choose(8), 100);
	sim_enable_some(F_DELAY, 1 + sim_choose(8), 30);
	if (sim_flip(1, 4)) sim_enable(F_EINTR, 1 + sim_choose(6), 10);
	int f = sim_choose(12);
	disk_faults = f < 3;
	fault = f;
	if (f == 3) sim_enable(F_ACCEPT_FAIL, 2, 2);
	if (f == 4) { sim_enable(F_STALL, 4, 3); stall = 1; }
	sim_detail("bytes=%zu piece=%zu files=%d unreadable=%d peers=%d tracker=%d fault=%d", total, plen, nfiles, badfile, np, tracker_mode, f);
	sim_set_preempt(0);
	sim_set_step_limit(8000000);
	sim_task("conduct", conduct, NULL);
	app = sim_app("torrent", 3, (char *[]) {"torrent", "seed", "t.torrent", NULL}, NULL);
	sim_proc_cwd(app, "/w");
}
void scen_end(void) {
	if (!finished) sim_violation("stuck", "%s", sim_blocked_report());
}
