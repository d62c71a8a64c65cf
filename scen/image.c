#include "nat.h"
#include <math.h>
// Pictures: drawn as told, and what is written is the picture; or the failure is reported.
const char *scen_name = "image";
const char *scen_probes[] = {"bmp", "ppm", "png_gray", "png_rgb", "png_palette", "png_gray_alpha", "png_rgba", "padded_rows", "full_palette", "too_wide", "outside", "failure_reported", "pasted_over_the_edge", "blended", "written_twice", "widest", NULL};
const char *scen_rule = "a run = 1-40 drawing steps on up to four pictures with pictures written as BMP, PPM or PNG in between, under disk faults; non-trivial: a fault fired; distinct by the hash of the steps, the files and the schedule";
enum { PIXEL = 1, WRITTEN, END, MIX, TRY, SIZE };
typedef struct { int r, g, b, t; } px; typedef struct { int w, h; px *p; } pic;
static proc_t *app; static pic S[4]; static long Q[4096]; static int qn, qi, steps, finished, refusing, writing, format, cur, writes; static int failing;
static px want[24]; static int nwant, iwant, tol; static px *store;
static void q(long v) { if (qn == 4096) sim_harness_error("queue"); Q[qn++] = v; }
static px rndcolor(void) { px c; c.r = (int) sim_choose(256); c.g = (int) sim_choose(256); c.b = (int) sim_choose(256); c.t = sim_flip(1, 3) ? 0 : (int) sim_choose(256); if (sim_flip(1, 6)) { c.r = sim_flip(1, 2) ? 255 : 0; c.g = sim_flip(1, 2) ? 255 : 0; c.b = sim_flip(1, 2) ? 255 : 0; } return c; }
static void qc(px c) { q(c.r); q(c.g); q(c.b); q(c.t); }
static px *at(int k, int x, int y) { return &S[k].p[(size_t) y * (size_t) S[k].w + (size_t) x]; }
static void make(int k, int w, int h) { free(S[k].p); S[k].w = w; S[k].h = h; S[k].p = calloc((size_t) w * (size_t) h, sizeof(px)); }
static int some(void) { int c[4], n = 0; for (int i = 0; i < 4; i++) if (S[i].p) c[n++] = i; return n ? c[sim_choose((u32) n)] : -1; }
static px blendof(px a, px b, double p) { px c = {(int) (a.r * (1 - p) + b.r * p), (int) (a.g * (1 - p) + b.g * p), (int) (a.b * (1 - p) + b.b * p), a.t}; return c; }
static int colours(int k) { // at most 257
	px *seen = malloc(260 * sizeof(px)); int n = 0;
	for (long i = 0; i < (long) S[k].w * S[k].h && n <= 256; i++) { int j = 0; while (j < n && memcmp(&seen[j], &S[k].p[i], sizeof(px))) j++; if (j == n) seen[n++] = S[k].p[i]; }
	free(seen); return n;
}
static int dim(void) { return 1 + (int) (sim_flip(1, 4) ? sim_choose(40) : sim_choose(8)); }
static void random_picture(int k) { // filled pixel by pixel later: a pattern by few steps
	px c = rndcolor(); q(4); q(k); qc(c); for (long i = 0; i < (long) S[k].w * S[k].h; i++) S[k].p[i] = c;
}
static void newpic(int k, int w, int h) { q(1); q(k); q(w); q(h); make(k, w, h); if (sim_flip(2, 3)) random_picture(k); }
static void hsl(double h, double s, double l) {
	double c = (1 - fabs(2 * l - 1)) * s, x = c * (1 - fabs(fmod(h / 60, 2) - 1)), m = 0; int i = (int) (h / 60); (void) m;
	double r = 0, g = 0, b = 0; if (i >= 6) i = 5;
	switch (i) { case 0: r = c; g = x; break; case 1: r = x; g = c; break; case 2: g = c; b = x; break; case 3: g = x; b = c; break; case 4: r = x; b = c; break; default: r = c; b = x; }
	want[0] = (px) {(int) (255 * r), (int) (255 * g), (int) (255 * b), 0};
}
static px mapof(const px *cs, int n, int w, int v) {
	if (v <= w) return blendof(cs[0], cs[1], (double) v / w);
	v -= w; int i = (v / w) % (n - 1), j = (i + 1) % (n - 1);
	return blendof(cs[1 + i], cs[1 + j], (double) (v % w) / w);
}
static void gen(void) {
	qn = qi = 0; nwant = iwant = 0; store = NULL; tol = 0;
	if (steps-- <= 0) { q(0); return; }
	int k = some();
	if (k < 0) { newpic((int) sim_choose(4), dim(), dim()); return; }
	cur = k;
	int w = S[k].w, h = S[k].h, x = (int) sim_choose((u32) w), y = (int) sim_choose((u32) h);
	switch (sim_choose(22)) {
	case 0: newpic((int) sim_choose(4), dim(), dim()); return;
	case 1: case 2: case 3: case 4: { u32 n = 1 + sim_choose(40); for (u32 i = 0; i < n; i++) { x = (int) sim_choose((u32) w); y = (int) sim_choose((u32) h); px c = rndcolor(); q(2); q(k); q(x); q(y); qc(c); *at(k, x, y) = c; } return; }
	case 5: case 6: q(3); q(k); q(x); q(y); want[nwant++] = *at(k, x, y); return;
	case 7: random_picture(k); return;
	case 8: if (!sim_flip(1, 3)) return; q(5); q(k); for (long i = 0; i < (long) w * h; i++) S[k].p[i] = (px) {0, 0, 0, 0}; return;
	case 9: case 10: { px c = rndcolor(); int p = sim_flip(1, 3) ? (int) sim_choose(2) * 1000 : (int) sim_choose(1001); q(6); q(k); q(x); q(y); qc(c); q(p); want[nwant++] = blendof(*at(k, x, y), c, p / 1000.0); store = at(k, x, y); tol = p && p < 1000; sim_probe(13); return; }
	case 11: case 12: { int f = some(); if (f == k) return; x = (int) sim_choose((u32) w + 2); y = (int) sim_choose((u32) h + 2); q(7); q(k); q(f); q(x); q(y); if (x + S[f].w > w || y + S[f].h > h) sim_probe(12); for (int j = 0; j < S[f].h; j++) for (int i = 0; i < S[f].w; i++) if (x + i < w && y + j < h) *at(k, x + i, y + j) = *at(f, i, j); return; }
	case 13: { int f = k; do k = (int) sim_choose(4); while (k == f); int n = 1 + (int) sim_choose(4); if (w > 60 || h > 60) return; q(8); q(k); q(f); q(n); make(k, w * n, h * n); for (int j = 0; j < h * n; j++) for (int i = 0; i < w * n; i++) *at(k, i, j) = *at(f, i / n, j / n); cur = k; return; }
	case 14: { px a = rndcolor(), b = rndcolor(); int p = sim_flip(1, 3) ? (int) sim_choose(2) * 1000 : (int) sim_choose(1001); q(9); q(0); qc(a); qc(b); q(p); want[nwant++] = blendof(a, b, p / 1000.0); tol = p && p < 1000; return; }
	case 15: q(10); q(k); for (long i = 0; i < (long) w * h; i++) { px *c = &S[k].p[i]; c->r = 255 - c->r; c->g = 255 - c->g; c->b = 255 - c->b; } return;
	case 16: { tol = 1; if (sim_flip(1, 3)) { int hh = (int) sim_choose(360), s = (int) sim_choose(1001), l = (int) sim_choose(1001); q(11); q(0); q(hh); q(s); q(l); hsl(hh, s / 1000.0, l / 1000.0); nwant = 1; return; }
		if (sim_flip(1, 2)) { int v = (int) sim_choose(10000); q(12); q(0); q(v); double hh = v / 10000.0 * 360; hsl(hh >= 360 ? 359.9 : hh, 1, .5); nwant = 1; return; }
		px cs[20]; int n = 3 + (int) sim_choose(18); if (n > 20) n = 20; int cw = 1 + (int) sim_choose(30); q(13); q(0); q(cw); q(n); for (int i = 0; i < n; i++) { cs[i] = rndcolor(); qc(cs[i]); } int m = 1 + (int) sim_choose(20); q(m); for (int i = 0; i < m; i++) { int v = (int) sim_choose((u32) (cw * n * 3)); if (sim_flip(1, 4)) v = cw * (int) sim_choose((u32) n * 2); q(v); want[nwant++] = mapof(cs, n, cw, v); } return; }
	case 17: if (!sim_flip(1, 8)) return; { int d = (int) sim_choose(4); if (d == 0) x = w + (int) sim_choose_small(100); if (d == 1) y = h + (int) sim_choose_small(100); if (d == 2) x = -1 - (int) sim_choose_small(100); if (d == 3) y = -1 - (int) sim_choose_small(100); int set = sim_flip(1, 2); q(set ? 15 : 3); q(k); q(x); q(y); if (set) qc(rndcolor()); refusing = 1; return; }
	default: {
		static int fm[] = {100, 101, 0, 2, 3, 4, 6}; int i = (int) sim_choose(7); format = fm[i];
		if (sim_flip(1, 40) && writes == 0) { // lines at the limit of a block
			int bpp = format == 0 || format == 3 ? 1 : format == 4 ? 2 : format == 2 ? 3 : 4; int lim = 65534 / bpp; int ww = lim + (int) sim_choose(2);
			newpic(k, ww, 1 + (int) sim_choose(2)); w = ww; h = S[k].h;
			for (int j = 0; j < 6; j++) { x = (int) sim_choose((u32) w); y = (int) sim_choose((u32) h); px c = rndcolor(); q(2); q(k); q(x); q(y); qc(c); *at(k, x, y) = c; }
			if (format < 100) sim_probe(15);
		}
		if (format == 3 && colours(k) > 256) format = 6, i = 6;
		if (format == 3 && sim_flip(1, 6) && w * h < 200) { newpic(k, 16 + (int) sim_choose(3), 16 + (int) sim_choose(3)); int m = 250 + (int) sim_choose(7); /* up to 256 colours */ for (int j = 0; j < S[k].w * S[k].h && j < 500; j++) { int v = j % m; px c = {v * 7 % 256, v, 7, 255 - v}; q(2); q(k); q(j % S[k].w); q(j / S[k].w); qc(c); *at(k, j % S[k].w, j / S[k].w) = c; } if (colours(k) > 254) sim_probe(8); }
		sim_probe(i); if (format == 100 && w % 4) sim_probe(7);
		int bpp = format == 0 || format == 3 ? 1 : format == 4 ? 2 : format == 2 ? 3 : 4;
		if (format < 100 && 1 + bpp * S[k].w > 65535) { refusing = 1; sim_probe(9); }
		q(14); q(k); q(format); cur = k; if (writes++) sim_probe(14); }
	}
}
long scen_arg(int i) { (void) i; while (qi >= qn) gen(); sim_hash((u64) Q[qi]); return Q[qi++]; }
size_t scen_str(int id, void *buf, size_t n) { (void) id; (void) buf; (void) n; return 0; }
void scen_bytes(int w, const void *p, size_t n) { (void) w; (void) p; (void) n; }
static int far(int a, int b) { int d = a - b; return (d < 0 ? -d : d) > tol; }
#define BAD(...) sim_violation("picture", __VA_ARGS__)
static u32 le(const u8 *p, int n) { u32 v = 0; while (n--) v = v << 8 | p[n]; return v; }
static u32 be(const u8 *p, int n) { u32 v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static void same(const char *what, int x, int y, int a, int b, int t) { int d = a - b; if (d > t || d < -t) BAD("%s of pixel %d,%d of a picture of %dx%d (format %d) is %d in the file, %d was drawn", what, x, y, S[cur].w, S[cur].h, format, a, b); }
static u32 crcof(const u8 *p, size_t n) { u32 c = ~0u; for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1; } return ~c; }
static void check_bmp(const u8 *d, size_t n) {
	int w = S[cur].w, h = S[cur].h;
	if (n < 54 || d[0] != 'B' || d[1] != 'M') BAD("not a BMP file: %zu bytes", n);
	if (le(d + 2, 4) != n) BAD("the BMP header says %u bytes, the file has %zu", le(d + 2, 4), n);
	u32 off = le(d + 10, 4), isz = le(d + 34, 4); size_t row = ((size_t) w * 3 + 3) / 4 * 4;
	if ((int) le(d + 18, 4) != w || (int) le(d + 22, 4) != h) BAD("the BMP header says %dx%d, the picture is %dx%d", (int) le(d + 18, 4), (int) le(d + 22, 4), w, h);
	if (le(d + 14, 4) != 40 || le(d + 26, 2) != 1 || le(d + 28, 2) != 24 || le(d + 30, 4) || off < 54 || le(d + 46, 4)) BAD("the BMP header is not that of a 24-bit picture");
	if (n != off + row * (size_t) h || (isz && isz != row * (size_t) h)) BAD("a BMP picture of %dx%d has %zu bytes of pixels", w, h, n - off);
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const u8 *p = d + off + (size_t) (h - 1 - y) * row + (size_t) x * 3; px *c = at(cur, x, y); same("blue", x, y, p[0], c->b, 0); same("green", x, y, p[1], c->g, 0); same("red", x, y, p[2], c->r, 0); }
}
static void check_ppm(const u8 *d, size_t n) {
	int w = S[cur].w, h = S[cur].h, v[3]; size_t i = 2;
	if (n < 8 || d[0] != 'P' || d[1] != '6') BAD("not a PPM file");
	for (int k = 0; k < 3; k++) { while (i < n && (d[i] == ' ' || d[i] == '\n')) i++; v[k] = 0; while (i < n && d[i] >= '0' && d[i] <= '9') v[k] = v[k] * 10 + d[i++] - '0'; }
	i++;
	if (v[0] != w || v[1] != h || v[2] != 255) BAD("the PPM header says %dx%d (%d), the picture is %dx%d", v[0], v[1], v[2], w, h);
	if (n != i + (size_t) w * (size_t) h * 3) BAD("a PPM picture of %dx%d has %zu bytes of pixels", w, h, n - i);
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const u8 *p = d + i + ((size_t) y * (size_t) w + (size_t) x) * 3; px *c = at(cur, x, y); same("red", x, y, p[0], c->r, 0); same("green", x, y, p[1], c->g, 0); same("blue", x, y, p[2], c->b, 0); }
}
static void check_png(const u8 *d, size_t n) {
	int w = S[cur].w, h = S[cur].h, ihdr = 0, end = 0; const u8 *pal = NULL, *trns = NULL; size_t npal = 0, ntr = 0; bytes_t z = {0}, raw = {0};
	if (n < 8 || memcmp(d, "\x89PNG\r\n\x1a\n", 8)) BAD("not a PNG file: %zu bytes", n);
	size_t i = 8;
	while (i < n && !end) {
		if (n - i < 12) BAD("the PNG file ends within a chunk");
		size_t l = be(d + i, 4); const u8 *t = d + i + 4, *p = t + 4;
		if (l > n - i - 12) BAD("a PNG chunk %.4s of %zu bytes reaches beyond the file", esc(t, 4), l);
		if (crcof(t, l + 4) != be(p + l, 4)) BAD("the checksum of the PNG chunk %.4s is wrong", esc(t, 4));
		if (!ihdr != !memcmp(t, "IHDR", 4)) BAD("IHDR is not where it must be");
		if (!memcmp(t, "IHDR", 4)) {
			ihdr = 1; if (l != 13) BAD("IHDR of %zu bytes", l);
			if ((int) be(p, 4) != w || (int) be(p + 4, 4) != h) BAD("the PNG header says %ux%u, the picture is %dx%d", be(p, 4), be(p + 4, 4), w, h);
			if (p[8] != 8 || p[9] != format || p[10] || p[11] || p[12]) BAD("the PNG header says depth %d, type %d, %d, %d, %d for mode %d", p[8], p[9], p[10], p[11], p[12], format);
		} else if (!memcmp(t, "PLTE", 4)) { if (pal || z.n || l % 3 || !l || l > 768) BAD("PLTE of %zu bytes", l); pal = p; npal = l / 3; }
		else if (!memcmp(t, "tRNS", 4)) { if (format != 3 || !pal || z.n || l > npal) BAD("tRNS of %zu bytes for %zu colours", l, npal); trns = p; ntr = l; }
		else if (!memcmp(t, "IDAT", 4)) bytes_add(&z, p, l);
		else if (!memcmp(t, "IEND", 4)) { if (l) BAD("IEND of %zu bytes", l); end = 1; }
		else if (!(t[0] & 0x20)) BAD("a critical PNG chunk %.4s", esc(t, 4));
		i += l + 12;
	}
	if (!end || i != n) BAD("%zu bytes after the end of the PNG file, or no end", n - i);
	if (format == 3 && !pal) BAD("no palette");
	if (z.n < 6 || (z.p[0] & 15) != 8 || be(z.p, 2) % 31 || z.p[1] & 32) BAD("the PNG data does not start as a zlib stream does");
	size_t k = 2; int last = 0;
	while (!last) {
		if (z.n - k < 5 + 4) BAD("the PNG data ends early");
		if (z.p[k] & 6) BAD("a block of type %d", z.p[k] >> 1 & 3);
		last = z.p[k] & 1; u32 l = le(z.p + k + 1, 2); if ((le(z.p + k + 3, 2) ^ l) != 0xffff) BAD("the length of a block of PNG data is damaged");
		if (z.n - k - 9 < l) BAD("a block of %u bytes is longer than the PNG data", l);
		bytes_add(&raw, z.p + k + 5, l); k += 5 + l;
	}
	if (z.n != k + 4) BAD("%zu bytes after the PNG data", z.n - k);
	u32 a = 1, b = 0; for (size_t j = 0; j < raw.n; j++) { a = (a + raw.p[j]) % 65521; b = (b + a) % 65521; }
	if (be(z.p + k, 4) != (b << 16 | a)) BAD("the checksum of the PNG data is wrong");
	int bpp = format == 0 || format == 3 ? 1 : format == 4 ? 2 : format == 2 ? 3 : 4; size_t row = 1 + (size_t) bpp * (size_t) w;
	if (raw.n != row * (size_t) h) BAD("a PNG picture of %dx%d (mode %d) has %zu bytes of pixels", w, h, format, raw.n);
	for (int y = 0; y < h; y++) {
		const u8 *p = raw.p + row * (size_t) y; if (*p) BAD("line %d has the filter %d", y, *p); p++;
		for (int x = 0; x < w; x++, p += bpp) {
			px *c = at(cur, x, y); int g = (int) (c->r * 0.2989 + c->g * 0.5870 + c->b * 0.1140);
			if (format == 0 || format == 4) same("gray", x, y, p[0], g, 1);
			if (format == 4) same("alpha", x, y, p[1], c->t, 0);
			if (format == 2 || format == 6) { same("red", x, y, p[0], c->r, 0); same("green", x, y, p[1], c->g, 0); same("blue", x, y, p[2], c->b, 0); }
			if (format == 6) same("alpha", x, y, p[3], c->t, 0);
			if (format == 3) { if (p[0] >= npal) BAD("pixel %d,%d has colour %d of %zu", x, y, p[0], npal); const u8 *e = pal + p[0] * 3; same("red", x, y, e[0], c->r, 0); same("green", x, y, e[1], c->g, 0); same("blue", x, y, e[2], c->b, 0); same("alpha", x, y, p[0] < ntr ? trns[p[0]] : 255, c->t, 0); }
		}
	}
	free(z.p); free(raw.p);
}
static u64 hit(void) { static int ks[] = {F_WRITE_EIO, F_ENOSPC, F_OPEN_FAIL, F_CLOSE_FAIL}; u64 s = 0; for (int i = 0; i < 4; i++) s += sim_fired(ks[i]); return s; }
static u64 before; static long cap = -1;
void scen_note(int what, long a, long b) {
	px c = {(int) (a % 1000), (int) (a / 1000), (int) (b % 1000), (int) (b / 1000)};
	if (what == TRY) { writing = (int) a; before = hit(); return; }
	if (refusing && (what == PIXEL || what == WRITTEN || what == SIZE)) { if (what == WRITTEN && !a) { refusing = 0; return; } sim_violation("accepted", what == WRITTEN ? "a line too long for the format (%d pixels, mode %d) was written" : "a pixel outside of the picture was accepted (%d)", what == WRITTEN ? S[cur].w : what, format); }
	if (what == SIZE && (a != S[cur].w || b != S[cur].h)) sim_violation("size", "explode made %ldx%ld of what should be %dx%d", a, b, S[cur].w, S[cur].h);
	if (what == PIXEL || what == MIX) {
		if (iwant >= nwant) sim_harness_error("note");
		px e = want[iwant++]; if (what == MIX) c.t = e.t;
		if (far(c.r, e.r) || far(c.g, e.g) || far(c.b, e.b) || c.t != e.t) sim_violation("colour", "%s is %d,%d,%d,%d, should be %d,%d,%d,%d", what == MIX ? "a mixed or converted colour" : store ? "a blended pixel" : "a pixel", c.r, c.g, c.b, c.t, e.r, e.g, e.b, e.t);
		if (store) *store = c;
	}
	if (what == END) finished = 1;
	if (what != WRITTEN) return;
	writing = 0;
	size_t n = 0; const u8 *d = fs_get("/w/out", &n);
	if (!a) { if (hit() == before && cap < 0) sim_violation("refused", "writing a picture of %dx%d (format %d) failed", S[cur].w, S[cur].h, format); sim_probe(11); return; }
	if (!d) sim_violation("lost", "a picture was written without an error and is not there");
	// what is in the file is judged by what it is
	if (format == 100) check_bmp(d, n); else if (format == 101) check_ppm(d, n); else check_png(d, n);
	sim_hash(hash_bytes(3, d, n));
}
void scen_setup(void) {
	fs_mkdir("/w"); steps = 1 + (int) sim_choose(40);
	if (sim_flip(1, 4)) fs_put("/w/out", "an older file that is longer than some pictures: 0123456789012345678901234567890123456789012345678901234567890123456789", 120);
	int f = (int) sim_choose(12); int ks[] = {F_WRITE_EIO, F_ENOSPC, F_OPEN_FAIL, F_CLOSE_FAIL};
	if (f < 4) { sim_enable(ks[f], 1 + sim_choose(8), 2); failing = 1; }
	if (f == 4) { for (int i = 0; i < 4; i++) sim_enable_some(ks[i], 1 + sim_choose(12), 2); failing = 1; }
	if (f == 5) { cap = 1 + (long) sim_choose(2000); fs_set_capacity(cap); failing = 1; }
	sim_enable_some(F_SHORT_WRITE, 1 + sim_choose(6), 3000);
	static u32 bufs[] = {4096, 1, 16, 512}; sim_set_iobuf(bufs[sim_choose(4)]);
	sim_set_step_limit(20000000); sim_set_preempt(0);
	sim_detail("steps=%d fault=%d", steps, f);
	app = sim_app("image", 1, (char *[]) {"image", NULL}, NULL);
}
void scen_end(void) {
	int st; size_t en;
	if (!sim_proc_exited(app, &st)) sim_violation("hang", "does not end: %s", sim_blocked_report());
	const char *e = sim_stderr_of(app, &en);
	if ((st & 0x7f) && (st & 0x7f) != SIGABRT) sim_violation("crash", "died of signal %d: %s", st & 0x7f, esc(e, en > 200 ? 200 : en));
	if (st) {
		int failed = writing && (hit() > before || cap >= 0);
		if (!refusing && !failed) sim_violation("died", "ended with an error: %s", esc(e, en > 200 ? 200 : en));
		if (!en) sim_violation("silent", "failed without a message");
		if (refusing) sim_probe(10); else sim_probe(11);
		return;
	}
	if (!finished) sim_violation("died", "ended early");
	if (sim_proc_live_blocks(app)) sim_violation("leak", "%d blocks are still allocated", sim_proc_live_blocks(app));
	if (sim_proc_openfds(app) > 3) sim_violation("leak", "%d files are open", sim_proc_openfds(app) - 3);
}
