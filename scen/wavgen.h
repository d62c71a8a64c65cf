// Makes WAV files of all shapes.
typedef struct { int ch, bits, stream, ok; u32 freq, n; int *l, *r; bytes_t f; size_t data; } wave_t;
static void le2(bytes_t *b, u32 v) { u8 x[2] = {(u8) v, (u8) (v >> 8)}; bytes_add(b, x, 2); }
static void le4(bytes_t *b, u32 v) { le2(b, v & 0xffff); le2(b, v >> 16); }
static void lev(bytes_t *b, int v, int bits) { u8 x[3] = {(u8) v, (u8) (v >> 8), (u8) (v >> 16)}; bytes_add(b, x, (size_t) bits / 8); }
enum { W_FINE, W_CUT, W_SHORT, W_TAG, W_FORMAT, W_LIST, W_ODD, W_KINDS };
// l, r, n, ch, bits, freq and stream are given
static void wave_file(wave_t *w, int bad) {
	bytes_t *f = &w->f; f->n = 0; w->ok = bad == W_FINE;
	u32 size = w->n * (u32) (w->ch * w->bits / 8), len = w->stream ? 0xffffffff : size, tail = 0;
	int tagbad = bad == W_TAG ? 1 + (int) sim_choose(4) : 0, fb = bad == W_FORMAT ? 1 + (int) sim_choose(6) : 0;
	bytes_str(f, tagbad == 1 ? "RIFX" : "RIFF"); le4(f, len == 0xffffffff ? len : size + 36); bytes_str(f, tagbad == 2 ? "AVI " : "WAVE");
	bytes_str(f, tagbad == 3 ? "fmtx" : "fmt "); le4(f, fb == 1 ? 18 : 16);
	int c = fb == 3 ? (sim_flip(1, 2) ? 0 : 3) : w->ch, bi = fb == 4 ? (sim_flip(1, 2) ? 8 : 32) : w->bits;
	le2(f, fb == 2 ? 3 : 1); le2(f, (u32) c); le4(f, fb == 5 ? 0 : w->freq); le4(f, w->freq * (u32) (w->ch * w->bits / 8)); le2(f, (u32) (w->ch * w->bits / 8)); le2(f, fb == 6 ? 0 : (u32) bi);
	if (fb == 1) le2(f, 0);
	if (bad == W_LIST || sim_flip(1, 3)) {
		bytes_t x = {0}; bytes_str(&x, "INFO");
		for (u32 k = sim_choose(4); k; k--) { u32 n = sim_flip(1, 6) ? 990 + sim_choose(4000) : sim_choose(40); bytes_str(&x, "IART"); le4(&x, n); for (u32 i = 0; i < n + (n & 1); i++) ch(&x, 'i'); }
		bytes_str(f, "LIST");
		if (bad == W_LIST) switch (sim_choose(4)) {
			case 0: le4(f, (u32) x.n + 4); bytes_add(f, x.p, x.n); bytes_str(f, "ICMT"); break; // an entry without a length
			case 1: le4(f, sim_choose(4)); bytes_add(f, x.p, x.n); break;
			case 2: le4(f, (u32) x.n + 8); bytes_add(f, x.p, x.n); bytes_str(f, "ICMT"); le4(f, sim_flip(1, 2) ? 0xfffffff0 : 70000); break; // a value longer than the list
			default: le4(f, (u32) x.n); bytes_str(f, "XNFO"); bytes_add(f, x.p + 4, x.n - 4); }
		else { le4(f, (u32) x.n); bytes_add(f, x.p, x.n); }
		free(x.p);
	}
	if (sim_flip(1, 5)) { u32 n = sim_flip(1, 4) ? 4090 + sim_choose(5000) : sim_choose(50); bytes_str(f, "PAD "); le4(f, n); while (n--) ch(f, 0); }
	bytes_str(f, tagbad == 4 ? "dato" : "data");
	if (bad == W_ODD) { len = size + 1 + sim_choose((u32) (w->ch * w->bits / 8 - 1)); tail = 40; }
	if (bad == W_SHORT) len = size + 1 + sim_choose(sim_flip(1, 4) ? 0x7fffffff : 500);
	le4(f, len); w->data = f->n;
	for (u32 i = 0; i < w->n; i++) { lev(f, w->l[i], w->bits); if (w->ch == 2) lev(f, w->r[i], w->bits); }
	if (bad == W_CUT) f->n = sim_choose((u32) w->data);
	if (tail || (!w->stream && bad == W_FINE && sim_flip(1, 4))) { bytes_str(f, "LIST"); for (int i = 0; i < 40; i++) ch(f, 0x41); }
}
__attribute__((unused)) static double wave_val(const wave_t *w, u32 i, int right) { return (double) (right && w->ch == 2 ? w->r[i] : w->l[i]) / ((1 << (w->bits - 1)) - 1); }
