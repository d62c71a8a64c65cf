// Drives compress/lzw and compress/huffman: packs a message into a sink and unpacks it again from a source.
#import bits
#import compress/huffman
#import compress/lzw
#import reader
#import writer

#define A_MODULE 0
#define A_KIND 1
#define A_ALPHABET 2
#define A_SIZE 3
#define A_UNPACK 4
#define A_STRANGER 5

#define S_ALL 0

#define N_PACKED 1
#define N_CHAR 2
#define N_END 3
#define N_WRITE 4

int streams[] = {0, 1, 2, 3};

int rd(void *ctx, uint8_t *buf, size_t n) {
	int *id = ctx;
	return OS.sim_input(*id, buf, n);
}
int wr(void *ctx, const uint8_t *buf, size_t n) {
	int *id = ctx;
	return OS.sim_output(*id, buf, n);
}

uint8_t *whole = NULL;
FILE *openfile = NULL;

reader.t *source() {
	switch (OS.sim_arg(A_KIND)) {
		case 0: { return reader.new(&streams[0], rd, NULL); }
		case 1: {
			openfile = fopen("/data", "rb");
			return reader.file(openfile);
		}
		case 2: { return reader.fd(0); }
	}
	return reader.static_buffer(whole, (size_t) OS.sim_arg(A_SIZE));
}

void lzw_pack() {
	reader.t *r = source();
	writer.t *w = writer.new(&streams[1], wr, NULL);
	bool ok = lzw.compress(r, (size_t) OS.sim_arg(A_ALPHABET), w);
	reader.free(r);
	writer.free(w);
	if (openfile) fclose(openfile);
	OS.sim_note(N_PACKED, ok, 0);
}

void lzw_unpack() {
	reader.t *r = reader.new(&streams[2], rd, NULL);
	writer.t *w = writer.new(&streams[3], wr, NULL);
	lzw.dec_t *d = lzw.newdecoder(r, (size_t) OS.sim_arg(A_ALPHABET));
	lzw.decodeinto(d, w);
	lzw.freedecoder(d);
	reader.free(r);
	writer.free(w);
}

void huffman_pack(huffman.tree_t *t) {
	writer.t *out = writer.new(&streams[1], wr, NULL);
	huffman.writer_t *w = huffman.newwriter(t, out);
	bool ok = true;
	size_t n = (size_t) OS.sim_arg(A_SIZE);
	for (size_t i = 0; i < n && ok; i++) {
		ok = huffman.write(w, whole[i]);
	}
	// A byte the tree has no code for.
	int stranger = (int) OS.sim_arg(A_STRANGER);
	if (ok && stranger >= 0) {
		OS.sim_note(N_WRITE, huffman.write(w, (uint8_t) stranger), 0);
	}
	huffman.closewriter(w);
	writer.free(out);
	OS.sim_note(N_PACKED, ok, 0);
}

void huffman_unpack(huffman.tree_t *t) {
	reader.t *r = reader.new(&streams[2], rd, NULL);
	bits.reader_t *b = bits.newreader(r, bits.STRAIGHT);
	huffman.reader_t *h = huffman.newreader(t, b);
	size_t n = (size_t) OS.sim_arg(A_SIZE);
	for (size_t i = 0; i < n; i++) {
		OS.sim_note(N_CHAR, huffman.read(h), 0);
	}
	huffman.closereader(h);
	bits.closereader(b);
	reader.free(r);
}

pub int main() {
	size_t n = (size_t) OS.sim_arg(A_SIZE);
	whole = calloc!(n + 1, 1);
	OS.sim_str(S_ALL, whole, n);
	switch (OS.sim_arg(A_MODULE)) {
		case 0: {
			lzw_pack();
			if (OS.sim_arg(A_UNPACK)) lzw_unpack();
		}
		case 1: {
			huffman.tree_t *t = huffman.buildtree((char *) whole);
			huffman_pack(t);
			if (OS.sim_arg(A_UNPACK)) huffman_unpack(t);
			huffman.freetree(t);
		}
	}
	free(whole);
	OS.sim_note(N_END, 0, 0);
	return 0;
}
