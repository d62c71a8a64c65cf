// Drives the byte stream layer: readers, writers, tokenizer, endian, bits, linereader, bytereader.
#import bits
#import bytereader
#import enc/endian
#import linereader
#import reader
#import tokenizer
#import writer

#define A_MODULE 0
#define A_KIND 1
#define A_ORDER 2
#define A_SIZE 3
#define A_OP 4
#define A_ARG 5
#define A_LEN 6

#define S_ALL 0
#define S_LIT 1

#define N_RESULT 1
#define N_POS 2
#define N_END 3
#define N_NULL 4

#define B_BUF 1
#define B_STR 2
#define B_VAL 3
#define B_DEST 4

int rd(void *ctx, uint8_t *buf, size_t n) {
	int *id = ctx;
	return OS.sim_input(*id, buf, n);
}
int wr(void *ctx, const uint8_t *buf, size_t n) {
	int *id = ctx;
	return OS.sim_output(*id, buf, n);
}
void result(int64_t v) {
	OS.sim_note(N_RESULT, v, 0);
}

int zero = 0;
int one = 1;
FILE *openfile = NULL;
uint8_t *whole = NULL;

reader.t *source() {
	switch (OS.sim_arg(A_KIND)) {
		case 0: { return reader.new(&zero, rd, NULL); }
		case 1: {
			openfile = fopen("/data", "rb");
			return reader.file(openfile);
		}
		case 2: { return reader.stdin(); }
		case 3: { return reader.fd(0); }
	}
	size_t n = (size_t) OS.sim_arg(A_SIZE);
	whole = calloc!(n + 1, 1);
	OS.sim_str(S_ALL, whole, n);
	if (OS.sim_arg(A_KIND) == 4) return reader.static_buffer(whole, n);
	return reader.string((char *) whole);
}
void dropsource(reader.t *r) {
	OS.sim_note(N_POS, (int64_t) r->pos, 0);
	reader.free(r);
	if (openfile) fclose(openfile);
	if (whole) free(whole);
}

void tokens() {
	reader.t *r = source();
	tokenizer.t *b = tokenizer.new(r);
	while (true) {
		int op = (int) OS.sim_arg(A_OP);
		if (op < 0) break;
		int arg = (int) OS.sim_arg(A_ARG);
		size_t len = (size_t) OS.sim_arg(A_LEN);
		char lit[200] = {};
		OS.sim_str(S_LIT, lit, 199);
		// A caller's buffer of exactly len bytes.
		char *buf = calloc!(len + 16, 1);
		memset(buf, 0xA5, len + 16);
		switch (op) {
			case 0: { result(tokenizer.peek(b)); }
			case 1: { result(tokenizer.get(b)); }
			case 2: { result(tokenizer.more(b)); }
			case 3: { result(tokenizer.skip_literal(b, lit)); }
			case 4: { result(tokenizer.literal_follows(b, lit)); }
			case 5: {
				bool ok = tokenizer.read_until(b, (char) arg, buf, len);
				OS.sim_bytes(B_BUF, buf, len + 16);
				result(ok);
			}
			case 6: {
				bool ok = tokenizer.id(b, buf, len);
				OS.sim_bytes(B_BUF, buf, len + 16);
				result(ok);
			}
			case 7: {
				bool ok = tokenizer.num(b, buf, len);
				OS.sim_bytes(B_BUF, buf, len + 16);
				result(ok);
			}
			case 8: { result(tokenizer.spaces(b)); }
			case 9: { tokenizer.hspaces(b); result(0); }
			case 10: { result(tokenizer.buf_skip(b, (char) arg)); }
			case 11: { tokenizer.buf_skip_set(b, lit); result(0); }
			case 12: {
				char *s = tokenizer.buf_read_set(b, lit);
				OS.sim_bytes(B_STR, s, strlen(s));
				free(s);
				result(0);
			}
			case 13: {
				char *s = tokenizer.buf_skip_until(b, lit);
				OS.sim_bytes(B_STR, s, strlen(s));
				free(s);
				result(0);
			}
			case 14: {
				tokenizer.tail(b, buf, len);
				OS.sim_bytes(B_BUF, buf, len + 16);
				result(0);
			}
			case 15: {
				const char *s = tokenizer.posstr(b);
				OS.sim_bytes(B_STR, s, strlen(s));
				result(0);
			}
		}
		free(buf);
	}
	tokenizer.free(b);
	dropsource(r);
}

void numbers() {
	reader.t *r = source();
	while (true) {
		int op = (int) OS.sim_arg(A_OP);
		if (op < 0) break;
		size_t len = (size_t) OS.sim_arg(A_LEN);
		uint8_t v1 = 0;
		uint16_t v2 = 0;
		uint32_t v4 = 0;
		int k = 0;
		switch (op) {
			case 0: {
				uint8_t *buf = calloc!(len + 16, 1);
				memset(buf, 0xA5, len + 16);
				k = reader.read(r, buf, len);
				OS.sim_bytes(B_BUF, buf, len + 16);
				free(buf);
			}
			case 1: { k = endian.read1(r, &v1); OS.sim_bytes(B_VAL, &v1, 1); }
			case 2: { k = endian.read2le(r, &v2); OS.sim_bytes(B_VAL, &v2, 2); }
			case 3: {
				if (endian.read2be(r, &v2)) k = 2;
				OS.sim_bytes(B_VAL, &v2, 2);
			}
			case 4: { k = endian.read3le(r, &v4); OS.sim_bytes(B_VAL, &v4, 4); }
			case 5: { k = endian.read4be(r, &v4); OS.sim_bytes(B_VAL, &v4, 4); }
			case 6: { k = endian.read4le(r, &v4); OS.sim_bytes(B_VAL, &v4, 4); }
			case 7: { reader.skip(r, len); }
		}
		result(k);
	}
	dropsource(r);
}

void readbits() {
	reader.t *r = source();
	int order = bits.STRAIGHT;
	if (OS.sim_arg(A_ORDER)) order = bits.REVERSED;
	bits.reader_t *b = bits.newreader(r, order);
	while (true) {
		int op = (int) OS.sim_arg(A_OP);
		if (op < 0) break;
		if (op == 0) result(bits.read1(b));
		if (op == 1) result(bits.readn(b, (int) OS.sim_arg(A_LEN)));
	}
	bits.closereader(b);
	dropsource(r);
}

void lines() {
	FILE *f = stdin;
	if (OS.sim_arg(A_KIND) == 1) {
		f = fopen("/data", "rb");
		if (!f) {
			OS.sim_note(N_NULL, 0, 0);
			return;
		}
	}
	linereader.t *l = linereader.new(f);
	while (linereader.read(l)) {
		char *s = linereader.line(l);
		OS.sim_bytes(B_STR, s, strlen(s));
		result(1);
	}
	// Once ended, it stays so.
	if (linereader.read(l)) result(1);
	result(0);
	linereader.free(l);
	if (OS.sim_arg(A_KIND) == 1) fclose(f);
}

void readbytes() {
	bytereader.reader_t *r = bytereader.newreader("/data");
	if (!r) {
		OS.sim_note(N_NULL, 0, 0);
		return;
	}
	while (true) {
		int op = (int) OS.sim_arg(A_OP);
		if (op < 0) break;
		switch (op) {
			case 0: { result(bytereader.readc(r)); }
			case 1: { result(bytereader.peekc(r)); }
			case 2: { result(bytereader.read16(r)); }
			case 3: { result(bytereader.read32(r)); }
			case 4: { result(bytereader.ended(r)); }
		}
	}
	bytereader.freereader(r);
}

uint8_t *area = NULL;
size_t areasize = 0;

writer.t *sink() {
	switch (OS.sim_arg(A_KIND)) {
		case 0: { return writer.new(&one, wr, NULL); }
		case 1: {
			openfile = fopen("/out", "wb");
			if (!openfile) panic("can't open the output");
			return writer.file(openfile);
		}
		case 2: { return writer.stdout(); }
		case 3: { return writer.fd(1); }
	}
	areasize = (size_t) OS.sim_arg(A_SIZE);
	area = calloc!(areasize + 16, 1);
	memset(area, 0xA5, areasize + 16);
	return writer.static_buffer(area, areasize);
}
void dropsink(writer.t *w) {
	OS.sim_note(N_POS, (int64_t) w->nwritten, 0);
	writer.free(w);
	if (area) {
		OS.sim_bytes(B_DEST, area, areasize + 16);
		free(area);
	}
	if (openfile) fclose(openfile);
}

void writes() {
	writer.t *w = sink();
	while (true) {
		int op = (int) OS.sim_arg(A_OP);
		if (op < 0) break;
		uint32_t v = (uint32_t) OS.sim_arg(A_ARG);
		switch (op) {
			case 0: {
				size_t len = (size_t) OS.sim_arg(A_LEN);
				uint8_t *buf = calloc!(len + 1, 1);
				OS.sim_str(S_LIT, buf, len);
				result(writer.write(w, buf, len));
				free(buf);
			}
			case 1: { result(writer.writebyte(w, (uint8_t) (v % 256))); }
			case 2: { result(endian.write1(w, (char) (v % 256))); }
			case 3: { result(endian.write2le(w, v)); }
			case 4: { result(endian.write4be(w, v)); }
			case 5: { result(endian.write4le(w, v)); }
		}
	}
	dropsink(w);
}

void writebits() {
	writer.t *w = sink();
	int order = bits.STRAIGHT;
	if (OS.sim_arg(A_ORDER)) order = bits.REVERSED;
	bits.writer_t *b = bits.newwriter(w, order);
	while (true) {
		int op = (int) OS.sim_arg(A_OP);
		if (op < 0) break;
		if (op == 0) {
			result(bits.write1(b, (uint8_t) OS.sim_arg(A_ARG)));
		} else {
			uint8_t buf[300] = {};
			size_t len = (size_t) OS.sim_arg(A_LEN);
			OS.sim_str(S_LIT, buf, len);
			result(bits.write(b, buf, len));
		}
	}
	result(bits.closewriter(b));
	dropsink(w);
}

pub int main() {
	switch (OS.sim_arg(A_MODULE)) {
		case 0: { tokens(); }
		case 1: { numbers(); }
		case 2: { readbits(); }
		case 3: { lines(); }
		case 4: { readbytes(); }
		case 5: { writes(); }
		case 6: { writebits(); }
	}
	OS.sim_note(N_END, 0, 0);
	return 0;
}
