// SHA-1, for the oracle
static void sha1_of(const u8 *p, size_t n, u8 out[20]) {
	u32 h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	size_t tot = (n + 9 + 63) / 64 * 64;
	u8 *m = calloc(1, tot); if (n) memcpy(m, p, n);
	m[n] = 0x80;
	for (int i = 0; i < 8; i++) m[tot - 1 - i] = (u8) (((u64) n * 8) >> (8 * i));
	for (size_t o = 0; o < tot; o += 64) {
		u32 w[80];
		for (int i = 0; i < 16; i++) w[i] = (u32) m[o + 4 * i] << 24 | m[o + 4 * i + 1] << 16 | m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
		for (int i = 16; i < 80; i++) { u32 x = w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]; w[i] = x << 1 | x >> 31; }
		u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i < 80; i++) {
			u32 f, k;
			if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
			else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
			u32 t = (a << 5 | a >> 27) + f + e + k + w[i];
			e = d; d = c; c = b << 30 | b >> 2; b = a; a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
	}
	free(m);
	for (int i = 0; i < 20; i++) out[i] = (u8) (h[i / 4] >> (24 - 8 * (i % 4)));
}
