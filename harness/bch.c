/* BCH codes over the real ecc/bch.c: symbolic chunk, symbolic error positions. */
#include "vx.h"
#include "ecc/bch.h"

#define MAXLEN 1024
static uint8_t orig[MAXLEN + 8], chunk[MAXLEN + 8], code[16], code0[16];

static uint16_t mulx(uint16_t a) { a <<= 1; if (a & 8192) a ^= 0x201b; return a; }
static uint16_t mul(uint16_t a, uint16_t b)
{
	uint16_t r = 0;
	for (int i = 12; i >= 0; i--) { r = mulx(r); if (b >> i & 1) r ^= a; }
	return r;
}
static int same(const uint8_t *a, const uint8_t *b, uint32_t n)
{
	uint8_t d = 0;
	for (uint32_t i = 0; i < n; i++) d |= a[i] ^ b[i];
	return d == 0;
}

void vx_main(void)
{
	const uint32_t len = vx_param("len", 64), mode = vx_param("mode", 0), t = vx_param("t", 1);
	const struct bch_def *const bch = t == 1 ? &bch_1bit : t == 2 ? &bch_2bit : t == 3 ? &bch_3bit : &bch_4bit;
	const uint32_t deg = 13 * t, eb = (deg + 7) / 8, nbits = 8 * len + deg;
	vx_assert(eb <= BCH_MAX_ECC, "code bytes fit the documented maximum");
	/* guard bytes around what repair may write */
	for (uint32_t i = 0; i < MAXLEN + 8; i++) orig[i] = chunk[i] = 0x5a;
	for (uint32_t i = 0; i < 16; i++) code[i] = 0x3c;
	const uint32_t symdata = vx_param("symdata", len);
	for (uint32_t i = 0; i < len; i++) orig[i] = chunk[i] = i < symdata ? (uint8_t)vx_sym("data", i, 8) : (uint8_t)(i * 29 + 7);
	bch_generate(bch, chunk, len, code);
	for (int i = 0; i < 16; i++) code0[i] = code[i];
	if (mode == 0) {
		vx_assert(same(chunk, orig, MAXLEN + 8), "generating the code leaves the chunk alone");
		for (uint32_t i = eb; i < 16; i++) vx_assert(code[i] == 0x3c, "generating writes the code bytes only");
		vx_assert(bch_verify(bch, chunk, len, code) == 0, "a chunk with the code generated for it passes");
		for (uint32_t b = deg; b < 8 * eb; b++) code[b / 8] ^= (uint8_t)(vx_sym("unused", b, 1) << (b % 8));
		vx_assert(bch_verify(bch, chunk, len, code) == 0, "unused bits of the last code byte are ignored");
		/* the word vanishes at the first 2t powers of the primitive element: with the
		 * BCH bound any two such words differ in more than 2t bits */
		uint16_t x = 1;
		for (uint32_t j = 1; j <= 2 * t; j++) {
			uint16_t y = 0, w = 1;
			x = mulx(x);
			for (uint32_t p = 0; p < nbits; p++) {
				const uint8_t byte = (p < 8 * len ? chunk[p / 8] : code[p / 8 - len]) ^ 0xff;
				y ^= w & (uint16_t)(0 - (byte >> (p % 8) & 1));
				w = mul(w, x);
			}
			vx_assert(y == 0, "the word vanishes at each of the first 2t powers of the primitive element");
		}
		uint64_t any = 0;
		for (uint32_t b = 0; b < deg; b++) { const uint64_t d = vx_sym("diff", b, 1); code[b / 8] ^= (uint8_t)(d << (b % 8)); any |= d; }
		if (vx_param("zero", 0)) vx_assume(!any); else vx_assume(any != 0);
		vx_assert((bch_verify(bch, chunk, len, code) == 0) == !any, "a chunk with any other code is rejected");
		vx_assert(same(chunk, orig, MAXLEN + 8), "verification leaves the chunk alone");
		for (uint32_t i = 0; i < len; i++) chunk[i] = 0xff;
		for (uint32_t i = 0; i < eb; i++) code[i] = 0xff;
		vx_assert(bch_verify(bch, chunk, len, code) == 0, "an erased chunk with an erased code passes");
		vx_cover("verification");
		return;
	}
	if (mode == 2) {	/* any change at all which goes unnoticed changes more than 2t bits */
		uint32_t cnt = 0;
		for (uint32_t b = 0; b < nbits; b++) {
			const uint8_t d = (uint8_t)vx_sym("flip", b, 1);
			cnt += d;
			if (b < 8 * len) chunk[b / 8] ^= d << (b % 8);
			else code[b / 8 - len] ^= d << (b % 8);
		}
		vx_assume(cnt > 0 && cnt <= 2 * t);
		vx_assert(bch_verify(bch, chunk, len, code) != 0, "up to 2t flipped bits are noticed");
		vx_cover("detection");
		return;
	}
	/* flip n bits: positions increasing; the last one first so that parts are even */
	const uint32_t n = vx_param("n", t), lg = vx_param("lg", 13), parts = vx_param("parts", 1), part = vx_param("part", 0);
	uint32_t prev = nbits;
	for (uint32_t k = 0; k < n; k++) {
		uint32_t p = (uint32_t)vx_sym("pos", k, lg);
		vx_assume(p < prev);
		if (k == 0) vx_assume(p % parts == part);
		else vx_assume(p % vx_param("pin", 1) == vx_param("pinr", 0));
		p = (uint32_t)vx_concretize(p);
		prev = p;
		if (p < 8 * len) chunk[p / 8] ^= 1 << (p % 8);
		else { p -= 8 * len; code[p / 8] ^= 1 << (p % 8); }
	}
	bch_repair(bch, chunk, len, code);
	if (n <= t) {
		vx_assert(same(chunk, orig, len), "the chunk is repaired");
		vx_assert(same(code, code0, eb), "the code is repaired");
		vx_assert(bch_verify(bch, chunk, len, code) == 0, "what was repaired passes verification");
	}
	vx_assert(same(chunk + len, orig + len, MAXLEN + 8 - len) && same(code + eb, code0 + eb, 16 - eb), "repair writes the chunk and the code only");
	vx_cover("repair");
}
