/* CRC-32 over the real ecc/crc32.c.  Block contents and carry are symbolic. */
#include "vx.h"
#include "ecc/crc32.h"

#define MAXLEN 1024
static uint8_t block[MAXLEN];

/* the definition: one bit at a time over inverted data, inverted register */
static uint32_t define(const uint8_t *p, uint32_t n, uint32_t c)
{
	uint32_t r = ~c;
	for (uint32_t i = 0; i < n; i++) {
		r ^= (uint8_t)~p[i];
		for (int k = 0; k < 8; k++)
			r = (r >> 1) ^ (0xedb88320u & (0 - (r & 1)));
	}
	return ~r;
}

static uint32_t tab[4096];

void vx_main(void)
{
	const uint32_t len = vx_param("len", 512), mode = vx_param("mode", 0);
	const uint32_t c = (uint32_t)vx_sym("carry", 0, 32);
	if (mode == 0) {
		for (uint32_t i = 0; i < len; i++) block[i] = (uint8_t)vx_sym("data", i, 8);
		const uint32_t whole = crc32_nand(block, len, c);
		vx_assert(whole == define(block, len, c), "the checksum equals its bitwise definition");
		const uint32_t step = vx_param("step", 1);
		for (uint32_t k = 0; k <= len; k += step)
			vx_assert(crc32_nand(block + k, len - k, crc32_nand(block, k, c)) == whole, "checksumming in two pieces equals checksumming at once");
		uint32_t s = c;
		for (uint32_t k = 0; k < len; k++) {
			s = crc32_nand(block + k, 1, s);
			vx_assert(crc32_nand(block, 0, s) == s, "an empty piece changes nothing");
		}
		vx_assert(s == whole, "checksumming byte by byte equals checksumming at once");
		uint8_t d = 0;
		for (uint32_t i = 0; i < len; i++) d |= block[i] ^ (uint8_t)vx_sym("data", i, 8);
		vx_assert(!d, "the block is left alone");
		for (uint32_t i = 0; i < len; i++) block[i] = 0xff;
		vx_assert(crc32_nand(block, len, CRC32_INIT) == 0xffffffff, "an erased block has an erased checksum");
		vx_cover("definition");
		return;
	}
	if (mode == 1) {
		/* The register difference after equal bytes depends on the difference before
		 * only, and is not zero unless it was zero: so the first and the last
		 * byte in which two blocks differ may be taken as the ends of the blocks. */
		const uint32_t d = (uint32_t)vx_sym("diff", 0, 32);
		uint8_t b = (uint8_t)vx_sym("data", 0, 8), z = 0xff;
		const uint32_t e = crc32_nand(&b, 1, c) ^ crc32_nand(&b, 1, c ^ d);
		vx_assert(e == (crc32_nand(&z, 1, 0) ^ crc32_nand(&z, 1, d)), "equal bytes: the difference depends on the difference only");
		vx_assume(d != 0);
		vx_assert(e != 0, "equal bytes keep a difference");
		vx_cover("difference kept");
		return;
	}
	if (mode == 2) {
		/* difference made by one flipped bit, counted from the end of the block */
		uint8_t b = (uint8_t)vx_sym("data", 0, 8), b2;
		for (uint32_t j = 0; j < 8; j++) {
			b2 = b ^ (uint8_t)(1 << j);
			uint32_t d = crc32_nand(&b, 1, c) ^ crc32_nand(&b2, 1, c);
			for (uint32_t k = 0; k < len; k++) {
				d = (uint32_t)vx_concretize(d);
				tab[8 * k + j] = d;
				vx_assert(d != 0, "one flipped bit changes the checksum");
				const uint8_t v = (uint8_t)vx_sym("data", k + 1, 8);
				const uint32_t x = (uint32_t)vx_sym("carry", k + 1, 32);
				d = crc32_nand(&v, 1, x) ^ crc32_nand(&v, 1, x ^ d);
			}
		}
		const uint32_t lg = vx_param("lg", 12), parts = vx_param("parts", 1);
		const uint32_t p = (uint32_t)vx_sym("pos", 0, lg), q = (uint32_t)vx_sym("qos", 0, lg);
		vx_assume(p < 8 * len && q < 8 * len && p % parts == vx_param("part", 0));
		const uint32_t tq = tab[q];
		const uint32_t tp = (uint32_t)vx_concretize(tab[p]);
		for (uint32_t j = 0; j < 8; j++) {
			if (p <= j) continue;
			const uint32_t two = tab[j] ^ tp;
			vx_assert(two != 0, "two flipped bits change the checksum");
			vx_assert((q == j) | (q == p) | ((two ^ tq) != 0), "three flipped bits change the checksum");
		}
		vx_cover("three bits");
		return;
	}
	/* a burst: any change within 32 consecutive bits */
	uint8_t a[5], b[5];
	const uint32_t sh = vx_param("shift", 0);
	const uint64_t pat = (uint64_t)(uint32_t)vx_sym("burst", 0, 32) << sh;
	for (int i = 0; i < 5; i++) { a[i] = (uint8_t)vx_sym("data", i, 8); b[i] = a[i] ^ (uint8_t)(pat >> (8 * i)); }
	vx_assume(pat != 0);
	vx_assert(crc32_nand(a, 5, c) != crc32_nand(b, 5, c), "a burst of up to 32 bits changes the checksum");
	vx_cover("burst");
}
