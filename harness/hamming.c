/* Hamming code over the real ecc/hamming.c: symbolic chunk, symbolic error
 * positions. */
#include "vx.h"
#include "ecc/hamming.h"

static uint8_t orig[512], chunk[512], code[HAMMING_ECC_SIZE], code0[HAMMING_ECC_SIZE];

static void flip(uint32_t pos, uint32_t len)
{
	for (uint32_t k = 0; k < len; k++)
		chunk[k] ^= (uint8_t)((uint32_t)(pos >> 3 == k) << (pos & 7));
	for (uint32_t k = 0; k < HAMMING_ECC_SIZE; k++)
		code[k] ^= (uint8_t)((uint32_t)(pos >> 3 == len + k) << (pos & 7));
}
static int same(const uint8_t *a, const uint8_t *b, uint32_t n)
{
	uint8_t d = 0;
	for (uint32_t i = 0; i < n; i++) d |= a[i] ^ b[i];
	return d == 0;
}

void vx_main(void)
{
	const uint32_t len = vx_param("len", 512), mode = vx_param("mode", 0);
	for (uint32_t i = 0; i < len; i++) orig[i] = chunk[i] = (uint8_t)vx_sym("data", i, 8);
	/* neighbours of the chunk, to see that they are left alone */
	for (uint32_t i = len; i < 512; i++) orig[i] = chunk[i] = 0x5a;
	hamming_generate(chunk, len, code);
	for (int i = 0; i < HAMMING_ECC_SIZE; i++) code0[i] = code[i];
	vx_assert(same(chunk, orig, 512), "generating the code leaves the chunk alone");
	if (mode == 0) {
		vx_assert(hamming_syndrome(chunk, len, code) == 0, "a chunk and the code generated for it have syndrome 0");
		vx_assert(hamming_repair(chunk, len, 0) == 0, "nothing to repair");
		vx_assert(same(chunk, orig, 512), "repairing an intact chunk changes nothing");
		for (uint32_t i = 0; i < len; i++) chunk[i] = 0xff;
		for (int i = 0; i < HAMMING_ECC_SIZE; i++) code[i] = 0xff;
		vx_assert(hamming_syndrome(chunk, len, code) == 0, "an erased chunk with an erased code has syndrome 0");
		vx_cover("no error");
		return;
	}
	if (mode == 3) {	/* any syndrome at all: stays within the chunk, changes one bit at most */
		const uint32_t syn = (uint32_t)vx_sym("syn", 0, 24);
		vx_assume(syn % vx_param("parts", 1) == vx_param("part", 0));
		const int r = hamming_repair(chunk, len, syn);
		uint32_t diff = 0, n = 0;
		for (uint32_t i = 0; i < 512; i++) {
			uint8_t d = chunk[i] ^ orig[i];
			if (i >= len) vx_assert(d == 0, "repair leaves the bytes behind the chunk alone");
			diff |= d; n += d != 0;
		}
		vx_assert((diff & (diff - 1)) == 0 && n <= 1, "repair changes at most one bit");
		vx_assert(r == 0 || (r == -1 && !diff), "repair which fails changes nothing");
		vx_cover(r ? "refused" : "accepted");
		return;
	}
	/* the positions: in the chunk, or in the code */
	const uint32_t kind = vx_param("kind", 0), lg = vx_param("lg", 12);
	uint32_t p0, p1;
	if (kind == 0 || kind == 1) {
		p0 = (uint32_t)vx_sym("pos", 0, lg);
		vx_assume(p0 < 8 * len);
		vx_assume(p0 % vx_param("parts", 1) == vx_param("part", 0));
	}
	else { p0 = (uint32_t)vx_sym("pos", 0, 5); vx_assume(p0 < 8 * HAMMING_ECC_SIZE); p0 += 8 * len; }
	flip(p0, len);
	if (mode == 1) {
		const hamming_ecc_t s = hamming_syndrome(chunk, len, code);
		vx_assert(s != 0, "a flipped bit is noticed");
		vx_assert(hamming_repair(chunk, len, s) == 0, "a flipped bit can be repaired");
		vx_assert(same(chunk, orig, 512), "a flipped bit is repaired");
		vx_cover("one error");
		return;
	}
	if (kind == 0) { p1 = (uint32_t)vx_sym("pos", 1, lg); vx_assume(p0 < p1 && p1 < 8 * len); }
	else {
		p1 = (uint32_t)vx_sym("pos", 1, 5); vx_assume(p1 < 8 * HAMMING_ECC_SIZE); p1 += 8 * len;
		if (kind == 2) vx_assume(p0 < p1);
	}
	flip(p1, len);
	const hamming_ecc_t s = hamming_syndrome(chunk, len, code);
	vx_assert(s != 0, "two flipped bits are noticed");
	vx_assert(hamming_repair(chunk, len, s) < 0, "two flipped bits are reported as uncorrectable");
	vx_cover("two errors");
}
