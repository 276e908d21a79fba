/* The error correction codes touch their buffers only within their size:
 * buffers of exactly the size given, any length up to XMAX, any contents. */
#include "vx.h"
#include <stdlib.h>
#include "ecc/hamming.h"
#include "ecc/bch.h"
#include "ecc/crc32.h"
#ifndef XMAX
#define XMAX 8
#endif
VX_MAIN
{
	const uint32_t len = (uint32_t)vx_sym("len", 0, 8);
	uint8_t code0[8];
	vx_assume(len >= 1 && len <= XMAX);
	uint8_t *buf = malloc(len), *code;
	vx_assume(buf != NULL);
	for (uint32_t i = 0; i < XMAX; i++) {
		uint8_t b = (uint8_t)vx_sym("data", i, 8);
		if (i < len) buf[i] = b;
	}
#if MODE == 0
	code = malloc(HAMMING_ECC_SIZE);
	vx_assume(code != NULL);
	hamming_generate(buf, len, code);
	code0[0] = (uint8_t)vx_sym("code", 0, 8); code[0] ^= code0[0]; code[1] ^= (uint8_t)vx_sym("code", 1, 8); code[2] ^= (uint8_t)vx_sym("code", 2, 8);
	hamming_repair(buf, len, hamming_syndrome(buf, len, code));
	hamming_repair(buf, len, (hamming_ecc_t)vx_sym("syndrome", 0, 24));
	crc32_nand(buf, len, (uint32_t)vx_sym("carry", 0, 32));
	vx_cover("hamming, crc");
#else
	const struct bch_def *const bch = MODE == 1 ? &bch_1bit : MODE == 2 ? &bch_2bit : MODE == 3 ? &bch_3bit : &bch_4bit;
	code = malloc(bch->ecc_bytes);
	vx_assume(code != NULL);
	bch_generate(bch, buf, len, code);
	for (int i = 0; i < bch->ecc_bytes; i++) code[i] ^= (uint8_t)vx_sym("code", i, 8);
	bch_verify(bch, buf, len, code);
#ifdef REPAIR
	bch_repair(bch, buf, len, code);
#endif
	vx_cover("bch");
#endif
	free(buf); free(code);
	VX_END
}
