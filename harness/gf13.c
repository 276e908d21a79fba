/* GF(2^13) arithmetic of ecc/gf13.h and ecc/gf13.c, in both builds. */
#include "vx.h"
#include "ecc/gf13.h"

/* polynomial arithmetic modulo x^13 + x^4 + x^3 + x + 1, from the other end than gf13.c */
static uint32_t pmulx(uint32_t a) { a <<= 1; return a ^ (0x201b & (0 - (a >> 13 & 1))); }
static uint32_t pmul(uint32_t a, uint32_t b)
{
	uint32_t r = 0;
	for (int i = 0; i < 13; i++) { r ^= a & (0 - (b >> i & 1)); a = pmulx(a); }
	return r;
}

#ifndef ABSTRACT
void vx_main(void)
{
	const uint32_t parts = vx_param("parts", 1), part = vx_param("part", 0);
	const uint32_t b = (uint32_t)vx_sym("b", 0, 13);
#ifdef GF13_NO_TABLES
	const uint32_t a = (uint32_t)vx_sym("a", 0, 13);
	vx_assume(b % parts == part && b != 0);
	const gf13_elem_t bc = (gf13_elem_t)vx_concretize(b);
	vx_assert(gf13_mul(a, bc) == pmul(a, bc), "the product is the polynomial product");
	vx_assert(gf13_mul(bc, a) == pmul(a, bc), "the product is the polynomial product, operands exchanged");
	vx_assert(pmul(gf13_div(a, bc), bc) == a, "the quotient times the divisor is the dividend");
	vx_assert(gf13_div(a, bc) < 8192, "the quotient is an element");
	vx_assert(gf13_mulx(bc) == pmulx(bc), "multiplication by x");
	vx_assert(pmulx(gf13_divx(bc)) == bc, "division by x");
	vx_cover("no tables");
#else
	vx_assume(b % parts == part);
	vx_assert(gf13_exp[0] == 1, "the exponential table starts at 1");
	if (vx_param("mode", 0) == 0) {
		vx_assume(b < GF13_ORDER);
		const uint32_t e = gf13_exp[b];
		vx_assert(e != 0 && e < 8192, "exponentials are non-zero elements");
		vx_assert(b == GF13_ORDER - 1 ? pmulx(e) == 1 : gf13_exp[(b + 1) & 8191] == pmulx(e), "each exponential is x times the one before");
		vx_assert(gf13_log[e] == b || (gf13_log[e] == GF13_ORDER && b == 0), "the logarithm of the exponential");
		vx_assert(gf13_exp[GF13_ORDER] == 1, "the exponential table repeats after the order");
		vx_cover("exponential");
	} else {
		vx_assume(b != 0);
		const uint32_t l = gf13_log[b];
		vx_assert(l <= GF13_ORDER, "logarithms are at most the order");
		vx_assert(gf13_exp[l & 8191] == b, "the exponential of the logarithm");
		vx_assert(gf13_mulx(b) == pmulx(b), "multiplication by x");
		vx_assert(pmulx(gf13_divx(b)) == b, "division by x");
		vx_cover("logarithm");
	}
#endif
}
#else
/* The tables as any functions for which the lemmas above hold, at the places looked at. */
#ifdef __CPROVER__
gf13_elem_t gf13_exp[8192], gf13_log[8192];
#endif

static _Bool is_log(uint32_t l, uint32_t i) { return l == i || (i == 0 && l == GF13_ORDER) || (i == GF13_ORDER && l == 0); }
static void exp_lemma(uint32_t i)	/* i below the order */
{
	const uint32_t n = i == GF13_ORDER - 1 ? 0 : i + 1;
	vx_assume(gf13_exp[i] >= 1 && gf13_exp[i] < 8192 && is_log(gf13_log[gf13_exp[i]], i));
	vx_assume(gf13_exp[n] == pmulx(gf13_exp[i]) && is_log(gf13_log[gf13_exp[n]], n));
}
static void log_lemma(uint32_t a)
{
	vx_assume(gf13_log[a] <= GF13_ORDER && gf13_exp[gf13_log[a]] == a);
	exp_lemma(gf13_log[a] % GF13_ORDER);
}
#ifdef __CPROVER__
int main(void)
#else
void vx_main(void)
#endif
{
#ifdef __CPROVER__
	__CPROVER_havoc_object(gf13_exp);
	__CPROVER_havoc_object(gf13_log);
#endif
	gf13_elem_t a = (gf13_elem_t)vx_sym("a", 0, 13), b = (gf13_elem_t)vx_sym("b", 0, 13);
	vx_assume(a != 0 && b != 0);
	vx_assume(gf13_exp[0] == 1 && gf13_exp[GF13_ORDER] == 1);
	exp_lemma(0);
	log_lemma(a); log_lemma(b); log_lemma(1);
	const gf13_elem_t ab = gf13_mul(a, b);
	exp_lemma((gf13_log[a] + gf13_log[b]) % GF13_ORDER);
	vx_assert(gf13_mul(a, 1) == a, "a times 1 is a");
	vx_assert(gf13_mul(a, pmulx(b)) == pmulx(ab), "a times (x times b) is x times (a times b)");
	const gf13_elem_t q = gf13_div(a, b);
	exp_lemma((gf13_log[a] + GF13_ORDER - gf13_log[b]) % GF13_ORDER);
	vx_assert(q >= 1 && q < 8192, "the quotient is a non-zero element");
	vx_assert(gf13_mul(q, b) == a, "the quotient times the divisor is the dividend");
	exp_lemma((gf13_log[a] + 1) % GF13_ORDER);
	exp_lemma((gf13_log[a] + GF13_ORDER - 1) % GF13_ORDER);
	vx_assert(gf13_mulx(a) == pmulx(a), "multiplication by x");
	vx_assert(pmulx(gf13_divx(a)) == a, "division by x");
	vx_cover("table arithmetic");
#ifdef __CPROVER__
	return 0;
#endif
}
#endif
