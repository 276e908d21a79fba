/* The Galois field tool, run with any generator of the given degree. */
#include "toolenv.h"
#include "tools/gftool.c"
#undef main
#undef malloc
#undef free
#include "ecc/bch.h"
#include "ecc/gf13.h"

/* independent arithmetic: polynomials over GF(2) modulo g of degree d */
static uint32_t g, d;
static uint32_t xmul(uint32_t a) { a <<= 1; return a >> d & 1 ? a ^ g : a; }
static uint32_t fmul(uint32_t a, uint32_t b)
{
	uint32_t r = 0;
	for (int i = (int)d - 1; i >= 0; i--) { r = xmul(r); if (b >> i & 1) r ^= a; }
	return r;
}
static int primitive(void)
{
	uint32_t a = 1, n = 0;
	do { a = xmul(a); n++; } while (a != 1 && n < 1u << d);
	return n == (1u << d) - 1;
}
static uint32_t power(uint32_t e) { uint32_t a = 1; while (e--) a = xmul(a); return a; }
/* product of the minimal polynomials of the first n powers: multiply one linear factor per conjugate */
static uint64_t bch_gen(uint32_t n)
{
	static uint8_t done[1 << 14];
	static uint32_t r[80];
	uint32_t order = (1u << d) - 1, deg = 0, i, j, k;
	memset(done, 0, sizeof done); memset(r, 0, sizeof r);
	r[0] = 1;
	for (i = 1; i <= n; i++) {
		j = i;
		while (!done[j]) {
			const uint32_t root = power(j);
			done[j] = 1;
			if (deg + 2 >= 80) return 0;
			for (k = deg + 1; k > 0; k--) r[k] = fmul(r[k], root) ^ r[k - 1];
			r[0] = fmul(r[0], root);
			deg++;
			j = 2 * j % order;
		}
	}
	uint64_t p = 0;
	for (k = 0; k <= deg; k++) { if (r[k] > 1) return 0; if (k < 64) p |= (uint64_t)r[k] << k; }
	return p;
}
static uint64_t reverse(uint64_t p) { uint64_t r = 0; for (; p; p >>= 1) r = r << 1 | (p & 1); return r; }

static char a1[24], a2[8], a3[8], prog[] = "gftool";
static void hex(char *s, uint64_t v)
{
	int k = 0, i;
	*s++ = '0'; *s++ = 'x';
	while (k < 15 && v >> (4 * k + 4)) k++;
	for (i = k; i >= 0; i--) *s++ = "0123456789abcdef"[v >> (4 * i) & 15];
	*s = 0;
}
static void dec(char *s, uint32_t v) { if (v >= 10) *s++ = '0' + v / 10; *s++ = '0' + v % 10; *s = 0; }
static uint32_t numbers(void)	/* only hexadecimal numbers count */
{
	uint32_t n = 0;
	for (uint32_t i = 0; i < n_out; i++) if (out_c[i] == 'x') out_v[n++] = out_v[i];
	return n;
}

void vx_main(void)
{
	char *argv[5] = {prog, a1, a2, a3, NULL};
	const uint32_t mode = vx_param("mode", 0), ship = vx_param("ship", 0);
	uint32_t n, i;
	d = vx_param("deg", 4);
	if (mode == 3) {	/* search */
		d = (uint32_t)vx_sym("deg", 0, 4);
		vx_assume(d >= 2 && d <= vx_param("degmax", 8));
		d = (uint32_t)vx_concretize(d);
		strcpy(a1, "search"); dec(a2, d);
		vx_assert(tool_main(3, argv) == 0, "the search succeeds");
		n = numbers();
		const uint32_t c = (uint32_t)vx_concretize((1u << d) | vx_sym("candidate", d, (int)d));
		uint32_t listed = 0;
		for (i = 0; i + 1 < n; i += 2) { if (out_v[i] == c) listed++; vx_assert(out_v[i + 1] == reverse(out_v[i]), "the reciprocal of a polynomial"); }
		g = c;
		vx_assert(listed == (uint32_t)primitive(), "the search lists exactly the primitive polynomials");
		vx_cover(listed ? "listed" : "not listed");
		return;
	}
	if (ship) g = 0x201b, d = 13;
	else g = (1u << d) | ((uint32_t)vx_concretize(vx_sym("generator", d, (int)d)));
	hex(a1, g);
	const int prim = primitive();
	if (mode == 0 || mode == 1) {
		strcpy(a2, mode ? "log" : "exp");
		vx_assert(tool_main(3, argv) == 0, "the tool succeeds");
		n = numbers();
		vx_assert(n == 1u << d, "the table has one entry per element");
		uint32_t a = 1;
		for (i = 0; i < 1u << d; i++) {
			if (mode == 0) {
				vx_assert(out_v[i] == a, "each exponential is the power of x modulo the generator");
				if (ship) vx_assert(out_v[i] == gf13_exp[i], "the exponential table is the library's");
			} else if (prim) {
				vx_assert(out_v[a] == i || (a == 1 && (out_v[a] == 0 || out_v[a] == (1u << d) - 1)), "each logarithm is the exponent of its element");
				if (ship) vx_assert(out_v[a] == gf13_log[a] || a == 1, "the logarithm table is the library's");
			}
			a = xmul(a);
		}
		vx_cover(prim ? "table" : "table of a generator that is not primitive");
		return;
	}
	/* generator polynomial of a BCH code */
	if (!prim) { vx_cover("not primitive"); return; }
	uint32_t s = (uint32_t)vx_sym("syndromes", 0, 6);
	const uint32_t smax = vx_param("smax", 7);
	vx_assume(s >= 1 && s <= smax && s < (1u << d) - 1);
	s = (uint32_t)vx_concretize(s);
	const uint64_t want = bch_gen(s);
	if (!want || want >> 62) vx_quiet_end();
	strcpy(a2, "bch"); dec(a3, s);
	vx_assert(tool_main(4, argv) == 0, "the tool succeeds");
	n = numbers();
	vx_assert(n >= 2 && out_v[n - 1] == want && out_v[n - 2] == reverse(want), "the generator is the product of the distinct minimal polynomials of the first powers");
	if (ship && s % 2 == 0) {
		const struct bch_def *const b = s == 2 ? &bch_1bit : s == 4 ? &bch_2bit : s == 6 ? &bch_3bit : &bch_4bit;
		vx_assert(b->syns == (int)s && out_v[n - 1] == b->generator, "the generator is the library's");
	}
	vx_cover("generator");
}
