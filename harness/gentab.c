/* The CRC table generator, run with any polynomial on its command line. */
#include "toolenv.h"
#include "tools/gentab.c"
#undef main
#include "ecc/crc32.h"

static uint32_t define(uint32_t i, uint32_t poly)
{
	uint32_t r = i;
	for (int k = 0; k < 8; k++) r = (r >> 1) ^ (poly & (0 - (r & 1)));
	return r;
}

void vx_main(void)
{
	static char arg[16], prog[] = "gentab";
	char *argv[3] = {prog, arg, NULL};
	const uint32_t nd = vx_param("digits", 8), cls = vx_param("classes", 0), bad = vx_param("bad", 0);
	uint32_t poly = 0, k = 0, c = cls;
	if (vx_param("prefix", 1)) { arg[k++] = '0'; arg[k++] = 'x'; }
	for (uint32_t i = 0; i < nd; i++, c /= 3) {
		/* a digit of the given class: 0 decimal, 1 lower case, 2 upper case */
		const uint32_t d = (uint32_t)vx_sym("digit", i, 4);
		if (c % 3 == 0) { vx_assume(d < 10); arg[k++] = (char)('0' + d); }
		else { vx_assume(d >= 10); arg[k++] = (char)((c % 3 == 1 ? 'a' : 'A') - 10 + d); }
		poly = poly << 4 | d;
	}
	if (bad) {
		const uint32_t at = (uint32_t)vx_concretize(vx_sym("at", 0, 3));
		const uint8_t ch = (uint8_t)vx_sym("char", 0, 8);
		vx_assume(at < nd && ch && !(ch >= '0' && ch <= '9') && !(ch >= 'a' && ch <= 'f') && !(ch >= 'A' && ch <= 'F') && ch != 'x');
		arg[k - 1 - at] = (char)ch;
	}
	arg[k] = 0;
	const int r = tool_main(2, argv);
	if (bad) {
		vx_assert(r != 0 && n_out == 0, "anything but a hexadecimal number is refused");
		vx_cover("refused");
		return;
	}
	vx_assert(r == 0, "the tool succeeds");
	uint32_t n = 0;
	for (uint32_t i = 0; i < n_out; i++) {
		if (out_c[i] != 'x' && out_c[i] != 'd' && out_c[i] != 'u') continue;
		if (n < 256) vx_assert(out_v[i] == define(n, poly), "each table entry is the reduction of its index by the polynomial");
		n++;
	}
	vx_assert(n == 256, "the table has 256 entries");
	if (vx_param("lib", 0)) {
		const uint32_t b = (uint32_t)vx_sym("byte", 0, 8);
		const uint8_t z = (uint8_t)~b;
		vx_assume(poly == 0xedb88320);
		vx_assert((uint32_t)~crc32_nand(&z, 1, 0xffffffff) == define(b, poly), "the library's table is the one of its polynomial");
	}
	vx_cover("table");
}
