/* Capacity of the map for every collection ratio and all bad-block counts, on chips up to 2^31 pages (C27). */
#include "vx.h"
#include "dhara/map.h"

/* no flash operation is part of what is looked at here */
int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b) { vx_assert(0, "asking for the capacity touches the flash"); return 0; }
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b) { vx_assert(0, "asking for the capacity touches the flash"); }
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *e) { vx_assert(0, "asking for the capacity touches the flash"); return 0; }
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *d, dhara_error_t *e) { vx_assert(0, "asking for the capacity touches the flash"); return 0; }
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p) { vx_assert(0, "asking for the capacity touches the flash"); return 0; }
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t o, size_t l, uint8_t *d, dhara_error_t *e) { vx_assert(0, "asking for the capacity touches the flash"); return 0; }
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t s, dhara_page_t d, dhara_error_t *e) { vx_assert(0, "asking for the capacity touches the flash"); return 0; }

VX_MAIN
{
	static uint8_t buf[1 << 16];
	struct dhara_nand chip;
	struct dhara_map m;
	const unsigned lpage = vx_param("lpage", 9), lppb = vx_param("lppb", 2);
	const uint32_t nblk = vx_param("nblk", 16);
	chip.log2_page_size = lpage; chip.log2_ppb = lppb; chip.num_blocks = nblk;
	const uint32_t ratio = (uint32_t)vx_concretize(vx_sym("ratio", 0, 8));
	uint32_t cur, last;
	if (vx_param("which", 0)) { cur = 0; last = (uint32_t)vx_sym("last", 0, 32); }
	else { last = 0; cur = (uint32_t)vx_sym("cur", 0, 32); }
	vx_assume(cur < nblk && last < nblk);
	dhara_map_init(&m, &chip, buf, (uint8_t)ratio);
	m.count = 0;
	m.journal.bb_current = cur; m.journal.bb_last = last;
	/* the log's capacity is the subject of C22 */
	const uint32_t log = dhara_journal_capacity(&m.journal), r1 = (ratio ? ratio : 1) + 1;
	const uint32_t got = dhara_map_capacity(&m), keep = 8u << lppb, spare = log / r1;
	vx_assert(got == (spare + keep >= log ? 0 : log - spare - keep), "the capacity is not that of the log less the reserve");
	vx_assert(dhara_map_size(&m) == 0, "asking for the capacity changes the size");
	vx_cover("capacity");
	VX_END
}
