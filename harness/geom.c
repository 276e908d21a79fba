/* Journal set-up for every chip geometry (C17); size and capacity for every position on chips of any number of blocks (C22). */
#include <stdlib.h>
#include "vx.h"
#include "dhara/journal.h"

/* no flash operation is part of what is looked at here */
int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b) { vx_assert(0, "set-up touches the flash"); return 0; }
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b) { vx_assert(0, "set-up touches the flash"); }
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *e) { vx_assert(0, "set-up touches the flash"); return 0; }
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *d, dhara_error_t *e) { vx_assert(0, "set-up touches the flash"); return 0; }
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p) { vx_assert(0, "set-up touches the flash"); return 0; }
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t o, size_t l, uint8_t *d, dhara_error_t *e) { vx_assert(0, "set-up touches the flash"); return 0; }
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t s, dhara_page_t d, dhara_error_t *e) { vx_assert(0, "set-up touches the flash"); return 0; }

#ifndef LPAGE_MAX
#define LPAGE_MAX 20
#endif
VX_MAIN
{
	struct dhara_nand chip;
	struct dhara_journal j;
#ifndef __CPROVER__
	const uint64_t lpage = vx_param("lpage", 9), lppb = vx_param("lppb", 2);
#else
	const uint64_t lpage = vx_sym("lpage", 0, 5), lppb = vx_sym("lppb", 0, 5);
#endif
#ifndef __CPROVER__
	const uint64_t nblk = vx_param("nblk", 0) ? vx_param("nblk", 0) : vx_sym("nblk", 0, 32);
#else
	const uint64_t nblk = vx_sym("nblk", 0, 32);
#endif
	vx_assume(lpage >= 8 && lpage <= LPAGE_MAX && lppb >= 1 && lppb <= 20);
	vx_assume(nblk >= 2 && (nblk << lppb) <= 0x80000000u);
	chip.log2_page_size = lpage; chip.log2_ppb = lppb; chip.num_blocks = nblk;
#ifdef __CPROVER__
	uint8_t *buf = malloc((size_t)1 << lpage);
	vx_assume(buf != NULL);
#else
	static uint8_t buf[1 << 16];
#endif
	dhara_journal_init(&j, &chip, buf);
	const unsigned g = j.log2_ppc;
	const uint64_t size = (uint64_t)1 << lpage;
#ifndef __CPROVER__
	{
		/* the group a chip of this geometry has, concretely, so that everything below is linear */
		unsigned G = 1;
		while (G < lppb && 16 + 4 + 132u * ((1u << (G + 1)) - 1) <= size) G++;
		vx_assert(g == G, "the checkpoint group is not the one of this geometry");
		const uint32_t mask = (1u << G) - 1, n = (uint32_t)nblk, pages = n << lppb;
		const uint32_t head = (uint32_t)vx_sym("head", 0, 32), tail = (uint32_t)vx_sym("tail", 0, 32), cur = (uint32_t)vx_sym("cur", 0, 32), last = (uint32_t)vx_sym("last", 0, 32);
		const uint32_t max = cur > last ? cur : last, good = n - 1 - max;
		vx_assume(head < pages && tail < pages && (head & mask) != mask && (tail & mask) != mask);
		vx_assume(max < n);
		j.head = head; j.tail = j.tail_sync = tail; j.bb_current = cur; j.bb_last = last;
		/* one page in each group is the checkpoint */
		uint32_t slots = (head - (head >> G)) - (tail - (tail >> G));
		if (head < tail) slots += pages - (pages >> G);
		vx_assert(dhara_journal_size(&j) == slots, "the size is not the number of user-page slots from tail to head");
		vx_assert(dhara_journal_capacity(&j) == (good << lppb) - (good << (lppb - G)), "the capacity is not that of all blocks but one and the known bad ones");
		vx_cover("positions");
	}
#else
	vx_assert(g >= 1 && g <= lppb, "a checkpoint group has at least two pages and is no larger than a block");
	vx_assert(DHARA_HEADER_SIZE + DHARA_COOKIE_SIZE + (((uint64_t)1 << g) - 1) * DHARA_META_SIZE <= size, "header, cookie and all metadata slices of a group fit in one page");
	vx_assert(g == lppb || DHARA_HEADER_SIZE + DHARA_COOKIE_SIZE + (((uint64_t)2 << g) - 1) * DHARA_META_SIZE > size, "a larger checkpoint group would fit");
	vx_assert(DHARA_META_SIZE >= 4 + 32 * 4 && DHARA_HEADER_SIZE >= 16 && DHARA_COOKIE_SIZE >= 4, "the parts are as large as what they hold");
	vx_assert(dhara_journal_cookie(&j) >= buf + 16 && dhara_journal_cookie(&j) + 4 <= buf + DHARA_HEADER_SIZE + DHARA_COOKIE_SIZE, "the cookie lies between the header and the metadata");
	vx_assert(dhara_journal_root(&j) == DHARA_PAGE_NONE && dhara_journal_size(&j) == 0 && !dhara_journal_in_recovery(&j) && dhara_journal_is_clean(&j), "a new journal is empty");
	{
		uint64_t i = vx_sym("byte", 0, 22);
		vx_assume(i < size);
		vx_assert(buf[i] == 0xff, "a new journal has an empty metadata buffer");
	}
	vx_cover("set-up");
#endif
	VX_END
}
