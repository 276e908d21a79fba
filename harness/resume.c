/* Start-up on a chip whose contents are arbitrary (C13, C14): every block is
 * bad or not, every page erased or not, readable or not, and every
 * checkpoint header and cookie holds any bytes; the number of blocks is
 * arbitrary up to MAXBLK.  Nothing but what the driver interface tells is
 * known to the code, so this covers blank, foreign, damaged and valid chips. */
#include <stdlib.h>
#include "vx.h"
#include "dhara/map.h"
#include "dhara/bytes.h"

#ifndef LPAGE
#define LPAGE 9
#endif
#ifndef LPPB
#define LPPB 3
#endif
#ifndef LGBLK
#define LGBLK 10
#endif
#ifdef WORK
#define IF_WORK(c, m) vx_assert(c, m)
#define IF_RO(c, m) ((void)0)
#else
#define IF_WORK(c, m) ((void)0)
#define IF_RO(c, m) vx_assert(c, m)
#endif

/* A cell of the chip: drawn when looked at.  With CONSISTENT a cell has one
 * value for good; without, each look may see another one, which only adds
 * behaviours, and the replay takes no counterexample that makes use of it. */
#if defined(__CPROVER__) && defined(CONSISTENT)
#define INF __CPROVER_constant_infinity_uint
extern uint8_t a_bad[INF];
extern uint16_t a_page[INF];
#define CELL(arr, i, bits) ({ uint64_t v_ = vx_sym(#arr, i, bits); __CPROVER_assume(v_ == (arr)[i]); v_; })
#elif defined(__CPROVER__)
#define CELL(arr, i, bits) vx_sym(#arr, i, bits)
#else
static uint16_t a_bad[1 << LGBLK], a_page[1 << (LGBLK + LPPB)];
#define CELL(arr, i, bits) ({ uint64_t v_ = vx_sym(#arr, i, bits); if ((i) < sizeof(arr) / 2) { vx_assume(!(arr)[i] || (arr)[i] == v_ + 1); (arr)[i] = v_ + 1; } v_; })
#endif
/* what a page is like; the rest of its header is drawn anew whenever it is
 * read, so what is shown holds even if those bytes change in between */
#define ERASED(v) ((v) & 1)
#define UNREADABLE(v) ((v) >> 1 & 1)
#define MAGIC(v) ((v) >> 2 & 1)
#define EPOCH(v) ((v) >> 3 & 0xff)

static uint32_t last_page, last_count;
static uint32_t nblk, reads, frees, bads, seen_valid;
#define PPB (1u << LPPB)
#define NPAGES (nblk << LPPB)
#define PGSIZE (1u << LPAGE)

int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b)
{
	IF_RO(b < nblk, "bad-block query for a block that does not exist");
	bads++;
	return CELL(a_bad, b, 1);
}
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p)
{
	IF_RO(p < NPAGES, "free check of a page that does not exist");
	frees++;
	return ERASED(CELL(a_page, p, 11));
}
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t off, size_t len, uint8_t *d, dhara_error_t *e)
{
	uint64_t v, raw, tail, bb, count;
	IF_RO(p < NPAGES, "read of a page that does not exist");
	IF_RO(off <= PGSIZE && len <= PGSIZE - off, "partial read crosses the end of the page");
	vx_assume(off <= PGSIZE && len <= PGSIZE - off);
	reads++;
	v = CELL(a_page, p, 11);
	last_page = ~0u;
	if (UNREADABLE(v)) { dhara_set_error(e, DHARA_E_ECC); return -1; }
	raw = vx_sym("raw", 0, 24); tail = vx_sym("tail", 0, 32); bb = vx_sym("bb", 0, 64); count = vx_sym("count", 0, 32);
	if (MAGIC(v)) { raw = 0x616844; seen_valid = 1; }
	vx_assume((raw == 0x616844) == MAGIC(v));
	raw |= EPOCH(v) << 24;
	last_page = MAGIC(v) ? p : ~0u; last_count = count;
	/* bytes past the cookie are no part of what start-up looks at; they keep what the buffer held */
#define BYTE(i, v) if (off <= i && i - off < len) d[i - off] = (uint8_t)(v)
#define BYTES4(i, v) BYTE(i, v); BYTE(i + 1, v >> 8); BYTE(i + 2, v >> 16); BYTE(i + 3, v >> 24)
	BYTES4(0, raw); BYTES4(4, tail); BYTES4(8, bb); BYTES4(12, (bb >> 32)); BYTES4(16, count);
	return 0;
}
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b) { IF_RO(0, "start-up marks a block bad"); }
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *e) { IF_RO(0, "start-up erases a block"); return 0; }
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *d, dhara_error_t *e) { IF_RO(0, "start-up programs a page"); return 0; }
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t s, dhara_page_t d, dhara_error_t *e) { IF_RO(0, "start-up programs a page"); return 0; }

VX_MAIN
{
	static struct dhara_nand chip;
	static struct dhara_map m;
	static uint8_t buf[PGSIZE];
	dhara_error_t e = DHARA_E_NONE;
	uint32_t lg = 0, r, i;
#ifdef NBLK
	nblk = NBLK;
#else
	nblk = (uint32_t)vx_sym("nblk", 0, LGBLK + 1);
	vx_assume(nblk >= 2 && nblk <= 1u << LGBLK);
#endif
	chip.log2_page_size = LPAGE; chip.log2_ppb = LPPB; chip.num_blocks = nblk;
	for (i = 0; i < LGBLK; i++) if (1u << i < nblk) lg = i + 1;
	dhara_map_init(&m, &chip, buf, 4);
	const int noerr = vx_sym("nullerr", 0, 1);
	r = dhara_map_resume(&m, noerr ? NULL : &e);
	/* per step of the search over blocks at most two rows of tries; in the
	 * block found each page is looked at a few times */
	IF_WORK(reads + frees <= 2 * DHARA_MAX_RETRIES * (lg + 3) + 4 * PPB, "start-up does more flash work than a multiple of the logarithm of the number of blocks plus a multiple of the pages per block");
	IF_WORK(bads <= 2 * DHARA_MAX_RETRIES * (lg + 3) + 4 * PPB, "start-up asks for more bad-block marks than a multiple of the logarithm of the number of blocks plus a multiple of the pages per block");
#ifndef WORK
	vx_assert(r == 0 || r == (uint32_t)-1, "start-up returns neither success nor failure");
	if (!seen_valid) vx_assert(r != 0, "start-up succeeds although it has seen no checkpoint");
	if (r) {
		i = (uint32_t)vx_sym("byte", 0, LPAGE);
		vx_assert(dhara_map_size(&m) == 0, "a failed start-up leaves a map that is not empty");
		vx_assert(dhara_journal_root(&m.journal) == DHARA_PAGE_NONE && dhara_journal_size(&m.journal) == 0 && dhara_journal_peek(&m.journal) == DHARA_PAGE_NONE
			  && !dhara_journal_in_recovery(&m.journal), "a failed start-up leaves a journal that is not empty");
		vx_assert(m.journal.head < NPAGES && (m.journal.head & (PPB - 1)) == 0, "a failed start-up leaves no place to write to");
		vx_assert(buf[i] == 0xff, "a failed start-up leaves foreign metadata in the buffer");
		vx_assert(noerr || (e > DHARA_E_NONE && e < DHARA_E_MAX), "a failed start-up gives no error code");
	} else {
		const dhara_page_t g = (1u << m.journal.log2_ppc) - 1, root = dhara_journal_root(&m.journal);
		vx_assert(root < NPAGES && (root & g) == g - 1, "the root is no last user page of a checkpoint group on the chip");
		vx_assert(m.journal.head < NPAGES && (m.journal.head & g) != g, "the head is no user page on the chip");
		vx_assert(dhara_journal_is_clean(&m.journal) && !dhara_journal_in_recovery(&m.journal), "a journal just started is not clean");
		/* the metadata buffer is ready for the next group */
		i = (uint32_t)vx_sym("byte", 0, LPAGE);
		if (i >= DHARA_HEADER_SIZE + DHARA_COOKIE_SIZE) vx_assert(buf[i] == 0xff, "start-up leaves old metadata in the buffer");
		/* what is restored is the contents of the root's checkpoint */
		vx_assert(last_page == root + 1, "the state restored is that of a page that is no readable checkpoint");
		vx_assert(dhara_map_size(&m) == last_count, "the sector count is not that of the checkpoint restored");
	}
#endif
#ifdef COVER
	vx_cover("start-up");
#endif
	VX_END
}
