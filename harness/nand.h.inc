/* Model of one NAND chip behind the driver interface of dhara/nand.h, with
 * a protocol monitor, symbolic block failures, symbolic power loss and
 * symbolic uncorrectable reads.  All of it is specification, written
 * against nand.h and the NAND rules, not against the implementation. */
#include "dhara/nand.h"
#include "dhara/journal.h"
#include "dhara/map.h"
#include "vx.h"

/* assertion classes; a check enables the classes its property is about */
enum {
	A_DATA = 1, A_OK = 2, A_SIZE = 4, A_PROTO = 8, A_WEAR = 16, A_MARK = 32, A_WORK = 64,
	A_ERR = 128, A_DUR = 256, A_FMT = 512, A_FIND = 1024, A_FULL = 2048, A_GC = 4096, A_RO = 8192,
	A_JRN = 16384, A_CAP = 32768, A_MEM = 65536, A_PURE = 1 << 17, A_MCAP = 1 << 18
};
static uint32_t chk;
#define CHECK(cls, cond, msg) do { if (chk & (cls)) vx_assert((cond), msg); } while (0)

#define MAX_BLK 512
#define MAX_PAGES 1024
#define MAX_FLASH (400 * 1024)
static struct dhara_nand chip;
/* With hiblk=N the modelled blocks are the last ones of a far larger chip:
 * N blocks lie before them, filled with padding in the same pass.  The model
 * numbers its own blocks and pages from 0; the library sees the true numbers.
 * With loblk=N that many blocks lie after them, filled with padding in the pass
 * before.  Erasing any of these blocks is outside the bound. */
static struct dhara_nand chip_hi;
static uint32_t hi_blk, lo_blk, hi_epoch;
#define HI_PAGE (hi_blk << chip.log2_ppb)
static const struct dhara_nand *lib_chip(void) { return hi_blk || lo_blk ? &chip_hi : &chip; }
static uint32_t virt_blk(uint32_t b) { return b < hi_blk || b - hi_blk >= chip.num_blocks; }
static uint32_t virt(uint32_t p) { return virt_blk(p >> chip.log2_ppb); }
/* number of a page inside the model; pages before it: not part of the model */
static uint32_t LP(uint32_t p) { return p < HI_PAGE ? 0xffffffffu : p - HI_PAGE; }
static uint8_t flash[MAX_FLASH];
enum { PG_FREE, PG_PROG, PG_TORN };
static uint8_t pst[MAX_PAGES];
static uint8_t blk_bad[MAX_BLK];	/* marked bad (factory or by the library) */
static uint8_t blk_failed[MAX_BLK];	/* reported a failure */
static uint8_t blk_marked[MAX_BLK];	/* marked by the library */
static uint8_t blk_dirty[MAX_BLK];	/* interrupted erase: must be erased before use */
static uint8_t blk_next[MAX_BLK];	/* next page that may be programmed, 255: none */
static uint32_t blk_erases[MAX_BLK];
static uint32_t c_read, c_free, c_prog, c_erase, c_bad, c_mark, c_copy;	/* work counters */
static uint8_t armed;			/* faults and crashes may happen now */
static uint8_t readonly_phase;		/* any modification is a violation */
static uint32_t fault_budget, crash_budget, rderr_budget;
static uint32_t op_no, rd_no;
static uint32_t imprecise;
static uint32_t torn_kinds;		/* bit mask of allowed outcomes of the interrupted operation */
static uint8_t crashed;			/* set when power was lost */
static uint32_t rderr_hit;
static uint32_t restarts_dirty;		/* power losses so far */
static uint32_t fails_reported;
static uint8_t lost_cp[MAX_PAGES];	/* checkpoint page torn by power loss, or by a failure not yet marked when power was lost */
static uint32_t lost_cp_hit;
static uint8_t copy_lost[MAX_BLK];	/* an uncorrectable read cut the recovery of this failed block short */
static void power_fails(void);		/* harness: called at the moment of power loss */
static void read_failed(void);		/* harness: an uncorrectable read */
static void programmed(uint32_t p);	/* harness: a page was programmed */
static int lost_cp_expected(uint32_t p);	/* harness: is that checkpoint read because of finding F1? */
static void erased(uint32_t b);		/* harness: a block is being erased */
static unsigned ref_lppc(void);
/* a failing execution that is a recorded finding (known_findings.json); -p nokf=1 turns it into a violation */
static void known(const char *id)
{
	if (vx_param("nokf", 0)) { vx_assert(0, id); return; }
	vx_known(id);
}
static uint8_t rd_bad[MAX_PAGES];	/* pages found unreadable stay unreadable */

static void chip_setup(void)
{
	chip.log2_page_size = vx_param("lpage", 8);
	chip.log2_ppb = vx_param("lppb", 2);
	chip.num_blocks = vx_param("nblk", 16);
	hi_blk = vx_param("hiblk", 0); hi_epoch = vx_param("epoch", 0);
	lo_blk = vx_param("loblk", 0); chip_hi = chip; chip_hi.num_blocks += hi_blk + lo_blk;
	imprecise = vx_param("imprecise", 0);
	torn_kinds = vx_param("torn", 7);
	chk = vx_param("chk", ~0u);
	memset(blk_next, 255, sizeof blk_next);
	memset(flash, 0xff, sizeof flash);
	uint32_t badmask = vx_param("badmask", 0);
	for (unsigned i = 0; i < chip.num_blocks && i < 32; i++)
		if ((badmask >> i) & 1) blk_bad[i] = 1;
	for (unsigned i = 0; i < chip.num_blocks << chip.log2_ppb; i++) pst[i] = vx_param("preprog", 0) ? PG_TORN : PG_FREE;
}
static uint32_t n_pages(void) { return chip.num_blocks << chip.log2_ppb; }
static uint32_t pg_size(void) { return 1u << chip.log2_page_size; }
#define FP(p) (flash + ((size_t)(p) << chip.log2_page_size))

static void wear_check(void)
{
	uint32_t mn = ~0u, mx = 0;
	for (unsigned i = 0; i < chip.num_blocks; i++) {
		if (blk_bad[i] | blk_failed[i]) continue;
		if (blk_erases[i] < mn) mn = blk_erases[i];
		if (blk_erases[i] > mx) mx = blk_erases[i];
	}
	if (mn != ~0u && !restarts_dirty && !rderr_hit)
		CHECK(A_WEAR, mx - mn <= 1, "erase counts of two good blocks differ by more than one");
}

static uint32_t hist_faults, hist_lcg;	/* failures in the concrete history */

/* does the next modifying operation fail / does power fail during it? */
static int fault_now(void)
{
	/* with faultgap, failures come in bursts: each within that many operations of the one before */
	static uint32_t last_fault, faults_seen;
	uint32_t gap = vx_param("faultgap", 0);
	if (hist_faults) {
		hist_lcg = hist_lcg * 1664525u + 1013904223u;
		if ((hist_lcg >> 10) % vx_param("hfgap", 40)) return 0;
		hist_faults--;
		fails_reported++;
		return 1;
	}
	if (!armed || !fault_budget) return 0;
	if (gap && faults_seen && op_no - last_fault > gap) return 0;
	if (!(vx_sym("fail", op_no, 1) & 1)) return 0;
	last_fault = op_no; faults_seen++;
	fault_budget--;
	fails_reported++;
	return 1;
}
static int crash_now(void)
{
	if (!armed || !crash_budget) return 0;
	if (!(vx_sym("crash", op_no, 1) & 1)) return 0;
	crash_budget--;
	return 1;
}
static unsigned torn_kind(void)
{
	unsigned k = (unsigned)vx_sym("torn", op_no, 2);
	vx_assume(k < 3);
	vx_assume((torn_kinds >> k) & 1);
	return (unsigned)vx_concretize(k);
}

static int m_is_bad(const struct dhara_nand *n, dhara_block_t b)
{
	CHECK(A_PROTO | A_MEM, b < n->num_blocks, "bad-block query for a block that does not exist");
	if (b >= n->num_blocks) return 1;
	c_bad++;
	return blk_bad[b];
}
static void m_mark_bad(const struct dhara_nand *n, dhara_block_t b)
{
	CHECK(A_PROTO | A_MEM, b < n->num_blocks, "bad-block mark for a block that does not exist");
	if (b >= n->num_blocks) return;
	CHECK(A_MARK, blk_failed[b], "a block that never failed is marked bad");
	CHECK(A_RO, !readonly_phase, "resume marks a block bad");
	vx_note("  mark_bad block", b);
	if (copy_lost[b]) known("F3");
	c_mark++;
	blk_bad[b] = 1; blk_marked[b] = 1;
	if (armed && (vx_param("markloss", 0) & 2)) {
		/* nothing on it can be read any more */
		for (unsigned i = 0; i < 1u << chip.log2_ppb; i++) pst[(b << chip.log2_ppb) + i] = PG_TORN;
	}
	if (armed && (vx_param("markloss", 0) & 1) && (vx_sym("markcrash", c_mark, 1) & 1)) {
		/* the block is worn out: from now on nothing on it can be read; and power is lost */
		vx_note("  -- power lost right after this mark, contents of the block lost", b);
		for (unsigned i = 0; i < 1u << chip.log2_ppb; i++) pst[(b << chip.log2_ppb) + i] = PG_TORN;
		power_fails();
		vx_crash();
	}
}
static void do_erase(dhara_block_t b)
{
	for (unsigned i = 0; i < 1u << chip.log2_ppb; i++) {
		dhara_page_t p = (b << chip.log2_ppb) + i;
		pst[p] = PG_FREE; rd_bad[p] = 0; lost_cp[p] = 0;
	}
	memset(FP(b << chip.log2_ppb), 0xff, (size_t)pg_size() << chip.log2_ppb);
	blk_next[b] = 0; blk_dirty[b] = 0;
}
static int m_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *err)
{
	CHECK(A_PROTO | A_MEM, b < n->num_blocks, "erase of a block that does not exist");
	if (b >= n->num_blocks) { dhara_set_error(err, DHARA_E_ECC); return -1; }
	CHECK(A_PROTO, !blk_bad[b], "erase of a block marked bad");
	CHECK(A_PROTO, !blk_failed[b], "erase of a block that reported a failure");
	CHECK(A_RO, !readonly_phase, "resume erases a block");
	c_erase++; op_no++;
	vx_note("  erase block", b);
	erased(b);
	if (crash_now()) {
		unsigned k = torn_kind();
		vx_note("  -- power lost during this erase, outcome", k);
		if (k == 1) do_erase(b);
		if (k == 2) {
			do_erase(b);
			for (unsigned i = 0; i < 1u << chip.log2_ppb; i++) pst[(b << chip.log2_ppb) + i] = PG_TORN;
			blk_next[b] = 255;
		}
		blk_erases[b]++;
		power_fails();
		vx_crash();
	}
	if (fault_now()) {
		vx_note("  -- erase reports failure of block", b);
		blk_failed[b] = 1; blk_next[b] = 255;
		/* contents of a block whose erase failed are undefined */
		for (unsigned i = 0; i < 1u << chip.log2_ppb; i++) pst[(b << chip.log2_ppb) + i] = PG_TORN;
		dhara_set_error(err, DHARA_E_BAD_BLOCK);
		return -1;
	}
	do_erase(b);
	blk_erases[b]++;
	wear_check();
	return 0;
}
static int is_cp(dhara_page_t p) { uint32_t m = (1u << ref_lppc()) - 1; return (p & m) == m; }
/* after power loss the only memory of a failure is the bad-block mark */
static void forget_failures(void)
{
	for (unsigned b = 0; b < chip.num_blocks; b++) {
		if (!blk_failed[b] || blk_bad[b]) continue;
		blk_failed[b] = 0;
		unsigned n = 1u << chip.log2_ppb, last = 0;
		for (unsigned i = 0; i < n; i++) {
			dhara_page_t p = (b << chip.log2_ppb) + i;
			if (pst[p] != PG_FREE) last = i + 1;
			if (pst[p] == PG_TORN && is_cp(p)) lost_cp[p] = 1;
		}
		blk_next[b] = last;
	}
}

/* what breaks the rules has consequences, also where the rules themselves are not the
 * question: the page can't be read afterwards */
static int prog_spoilt;
static int prog_start(const struct dhara_nand *n, dhara_page_t p)
{
	const dhara_block_t b = p >> n->log2_ppb;
	CHECK(A_PROTO | A_MEM, p < n_pages(), "program of a page that does not exist");
	if (p >= n_pages()) return -1;
	CHECK(A_PROTO, !blk_bad[b], "program in a block marked bad");
	CHECK(A_PROTO, !blk_failed[b], "program in a block that reported a failure");
	CHECK(A_RO, !readonly_phase, "resume programs a page");
	CHECK(A_PROTO, blk_next[b] != 255, "program in a block not erased before");
	CHECK(A_PROTO, pst[p] == PG_FREE || imprecise, "page programmed twice without erase");
	CHECK(A_PROTO, (p & ((1u << n->log2_ppb) - 1)) >= blk_next[b], "pages of a block not programmed in increasing order");
	prog_spoilt = blk_bad[b] || blk_failed[b] || blk_next[b] == 255 || !(pst[p] == PG_FREE || imprecise) || (p & ((1u << n->log2_ppb) - 1)) < blk_next[b];
	c_prog++; op_no++;
	return 0;
}
static void prog_commit(dhara_page_t p, const uint8_t *data)
{
	const dhara_block_t b = p >> chip.log2_ppb;
	memcpy(FP(p), data, pg_size());
	programmed(p);
	pst[p] = prog_spoilt ? PG_TORN : PG_PROG; rd_bad[p] = 0;
	blk_next[b] = (p & ((1u << chip.log2_ppb) - 1)) + 1;
}
static int m_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *data, dhara_error_t *err)
{
	const dhara_block_t b = p >> n->log2_ppb;
	if (prog_start(n, p)) { dhara_set_error(err, DHARA_E_ECC); return -1; }
	vx_note("  program page", p);
	if (crash_now()) {
		unsigned k = torn_kind();
		vx_note("  -- power lost during this program, outcome", k);
		if (k == 1) prog_commit(p, data);
		if (k == 2) { pst[p] = PG_TORN; lost_cp[p] = is_cp(p); }
		power_fails();
		vx_crash();
	}
	if (fault_now()) {
		vx_note("  -- program reports failure of block", b);
		blk_failed[b] = 1;
		pst[p] = PG_TORN; blk_next[b] = 255;
		dhara_set_error(err, DHARA_E_BAD_BLOCK);
		return -1;
	}
	prog_commit(p, data);
	return 0;
}
static int m_is_free(const struct dhara_nand *n, dhara_page_t p)
{
	CHECK(A_PROTO | A_MEM, p < n_pages(), "free check of a page that does not exist");
	if (p >= n_pages()) return 0;
	c_free++;
	if (imprecise && pst[p] == PG_PROG) {
		/* content-based: cannot tell all-0xff data from an erased page */
		const uint8_t *d = FP(p);
		int ff = 1;
		for (unsigned i = 0; i < 24; i++) ff &= d[i] == 0xff;
		return ff;
	}
	return pst[p] == PG_FREE;
}
static int rd_fail(dhara_page_t p, dhara_error_t *err)
{
	if (!rd_bad[p] && armed && rderr_budget && pst[p] == PG_PROG) {
		rd_no++;
		if (vx_sym("unreadable", rd_no, 1) & 1) {
			rderr_budget--;
			rd_bad[p] = 1;
			vx_note("  -- page becomes unreadable:", p);
		}
	}
	if (rd_bad[p]) { rderr_hit++; read_failed(); dhara_set_error(err, DHARA_E_ECC); return -1; }
	if (lost_cp[p] && lost_cp_expected(p)) lost_cp_hit++;
	if (pst[p] == PG_TORN) { dhara_set_error(err, DHARA_E_ECC); return -1; }
	return 0;
}
static int m_read(const struct dhara_nand *n, dhara_page_t p, size_t offset, size_t length, uint8_t *data, dhara_error_t *err)
{
	p = (dhara_page_t)vx_concretize(p);
	CHECK(A_PROTO | A_MEM, p < n_pages(), "read of a page that does not exist");
	CHECK(A_PROTO | A_MEM, offset <= pg_size() && length <= pg_size() - offset, "partial read crosses the end of the page");
	if (p >= n_pages() || offset > pg_size() || length > pg_size() - offset) { dhara_set_error(err, DHARA_E_ECC); return -1; }
	c_read++;
	if (rd_fail(p, err) < 0) return -1;
	memcpy(data, FP(p) + offset, length);
	return 0;
}
static int m_copy(const struct dhara_nand *n, dhara_page_t src, dhara_page_t dst, dhara_error_t *err)
{
	static uint8_t tmp[4096];
	src = (dhara_page_t)vx_concretize(src);
	CHECK(A_PROTO | A_MEM, src < n_pages(), "copy from a page that does not exist");
	if (src >= n_pages()) { dhara_set_error(err, DHARA_E_ECC); return -1; }
	CHECK(A_PROTO, src != dst, "copy of a page onto itself");
	c_copy++;
	if (rd_fail(src, err) < 0) return -1;
	memcpy(tmp, FP(src), pg_size());
	vx_note("  copy from page", src);
	return m_prog(n, dst, tmp, err);
}

/* the driver interface */
int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b)
{
	return lo_blk + hi_blk && virt_blk(b) && b < chip_hi.num_blocks ? 0 : m_is_bad(&chip, b - hi_blk);
}
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b)
{
	if (lo_blk + hi_blk) {
		CHECK(A_MARK, !virt_blk(b), "a block that never failed is marked bad");
		if (virt_blk(b)) vx_quiet_end();
	}
	m_mark_bad(&chip, b - hi_blk);
}
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *err)
{
	if (lo_blk + hi_blk && virt_blk(b)) vx_quiet_end();		/* a second pass: outside the bound */
	return m_erase(&chip, b - hi_blk, err);
}
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *data, dhara_error_t *err)
{
	if (lo_blk + hi_blk) {
		CHECK(A_PROTO, !virt(p), "page programmed twice without erase");
		if (virt(p)) vx_quiet_end();
	}
	return m_prog(&chip, p - HI_PAGE, data, err);
}
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p)
{
	if (!(lo_blk + hi_blk) || !virt(p)) return m_is_free(&chip, p - HI_PAGE);
	CHECK(A_PROTO | A_MEM, p >> chip.log2_ppb < chip_hi.num_blocks, "access outside the chip");
	c_free++;
	return 0;
}
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t offset, size_t length, uint8_t *data, dhara_error_t *err)
{
	if (!(lo_blk + hi_blk)) return m_read(&chip, p, offset, length, data, err);
	p = (dhara_page_t)vx_concretize(p);
	if (!virt(p)) return m_read(&chip, p - HI_PAGE, offset, length, data, err);
	CHECK(A_PROTO | A_MEM, p >> chip.log2_ppb < chip_hi.num_blocks, "access outside the chip");
	CHECK(A_PROTO | A_MEM, offset <= pg_size() && length <= pg_size() - offset, "partial read crosses the end of the page");
	if (offset > pg_size() || length > pg_size() - offset) vx_quiet_end();
	c_read++;
	static uint8_t pad[4096];
	memset(pad, 0xff, pg_size());
	if (is_cp(p)) {
		uint32_t tail = p & ~((1u << ref_lppc()) - 1);
		pad[0] = 'D'; pad[1] = 'h'; pad[2] = 'a'; pad[3] = p < HI_PAGE ? hi_epoch : hi_epoch - 1;
		for (int i = 0; i < 4; i++) { pad[4 + i] = tail >> (8 * i); pad[8 + i] = pad[12 + i] = pad[16 + i] = 0; }
	}
	memcpy(data, pad + offset, length);
	return 0;
}
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t src, dhara_page_t dst, dhara_error_t *err)
{
	if (!(lo_blk + hi_blk)) return m_copy(&chip, src, dst, err);
	src = (dhara_page_t)vx_concretize(src);
	CHECK(A_PROTO, !virt(dst), "page programmed twice without erase");
	if (virt(dst)) vx_quiet_end();
	if (!virt(src)) return m_copy(&chip, src - HI_PAGE, dst - HI_PAGE, err);
	/* padding is copied when it is the root of an otherwise empty map */
	static uint8_t pad[4096];
	memset(pad, 0xff, pg_size());
	return m_prog(&chip, dst - HI_PAGE, pad, err);
}
