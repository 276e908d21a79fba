/* Journal-layer harness: concrete history, then symbolic operations on the
 * queue (kind, data, metadata, source), symbolic failures / power loss, then
 * a complete drain compared with a model queue. */
#include "nand.h.inc"

static struct dhara_journal jr;
static uint8_t page_buf[4096], io[4096], meta[DHARA_META_SIZE], meta2[DHARA_META_SIZE];

static unsigned ref_lppc(void)
{
	unsigned l = 1;
	while (l < chip.log2_ppb && 16 + 4 + 132u * ((1u << (l + 1)) - 1) <= pg_size()) l++;
	return l;
}

/* ------------------------------------------------------------ model queue */
#define NQ 400
#define NONE 0xffffu
static uint32_t q_id[NQ], q_tok[NQ]; static uint16_t q_page[NQ], q_rpage[NQ], q_dpage[NQ];
static unsigned qh, qt;			/* items [qh, qt) are queued */
static unsigned rel, dh, dt;		/* the newest checkpoint holds [dh, dt); of these [rel, dt) are needed */
static uint32_t d_cookie; static dhara_page_t d_root;
static uint16_t owner[MAX_PAGES];	/* item on this page, or NONE */
static uint8_t filler[MAX_PAGES];	/* page the harness itself left empty */
static dhara_page_t last_user_prog, cp_new;
static uint32_t cookie, lcg, ppc_mask, events;
static unsigned failed_blk = NONE, rec_from;
static uint8_t clean_known;		/* the state after the newest checkpoint has been noted */

static void power_fails(void) {}
static int lost_cp_expected(uint32_t p) { return 1; }
static void read_failed(void) {}
static void programmed(uint32_t p)
{
	if (is_cp(p)) { cp_new = p; return; }
	last_user_prog = p;
	owner[p] = NONE; filler[p] = 0;
}
static void erased(uint32_t b)
{
	for (unsigned i = rel; i < dt; i++)
		CHECK(A_JRN, q_dpage[i] >> chip.log2_ppb != b, "a block holding pages of the last durable checkpoint is erased");
	for (unsigned i = 0; i < 1u << chip.log2_ppb; i++) { owner[(b << chip.log2_ppb) + i] = NONE; filler[(b << chip.log2_ppb) + i] = 0; }
}

static uint32_t le32(const uint8_t *d) { return d[0] | d[1] << 8 | d[2] << 16 | (uint32_t)d[3] << 24; }
static void st32(uint8_t *d, uint32_t v) { for (int i = 0; i < 4; i++) d[i] = v >> (8 * i); }
static void fill(uint8_t *d, uint32_t tok)
{
	unsigned n = pg_size();
	memset(d, 0x5a, n);
	st32(d, tok); st32(d + n - 4, tok);
}
static uint32_t page_is(dhara_page_t p, uint32_t tok)
{
	const uint8_t *d = FP(p);
	unsigned n = pg_size();
	return (pst[p] == PG_PROG) & (le32(d) == tok) & (le32(d + n - 4) == tok) & (d[n / 2] == 0x5a);
}
static void fillmeta(uint32_t id)
{
	memset(meta, 0xc3, sizeof meta);
	st32(meta, id); st32(meta + DHARA_META_SIZE - 4, id);
}
static uint32_t meta_is(uint32_t id)
{
	return (le32(meta2) == id) & (le32(meta2 + DHARA_META_SIZE - 4) == id) & (meta2[4] == 0xc3) & (meta2[70] == 0xc3) & (meta2[DHARA_META_SIZE - 5] == 0xc3);
}
static uint32_t meta_blank(void) { return le32(meta2) == 0xffffffffu; }

/* sizes, positions, capacity */
static uint32_t slots(uint32_t from, uint32_t to)
{
	uint32_t n = 0;
	while (from != to) {
		if ((from & ppc_mask) != ppc_mask) n++;
		if (++from == n_pages()) from = 0;
	}
	return n;
}
static uint8_t seen, cnt_exact = 1, seen_epoch;
static uint32_t last_lo, last_hi, bad0;
static void lost_count(void) { cnt_exact = 0; seen_epoch = jr.epoch; last_lo = last_hi = jr.bb_last; }
static void state_check(void)
{
	const uint32_t spb = slots(0, 1u << chip.log2_ppb);
	uint32_t bad = 0;
	vx_assert(jr.head < n_pages() && jr.tail < n_pages() && jr.tail_sync < n_pages(), "head and tail lie on the chip");
	vx_assert((jr.head & ppc_mask) != ppc_mask && (jr.tail & ppc_mask) != ppc_mask && (jr.tail_sync & ppc_mask) != ppc_mask, "head and tail are user pages");
	CHECK(A_CAP, dhara_journal_size(&jr) == slots(jr.tail_sync, jr.head), "the journal size is not the number of user pages from the synchronised tail to the head");
	CHECK(A_CAP, dhara_journal_size(&jr) >= qt - qh && dhara_journal_size(&jr) >= qt - rel, "the journal size is less than the pages enqueued and not released");
	for (unsigned b = 0; b < chip.num_blocks; b++) bad += blk_bad[b] | blk_failed[b];
	uint32_t mb = jr.bb_last > jr.bb_current ? jr.bb_last : jr.bb_current;
	CHECK(A_CAP, dhara_journal_capacity(&jr) == (chip.num_blocks - 1 - mb) * spb && mb + 1 <= chip.num_blocks, "the capacity is not that of all blocks but one and the known bad ones");
	CHECK(A_CAP, jr.bb_current <= bad, "more bad blocks are counted than there are");
	/* the counts: bad blocks behind the head in this pass, and those of the whole last pass */
	uint32_t behind = 0, hb = jr.head >> chip.log2_ppb;
	for (unsigned b = 0; b < chip.num_blocks; b++) behind += (b < hb) & (blk_bad[b] | blk_failed[b]);
	if (!seen) { seen = 1; seen_epoch = jr.epoch; last_lo = last_hi = chip.num_blocks >> 6; bad0 = bad; }
	if (seen_epoch != jr.epoch) {
		seen_epoch = jr.epoch;
		last_lo = cnt_exact ? bad0 : 0; last_hi = cnt_exact ? bad : chip.num_blocks;
		cnt_exact = 1;
		CHECK(A_CAP, last_lo <= jr.bb_last && jr.bb_last <= last_hi, "the count of the last pass is not the number of bad blocks on the chip");
		last_lo = last_hi = jr.bb_last;
	}
	CHECK(A_CAP, last_lo <= jr.bb_last && jr.bb_last <= last_hi, "the count of the last pass changes during a pass");
	CHECK(A_CAP, !cnt_exact || jr.bb_current == behind, "the count of this pass is not the number of bad blocks met in it");
	bad0 = bad;
}

/* the journal says it is clean: this is what a restart must bring back */
static void note_clean(void)
{
	if (!dhara_journal_is_clean(&jr) || dhara_journal_in_recovery(&jr)) return;
	rel = dh = qh; dt = qt; d_root = jr.root; d_cookie = cookie;
	for (unsigned i = qh; i < qt; i++) q_dpage[i] = q_page[i];
}
static void put_cookie(uint32_t v) { cookie = v; st32(dhara_journal_cookie(&jr), v); }

static void check_item(unsigned i)
{
	dhara_error_t e = DHARA_E_NONE;
	dhara_page_t p = q_page[i];
	int r = dhara_journal_read_meta(&jr, p, meta2, &e);
	CHECK(A_JRN, !r, "the metadata of a queued page cannot be read");
	CHECK(A_JRN, meta_is(q_id[i]), "a queued page does not have the metadata it was given");
	CHECK(A_JRN, page_is(p, q_tok[i]), "a queued page does not have the data it was given");
}
static void accepted(uint32_t id, uint32_t tok)
{
	dhara_page_t p = dhara_journal_root(&jr);
	CHECK(A_JRN, p == last_user_prog, "the root is not the page enqueued last");
	if (p >= n_pages() || qt >= NQ) vx_quiet_end();
	q_id[qt] = id; q_tok[qt] = tok; q_page[qt] = p; owner[p] = qt;
	qt++;
	check_item(qt - 1);
}

/* ------------------------------------------------------------ recovery */
static uint32_t rec_fails;
static int recover(void);
static void begin_recovery(unsigned blk)
{
	failed_blk = blk; rec_fails = 0;
	for (unsigned i = 0; i < qt; i++) q_rpage[i] = q_page[i];
	rec_from = qt;
}
/* 0 when the recovery is over, otherwise the error */
static int recover(void)
{
	uint32_t ppb = 1u << chip.log2_ppb;
	unsigned steps = 0, lim = ppb + 2 * (ppc_mask + 1) + 2;
	uint32_t last = 0, any = 0, done = 0;
	uint8_t offered[64];
	memset(offered, 0, sizeof offered);
	vx_cover("recovery");
	while (dhara_journal_in_recovery(&jr)) {
		dhara_error_t e = DHARA_E_NONE;
		dhara_page_t p;
		int r;
		if (steps++ > lim) { CHECK(A_JRN, 0, "recovery does not end at the checkpoint after the last page"); vx_quiet_end(); }
		CHECK(A_JRN, !blk_bad[failed_blk], "the failed block is marked bad before its pages have been rewritten up to a checkpoint");
		p = dhara_journal_next_recoverable(&jr);
		if (p == DHARA_PAGE_NONE) {
			done = 1;
			for (unsigned i = qh; i < rec_from; i++)
				if (q_rpage[i] >> chip.log2_ppb == failed_blk)
					CHECK(A_JRN, offered[q_rpage[i] & (ppb - 1)], "recovery does not offer a page accepted on the failed block");
			r = dhara_journal_enqueue(&jr, NULL, NULL, &e);
			if (!r) filler[jr.root] = 1, owner[jr.root] = NONE;
		} else {
			CHECK(A_JRN, !done, "recovery offers a page after saying that there are no more");
			CHECK(A_JRN, p < n_pages() && p >> chip.log2_ppb == failed_blk && (p & ppc_mask) != ppc_mask, "recovery offers a page which is not a user page of the failed block");
			if (p >= n_pages()) vx_quiet_end();
			CHECK(A_JRN, !any || p > last, "recovery does not offer the pages in order");
			any = 1; last = p; offered[p & (ppb - 1)] = 1;
			r = dhara_journal_read_meta(&jr, p, meta2, &e);
			CHECK(A_JRN, !r, "the metadata of a page being recovered cannot be read");
			unsigned it = NONE;
			for (unsigned i = 0; i < rec_from; i++) if (q_rpage[i] == p && owner[p] == i) it = i;
			if (it != NONE) {
				CHECK(A_JRN, meta_is(q_id[it]) || (it < qh && meta_blank()), "a page being recovered does not have its original metadata");
				CHECK(A_JRN, page_is(p, q_tok[it]), "a page being recovered does not have its original data");
			} else CHECK(A_JRN, meta_blank(), "recovery offers a page which was never accepted");
			if (it != NONE && it >= qh) {
				memcpy(meta, meta2, sizeof meta);
				r = dhara_journal_copy(&jr, p, meta, &e);
				if (!r) { dhara_page_t np = jr.root; if (np >= n_pages()) vx_quiet_end(); q_page[it] = np; owner[np] = it; CHECK(A_JRN, np == last_user_prog, "the root is not the page enqueued last"); }
			} else {
				r = dhara_journal_enqueue(&jr, NULL, NULL, &e);
				if (!r) filler[jr.root] = 1, owner[jr.root] = NONE;
			}
		}
		note_clean();
		state_check();
		if (r) {
			if (e != DHARA_E_RECOVER) return e;
			/* once more from the beginning */
			vx_cover("recovery restarted");
			CHECK(A_JRN, dhara_journal_in_recovery(&jr), "recovery is asked for again but the journal is not in recovery");
			for (unsigned i = 0; i < rec_from; i++) if (q_rpage[i] >> chip.log2_ppb == failed_blk) q_page[i] = q_rpage[i];
			memset(offered, 0, sizeof offered);
			any = done = steps = 0;
		}
	}
	CHECK(A_JRN, blk_bad[failed_blk], "the failed block is not marked bad when recovery ends");
	for (unsigned b = 0; b < chip.num_blocks; b++) CHECK(A_JRN, !blk_failed[b] || blk_bad[b], "a block which failed during recovery is not marked bad when recovery ends");
	CHECK(A_JRN, dhara_journal_is_clean(&jr), "recovery ends before a checkpoint");
	note_clean();
	for (unsigned i = qh; i < qt; i++) check_item(i);
	failed_blk = NONE;
	return 0;
}

/* ------------------------------------------------------------ operations */
enum { OP_ENQ, OP_DEQ, OP_COPY, OP_PAD, OP_CLEAR, OP_RESTART, OP_COOKIE, OP_DIRTY };
struct opctx { unsigned kind, src; uint32_t id, tok; };
static int last_err, gone;

/* one page in: data (or a copy), or nothing at all */
static int put(struct opctx *o)
{
	for (unsigned i = 0; i < 12; i++) {
		dhara_error_t e = DHARA_E_NONE;
		dhara_page_t head = jr.head;
		unsigned nf = fails_reported, src = 0;
		int r;
		if (o->kind == OP_COPY) src = q_page[o->src];
		fillmeta(o->id);
		if (o->kind == OP_ENQ) { fill(io, o->tok); r = dhara_journal_enqueue(&jr, io, meta, &e); }
		else if (o->kind == OP_COPY) r = dhara_journal_copy(&jr, src, meta, &e);
		else r = dhara_journal_enqueue(&jr, NULL, NULL, &e);
		if (!r) {
			if (o->kind == OP_PAD) { filler[jr.root] = 1; owner[jr.root] = NONE; }
			else accepted(o->id, o->tok);
			if (dhara_journal_is_clean(&jr)) { CHECK(A_JRN | A_DUR, !(jr.head & ppc_mask), "the journal says it is clean but is not at a checkpoint"); note_clean(); }
			else CHECK(A_JRN | A_DUR, (jr.head & ppc_mask) || nf != fails_reported, "the journal does not become clean at a checkpoint");
			return 0;
		}
		if (e != DHARA_E_RECOVER) { last_err = e; return -1; }
		CHECK(A_JRN, nf != fails_reported, "recovery is asked for although nothing failed");
		if (!dhara_journal_in_recovery(&jr)) { vx_cover("page lost with an otherwise empty block"); note_clean(); continue; }
		begin_recovery(head >> chip.log2_ppb);
		{
			int x = recover();
			if (x) { last_err = x; gone = 1; return -1; }
		}
	}
	last_err = DHARA_E_TOO_BAD;
	return -1;
}

static void do_op(void *vp)
{
	struct opctx *o = vp;
	armed = 1; cp_new = DHARA_PAGE_NONE;
	switch (o->kind) {
	case OP_ENQ: case OP_COPY: case OP_PAD: {
		uint32_t er = c_erase, pr = c_prog;
		if (put(o)) {
			if (last_err == DHARA_E_JOURNAL_FULL) {
				CHECK(A_JRN, fails_reported || (er == c_erase && pr == c_prog), "the journal says that it is full but has modified the chip");
				vx_cover("journal full");
			} else CHECK(A_JRN | A_OK, last_err == DHARA_E_TOO_BAD && fails_reported >= DHARA_MAX_RETRIES, "enqueue or copy fails for no reason");
			if (gone) vx_quiet_end();
			for (unsigned b = 0; b < chip.num_blocks; b++) if (blk_failed[b] && !blk_bad[b]) vx_quiet_end();	/* a failure with no room left to deal with it */
		}
		break;
	}
	case OP_DEQ:
		if (qh < qt) {
			dhara_page_t p;
			unsigned n = 0;
			do {
				p = dhara_journal_peek(&jr);
				CHECK(A_JRN, p < n_pages(), "a queued page is missing");
				if (p >= n_pages()) vx_quiet_end();
				dhara_journal_dequeue(&jr);
			} while (owner[p] == NONE && n++ < 4 * ppc_mask);
			CHECK(A_JRN, owner[p] == qh && q_page[qh] == p, "pages do not leave in the order they entered");
			qh++;
			if (dhara_journal_is_clean(&jr)) rel = qh;
		}
		break;
	case OP_CLEAR: dhara_journal_clear(&jr); qh = qt; CHECK(A_JRN, dhara_journal_root(&jr) == DHARA_PAGE_NONE && dhara_journal_peek(&jr) == DHARA_PAGE_NONE, "a cleared journal is not empty"); break;
	case OP_COOKIE: dhara_journal_mark_dirty(&jr); put_cookie(o->tok); break;
	case OP_DIRTY: dhara_journal_mark_dirty(&jr); break;
	}
	armed = 0;
	state_check();
	CHECK(A_JRN, (qh == qt) || (dhara_journal_root(&jr) < n_pages()), "a queue holding pages has no root");
}

static void restart(void)
{
	dhara_error_t e = DHARA_E_NONE;
	int was_empty = dt == rel, r;
	armed = 0; events++;
	const int unclean = !dhara_journal_is_clean(&jr);
	restarts_dirty += unclean;
	memset(&jr, 0x6b, sizeof jr);
	memset(page_buf, 0xa5, pg_size());
	dhara_journal_init(&jr, &chip, page_buf);
	readonly_phase = 1;
	r = dhara_journal_resume(&jr, &e);
	readonly_phase = 0;
	if (r < 0) seen = 0, cnt_exact = 1;
	else if (unclean) lost_count();
	if (r < 0) {
		CHECK(A_DUR, dt == 0 || was_empty, "resume fails although there is a checkpoint");
		qh = qt = dh = rel = dt; cookie = 0xffffffff;
	} else {
		qh = dh; qt = dt;
		for (unsigned i = qh; i < qt; i++) q_page[i] = q_dpage[i];
		for (unsigned i = 0; i < n_pages(); i++) if (owner[i] != NONE && owner[i] >= qt) owner[i] = NONE;
		CHECK(A_DUR, le32(dhara_journal_cookie(&jr)) == d_cookie, "a restart does not bring back the cookie of the last checkpoint");
		cookie = d_cookie;
		CHECK(A_DUR, was_empty || jr.root == d_root, "a restart does not bring back the root of the last checkpoint");
		CHECK(A_DUR, dhara_journal_is_clean(&jr) && !dhara_journal_in_recovery(&jr), "the journal is not clean after a restart");
	}
	vx_cover("restart");
}
/* power was lost in a put: either the last clean state, or the one after if the put completed a checkpoint */
static void crash_restart(struct opctx *o)
{
	dhara_page_t page = cp_new - 1;
	dhara_error_t e = DHARA_E_NONE;
	armed = 0; events++; restarts_dirty++;
	forget_failures();
	memset(&jr, 0x6b, sizeof jr);
	memset(page_buf, 0xa5, pg_size());
	dhara_journal_init(&jr, &chip, page_buf);
	readonly_phase = 1;
	int r = dhara_journal_resume(&jr, &e);
	readonly_phase = 0;
	if (r < 0) seen = 0, cnt_exact = 1; else lost_count();
	/* did the checkpoint after the page in progress complete? */
	if (!r && cp_new != DHARA_PAGE_NONE) {
		vx_cover("the interrupted checkpoint counts");
		if (o->kind != OP_PAD) { q_id[qt] = o->id; q_tok[qt] = o->tok; q_page[qt] = page; owner[page] = qt; qt++; }
		rel = dh = qh; dt = qt; d_root = page; d_cookie = cookie;
		for (unsigned i = qh; i < qt; i++) q_dpage[i] = q_page[i];
	}
	if (r < 0) {
		CHECK(A_DUR, dt == 0, "resume fails although there is a checkpoint");
		qh = qt = dh = rel = dt; cookie = 0xffffffff;
		return;
	}
	CHECK(A_DUR, le32(dhara_journal_cookie(&jr)) == d_cookie, "power loss: the cookie is neither that of the last checkpoint nor of a later one");
	cookie = d_cookie;
	CHECK(A_DUR, dt == rel || jr.root == d_root, "power loss: the root is neither that of the last checkpoint nor of a later one");
	qh = dh; qt = dt;
	for (unsigned i = qh; i < qt; i++) q_page[i] = q_dpage[i];
	for (unsigned i = 0; i < n_pages(); i++) if (owner[i] != NONE && owner[i] >= qt) owner[i] = NONE;
	vx_cover("power loss");
}

/* everything comes out, in order, with what was put in */
static void drain(uint32_t cls)
{
	uint32_t lim = n_pages(), run = 0, next = qh;
	dhara_error_t e;
	for (;;) {
		if (!lim--) { CHECK(cls, 0, "draining the journal does not end"); break; }
		dhara_page_t p = dhara_journal_peek(&jr);
		if (p == DHARA_PAGE_NONE) break;
		CHECK(cls, p < n_pages() && (p & ppc_mask) != ppc_mask && !blk_bad[p >> chip.log2_ppb], "the tail is not a user page of a good block");
		if (p >= n_pages()) vx_quiet_end();
		unsigned it = owner[p];
		uint32_t lost0 = lost_cp_hit;
		int r = dhara_journal_read_meta(&jr, p, meta2, &e);
		if (it == NONE || q_page[it] != p) {
			/* a page of ours moved by recovery may show up at its old place only if it was already dequeued */
			if (lost_cp_hit == lost0) CHECK(cls, !r, "the metadata of a filler page cannot be read");
			if (!r && it == NONE) CHECK(cls, meta_blank() || restarts_dirty, "a page which was never enqueued comes out of the queue");
			if (!filler[p]) run++;
			CHECK(cls, run <= ppc_mask * (1 + fails_reported) || events, "too many filler pages in a row");
		} else {
			run = 0;
			CHECK(cls, !r && meta_is(q_id[it]), "a page leaves with other metadata than it was given");
			CHECK(cls, page_is(p, q_tok[it]), "a page leaves with other data than it was given");
			if (it >= rel || !events) CHECK(cls, it == next || (it > next && it <= rel && events), "pages do not leave in the order they entered");
			next = it + 1;
		}
		dhara_journal_dequeue(&jr);
	}
	CHECK(cls, next == qt || (rel == qt && events), "pages are missing from the queue");
	CHECK(cls, jr.root == DHARA_PAGE_NONE || jr.head == jr.tail, "an emptied journal has pages");
	vx_cover("drained");
}

/* ------------------------------------------------------------ concrete history */
static uint32_t rnd(void) { lcg = lcg * 1664525u + 1013904223u; return lcg >> 8; }
static void history(unsigned n)
{
	uint32_t level = vx_param("level", 5), style = vx_param("hstyle", 0);
	for (unsigned k = 0; k < n; k++) {
		struct opctx o = { .kind = OP_ENQ, .id = 0x2000 + k, .tok = 0x3000 + k };
		uint32_t r = rnd() % 16;
		if (qt - qh > level || (style == 1 && qt > qh && r < 5)) o.kind = OP_DEQ;
		else if (style == 1 && r == 5) o.kind = OP_PAD;
		else if (style == 1 && r == 6 && qt > qh) { o.kind = OP_COPY; o.src = qh + rnd() % (qt - qh); o.tok = q_tok[o.src]; }
		else if (style == 1 && r == 7) { o.kind = OP_COOKIE; o.tok = 0x4000 + k; }
		else if (style == 1 && r == 8) { if (dhara_journal_is_clean(&jr)) { restart(); continue; } o.kind = OP_PAD; }
		else if (style == 2 && r == 0) o.kind = OP_CLEAR;
		do_op(&o);
		if (qt > NQ - 40) vx_quiet_end();
	}
}

void vx_main(void)
{
	dhara_error_t e;
	uint32_t nops, opmask, f, finals;
	chip_setup();
	memset(owner, 0xff, sizeof owner);
	ppc_mask = (1u << ref_lppc()) - 1;
	lcg = vx_param("seed", 1) * 7919;
	nops = vx_param("nops", 2); opmask = vx_param("ops", 0xff); finals = vx_param("finals", 3);
	memset(page_buf, 0xa5, pg_size());
	dhara_journal_init(&jr, &chip, page_buf);
	CHECK(A_CAP, jr.log2_ppc == ref_lppc(), "checkpoint group size");
	dhara_journal_resume(&jr, &e);
	if (vx_param("epoch", 0)) jr.epoch = vx_param("epoch", 0);
	cookie = 0xffffffff; d_cookie = cookie; d_root = DHARA_PAGE_NONE;
	put_cookie(0x1234);
	hist_faults = vx_param("hfaults", 0); hist_lcg = vx_param("seed", 0) * 77;
	history(vx_param("hist", 0));
	hist_faults = 0; fails_reported = 0;
	if (vx_param("fillup", 0)) {	/* until the journal is full */
		for (unsigned i = 0; i < n_pages() + 2; i++) {
			struct opctx o = { .kind = OP_ENQ, .id = 0x5000 + i, .tok = 0x6000 + i };
			do_op(&o);
		}
	}
	if (vx_param("mix", 0)) {	/* release, refill and release again, any number of pages */
		const uint32_t spb = slots(0, 1u << chip.log2_ppb), w = vx_param("mixbits", 3);
		for (unsigned k = 0; k < 3; k++) {
			uint32_t n = (uint32_t)vx_sym("mix", k, w);
			vx_assume(n <= (k == 1 ? spb : 2 * spb));
			n = (uint32_t)vx_concretize(n);
			while (n--) {
				struct opctx o = { .kind = k == 1 ? OP_ENQ : OP_DEQ, .id = 0x7000 + n, .tok = 0x7100 + n };
				do_op(&o);
			}
		}
	}
	fault_budget = vx_param("faults", 0);
	crash_budget = vx_param("crashes", 0);
	for (unsigned k = 0; k < nops; k++) {
		struct opctx o;
		unsigned kind = (unsigned)vx_sym("op", k, 3);
		vx_assume((opmask >> kind) & 1);
		o.kind = (unsigned)vx_concretize(kind);
		o.id = (uint32_t)vx_sym("meta", k, 32); o.tok = (uint32_t)vx_sym("data", k, 32);
		vx_assume(o.id != 0xffffffffu);
		if (o.kind == OP_COPY) {
			uint32_t s = (uint32_t)vx_sym("src", k, 6);
			vx_assume(s < qt - qh);
			o.src = qh + (unsigned)vx_concretize(s);
			o.tok = q_tok[o.src];
		}
		vx_note("operation", o.kind);
		if (o.kind == OP_RESTART) {
			if (dhara_journal_is_clean(&jr) || vx_param("dirtyrestart", 1)) restart();
			continue;
		}
		if (vx_try(do_op, &o)) crash_restart(&o);
	}
	crash_budget = 0;
	f = (uint32_t)vx_sym("final", 0, 2);
	vx_assume((finals >> f) & 1);
	f = (uint32_t)vx_concretize(f);
	if (f == 1) {		/* pad to a checkpoint, restart */
		struct opctx o = { .kind = OP_PAD };
		unsigned n = 0;
		while (!dhara_journal_is_clean(&jr) && n++ <= 3 * ppc_mask) { do_op(&o); if (last_err) vx_quiet_end(); }
		CHECK(A_DUR, dhara_journal_is_clean(&jr), "the journal does not become clean at a checkpoint");
		restart();
	}
	if (f == 2) restart();
	/* an arbitrary queued page */
	if (qt > qh && !events) {
		uint32_t i = (uint32_t)vx_sym("item", 0, 6);
		vx_assume(i < qt - qh);
		check_item(qh + (unsigned)vx_concretize(i));
	}
	fault_budget = 0;
	drain(A_JRN | A_DUR);
	vx_cover("end");
}
