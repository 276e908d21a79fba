/* Map-layer harness: concrete history of the given length, then symbolic
 * operations (kind, sectors, data), symbolic failures / power loss, then
 * verification of every sector through a symbolic sector number. */
#include "nand.h.inc"
/* work bound of resume: candidate blocks tried per step of the search, and pages looked at in one block */
#define RESUME_PER_STEP 16
#define RESUME_PER_PAGE 4

#ifdef XPAGE
/* exactly as large as documented, and not initialised */
static struct dhara_map *mapp;
#define map (*mapp)
static uint8_t *page_buf, *io, *io2;
static struct dhara_map *mapp2;
static uint8_t *page_buf2;
#else
static struct dhara_map map;
static uint8_t page_buf[4096], io[4096], io2[4096];
#endif

/* ------------------------------------------------------------ oracle */
#define NT 72
#define NE 24
/* the concrete history: distinct sectors and their value */
static uint32_t t_sec[NT], t_val[NT]; static uint8_t t_on[NT]; static unsigned nt;
static uint32_t t_synced_val[NT]; static uint8_t t_synced_on[NT];
/* symbolic events, in order */
enum { EV_WRITE, EV_TRIM, EV_CLEAR, EV_COPY };
static uint8_t e_kind[NE]; static uint32_t e_sec[NE], e_val[NE], e_src[NE]; static uint32_t e_cnt[NE + 1];
static uint8_t e_onv[NE]; /* mapped after event (for copy) */
static unsigned ne, ne_synced;
static uint32_t cntoff;
struct val { uint32_t on, tok; };

static struct val lookup(uint32_t q, unsigned upto)
{
	struct val v = {0, 0};
	for (unsigned i = 0; i < nt; i++) {
		uint32_t hit = t_sec[i] == q;
		v.on = hit ? t_on[i] : v.on;
		v.tok = hit ? t_val[i] : v.tok;
	}
	for (unsigned i = 0; i < upto; i++) {
		uint32_t hit;
		if (e_kind[i] == EV_CLEAR) { v.on = 0; continue; }
		hit = e_sec[i] == q;
		v.on = hit ? e_onv[i] : v.on;
		v.tok = hit ? e_val[i] : v.tok;
	}
	return v;
}
static uint32_t cnt_at(unsigned upto) { return e_cnt[upto]; }
static void push_event(unsigned kind, uint32_t sec, uint32_t on, uint32_t tok)
{
	uint32_t was = lookup(sec, ne).on;
	if (ne >= NE) vx_quiet_end();
	e_kind[ne] = kind; e_sec[ne] = sec; e_onv[ne] = on; e_val[ne] = tok;
	e_cnt[ne + 1] = kind == EV_CLEAR ? 0 : e_cnt[ne] - was + on;
	ne++;
}

/* page image of a token: marks at both ends and in the middle */
#define BLANKTOK 0xffffffffu
static void fill(uint8_t *d, uint32_t tok, uint32_t all_ff)
{
	unsigned n = pg_size();
	memset(d, 0xff, n);
	if (!all_ff) {
		memset(d + 4, 0x5a, n - 8);
	}
	for (int i = 0; i < 4; i++) { d[i] = tok >> (8 * i); d[n - 4 + i] = tok >> (8 * i); }
	if (all_ff) return;
}
static uint32_t le32(const uint8_t *d) { return d[0] | d[1] << 8 | d[2] << 16 | (uint32_t)d[3] << 24; }
static uint32_t first4(const uint8_t *d) { return d[0] | d[1] << 8 | d[2] << 16 | (uint32_t)d[3] << 24; }
/* does the page just read hold the value? */
static uint32_t page_is(const uint8_t *d, struct val v)
{
	unsigned n = pg_size();
	uint32_t mid = (v.on && v.tok != BLANKTOK) ? 0x5a : 0xff;
	uint32_t tok = v.on ? v.tok : BLANKTOK;
	uint32_t a = first4(d), b = first4(d + n - 4);
	return (a == tok) & (b == tok) & (d[4] == mid) & (d[n / 2] == mid) & (d[n - 5] == mid);
}

/* ------------------------------------------------------------ concrete history */
static uint32_t lcg;
static uint32_t rnd(void) { lcg = lcg * 1664525u + 1013904223u; return lcg >> 8; }
static uint32_t nsec;		/* sectors used by the concrete history */
static uint32_t secstyle;
/* Sector numbers in use are images of small integers, so that few symbolic
 * bits reach every level of the radix tree; secbits=32 is the whole range. */
static const uint8_t dep1[8] = {0, 31, 11, 20, 1, 30, 5, 16}, dep3[8] = {31, 30, 1, 0, 15, 16, 29, 2};
static uint32_t deposit(uint32_t i, const uint8_t *pos)
{
	uint32_t r = 0;
	for (unsigned b = 0; b < 8; b++) r |= (i >> b & 1) << pos[b];
	return r;
}
static uint32_t sector_of(uint32_t i)
{
	switch (secstyle) {
	case 0: return i;				/* dense, low */
	case 1: return deposit(i, dep1);		/* spread */
	case 2: return 0xfffffffeu ^ (i << 1);		/* top of the range */
	default: return deposit(i, dep3);
	}
}
static uint8_t track;		/* recent history is kept as events: it may be rolled back */
static void note_conc(uint32_t sec, uint32_t on, uint32_t tok)
{
	unsigned i;
	if (track) { push_event(on ? EV_WRITE : EV_TRIM, sec, on, tok); return; }
	for (i = 0; i < nt; i++) if (t_sec[i] == sec) break;
	if (i == nt) { if (nt >= NT) vx_quiet_end(); nt++; t_sec[i] = sec; }
	t_on[i] = on; t_val[i] = tok;
}
static unsigned conc_count(void)
{
	unsigned c = 0;
	if (track) return cnt_at(ne) - cntoff;
	for (unsigned i = 0; i < nt; i++) c += t_on[i];
	return c;
}
static unsigned conc_on(uint32_t s) { return lookup(s, ne).on; }
static uint32_t conc_any(void)
{
	unsigned i;
	for (i = 0; i + 1 < nt; i++) if (conc_on(t_sec[i])) break;
	return t_sec[i];
}
/* a run of as many bad blocks as are tried in a row: an operation may give up on it */
static int long_bad_run(void)
{
	unsigned r = 0, m = 0, nb = chip.num_blocks;
	for (unsigned i = 0; i < 2 * nb; i++) {
		r = blk_bad[i % nb] ? r + 1 : 0;
		if (r > m) m = r;
	}
	return m >= DHARA_MAX_RETRIES;
}
static int gave_up(int r, dhara_error_t e) { return r && e == DHARA_E_TOO_BAD && long_bad_run(); }
static void conc_sync(void)
{
	dhara_error_t e;
	vx_assert(!dhara_map_sync(&map, &e), "history: sync failed");
	if (track) ne_synced = ne;
}
static void conc_write(uint32_t s, uint32_t tok)
{
	dhara_error_t e = DHARA_E_NONE;
	fill(io, tok, tok == BLANKTOK);
	int r = dhara_map_write(&map, s, io, &e);
	/* finding bad blocks lowers the capacity, so it is looked at after the call */
	if (r && e == DHARA_E_MAP_FULL && !conc_on(s) && conc_count() >= dhara_map_capacity(&map)) return;
	if (gave_up(r, e)) return;
	vx_assert(!r, "history: write within capacity failed");
	note_conc(s, 1, tok);
}
static void conc_trim(uint32_t s)
{
	dhara_error_t e = DHARA_E_NONE;
	int r = dhara_map_trim(&map, s, &e);
	if (gave_up(r, e)) return;
	vx_assert(!r, "history: trim failed");
	note_conc(s, 0, 0);
}
static int last_ret; static dhara_error_t last_err;
static void restart(void);
static void conc_restart(void)
{
	restart();
	vx_assert(!last_ret || !conc_count(), "history: restart failed");
	vx_assert(map.count == conc_count(), "history: restart lost sectors");
}
static void history(unsigned n)
{
	dhara_error_t e;
	uint32_t style = vx_param("hstyle", 0), ffmod = vx_param("ffmod", 0);
	uint32_t cap = dhara_map_capacity(&map);
	uint32_t fillto = vx_param("fill", 3);
	if (fillto > cap) fillto = cap;
	for (unsigned k = 0; k < n; k++) {
		uint32_t r = rnd(), s, tok = 0x1000 + k;
		if (ffmod && r % ffmod == 0) tok = BLANKTOK;
		s = sector_of(rnd() % nsec);
		unsigned on = conc_on(s);
		switch (style) {
		case 0: /* rewrite a full set of sectors */
			if (on || conc_count() < fillto) conc_write(s, tok);
			else conc_write(conc_any(), tok);
			break;
		case 1: /* mixture */
			switch (r % 8) {
			case 0: conc_trim(s); break;
			case 1: conc_sync(); break;
			case 2: vx_assert(!dhara_map_gc(&map, &e), "history: gc failed"); break;
			default: if (on || conc_count() < fillto) conc_write(s, tok); else conc_trim(s);
			}
			break;
		case 3: /* fill up, then rewrite one sector all the time */
			s = sector_of(k % nsec);
			if (conc_count() < fillto && !conc_on(s)) conc_write(s, tok);
			else conc_write(r % 64 ? t_sec[0] : conc_any(), tok);
			break;
		case 4: /* mixture, with restarts: half of them with work under way that changes no contents */
			switch (r % 16) {
			case 0: conc_trim(s); break;
			case 1: conc_sync(); break;
			case 2: vx_assert(!dhara_map_gc(&map, &e), "history: gc failed"); break;
			case 3: case 4:
				if (track || !conc_count()) break;
				conc_sync();
				if (r & 256) for (unsigned j = 0; j < (r >> 9) % 5; j++) {
					uint32_t q = conc_any();
					restarts_dirty = 1;
					if (r >> 12 & 1) vx_assert(!dhara_map_gc(&map, &e), "history: gc failed");
					else conc_write(q, lookup(q, ne).tok);
				}
				conc_restart();
				break;
			default: if (on || conc_count() < fillto) conc_write(s, tok); else conc_trim(s);
			}
			break;
		default: /* write, sync, write, sync */
			if (on || conc_count() < fillto) conc_write(s, tok); else conc_trim(s);
			if (k & 1) conc_sync();
		}
	}
}

/* ------------------------------------------------------------ symbolic part */
static uint32_t secbits, opmask, nops, cur_op;
static uint32_t sym_sector(const char *nm, uint32_t i)
{
	uint32_t w = *nm == 'q' && vx_param("qbits", 0) ? vx_param("qbits", 0) : secbits, s = (uint32_t)vx_sym(nm, i, w);
	if (w < 32) return sector_of(s);
	vx_assume(s != DHARA_SECTOR_NONE);
	return s;
}
static uint32_t err_ok(dhara_error_t e) { return e > DHARA_E_NONE && e < DHARA_E_MAX; }

static int faults_possible(void) { return fails_reported != 0; }

struct opctx { unsigned k, kind; uint32_t s, src, tok; };
static uint32_t copied_page = DHARA_PAGE_NONE; static uint8_t copied_gone;
static uint32_t work0[4], work_log;
static void work_begin(void) { work0[0] = c_read; work0[1] = c_free; work0[2] = c_prog; work0[3] = c_erase; work_log = dhara_journal_size(&map.journal); }
/* Work bound of one modifying call: set by the checkpoint group, the block
 * and the collection ratio, not by the size of the chip (a sync may look
 * through the garbage at the tail of the log, but programs at most one
 * group).  Collecting a page reads its own metadata and one slice per level. */
static void work_end(unsigned kind, uint32_t failures)
{
	uint32_t ppc = 1u << ref_lppc(), ppb = 1u << chip.log2_ppb, gc = map.gc_ratio;
	uint32_t user = kind == 2 ? ppc - 1 : kind == 3 ? 1 : gc + 3;
	uint32_t progs = user + user / (ppc - 1) + 1 + failures * (4 * ppb + 2 * ppc + 8);
	uint32_t traces = (kind == 2 ? work_log + ppc : kind == 3 ? 1 : gc + 4) + failures * (4 * ppb + 2 * ppc + 8);
	CHECK(A_WORK, c_read - work0[0] <= traces * 35, "an operation reads more metadata than its bound");
	CHECK(A_WORK, c_prog - work0[2] <= progs, "an operation programs more pages than its bound");
	CHECK(A_WORK, c_erase - work0[3] <= progs / ppb + 2 + 2 * failures, "an operation erases more blocks than its bound");
	CHECK(A_WORK, c_free - work0[1] <= 4 * ppb, "an operation checks more pages than its bound");
}

static void do_op(void *vp)
{
	struct opctx *o = vp;
	dhara_error_t e = DHARA_E_NONE;
	int r = 0;
	uint32_t cap = dhara_map_capacity(&map);
	uint32_t mapped = lookup(o->s, ne).on;
	uint32_t cnt = cnt_at(ne);
	uint32_t hit0 = rderr_hit, lost0 = lost_cp_hit;
	unsigned j = ne;
	uint32_t fr0 = fails_reported;
	/* the error pointer may be null */
	dhara_error_t *ep = vx_param("nullerr", 0) ? NULL : &e;
	armed = 1;
	work_begin();
	switch (o->kind) {
	case 0:
		fill(io, o->tok, 0);
		if (vx_param("ffop", 0) && (vx_sym("ff", o->k, 1) & 1)) { memset(io, 0xff, pg_size()); o->tok = BLANKTOK; }
		/* outcome recorded before the call, so that a power loss inside it can be judged */
		push_event(EV_WRITE, o->s, 1, o->tok);
		r = dhara_map_write(&map, o->s, io, ep);
		break;
	case 1: push_event(EV_TRIM, o->s, 0, 0); r = dhara_map_trim(&map, o->s, ep); break;
	case 2: r = dhara_map_sync(&map, ep); break;
	case 3: r = dhara_map_gc(&map, ep); break;
	case 4: {
		struct val v = lookup(o->src, ne);
		push_event(EV_COPY, o->s, v.on, v.tok);
		r = dhara_map_copy_sector(&map, o->src, o->s, ep);
		break;
	}
	case 5: {
		dhara_page_t p;
		struct val v = lookup(o->src, ne);
		r = dhara_map_find(&map, o->src, &p, &e);
		if (r < 0) { armed = 0; last_ret = 0; CHECK(A_FIND, rderr_hit != hit0 || (!v.on && e == DHARA_E_NOT_FOUND), "find fails for a mapped sector"); return; }
		push_event(EV_COPY, o->s, v.on, v.tok);
		copied_page = LP((uint32_t)vx_concretize(p)); copied_gone = 0;
		r = dhara_map_copy_page(&map, p, o->s, ep);
		copied_page = DHARA_PAGE_NONE;
		if (copied_gone && !r) {
			/* with a wrong result: the finding.  With the right one: fine */
			dhara_page_t d = 0;
			if (!dhara_map_find(&map, o->s, &d, &e)) {
				d = LP((uint32_t)vx_concretize(d));
				if (!page_is(FP(d), v)) { known("F4"); vx_quiet_end(); }
			}
		}
		break;
	}
	case 6: push_event(EV_CLEAR, 0, 0, 0); dhara_map_clear(&map); break;
	}
	armed = 0;
	work_end(o->kind, fails_reported - fr0);
	if (r < 0 && !ep) e = DHARA_E_NONE;
	last_ret = r; last_err = e;
	if (r == 0) {
		if (o->kind == 2) ne_synced = ne;
		if (o->kind == 0 || o->kind == 5 || o->kind == 4)
			CHECK(A_FULL, mapped || (o->kind == 4 && !e_onv[j]) || cnt < cap, "a new sector was accepted at or above capacity");
		if (o->kind == 2) CHECK(A_DUR, dhara_journal_is_clean(&map.journal), "sync succeeds but the journal is not clean");
		/* every block that failed is marked by now */
		for (unsigned b = 0; b < chip.num_blocks; b++)
			CHECK(A_MARK, !blk_failed[b] || blk_bad[b], "a failed block is not marked bad when the operation succeeds");
	} else {
		if (e == DHARA_E_ECC && lost_cp_hit != lost0) known("F1");
		CHECK(A_ERR, !ep || err_ok(e), "operation fails without a documented error code");
		uint32_t newsec = (o->kind == 0 || o->kind == 5 || (o->kind == 4 && e_onv[j])) & !mapped;
		if (rderr_hit == hit0 && ep) {
			if (e == DHARA_E_MAP_FULL)
				CHECK(A_FULL | A_OK, newsec & (cnt >= dhara_map_capacity(&map)), "map-full error although the map is not full");
			else
				CHECK(A_FULL | A_OK, fails_reported >= DHARA_MAX_RETRIES || gave_up(r, e), "operation within capacity fails");
		}
		ne = j;		/* no effect */
	}
}

static void verify_sector(uint32_t q, unsigned upto, uint32_t cls, const char *msg)
{
	dhara_error_t e = DHARA_E_NONE;
	uint32_t hit0 = rderr_hit;
	struct val v = lookup(q, upto);
#ifndef XPAGE
	memset(io2, 0x77, pg_size());
#endif
	work_begin();
	int r = dhara_map_read(&map, q, io2, &e);
	CHECK(A_WORK, c_read - work0[0] <= 34 && c_free == work0[1] && c_prog == work0[2], "reading a sector does more than one metadata read per bit, one for the root and one for the data");
	if (r < 0) { CHECK(cls | A_ERR, rderr_hit != hit0, "reading a sector fails without an unreadable page"); CHECK(A_ERR | A_DATA, e == DHARA_E_ECC, "read failure has the wrong error code"); return; }
	CHECK(cls, page_is(io2, v), msg);
	if (chk & A_FIND) {
		dhara_page_t p = 0;
		work_begin();
		r = dhara_map_find(&map, q, &p, &e);
		CHECK(A_WORK, c_read - work0[0] <= 33, "finding a sector does more than one metadata read per bit and one for the root");
		if (r < 0) CHECK(A_FIND, rderr_hit != hit0 || (!v.on && e == DHARA_E_NOT_FOUND), "find does not agree with the sector being mapped");
		else {
			CHECK(A_FIND, v.on, "find succeeds for a sector that is not mapped");
			p = LP((dhara_page_t)vx_concretize(p));
			CHECK(A_FIND, p < n_pages() && pst[p] == PG_PROG && page_is(FP(p), v), "find names a page that does not hold the sector");
		}
	}
}

/* independent reader of the on-flash format (map_internals / journal_internals) */
static unsigned ref_lppc(void)
{
	unsigned l = 1;
	while (l < chip.log2_ppb && 16 + 4 + 132u * ((1u << (l + 1)) - 1) <= pg_size()) l++;
	return l;
}
static void decode_check(unsigned upto)
{
	unsigned lppc = ref_lppc(), m = (1u << lppc) - 1;
	/* the newest checkpoint is the one before the head */
	uint32_t head = LP(map.journal.head);
	if (head >= n_pages()) return;
	uint32_t cp = ((head & ~m) + n_pages() - 1) % n_pages();
	while (blk_bad[cp >> chip.log2_ppb]) cp = (cp + n_pages() - (1u << chip.log2_ppb)) % n_pages();
	const uint8_t *d = FP(cp);
	if (pst[cp] != PG_PROG) return;
	CHECK(A_FMT, d[0] == 'D' && d[1] == 'h' && d[2] == 'a', "checkpoint page lacks the magic");
	CHECK(A_FMT, le32(d + 4) < lib_chip()->num_blocks << chip.log2_ppb, "checkpoint names a tail outside the chip");
	CHECK(A_FMT, le32(d + 16) == cnt_at(upto), "checkpoint does not carry the sector count");
	/* walk the radix tree for an arbitrary sector */
	uint32_t q = sym_sector("fq", 0);
	uint32_t p = cp - 1, depth = 0, found = 1;
	struct val v = lookup(q, upto);
	while (depth < 32) {
		const uint8_t *s = FP(p | m) + 20 + 132 * (p & m);
		uint32_t id = le32(s);
		if (id == 0xffffffffu) { found = 0; break; }
		uint32_t diff = q ^ id;
		/* first differing bit at or below depth */
		while (depth < 32 && !(diff >> (31 - depth) & 1)) depth++;
		if (depth == 32) break;
		p = le32(s + 4 + 4 * depth);
		if (p == 0xffffffffu) { found = 0; break; }
		p = LP((uint32_t)vx_concretize(p));
		CHECK(A_FMT, p < n_pages() && (p & m) != m, "metadata points outside the chip or at a checkpoint page");
		if (p >= n_pages()) return;
		depth++;
	}
	CHECK(A_FMT, found == v.on, "an independent reader of the flash finds a different set of sectors");
	if (found) CHECK(A_FMT, page_is(FP(p), v), "an independent reader of the flash finds different data");
}
/* a chip last used by something else: the first blocks each blank, unreadable, full of other data, or bad */
static void foreign(unsigned n)
{
	for (unsigned b = 0; b < chip.num_blocks; b++) {
		unsigned k = 2;
		if (b < n) k = (unsigned)vx_concretize(vx_sym("foreign", b, 2));
		if (k == 0) continue;
		if (k == 3) { blk_bad[b] = 1; continue; }
		for (unsigned i = 0; i < 1u << chip.log2_ppb; i++) {
			uint32_t p = (b << chip.log2_ppb) + i;
			pst[p] = k == 1 ? PG_TORN : PG_PROG;
			if (k == 2) memset(FP(p), 'D', pg_size());
		}
	}
}

static int cp_unreadable(void)
{
	for (uint32_t p = 0; p < n_pages(); p++) if (rd_bad[p] && is_cp(p)) return 1;
	return 0;
}

static void restart(void)
{
	dhara_error_t e = DHARA_E_NONE;
	uint8_t gcr = map.gc_ratio;
	uint32_t er = c_erase, pr = c_prog, mk = c_mark, rd = c_read, fr = c_free, lg = 0;
	while (1u << lg < lib_chip()->num_blocks) lg++;
#ifdef XPAGE
	if (mapp2) { mapp = mapp2; page_buf = page_buf2; mapp2 = NULL; }
#else
	memset(&map, 0x6b, sizeof map);
	memset(page_buf, 0xa5, pg_size());
#endif
	dhara_map_init(&map, lib_chip(), page_buf, gcr);
	readonly_phase = 1;
	last_ret = dhara_map_resume(&map, &e);
	readonly_phase = 0;
	last_err = e;
	CHECK(A_WORK, c_read - rd + c_free - fr <= RESUME_PER_STEP * (lg + 3) + RESUME_PER_PAGE * (1u << chip.log2_ppb), "resume does more flash work than a multiple of the logarithm of the number of blocks plus a multiple of the pages per block");
	CHECK(A_RO, er == c_erase && pr == c_prog && mk == c_mark, "resume modifies the chip");
	if (last_ret < 0) {
		CHECK(A_ERR, err_ok(e), "resume fails without an error code");
		CHECK(A_DUR | A_ERR, map.count == 0, "failed resume does not leave an empty map");
	}
}

/* A checkpoint completed in the middle of a recovery refers to pages of the
 * failed block whose metadata exists only in the page dumped at the start
 * of that recovery, and nothing on the flash says so (finding F2). */
static uint8_t rec_cp, rec_lost;
static void programmed(uint32_t p)
{
	if (is_cp(p) && (chk & A_FMT)) {
		/* the header, field by field, against the state it describes */
		const uint8_t *d = FP(p);
		CHECK(A_FMT, d[0] == 'D' && d[1] == 'h' && d[2] == 'a', "checkpoint page lacks the magic");
		CHECK(A_FMT, d[3] == map.journal.epoch, "checkpoint does not carry the pass counter");
		CHECK(A_FMT, le32(d + 4) == map.journal.tail, "checkpoint does not carry the tail");
		CHECK(A_FMT, le32(d + 8) == map.journal.bb_current, "checkpoint does not carry the number of bad blocks of this pass");
		CHECK(A_FMT, le32(d + 12) == map.journal.bb_last, "checkpoint does not carry the number of bad blocks of the last pass");
	}
	if (!dhara_journal_in_recovery(&map.journal) || map.journal.recover_meta == DHARA_PAGE_NONE) return;
	if (is_cp(p)) rec_cp = !(map.journal.flags & DHARA_JOURNAL_F_ENUM_DONE);
}
/* An uncorrectable read ends a recovery early; it is then never resumed,
 * but the next checkpoint completes it (finding F3). */
static void read_failed(void)
{
	if (!armed || !dhara_journal_in_recovery(&map.journal)) return;
	for (unsigned b = 0; b < chip.num_blocks; b++)
		if (blk_failed[b] && !blk_bad[b]) copy_lost[b] = 1;
}
/* A page copied by its number may lie in the log.  Collection, which the same
 * call does first, moves the sector it holds elsewhere, and with a collection
 * ratio larger than the spare space it also reuses the page (finding F4). */
/* the tail has reached the group, or the block in which it lies is being recovered */
static int lost_cp_expected(uint32_t p)
{
	const uint32_t m = (1u << ref_lppc()) - 1;
	return p == (LP((uint32_t)map.journal.tail) | m) ||
		(dhara_journal_in_recovery(&map.journal) && LP(map.journal.recover_root) >> chip.log2_ppb == p >> chip.log2_ppb);
}
static void erased(uint32_t b) { if (copied_page != DHARA_PAGE_NONE && copied_page >> chip.log2_ppb == b) copied_gone = 1; }
static void power_fails(void) { rec_lost = dhara_journal_in_recovery(&map.journal) && rec_cp; rec_cp = 0; }

/* after power loss: which prefix of the events does the recovered map show? */
static void settle_after_crash(unsigned lo)
{
	uint32_t ok[NE + 1];
	dhara_error_t e;
	unsigned hi = ne;
	for (unsigned j = lo; j <= hi; j++) ok[j] = map.count == cnt_at(j);
	/* every sector of the history and of the events */
	for (unsigned i = 0; i < nt + hi; i++) {
		uint32_t q = i < nt ? t_sec[i] : e_sec[i - nt];
		if (i >= nt && e_kind[i - nt] == EV_CLEAR) continue;
		int r = dhara_map_read(&map, q, io2, &e);
		if (r && rec_lost) known("F2");
		CHECK(A_DUR, r == 0, "a sector is unreadable after power loss");
		for (unsigned j = lo; j <= hi; j++) ok[j] &= page_is(io2, lookup(q, j));
	}
	uint32_t any = 0;
	for (unsigned j = lo; j <= hi; j++) any |= ok[j];
	if (rec_lost) { if (!any) known("F2"); vx_quiet_end(); }
	CHECK(A_DUR | A_SIZE, any, "the map after power loss is not the map after any prefix of the operations that includes the last sync");
	/* continue from the prefix found (the longest) */
	unsigned pick = lo; uint32_t got = 0;
	for (unsigned j = lo; j <= hi; j++) if (ok[j]) { pick = j; got = 1; }
	if (!got) vx_quiet_end();
	pick = (unsigned)vx_concretize(pick);
	ne = pick; ne_synced = pick;
}
/* Nothing the caller asks for may change anything: the instance, the page
 * buffer, the chip.  A second answer is the first one. */
#ifndef XPAGE
static struct dhara_map map0;
static uint8_t page_buf0[4096], io3[4096];
static void snap(void) { map0 = map; memcpy(page_buf0, page_buf, pg_size()); work0[0] = c_erase; work0[1] = c_prog; work0[2] = c_mark; work0[3] = c_copy; }
static uint32_t unchanged(void)
{
	const struct dhara_journal *a = &map.journal, *b = &map0.journal;
	uint32_t d = 0;
	for (unsigned i = 0; i < pg_size(); i++) d |= page_buf[i] ^ page_buf0[i];
	return (d == 0) & (work0[0] == c_erase) & (work0[1] == c_prog) & (work0[2] == c_mark) & (work0[3] == c_copy) &
		(map.count == map0.count) & (map.gc_ratio == map0.gc_ratio) & (a->nand == b->nand) & (a->page_buf == b->page_buf) & (a->log2_ppc == b->log2_ppc) &
		(a->epoch == b->epoch) & (a->flags == b->flags) & (a->bb_current == b->bb_current) & (a->bb_last == b->bb_last) & (a->tail_sync == b->tail_sync) & (a->tail == b->tail) &
		(a->head == b->head) & (a->root == b->root) & (a->recover_next == b->recover_next) & (a->recover_root == b->recover_root) & (a->recover_meta == b->recover_meta);
}
static void pure_check(uint32_t q)
{
	dhara_error_t e = DHARA_E_NONE, e2 = DHARA_E_NONE;
	dhara_page_t p = 0, p2 = 0;
	const uint32_t hit0 = rderr_hit;
	snap();
	const uint32_t cap = dhara_map_capacity(&map), jcap = dhara_journal_capacity(&map.journal), jsz = dhara_journal_size(&map.journal), sz = dhara_map_size(&map), root = dhara_journal_root(&map.journal);
	const int r = dhara_map_find(&map, q, &p, &e);
	CHECK(A_PURE, unchanged(), "finding a sector, or asking for sizes, changes something");
	const int s = dhara_map_read(&map, q, io2, &e2);
	CHECK(A_PURE, unchanged(), "reading a sector changes something");
	const int r2 = dhara_map_find(&map, q, &p2, &e), s2 = dhara_map_read(&map, q, io3, &e2);
	if (rderr_hit == hit0) {
		uint32_t d = 0;
		CHECK(A_PURE, r2 == r && (r || p == p2), "finding a sector twice gives two answers");
		for (unsigned i = 0; i < pg_size(); i++) d |= io2[i] ^ io3[i];
		CHECK(A_PURE, s2 == s && d == 0, "reading a sector twice gives two answers");
	}
	CHECK(A_PURE, cap == dhara_map_capacity(&map) && jcap == dhara_journal_capacity(&map.journal) && jsz == dhara_journal_size(&map.journal) && sz == dhara_map_size(&map) &&
	      root == dhara_journal_root(&map.journal), "a size changes although nothing was modified");
	CHECK(A_PURE, unchanged(), "reading a sector changes something");
	/* what has been done already is not done again */
	if (dhara_journal_is_clean(&map.journal)) {
		CHECK(A_PURE, !dhara_map_sync(&map, &e), "synchronising a synchronised map fails");
		CHECK(A_PURE, unchanged(), "synchronising a synchronised map does something");
		vx_cover("nothing to synchronise");
	}
	if (!map.count) {
		dhara_map_clear(&map);
		CHECK(A_PURE, unchanged(), "clearing an empty map does something");
		CHECK(A_PURE, !dhara_map_gc(&map, &e), "collecting an empty map fails");
		CHECK(A_PURE, unchanged(), "collecting an empty map does something");
		vx_cover("empty map");
	}
}
/* capacity: the log's less one part in gc_ratio + 1 and less eight blocks' worth of pages; constant unless blocks go bad or a pass ends */
static uint32_t cap_seen, cap_was, cap_epoch, cap_cur;
static void cap_check(void)
{
	const uint64_t n = lib_chip()->num_blocks, bad = map.journal.bb_last > map.journal.bb_current ? map.journal.bb_last : map.journal.bb_current;
	const uint64_t r = vx_param("gc", 4) ? vx_param("gc", 4) : 1;
	const uint64_t slots = ((uint64_t)1 << chip.log2_ppb) - ((uint64_t)1 << (chip.log2_ppb - ref_lppc()));
	const uint64_t log = (n - 1 - bad) * slots, spare = log / (r + 1) + ((uint64_t)8 << chip.log2_ppb);
	const uint32_t cap = dhara_map_capacity(&map);
	CHECK(A_MCAP, bad < n && cap == (log > spare ? log - spare : 0), "the capacity is not that of the log less the reserve");
	if (cap_seen && cap_epoch == map.journal.epoch && cap_cur == map.journal.bb_current)
		CHECK(A_MCAP, cap_was == cap, "the capacity changes although no bad block was met");
	cap_seen = 1; cap_was = cap; cap_epoch = map.journal.epoch; cap_cur = map.journal.bb_current;
}
#else
static void pure_check(uint32_t q) {}
static void cap_check(void) {}
#endif
static uint32_t final_q;
static void verify_all(uint32_t cls, const char *msg)
{
	uint32_t q = sym_sector("q", final_q++);
	CHECK(A_SIZE, map.count == cnt_at(ne) && dhara_map_size(&map) == cnt_at(ne), "reported size is not the number of mapped sectors");
	verify_sector(q, ne, cls, msg);
	if (chk & A_PURE) pure_check(q);
	if (chk & A_MCAP) cap_check();
}
static void crashed_restart(void)
{
	armed = 0; restarts_dirty++;
	vx_note("power lost, restarting", restarts_dirty);
	forget_failures();
	restart();
#ifndef XPAGE
	cap_seen = 0;
#endif
	settle_after_crash(ne_synced);
	vx_cover("recovered from power loss");
}
static uint32_t drain_slack(void)
{
	/* one checkpoint group of padding, plus blocks skipped because they are bad */
	uint32_t bad = 0, lppc = ref_lppc();
	for (unsigned b = 0; b < chip.num_blocks; b++) bad += blk_bad[b];
	return ((bad + 1) << chip.log2_ppb) + (1u << lppc);
}
static void gc_op(void *ctx)
{
	dhara_error_t e = DHARA_E_NONE;
	uint32_t lost0 = lost_cp_hit, hit0 = rderr_hit;
	int r;
	armed = 1;
	r = dhara_map_gc(&map, &e);
	armed = 0;
	if (r && e == DHARA_E_ECC && lost_cp_hit != lost0) known("F1");
	if (r && e == DHARA_E_ECC && hit0 != rderr_hit) r = 0;
	*(int *)ctx = r;
}
static void sync_op(unsigned k)
{
	struct opctx o = { .k = k, .kind = 2 };
	vx_note("final sync", 0);
	if (vx_try(do_op, &o)) crashed_restart();
}

enum { F_VERIFY, F_SYNC_RESTART, F_SYNC_DECODE, F_DRAIN, F_CRASH, F_SYNC2 };
void vx_main(void)
{
	dhara_error_t e;
	uint32_t hist, keep, epoch, finals;
#ifdef XPAGE
	uint8_t pb[XPAGE], pb2[XPAGE], b1[XPAGE], b2[XPAGE];
	struct dhara_map m1, m2;
	mapp = &m1; mapp2 = &m2; page_buf = pb; page_buf2 = pb2; io = b1; io2 = b2;
#endif
	chip_setup();
	secbits = vx_param("secbits", 3); opmask = vx_param("ops", 0x0f); nops = vx_param("nops", 1);
	nsec = vx_param("nsec", 6); secstyle = vx_param("secstyle", 0);
	finals = vx_param("finals", 3);
	lcg = vx_param("seed", 1) * 7919;
	if (vx_param("foreign", 0)) foreign(vx_param("foreign", 0));
#ifndef XPAGE
	memset(page_buf, 0xa5, pg_size());
#endif
	dhara_map_init(&map, lib_chip(), page_buf, vx_param("gc", 4));
	if (hi_blk + lo_blk)
	{
		/* hitail: the log starts that many pages earlier, with padding */
		map.journal.head = HI_PAGE;
		map.journal.tail = map.journal.tail_sync = HI_PAGE - vx_param("hitail", 0);
		if (vx_param("lotail", 0)) map.journal.tail = map.journal.tail_sync = (lib_chip()->num_blocks << chip.log2_ppb) - vx_param("lotail", 0);
	}
	else {
		uint32_t er = c_erase, pr = c_prog, mk = c_mark;
		readonly_phase = 1;
		int r = dhara_map_resume(&map, &e);
		readonly_phase = 0;
		CHECK(A_RO | A_ERR, r == -1 && err_ok(e), "starting up on a chip without any state does not fail with an error code");
		CHECK(A_RO, er == c_erase && pr == c_prog && mk == c_mark, "resume modifies the chip");
		CHECK(A_RO, map.count == 0 && dhara_map_size(&map) == 0 && dhara_journal_root(&map.journal) == DHARA_PAGE_NONE, "failed resume does not leave an empty map");
	}
	epoch = vx_param("epoch", 0);
	if (epoch) map.journal.epoch = epoch;
	hist = vx_param("hist", 0); keep = vx_param("keep", 0);
	if (keep > hist) keep = hist;
	hist_faults = vx_param("hfaults", 0); hist_lcg = vx_param("seed", 0) * 77;
	history(hist - keep);
	hist_faults = 0; fails_reported = 0;
	cntoff = vx_param("cntoff", 0);
	if (conc_count() < 4) cntoff = 0;
	if (cntoff) {
		/* as if there were that many more sectors */
		map.count += cntoff;
		conc_write(conc_any(), 0x999);
		conc_sync();
	}
	if (vx_param("presync", 0) && hist) conc_sync();
	if (vx_param("prerestart", 0) && hist) { restart(); vx_assert(!last_ret || !conc_count(), "history: restart failed"); }
	e_cnt[0] = conc_count() + cntoff;
	track = 1;
	history(keep);
	CHECK(A_SIZE, map.count == cnt_at(ne), "reported size is not the number of mapped sectors");
	fault_budget = vx_param("faults", 0);
	crash_budget = vx_param("crashes", 0);
	rderr_budget = vx_param("rderrs", 0);
	for (cur_op = 0; cur_op < nops; cur_op++) {
		struct opctx o;
		unsigned kind = (unsigned)vx_sym("op", cur_op, 3);
		uint32_t km = vx_param("op0", 0);
		if (!km || cur_op) km = opmask;
		vx_assume((km >> kind) & 1);
		o.kind = (unsigned)vx_concretize(kind);
		o.k = cur_op;
		o.s = sym_sector("sec", cur_op);
		o.src = (o.kind == 4 || o.kind == 5) ? sym_sector("src", cur_op) : 0;
		o.tok = (uint32_t)vx_sym("data", cur_op, 32);
		vx_assume(o.tok != BLANKTOK);
		vx_note("operation", o.kind); vx_note(" sector", o.s);
		if (chk & A_MCAP) cap_check();
		if (vx_try(do_op, &o)) crashed_restart();
		CHECK(A_SIZE, map.count == cnt_at(ne), "reported size is not the number of mapped sectors");
		vx_join();
	}
	unsigned f = (unsigned)vx_sym("final", 0, 3);
	vx_assume((finals >> f) & 1);
	f = (unsigned)vx_concretize(f);
	if (!vx_param("rderrs_end", 0)) rderr_budget = 0;
	switch (f) {
	case F_VERIFY:
		armed = rderr_budget != 0;
		verify_all(A_DATA, "a sector does not read back its most recent data");
		armed = 0;
		break;
	case F_SYNC_RESTART: case F_SYNC2: case F_SYNC_DECODE:
		sync_op(90);
		if (last_ret) break;
		vx_cover("synchronised");
		vx_join();
		if (f == F_SYNC_DECODE) { decode_check(ne); break; }
		if (cp_unreadable()) break;	/* an unreadable checkpoint is not told from a torn one: out of scope */
		const uint32_t cap1 = dhara_map_capacity(&map);
		restart();
		CHECK(A_MCAP, last_ret || dhara_map_capacity(&map) == cap1, "the capacity changes across a clean restart");
		if (last_ret) { CHECK(A_DUR, cnt_at(ne) == 0, "resume fails after a successful sync"); }
		vx_join();
		CHECK(A_DUR, map.count == cnt_at(ne), "size changes across a clean restart");
		if (f == F_SYNC2) {
			/* a further change, sync and restart */
			struct opctx o = { .k = 91, .kind = 0, .tok = 0x77665544 };
			o.s = sym_sector("sec", 91);
			if (vx_try(do_op, &o)) crashed_restart();
			vx_join();
			sync_op(92);
			if (last_ret) break;
			restart();
			if (last_ret) CHECK(A_DUR, cnt_at(ne) == 0, "resume fails after a successful sync");
			vx_join();
		}
		verify_all(A_DUR, "a sector reads differently after sync and restart");
		break;
	case F_DRAIN: {
		uint32_t n = dhara_journal_size(&map.journal), i, cut = vx_param("draincap", 0);
		int r;
		if (cut && cut < n) n = cut; else cut = 0;
		for (i = 0; i < n; i++) {
			if (vx_try(gc_op, &r)) { crashed_restart(); break; }
			CHECK(A_GC | A_OK, !r, "garbage collection fails");
			CHECK(A_GC | A_SIZE, map.count == cnt_at(ne), "garbage collection changes the size");
		}
		if (i == n && map.count) {
			dhara_error_t e = DHARA_E_NONE;
			uint32_t lost0 = lost_cp_hit, hit0 = rderr_hit;
			r = dhara_map_sync(&map, &e);
			if (r && e == DHARA_E_ECC && lost_cp_hit != lost0) known("F1");
			CHECK(A_OK | A_DUR, !r || (e == DHARA_E_ECC && rderr_hit != hit0), "sync after collecting the whole log fails");
			if (r) break;
		}
		if (i == n && map.count && !cut) CHECK(A_GC, dhara_journal_size(&map.journal) <= map.count + drain_slack(), "collecting the whole log leaves garbage behind");
		vx_join();
		verify_all(A_DATA | A_GC, "garbage collection changes what a sector reads");
		break;
	}
	case F_CRASH:
		crashed_restart();
		vx_join();
		verify_all(A_DUR, "a sector reads differently after power loss and restart");
		break;
	}
	vx_cover("end");
}
