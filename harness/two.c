/* Two instances on two chips: chip 0 is used by instance 0 alone in the
 * first run, and by instance 0 interleaved with instance 1 (on chip 1) in
 * the second (on chip 2, a copy).  Nothing instance 1 does may show up in
 * what instance 0 returns or leaves on its chip. */
#include "dhara/nand.h"
#include "dhara/map.h"
#include "vx.h"

#define NC 3
#define MAXOPS 400
#define MAXP 512
#define MAXF (96 * 1024)
static struct dhara_nand chip[NC];
static uint8_t flash[NC][MAXF] __attribute__((aligned(8))), st[NC][MAXP], badb[NC][128];
static uint32_t mods[NC];
static uint32_t fail_at[NC];		/* this modifying operation of the chip fails */
static uint32_t PS(void) { return 1u << chip[0].log2_page_size; }

static unsigned idx(const struct dhara_nand *n)
{
	vx_assert(n == &chip[0] || n == &chip[1] || n == &chip[2], "the driver is called for the chip of the instance");
	return (unsigned)(n - chip);
}
int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b) { return badb[idx(n)][b]; }
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b) { badb[idx(n)][b] = 1; }
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *err)
{
	unsigned c = idx(n);
	if (++mods[c] == fail_at[c]) { dhara_set_error(err, DHARA_E_BAD_BLOCK); return -1; }
	memset(flash[c] + ((size_t)b << (n->log2_page_size + n->log2_ppb)), 0xff, (size_t)1 << (n->log2_page_size + n->log2_ppb));
	memset(st[c] + (b << n->log2_ppb), 0, 1u << n->log2_ppb);
	return 0;
}
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *data, dhara_error_t *err)
{
	unsigned c = idx(n);
	if (++mods[c] == fail_at[c]) { st[c][p] = 2; dhara_set_error(err, DHARA_E_BAD_BLOCK); return -1; }
	st[c][p] = 1;
	memcpy(flash[c] + ((size_t)p << n->log2_page_size), data, PS());
	return 0;
}
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p) { return st[idx(n)][p] == 0; }
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t off, size_t len, uint8_t *data, dhara_error_t *err)
{
	unsigned c = idx(n);
	p = (dhara_page_t)vx_concretize(p);
	if (st[c][p] == 2) { dhara_set_error(err, DHARA_E_ECC); return -1; }
	memcpy(data, flash[c] + ((size_t)p << n->log2_page_size) + off, len);
	return 0;
}
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t src, dhara_page_t dst, dhara_error_t *err)
{
	static uint8_t tmp[NC][4096];
	unsigned c = idx(n);
	if (dhara_nand_read(n, src, 0, PS(), tmp[c], err) < 0) return -1;
	return dhara_nand_prog(n, dst, tmp[c], err);
}

static struct dhara_map map[NC];
static uint8_t buf[NC][1024], io[NC][1024];
static uint32_t lcg;
static uint32_t rnd(void) { lcg = lcg * 1664525u + 1013904223u; return lcg >> 8; }
struct op { uint32_t kind, s, src, tok; };
struct res { int r; dhara_error_t e; uint32_t v, size, page; };

static void run(unsigned c, const struct op *o, struct res *out)
{
	struct dhara_map *m = &map[c];
	dhara_page_t p = 0;
	memset(out, 0, sizeof *out);
	switch (o->kind) {
	case 0:
		memset(io[c], 0x5a, PS());
		io[c][0] = o->tok; io[c][1] = o->tok >> 8; io[c][PS() - 1] = o->tok >> 8;
		out->r = dhara_map_write(m, o->s, io[c], &out->e); break;
	case 1: out->r = dhara_map_trim(m, o->s, &out->e); break;
	case 2: out->r = dhara_map_sync(m, &out->e); break;
	case 3: out->r = dhara_map_gc(m, &out->e); break;
	case 4: out->r = dhara_map_copy_sector(m, o->src, o->s, &out->e); break;
	case 5:
		out->r = dhara_map_read(m, o->s, io[c], &out->e);
		out->v = io[c][0] | io[c][1] << 8 | (uint32_t)io[c][PS() - 1] << 16; break;
	case 6: out->r = dhara_map_find(m, o->s, &p, &out->e); out->page = p; break;
	default:
		dhara_map_init(m, &chip[c], buf[c], m->gc_ratio);
		out->r = dhara_map_resume(m, &out->e);
	}
	out->size = dhara_map_size(m);
}
static struct op next_op(uint32_t nsec)
{
	uint32_t r = rnd();
	struct op o = { r % 8, rnd() % nsec, rnd() % nsec, 0x100 + (r >> 8) % 0xe00 };
	if (o.kind == 1 && (r >> 4 & 1)) o.kind = 0;
	if (o.kind == 7 || o.kind == 4) o.kind = 0;
	return o;
}
static int same_res(const struct res *a, const struct res *b)
{
	return (a->r == b->r) & ((a->r >= 0) | (a->e == b->e)) & (a->v == b->v) & (a->size == b->size) & (a->page == b->page);
}

void vx_main(void)
{
	const uint32_t hist = vx_param("hist", 10), nsec = vx_param("nsec", 5), gc = vx_param("gc", 4), nops = vx_param("nops", 2);
	static struct op o[MAXOPS], x[MAXOPS];
	static struct res res[MAXOPS];
	for (unsigned c = 0; c < NC; c++) {
		chip[c].log2_page_size = vx_param("lpage", 8); chip[c].log2_ppb = vx_param("lppb", 2);
		/* the other chip may have another geometry */
		chip[c].num_blocks = vx_param("nblk", 24) + (c == 1 ? vx_param("more", 0) : 0);
		if (c == 1) chip[c].log2_ppb = vx_param("lppb1", chip[c].log2_ppb);
		memset(flash[c], 0xff, sizeof flash[c]);
	}
	fail_at[0] = fail_at[2] = vx_param("fail", 0); fail_at[1] = vx_param("fail1", 0);
	for (unsigned c = 0; c < NC; c++) {
		dhara_map_init(&map[c], &chip[c], buf[c], gc);
		dhara_map_resume(&map[c], NULL);
	}
	/* operations of instance 0 (o) and of instance 1 (x): a concrete history, then symbolic ones */
	lcg = vx_param("seed", 1) * 7919;
	if (hist + nops > MAXOPS) vx_quiet_end();
	for (uint32_t i = 0; i < hist; i++) { o[i] = next_op(nsec); x[i] = next_op(nsec); }
	for (uint32_t i = hist; i < hist + nops; i++) {
		uint32_t k = i - hist, sb = vx_param("secbits", 3);
		o[i].kind = (uint32_t)vx_sym("op", k, 3); o[i].s = (uint32_t)vx_sym("sec", k, sb);
		o[i].src = (uint32_t)vx_sym("src", k, sb); o[i].tok = (uint32_t)vx_sym("data", k, 16);
		x[i].kind = (uint32_t)vx_sym("xop", k, 3); x[i].s = (uint32_t)vx_sym("xsec", k, sb);
		x[i].src = (uint32_t)vx_sym("xsrc", k, sb); x[i].tok = (uint32_t)vx_sym("xdata", k, 16);
		vx_assume((vx_param("ops", 0xff) >> o[i].kind) & 1);
		vx_assume((vx_param("xops", 0xff) >> x[i].kind) & 1);
		o[i].kind = (uint32_t)vx_concretize(o[i].kind); x[i].kind = (uint32_t)vx_concretize(x[i].kind);
		vx_note("operation", o[i].kind); vx_note(" sector", o[i].s); vx_note("other instance: operation", x[i].kind); vx_note(" sector", x[i].s);
	}
	/* instance 0 by itself */
	for (uint32_t i = 0; i < hist + nops; i++) run(0, &o[i], &res[i]);
	/* the same again, with another instance at work in between */
	for (uint32_t i = 0; i < hist + nops; i++) {
		struct res r;
		run(1, &x[i], &r);
		run(2, &o[i], &r);
		vx_assert(same_res(&r, &res[i]), "the result of an operation depends on what another instance does");
		vx_assert(mods[2] <= mods[0], "what is done to the chip depends on another instance");
	}
	vx_assert(mods[0] == mods[2], "what is done to the chip depends on another instance");
	uint64_t d = 0;
	for (uint32_t p = 0; p < chip[0].num_blocks << chip[0].log2_ppb; p++) {
		vx_assert(st[0][p] == st[2][p], "the pages in use on a chip depend on what another instance does");
		if (st[0][p]) for (uint32_t i = 0; i < PS() / 8; i++)
			d |= *(uint64_t *)(flash[0] + p * PS() + 8 * i) ^ *(uint64_t *)(flash[2] + p * PS() + 8 * i);
	}
	vx_assert(!d, "the contents of a chip depend on what another instance does");
	vx_cover("end");
}
