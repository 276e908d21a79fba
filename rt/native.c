/* Native run-time for harnesses: replays one concrete execution. */
#include "vx.h"
#include <stdio.h>
#include <stdlib.h>
#include <setjmp.h>
struct ent { char kind; char name[48]; uint32_t idx; uint64_t val; };
static struct ent *tab; static size_t ntab;
static jmp_buf *cur;
static size_t nseq, seqpos;	/* values in order of use, instead of by name */
static void load(const char *fn)
{
	FILE *f = fopen(fn, "r"); char line[256];
	if (!f) { perror(fn); exit(3); }
	while (fgets(line, sizeof line, f)) {
		struct ent e = {0}; unsigned long long v; unsigned i;
		if (sscanf(line, "S %47s %u %llu", e.name, &i, &v) == 3) { e.kind = 'S'; e.idx = i; e.val = v; }
		else if (sscanf(line, "P %47s %llu", e.name, &v) == 2) { e.kind = 'P'; e.val = v; }
		else if (sscanf(line, "Q %llu", &v) == 1) { e.kind = 'Q'; e.val = v; nseq++; }
		else continue;
		tab = realloc(tab, (ntab + 1) * sizeof *tab); tab[ntab++] = e;
	}
	fclose(f);
}
static int find(char k, const char *n, uint32_t i, uint64_t *v)
{
	for (size_t j = 0; j < ntab; j++)
		if (tab[j].kind == k && tab[j].idx == i && !strcmp(tab[j].name, n)) { *v = tab[j].val; return 1; }
	return 0;
}
uint64_t vx_sym(const char *n, uint32_t i, int bits)
{
	uint64_t v = 0;
	if (nseq) {
		while (seqpos < ntab && tab[seqpos].kind != 'Q') seqpos++;
		if (seqpos < ntab) v = tab[seqpos++].val;
	} else find('S', n, i, &v);
	if (bits < 64) v &= (1ULL << bits) - 1;
	return v;
}
uint32_t vx_param(const char *n, uint32_t d) { uint64_t v = d; find('P', n, 0, &v); return (uint32_t)v; }
void vx_assume(int c) { if (!c) { printf("REPLAY: an assumption does not hold\n"); exit(4); } }
void vx_assert(int c, const char *w) { if (!c) { printf("REPLAY: VIOLATED: %s\n", w); fflush(stdout); exit(1); } }
void vx_cover(const char *w) { (void)w; }
uint64_t vx_concretize(uint64_t v) { return v; }
int vx_try(void (*fn)(void *), void *c)
{
	jmp_buf b, *old = cur; volatile int r = 0;
	if (setjmp(b)) r = 1; else { cur = &b; fn(c); }
	cur = old;
	return r;
}
void vx_crash(void) { if (!cur) abort(); longjmp(*cur, 1); }
void vx_join(void) {}
void vx_mergeable(void *p, size_t l) { (void)p; (void)l; }
void vx_note(const char *w, uint64_t v) { printf("  %s %llu (0x%llx)\n", w, (unsigned long long)v, (unsigned long long)v); }
void vx_budget(uint64_t s) { (void)s; }
void vx_quiet_end(void) { exit(0); }
void vx_known(const char *id) { printf("REPLAY: known finding %s\n", id); exit(0); }
void vx_main(void);
int main(int argc, char **argv)
{
	if (argc > 1) load(argv[1]);
	setvbuf(stdout, NULL, _IOLBF, 0);
	vx_main();
	printf("REPLAY: completed without violation\n");
	return 0;
}
