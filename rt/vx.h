/* Interface between harnesses and the solver-based executor.  The same
 * harness also runs natively (rt/native.c), reading the solver's values
 * from a file: that is how a counterexample is replayed on the real code.
 */
#ifndef VX_H_
#define VX_H_
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#ifdef __CPROVER__
/* The same harness under cbmc: values are taken in order, and replayed in order. */
extern uint64_t vx_taken;
uint64_t nondet_u64(void);
static inline uint64_t vx_sym(const char *name, uint32_t idx, int bits)
{
	uint64_t v = nondet_u64();
	(void)name; (void)idx;
	if (bits < 64) __CPROVER_assume((v >> bits) == 0);
	vx_taken = v;
	return v;
}
#define vx_assume(c) __CPROVER_assume(c)
#define vx_assert(c, what) __CPROVER_assert(c, what)
#define vx_cover(what) __CPROVER_assert(0, "COVER: " what)
#define vx_note(what, v) ((void)0)
#define VX_MAIN int main(void)
#define VX_END return 0;
#else
#define VX_MAIN void vx_main(void)
#define VX_END
/* a value about which nothing is known but its width; identified by name and index */
uint64_t vx_sym(const char *name, uint32_t idx, int bits);
/* configuration constant of this run (geometry, depth, ...) */
uint32_t vx_param(const char *name, uint32_t dflt);
void vx_assume(int cond);
void vx_assert(int cond, const char *what);
void vx_cover(const char *what);		/* vacuity guard: must be reached */
uint64_t vx_concretize(uint64_t v);		/* case split over all feasible values */
int vx_try(void (*fn)(void *), void *ctx);	/* 1 if fn ended in vx_crash() */
void vx_crash(void);				/* power loss */
void vx_join(void);				/* executions are merged here where possible */
void vx_mergeable(void *p, size_t len);		/* contents may differ between merged executions */
void vx_note(const char *what, uint64_t v);	/* shown in replays */
void vx_budget(uint64_t steps);			/* instructions allowed until the next vx_budget */
void vx_quiet_end(void);			/* stop this execution (outside the stated bounds) */
void vx_known(const char *id);			/* this execution shows a known finding: count it and stop */
#endif
#endif
