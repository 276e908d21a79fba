/* Surroundings of a command-line tool: its main is called with an argument
 * vector, what it prints is recorded number by number. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdint.h>
#include "vx.h"

#define MAXOUT 20000
static uint64_t out_v[MAXOUT];	/* numbers printed */
static char out_c[MAXOUT];	/* with which conversion */
static uint32_t n_out, lines;

static int te_format(char *dst, size_t cap, const char *f, const uint64_t *a)
{
	size_t n = 0;
	for (; *f; f++) {
		if (*f != '%') {
			if (*f == '\n' && !dst) lines++;
			if (dst && n + 1 < cap) dst[n] = *f;
			n++;
			continue;
		}
		f++;
		if (*f == '%') { if (dst && n + 1 < cap) dst[n] = '%'; n++; continue; }
		while (*f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#' || (*f >= '1' && *f <= '9') || *f == 'l' || *f == 'h' || *f == 'j' || *f == 'z') f++;
		if (!dst) {
			if (n_out < MAXOUT) { out_v[n_out] = *f == 'x' && f[-1] != 'l' && f[-1] != 'j' ? (uint32_t)*a : *a; out_c[n_out] = *f == 'X' ? 'x' : *f; n_out++; }
		} else if (*f == 'd' || *f == 'u' || *f == 'i') {
			char t[24]; int k = 0; uint64_t v = *a;
			do { t[k++] = '0' + v % 10; v /= 10; } while (v && k < 20);
			while (k) { if (n + 1 < cap) dst[n] = t[k - 1]; n++; k--; }
		} else if (*f == 's') {
			const char *s = (const char *)(uintptr_t)*a;
			for (; *s; s++) { if (n + 1 < cap) dst[n] = *s; n++; }
		} else if (*f == 'c') { if (n + 1 < cap) dst[n] = (char)*a; n++; }
		a++;
	}
	if (dst && cap) dst[n < cap ? n : cap - 1] = 0;
	return (int)n;
}
static int te_case(const char *a, const char *b)
{
	for (;; a++, b++) {
		int x = *a, y = *b;
		if (x >= 'A' && x <= 'Z') x += 32;
		if (y >= 'A' && y <= 'Z') y += 32;
		if (x != y) return x - y;
		if (!x) return 0;
	}
}
static long te_atol(const char *s)
{
	long r = 0;
	while (*s >= '0' && *s <= '9') r = r * 10 + (*s++ - '0');
	return r;
}
static uint64_t arena[1 << 15]; static size_t arena_used;
static void *te_malloc(size_t n)
{
	void *p = (uint8_t *)arena + arena_used;
	n = (n + 7) & ~(size_t)7;
	if (n > sizeof arena - arena_used) { vx_quiet_end(); return NULL; }
	arena_used += n;
	return p;
}
static void *te_calloc(size_t a, size_t b) { void *p = te_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
static int te_zero(void) { return 0; }

#define U_(x) ((uint64_t)(x))
#define F1(f) f, (const uint64_t[]){0}
#define F2(f, a) f, (const uint64_t[]){U_(a)}
#define F3(f, a, b) f, (const uint64_t[]){U_(a), U_(b)}
#define F4(f, a, b, c) f, (const uint64_t[]){U_(a), U_(b), U_(c)}
#define F5(f, a, b, c, d) f, (const uint64_t[]){U_(a), U_(b), U_(c), U_(d)}
#define F6(f, a, b, c, d, e) f, (const uint64_t[]){U_(a), U_(b), U_(c), U_(d), U_(e)}
#define PICK(_1, _2, _3, _4, _5, _6, N, ...) N
#define FMT(...) PICK(__VA_ARGS__, F6, F5, F4, F3, F2, F1)(__VA_ARGS__)
#undef printf
#undef fprintf
#undef snprintf
#undef sprintf
#undef putchar
#undef puts
#undef fputs
#undef fflush
#undef perror
#undef strcasecmp
#undef strcmp
#undef malloc
#undef free
#undef calloc
#undef atoi
#undef atol
#define printf(...) te_format(NULL, 0, FMT(__VA_ARGS__))
#define fprintf(...) te_zero()
#define snprintf(b, n, ...) te_format(b, n, FMT(__VA_ARGS__))
#define sprintf(b, ...) te_format(b, 1 << 16, FMT(__VA_ARGS__))
#define putchar(c) te_zero()
#define puts(s) te_zero()
#define fputs(s, f) te_zero()
#define fflush(f) te_zero()
#define perror(s) te_zero()
#define strcasecmp te_case
#define strcmp te_case
#define malloc te_malloc
#define calloc te_calloc
#define free(p) ((void)(p))
#define atoi(s) ((int)te_atol(s))
#define atol te_atol
#define main tool_main
