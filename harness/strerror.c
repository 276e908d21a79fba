/* Messages for every value of the error type (C36). */
#include "vx.h"
#include "dhara/error.h"

/* longest message looked at; a longer one runs past it and is reported as
 * not decided by the unwinding assertion, never as wrong */
#define LONG 120

VX_MAIN
{
	const int32_t a = (int32_t)vx_sym("a", 0, 32), b = (int32_t)vx_sym("b", 0, 32);
	const int da = a >= 0 && a < (int)DHARA_E_MAX, db = b >= 0 && b < (int)DHARA_E_MAX;
	const char *x = dhara_strerror((dhara_error_t)a);
	const char *y = dhara_strerror((dhara_error_t)b);
	unsigned n = 0;
	int same = 1;
	vx_assert(x != NULL && y != NULL, "a message is never null");
	vx_assert(x[0] != 0, "a message is never empty");
	while (x[n]) {
		if (same && x[n] != y[n])
			same = 0;
		n++;
	}
	if (same && y[n])
		same = 0;
	if (a == b)
		vx_assert(same, "the same value always has the same message");
	else if (!da && !db)
		vx_assert(same, "every value that is no defined code has the one generic message");
	else
		vx_assert(!same, "every defined code has a message of its own");
	vx_cover("message");
	VX_END
}
