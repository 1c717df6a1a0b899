// overflow-checked arithmetic on all operands.  0 add  1 multiply
#include "vp.h"
#include <pointless/pointless_int_ops.h>
int main()
{
	uint32_t mode = vp_arg(0), w = vp_choice(3);
	uint64_t x = vp_u64(), y = vp_u64(); int fx = vp_bool(), fy = vp_bool(), over; uint64_t want, got; int gotf;
	if (mode == 0) { if (w == 0) { x = (uint32_t)x; y = (uint32_t)y; } }
	else if (w == 0) { x = (uint32_t)x; y = (uint32_t)y; }
	// reference: the compiler's own overflow intrinsics
	if (w == 0) { uint32_t r; over = mode == 0 ? __builtin_add_overflow((uint32_t)x, (uint32_t)y, &r) : __builtin_mul_overflow((uint32_t)x, (uint32_t)y, &r); want = r; }
	else { uint64_t r; over = mode == 0 ? __builtin_add_overflow(x, y, &r) : __builtin_mul_overflow(x, y, &r); want = r; }
	over = over || fx || fy;
	if (w == 0) { intop_u32_t a = intop_u32_init((uint32_t)x), b = intop_u32_init((uint32_t)y), c; VP_CHECK(!a.is_overflow && a.value == (uint32_t)x, "initial value"); a.is_overflow = fx; b.is_overflow = fy; c = mode == 0 ? intop_u32_add(a, b) : intop_u32_mult(a, b); got = c.value; gotf = c.is_overflow; }
	else if (w == 1) { intop_u64_t a = intop_u64_init(x), b = intop_u64_init(y), c; VP_CHECK(!a.is_overflow && a.value == x, "initial value"); a.is_overflow = fx; b.is_overflow = fy; c = mode == 0 ? intop_u64_add(a, b) : intop_u64_mult(a, b); got = c.value; gotf = c.is_overflow; }
	else { intop_sizet_t a = intop_sizet_init(x), b = intop_sizet_init(y), c; VP_CHECK(!a.is_overflow && a.value == x, "initial value"); a.is_overflow = fx; b.is_overflow = fy; c = mode == 0 ? intop_sizet_add(a, b) : intop_sizet_mult(a, b); got = c.value; gotf = c.is_overflow; }
	VP_CHECK((gotf != 0) == over, "overflow is flagged exactly when the result does not fit");
	if (!over) { VP_CHECK(got == want, "the result is exact"); VP_REACH("exact"); } else VP_REACH("flagged");
	return 0;
}
