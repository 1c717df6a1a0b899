// Strings of different widths: hashes and comparisons of the same characters agree.
// args: 0 length bound, 1 bits per code unit
#include "vp.h"
#include <pointless/pointless.h>
int32_t pointless_cmp_string_8_16(uint8_t* a, uint16_t* b); int32_t pointless_cmp_string_16_8(uint16_t* a, uint8_t* b); int32_t pointless_cmp_string_16_16(uint16_t* a, uint16_t* b); int32_t pointless_cmp_string_16_32(uint16_t* a, uint32_t* b); int32_t pointless_cmp_string_32_16(uint32_t* a, uint16_t* b);
typedef struct { uint32_t n, max; uint8_t s8[8]; uint16_t s16[8]; uint32_t s32[8]; } str;
static void any(str* s, uint32_t n)
{
	uint32_t i; s->n = n; s->max = 0;
	for (i = 0; i < n; i++) { uint32_t x = vp_u32(); VP_ASSUME(x != 0); if (vp_arg(1) < 32) VP_ASSUME((x >> vp_arg(1)) == 0); s->s32[i] = x; s->s16[i] = (uint16_t)x; s->s8[i] = (uint8_t)x; s->max |= x; }
	s->s32[n] = 0; s->s16[n] = 0; s->s8[n] = 0;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
#define C(f, x, y) VP_CHECK(sgn(f(x, y)) == want, #f " is the documented order")
int main()
{
	str a, b; uint32_t i; uint32_t na = vp_choice(vp_arg(0) + 1), nb = vp_choice(vp_arg(0) + 1);
	any(&a, na); any(&b, nb);
	int want = 0;
	for (i = 0; i <= a.n && i <= b.n && !want; i++) want = a.s32[i] < b.s32[i] ? -1 : a.s32[i] > b.s32[i];
	int a8 = a.max < 256, b8 = b.max < 256, a16 = a.max < 65536, b16 = b.max < 65536;
	C(pointless_cmp_string_32_32, a.s32, b.s32);
	if (a8) { VP_REACH("8-bit"); C(pointless_cmp_string_8_32, a.s8, b.s32); }
	if (b8) { C(pointless_cmp_string_32_8, a.s32, b.s8); VP_CHECK(sgn(pointless_cmp_string_32_8_n(a.s32, b.s8, b.n)) == want, "comparison with an 8-bit string of known length"); }
	if (a8 && b8) { C(pointless_cmp_string_8_8, a.s8, b.s8); VP_CHECK(sgn(pointless_cmp_string_8_8_n(a.s8, b.s8, b.n)) == want, "comparison with an 8-bit string of known length"); }
	if (a16) C(pointless_cmp_string_16_32, a.s16, b.s32);
	if (b16) C(pointless_cmp_string_32_16, a.s32, b.s16);
	if (a16 && b16) { VP_REACH("16-bit"); C(pointless_cmp_string_16_16, a.s16, b.s16); }
	if (a8 && b16) C(pointless_cmp_string_8_16, a.s8, b.s16);
	if (a16 && b8) C(pointless_cmp_string_16_8, a.s16, b.s8);
	// prefixes given by length
	if (b8) {
		uint32_t k = vp_choice(b.n + 1); uint8_t pre[9]; for (i = 0; i < k; i++) pre[i] = b.s8[i]; pre[k] = 0;
		int w = 0; for (i = 0; i <= a.n && i <= k && !w; i++) w = a.s32[i] < pre[i] ? -1 : a.s32[i] > pre[i];
		VP_CHECK(sgn(pointless_cmp_string_32_8_n(a.s32, b.s8, k)) == w, "comparison with a prefix of an 8-bit string");
		if (a8) VP_CHECK(sgn(pointless_cmp_string_8_8_n(a.s8, b.s8, k)) == w, "comparison with a prefix of an 8-bit string");
	}
	VP_OUT(want + 1);
	return 0;
}
