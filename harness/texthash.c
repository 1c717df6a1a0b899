// The hash of a string does not depend on the width of its storage; a prefix given by length
// hashes like that prefix on its own.   args: 0 length bound
#include "vp.h"
#include <pointless/pointless.h>
int main()
{
	uint32_t n = vp_choice(vp_arg(0) + 1), w = vp_choice(3), i; uint8_t s8[9], pre[9]; uint16_t s16[9]; uint32_t s32[9];
	for (i = 0; i < n; i++) { uint32_t x = w == 0 ? vp_u8() : w == 1 ? vp_u16() : vp_u32(); VP_ASSUME(x != 0); s32[i] = x; s16[i] = (uint16_t)x; s8[i] = (uint8_t)x; }
	s8[n] = 0; s16[n] = 0; s32[n] = 0;
	uint32_t h = pointless_hash_unicode_ucs4_v1_32(s32);
	VP_OUT(h);
	if (w < 2) VP_CHECK(pointless_hash_unicode_ucs2_v1_32(s16) == h, "16-bit and 32-bit strings hash alike");
	if (w == 0) {
		VP_REACH("8-bit");
		VP_CHECK(pointless_hash_string_v1_32(s8) == h, "8-bit and 32-bit strings hash alike");
		uint32_t k = vp_choice(n + 1); for (i = 0; i < k; i++) pre[i] = s8[i]; pre[k] = 0;
		VP_CHECK(pointless_hash_string_v1_32_(s8, k) == pointless_hash_string_v1_32(pre), "a prefix given by length hashes like that prefix");
	}
	return 0;
}
