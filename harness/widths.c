// Text conversions between the 8-, 16- and 32-bit forms.
// 0: converters, lengths, copies, range checks  1: constructors of the creation API   arg 1: maximal length
#include "pv.h"
#include <pointless/pointless_unicode_utils.h>
enum { MAXU = 6 };
static uint32_t u[MAXU + 1], n;
// exact-size copies in each width (only when every unit fits)
static uint8_t* to8(void) { uint8_t* s = (uint8_t*)malloc(n + 1); uint32_t i; for (i = 0; i <= n; i++) s[i] = (uint8_t)u[i]; return s; }
static uint16_t* to16(void) { uint16_t* s = (uint16_t*)malloc(2 * (n + 1)); uint32_t i; for (i = 0; i <= n; i++) s[i] = (uint16_t)u[i]; return s; }
static uint32_t* to32(void) { uint32_t* s = (uint32_t*)malloc(4 * (n + 1)); uint32_t i; for (i = 0; i <= n; i++) s[i] = u[i]; return s; }
static int is8(const uint8_t* s) { uint32_t i, ok = 1; for (i = 0; i <= n; i++) ok &= s[i] == u[i]; return ok; }
static int is32(const uint32_t* s) { uint32_t i, ok = 1; for (i = 0; i <= n; i++) ok &= s[i] == u[i]; return ok; }
static int fits(uint32_t max) { uint32_t i, ok = 1; for (i = 0; i < n; i++) ok &= u[i] <= max; return ok; }
static void text(uint32_t max)
{
	uint32_t i, w = vp_choice(3); n = vp_choice(max + 1);
	for (i = 0; i < n; i++) { uint32_t x = w == 0 ? vp_u8() : w == 1 ? vp_u16() : vp_u32(); VP_ASSUME(x != 0); u[i] = x; }
	u[n] = 0;
}
static void converters(void)
{
	uint32_t op = vp_choice(9), failing = vp_choice(2); int f8 = fits(255), f16 = fits(65535); uint64_t live;
	uint8_t* s8 = 0; uint16_t* s16 = 0; uint32_t* s32 = 0; uint8_t* r8 = 0; uint32_t* r32 = 0; uint8_t d8[MAXU + 2]; uint16_t d16[MAXU + 2]; uint32_t d32[MAXU + 2], i;
	if (op < 3) { if (!f8) return; s8 = to8(); } else if (op < 6) { if (!f16) return; s16 = to16(); } else s32 = to32();
	live = vp_heap_live();
	if (failing) { if (op != 0 && op != 3 && op != 4 && op != 6) return; vp_malloc_fail_at = 1; }
	switch (op) {
	case 0: r32 = pointless_ascii_to_ucs4(s8); break;
	case 1: VP_CHECK(pointless_ascii_len(s8) == n && pointless_ucs1_len(s8) == n, "length"); break;
	case 2: for (i = 0; i < MAXU + 2; i++) d8[i] = 0xee; pointless_ascii_cpy(d8, s8); VP_CHECK(is8(d8) && d8[n + 1] == 0xee, "copy"); break;
	case 3: r32 = pointless_ucs2_to_ucs4(s16); break;
	case 4: r8 = pointless_ucs2_to_ascii(s16); VP_CHECK((pointless_is_ucs2_ascii(s16) != 0) == f8, "range check"); break;
	case 5: VP_CHECK(pointless_ucs2_len(s16) == n, "length"); for (i = 0; i < MAXU + 2; i++) d16[i] = 0xeeee; pointless_ucs2_cpy(d16, s16); { uint32_t ok = d16[n + 1] == 0xeeee; for (i = 0; i <= n; i++) ok &= d16[i] == u[i]; VP_CHECK(ok, "copy"); } break;
	case 6: r8 = pointless_ucs4_to_ascii(s32); VP_CHECK((pointless_is_ucs4_ascii(s32) != 0) == f8, "range check"); break;
	case 7: VP_CHECK(pointless_ucs4_len(s32) == n, "length"); break;
	case 8: for (i = 0; i < MAXU + 2; i++) d32[i] = 0xeeeeeeee; pointless_ucs4_cpy(d32, s32); VP_CHECK(is32(d32) && d32[n + 1] == 0xeeeeeeee, "copy"); break;
	}
	vp_malloc_fail_at = 0;
	if (failing) { VP_CHECK(!r8 && !r32, "no result without memory"); VP_REACH("allocation failed"); }
	else if (op == 0 || op == 3) { VP_CHECK(r32 && is32(r32), "widening keeps every character"); VP_REACH("widened"); }
	else if (op == 4 || op == 6) {
		if (f8) { VP_CHECK(r8 && is8(r8), "narrowing keeps every character"); VP_REACH("narrowed"); }
		else { VP_CHECK(!r8, "narrowing is refused when a character does not fit"); VP_REACH("refused"); }
	}
	free(r8); free(r32);
	VP_CHECK(vp_heap_live() == live, "no memory left allocated");
}
static void constructors(void)
{
	pointless_create_t c; pointless_t p; void* buf = 0; size_t len = 0; const char* error = 0; int f8 = fits(255), f16 = fits(65535), ok;
	uint32_t h[6], k = 0, i, j; int str[6];
	pv_begin(&c);
	uint32_t order = vp_choice(2), v = pointless_create_vector_value(&c); uint64_t live = vp_heap_live();
	for (j = 0; j < 6; j++) {
		uint32_t op = order ? 5 - j : j, r = 0; uint8_t* s8 = 0; uint16_t* s16 = 0; uint32_t* s32 = 0;
		if ((op == 0 || op == 3) && !f8) continue;     // not expressible in that width
		if ((op == 1 || op == 4) && !f16) continue;
		if (op == 0 || op == 3) s8 = to8(); else if (op == 1 || op == 4) s16 = to16(); else s32 = to32();
		switch (op) {
		case 0: error = 0; r = pointless_create_unicode_ascii(&c, (const char*)s8, &error); break;
		case 1: r = pointless_create_unicode_ucs2(&c, s16); break;
		case 2: r = pointless_create_unicode_ucs4(&c, s32); break;
		case 3: r = pointless_create_string_ascii(&c, s8); break;
		case 4: r = pointless_create_string_ucs2(&c, s16); break;
		case 5: r = pointless_create_string_ucs4(&c, s32); break;
		}
		free(s8); free(s16); free(s32);
		if (op >= 4 && !f8) { VP_CHECK(r == PV_FAIL, "characters outside the range are refused"); VP_REACH("refused"); continue; }
		VP_CHECK(r != PV_FAIL, "text can be created");
		str[k] = op >= 3; h[k++] = r;
	}
	for (i = 0; i < k; i++) pointless_create_vector_value_append(&c, v, h[i]);
	pointless_create_set_root(&c, v);
	ok = pointless_create_output_and_end_b(&c, &buf, &len, &error);
	VP_CHECK(ok, "serialization succeeds"); if (!ok) return;
	ok = pointless_open_b(&p, buf, len, &error);
	VP_CHECK(ok, "serialized value is accepted when opened"); if (!ok) return;
	VP_CHECK(p.header->n_string_unicode == 1u + (uint32_t)(f8 != 0), "the same text is stored once per kind");
	pointless_value_t* rv = pointless_root(&p); pointless_value_t* a = pointless_reader_vector_value(&p, rv);
	VP_CHECK(pointless_reader_vector_n_items(&p, rv) == k, "root vector");
	for (i = 0; i < k; i++) {
		if (str[i]) VP_CHECK(a[i].type == POINTLESS_STRING_ && pointless_reader_string_len(&p, a + i) == n && is8(pointless_reader_string_value_ascii(&p, a + i)), "stored string");
		else VP_CHECK(a[i].type == POINTLESS_UNICODE_ && pointless_reader_unicode_len(&p, a + i) == n && is32(pointless_reader_unicode_value_ucs4(&p, a + i)), "stored text");
	}
	VP_REACH("stored");
	pointless_close(&p); free(buf);
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
}
int main()
{
	text(vp_arg(1));
	if (vp_arg(0) == 0) converters(); else constructors();
	return 0;
}
