// Bit vectors: every representation of the same bits behaves the same; comparison is the
// lexicographic one (shorter prefix first); 0: hand-made representations, 1: created, written, read back
#include "vp.h"
#include <pointless/pointless.h>
#define MAXB 96
typedef struct { uint32_t n; uint8_t raw[8 + MAXB / 8]; uint32_t type; pointless_value_data_t data; uint32_t buf[2 + MAXB / 32 + 1]; void* buffer; } bv_t;
static int bit(const bv_t* b, uint32_t i) { return (b->raw[i / 8] >> (i % 8)) & 1; }
static int ref_cmp(const bv_t* a, const bv_t* b)
{
	uint32_t i;
	for (i = 0; i < a->n && i < b->n; i++) {
		if (bit(a, i) < bit(b, i)) return -1;
		if (bit(a, i) > bit(b, i)) return 1;
	}
	return a->n < b->n ? -1 : a->n > b->n ? 1 : 0;
}
static int ref_any(const bv_t* a) { int r = 0; uint32_t i; for (i = 0; i < a->n; i++) r |= bit(a, i); return r; }
// one of the documented representations of the bits, chosen by the solver
static void represent(bv_t* b)
{
	uint32_t i, n0 = 0, k = vp_choice(6), n = b->n;
	b->buffer = 0; b->data.data_u32 = 0;
	int all0 = 1, all1 = 1, is01 = 1, is10 = 1;
	for (i = 0; i < n; i++) {
		int x = bit(b, i), y = i ? bit(b, i - 1) : x;
		all0 &= !x; all1 &= x; n0 += !x;
		is01 &= x | !y; is10 &= y | !x;
	}
	switch (k) {
	case 0: b->type = POINTLESS_BITVECTOR; b->buf[0] = n; for (i = 0; i < (n + 7) / 8; i++) ((uint8_t*)(b->buf + 1))[i] = b->raw[i]; b->buffer = b->buf; b->data.data_u32 = vp_u32(); break;
	case 1: VP_ASSUME(all0); b->type = POINTLESS_BITVECTOR_0; b->data.data_u32 = n; break;
	case 2: VP_ASSUME(all1); b->type = POINTLESS_BITVECTOR_1; b->data.data_u32 = n; break;
	case 3: VP_ASSUME(is01); b->type = POINTLESS_BITVECTOR_01; b->data.bitvector_01_or_10.n_bits_a = n0; b->data.bitvector_01_or_10.n_bits_b = n - n0; break;
	case 4: VP_ASSUME(is10); b->type = POINTLESS_BITVECTOR_10; b->data.bitvector_01_or_10.n_bits_a = n - n0; b->data.bitvector_01_or_10.n_bits_b = n0; break;
	case 5: VP_ASSUME(n <= 27); b->type = POINTLESS_BITVECTOR_PACKED; { uint32_t w = n; for (i = 0; i < n; i++) w |= (uint32_t)bit(b, i) << (5 + i); b->data.data_u32 = w; } break;
	}
}
static void any_bits(bv_t* b, uint32_t n) { uint32_t i; memset(b, 0, sizeof *b); b->n = n; for (i = 0; i < (n + 7) / 8; i++) b->raw[i] = vp_u8(); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void check_one(bv_t* a)
{
	uint32_t i;
	VP_CHECK(pointless_bitvector_n_bits(a->type, &a->data, a->buffer) == a->n, "bit count");
	for (i = 0; i < a->n; i++)
		VP_CHECK((pointless_bitvector_is_set(a->type, &a->data, a->buffer, i) != 0) == bit(a, i), "bit value");
	VP_CHECK((pointless_bitvector_is_any_set(a->type, &a->data, a->buffer) != 0) == ref_any(a), "any bit set");
	VP_CHECK(pointless_bitvector_hash_32(a->type, &a->data, a->buffer) == pointless_bitvector_hash_n_bits_bits_32(a->n, a->raw), "32-bit hash independent of representation");
	VP_CHECK(pointless_bitvector_hash_64(a->type, &a->data, a->buffer) == pointless_bitvector_hash_n_bits_bits_64(a->n, a->raw), "64-bit hash independent of representation");
}
static void check_pair(bv_t* a, bv_t* b)
{
	int want = ref_cmp(a, b);
	int got = pointless_bitvector_cmp_buffer_buffer(a->type, &a->data, a->buffer, b->type, &b->data, b->buffer);
	VP_OUT(sgn(got));
	VP_CHECK(sgn(got) == want, "comparison of two stored bit vectors is lexicographic");
	pointless_value_t va, vb; va.type = a->type; va.data = a->data; vb.type = b->type; vb.data = b->data;
	VP_CHECK(sgn(pointless_bitvector_cmp_bits_buffer(a->n, a->raw, &vb, b->buffer)) == want, "comparison of raw bits with a stored bit vector");
	VP_CHECK(sgn(pointless_bitvector_cmp_buffer_bits(&va, a->buffer, b->n, b->raw)) == want, "comparison of a stored bit vector with raw bits");
	if (want == 0) {
		VP_REACH("equal bit vectors");
		VP_CHECK(pointless_bitvector_hash_32(a->type, &a->data, a->buffer) == pointless_bitvector_hash_32(b->type, &b->data, b->buffer), "equal bit vectors hash alike");
	} else VP_REACH("different bit vectors");
}
// created, written, opened, read
static void roundtrip(uint8_t* raw, uint32_t n, uint32_t big)
{
	pointless_create_t c; pointless_t p; void* buf = 0; size_t len = 0; const char* error = 0; uint32_t i;
	pointless_create_begin_64(&c);
	uint32_t h = pointless_create_bitvector(&c, raw, n), h2 = pointless_create_bitvector_no_normalize(&c, raw, n), r = pointless_create_vector_value(&c);
	VP_CHECK(h != POINTLESS_CREATE_VALUE_FAIL && h2 != POINTLESS_CREATE_VALUE_FAIL && r != POINTLESS_CREATE_VALUE_FAIL, "bit vector can be created");
	pointless_create_vector_value_append(&c, r, h); pointless_create_vector_value_append(&c, r, h2);
	pointless_create_set_root(&c, r);
	int ok = pointless_create_output_and_end_b(&c, &buf, &len, &error);
	VP_CHECK(ok, "bit vector can be serialized");
	ok = pointless_open_b(&p, buf, len, &error);
	VP_CHECK(ok, "serialized bit vector is accepted when opened");
	pointless_value_t* it = pointless_reader_vector_value(&p, pointless_root(&p));
	for (i = 0; i < 2; i++) {
		void* b = it[i].type == POINTLESS_BITVECTOR ? pointless_reader_bitvector_buffer(&p, it + i) : 0;
		VP_CHECK(pointless_reader_bitvector_n_bits(&p, it + i) == n, "bit count of a bit vector read back");
		VP_OUT(it[i].type);
		if (big) {
			uint32_t j = vp_range(0, n - 1);
			VP_CHECK((pointless_reader_bitvector_is_set(&p, it + i, j) != 0) == ((raw[j / 8] >> (j % 8)) & 1), "bit of a bit vector read back");
			continue;
		}
		for (uint32_t j = 0; j < n; j++) VP_CHECK((pointless_reader_bitvector_is_set(&p, it + i, j) != 0) == ((raw[j / 8] >> (j % 8)) & 1), "bit of a bit vector read back");
		VP_CHECK(pointless_bitvector_hash_32(it[i].type, &it[i].data, b) == pointless_bitvector_hash_n_bits_bits_32(n, raw), "hash of a bit vector read back");
		VP_CHECK(pointless_bitvector_cmp_bits_buffer(n, raw, it + i, b) == 0, "bit vector read back compares equal to its bits");
	}
	VP_CHECK(pointless_bitvector_cmp_buffer_buffer(it[0].type, &it[0].data, it[0].type == POINTLESS_BITVECTOR ? pointless_reader_bitvector_buffer(&p, it) : 0, it[1].type, &it[1].data, it[1].type == POINTLESS_BITVECTOR ? pointless_reader_bitvector_buffer(&p, it + 1) : 0) == 0, "both copies compare equal");
	pointless_close(&p); free(buf);
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
}
int main()
{
	static bv_t a, b;
	uint32_t mode = vp_arg(0), minn = vp_arg(1), maxn = vp_arg(2);
	if (mode == 0) {
		any_bits(&a, minn + vp_choice(maxn - minn + 1)); represent(&a);
		any_bits(&b, minn + vp_choice(maxn - minn + 1)); represent(&b);
		check_one(&a);
		check_pair(&a, &b);
		return 0;
	}
	if (mode == 1) { any_bits(&a, minn + vp_choice(maxn - minn + 1)); represent(&a); check_one(&a); return 0; }
	if (mode == 4) {
		// a constant or alternating background with free bits at both ends
		uint32_t n = minn + vp_choice(maxn - minn + 1), bg = vp_choice(3), i, f = vp_arg(3);
		a.n = n;
		for (i = 0; i < n; i++) if (i < 2 || i + f >= n ? vp_bool() : bg == 2 ? i % 2 : bg) a.raw[i / 8] |= 1 << (i % 8);
		roundtrip(a.raw, n, 0);
		return 0;
	}
	if (mode == 5) {
		// long pairs: same background, free bits at both ends
		static const uint32_t ns[] = { 33, 27, 64, 32, 28, 65 };
		uint32_t bg = vp_choice(3), i, k;
		for (k = 0; k < 2; k++) {
			bv_t* x = k ? &b : &a; uint32_t n = ns[vp_choice(maxn)];
			memset(x, 0, sizeof *x); x->n = n;
			for (i = 0; i < n; i++) if (i < 1 || i + 1 == n ? vp_bool() : bg == 2 ? i % 2 : bg) x->raw[i / 8] |= 1 << (i % 8);
			represent(x);
		}
		check_one(&a);
		check_pair(&a, &b);
		return 0;
	}
	if (mode == 2) { any_bits(&a, minn + vp_choice(maxn - minn + 1)); roundtrip(a.raw, a.n, 0); return 0; }
	// two long runs, around the limits of the two-run encodings
	static const uint32_t runs[] = { 20, 65535, 65536, 1, 65541 };
	static uint8_t raw[2 * 65541 / 8 + 8];
	uint32_t x = runs[vp_choice(minn)], y = runs[vp_choice(minn)], first = vp_choice(2), i;
	for (i = 0; i < x + y; i++) if ((i < x) == first) raw[i / 8] |= 1 << (i % 8);
	VP_REACH("two long runs");
	roundtrip(raw, x + y, 1);
	return 0;
}
