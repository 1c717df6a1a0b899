// A file with a long chain of vectors, each holding the next, which the root holds from the outside or the innermost first:
// opening and reading it does not recurse without limit. Run with a limit on call frames between the depth limit and the longest chain.
#include "pv.h"
static pointless_t p;
static uint8_t raw[200000];
static void put32(size_t at, uint32_t x) { memcpy(raw + at, &x, 4); }
static void put64(size_t at, uint64_t x) { memcpy(raw + at, &x, 8); }
int main(void)
{
	static const uint32_t len[4] = { 3, 40, 512, 2500 };
	uint32_t n = len[vp_choice(4)], order = vp_choice(2), cut = n == 3 ? vp_below(4) : vp_choice(2) ? n / 8 : n, plain = vp_choice(2), leaf = n == 3 ? vp_u32() : 1, i; const char* error = 0;
	uint32_t heap = 32 + 8 * (n + 1), at = 0, items = order ? n : 1;
	put32(0, POINTLESS_VECTOR_VALUE); put32(4, n); put32(12, n + 1); put32(28, POINTLESS_FF_VERSION_OFFSET_64_NEWHASH);
	for (i = 0; i <= n; i++) {
		put64(32 + 8 * i, at); put32(heap + at, i < n ? 1 : items); at += 4;
		if (i < n) { put32(heap + at, i + 1 == n ? POINTLESS_U32 : i == cut ? POINTLESS_VECTOR_VALUE : POINTLESS_VECTOR_VALUE_HASHABLE); put32(heap + at + 4, i + 1 == n ? leaf : i + 1); at += 8; }
		else { uint32_t j; for (j = 0; j < items; j++) { uint32_t k = order ? n - 1 - j : 0; put32(heap + at, plain ? POINTLESS_VECTOR_VALUE : POINTLESS_VECTOR_VALUE_HASHABLE); put32(heap + at + 4, k); at += 8; } }
	}
	int ok = pointless_open_b(&p, raw, heap + at, &error);
	VP_CHECK(ok ? error == 0 : error != 0, "opening succeeds without or fails with an error message");
	if (!ok) { VP_CHECK(n > 200, "moderately nested values are read"); VP_REACH("refused"); VP_CHECK(vp_heap_live() == 0, "no memory left allocated"); return 0; }
	VP_REACH("accepted"); VP_OUT(n);
	pointless_value_t* v = pointless_reader_vector_value(&p, pointless_root(&p));
	for (i = 0; i < items; i += items > 100 ? items / 8 : 1) {
		const char* e = 0; pointless_complete_value_t c = pointless_value_to_complete(v + i);
		if (pointless_is_hashable(v[i].type)) VP_OUT(pointless_hash_reader_32(&p, v + i));
		int32_t k = pointless_cmp_reader(&p, &c, &p, &c, &e); VP_CHECK(e || k == 0, "a value equals itself");
	}
	pointless_close(&p);
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
	return 0;
}
