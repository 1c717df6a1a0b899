// The growable array against a plain list.  0: operation sequences  1: overflowing sizes
#include "vp.h"
#include <pointless/pointless_dynarray.h>
#define MAXI 128
static uint8_t list[MAXI * 8]; static size_t n, sz;
static void same(pointless_dynarray_t* a)
{
	size_t i, j;
	VP_CHECK(pointless_dynarray_n_items(a) == n, "number of items");
	VP_CHECK(a->n_alloc >= n && pointless_dynarray_n_heap_bytes(a) == a->n_alloc * sz, "reserved size");
	for (i = 0; i < n; i++) {
		uint8_t* p = (uint8_t*)pointless_dynarray_item_at(a, i); int ok = 1;
		VP_CHECK(p == (uint8_t*)pointless_dynarray_buffer(a) + i * sz, "items are stored in order in the buffer");
		for (j = 0; j < sz; j++) ok &= p[j] == list[i * sz + j];
		VP_CHECK(ok, "items are those of the list");
	}
}
static void fresh(uint8_t* x, size_t k) { size_t i; for (i = 0; i < k; i++) x[i] = i % 3 ? (uint8_t)(i + 40 * n) : vp_u8(); }
int main()
{
	static const uint32_t sizes[] = { 4, 1, 8, 3, 2, 5 };
	pointless_dynarray_t a; uint32_t mode = vp_arg(0), len = vp_arg(1), i, ok, before = 0;
	sz = sizes[vp_choice(vp_arg(2))];
	pointless_dynarray_init(&a, sz);
	if (mode == 1) {
		// claimed sizes near the limit of size_t, no buffer behind them
		uint64_t k = vp_u64(); uint8_t item[8] = {0};
		a.n_items = a.n_alloc = vp_u64();
		VP_ASSUME(k > 0);
		VP_ASSUME(a.n_alloc > UINT64_MAX / sz / 2);
		pointless_dynarray_t b = a;
		ok = pointless_dynarray_push_bulk(&a, item, k);
		VP_CHECK(!ok, "a size that overflows is refused");
		VP_CHECK(a.n_items == b.n_items && a._data == b._data, "array unchanged after failure");
		VP_REACH("size overflow");
		return 0;
	}
	uint32_t pre = vp_arg(3);   // items already there
	for (i = 0; i < pre; i++) { fresh(list + n * sz, sz); ok = pointless_dynarray_push(&a, list + n * sz); VP_CHECK(ok, "push succeeds"); n++; }
	int failing = (int)vp_arg(4);
	for (i = 0; i < len; i++) {
		uint8_t tmp[8 * 24]; uint32_t op = vp_choice(6), k, x, y;
		before = failing && op < 2 ? vp_choice(4) : 0;   // that allocation fails
		if (before) vp_malloc_fail_at = before;
		switch (op) {
		case 0: fresh(tmp, sz); ok = pointless_dynarray_push(&a, tmp); if (!before) VP_CHECK(ok, "push succeeds"); if (ok) { memcpy(list + n * sz, tmp, sz); n++; } else VP_REACH("allocation failed"); break;
		case 1: k = vp_choice(3) * 7; fresh(tmp, sz * k); ok = pointless_dynarray_push_bulk(&a, tmp, k); if (!before) VP_CHECK(ok, "bulk push succeeds"); if (ok) { memcpy(list + n * sz, tmp, sz * k); n += k; } break;
		case 2: if (n == 0) return 0; pointless_dynarray_pop(&a); n--; break;
		case 3: if (n == 0) return 0; x = vp_choice(n < 3 ? n : 3); y = n - 1 - vp_choice(n < 2 ? n : 2); pointless_dynarray_swap(&a, x, y); memcpy(tmp, list + x * sz, sz); memmove(list + x * sz, list + y * sz, sz); memcpy(list + y * sz, tmp, sz); VP_REACH("swap"); break;
		case 4: pointless_dynarray_clear(&a); n = 0; VP_CHECK(a.item_size == sz && vp_heap_live() == 0, "clearing frees the buffer"); break;
		case 5: { if (n) return 0; k = 1 + vp_choice(3); uint8_t* d = (uint8_t*)malloc(k * sz); fresh(d, k * sz); memcpy(list, d, k * sz); pointless_dynarray_give_data(&a, d, k); n = k; VP_REACH("buffer adopted"); break; }
		}
		vp_malloc_fail_at = 0;
		same(&a);
	}
	pointless_dynarray_destroy(&a);
	VP_CHECK(pointless_dynarray_n_items(&a) == 0 && vp_heap_live() == 0, "nothing left allocated");
	VP_REACH("sequence ended");
	return 0;
}
