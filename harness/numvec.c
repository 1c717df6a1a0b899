// A vector of numbers, which the library may store compactly, next to the same items with a null behind them, which it can not.
// arg 0: 0 integers, 1 floats, 2 any mixture of numbers and booleans  1: most items  2: hash as well  3: payload bits  4: fixed leading items
#include "pv.h"
static mv* item(uint32_t k)
{
	switch (k) {
	case 0: return vp_choice(2) ? pv_i32(pv_spay()) : pv_u32(pv_pay());
	case 1: return pv_flt(pv_fpay());
	default: { uint32_t x = vp_choice(4); return x == 0 ? pv_i32(pv_spay()) : x == 1 ? pv_u32(pv_pay()) : x == 2 ? pv_bool(vp_bool()) : pv_flt(pv_fpay()); }
	}
}
// the item as the typed accessor of the stored type delivers it: integer, or float bits
static int typed(pointless_t* p, pointless_value_t* v, uint32_t i, int64_t* x)
{
	switch (v->type) {
	case POINTLESS_VECTOR_I8: *x = pointless_reader_vector_i8(p, v)[i]; return 0;
	case POINTLESS_VECTOR_U8: *x = pointless_reader_vector_u8(p, v)[i]; return 0;
	case POINTLESS_VECTOR_I16: *x = pointless_reader_vector_i16(p, v)[i]; return 0;
	case POINTLESS_VECTOR_U16: *x = pointless_reader_vector_u16(p, v)[i]; return 0;
	case POINTLESS_VECTOR_I32: *x = pointless_reader_vector_i32(p, v)[i]; return 0;
	case POINTLESS_VECTOR_U32: *x = pointless_reader_vector_u32(p, v)[i]; return 0;
	case POINTLESS_VECTOR_I64: *x = pointless_reader_vector_i64(p, v)[i]; return 0;
	case POINTLESS_VECTOR_U64: *x = (int64_t)pointless_reader_vector_u64(p, v)[i]; return 0;
	case POINTLESS_VECTOR_FLOAT: *x = ((uint32_t*)pointless_reader_vector_float(p, v))[i]; return 1;
	}
	return 2;
}
int main()
{
	pointless_create_t c; pointless_t p; void* buf = 0; size_t len = 0; const char* error = 0; uint32_t kinds = vp_arg(0), nfix = vp_arg(4), n = vp_choice(vp_arg(1) + 1) + nfix, hashing = vp_arg(2), i; int nan = 0;
	static const int32_t fix[4] = { 3, -1, 255, 0 };
	pv_bits = vp_arg(3);
	mv* a = pv_vec(n); mv* b = pv_vec(n + 1);
	for (i = 0; i < n; i++) { a->c[i] = b->c[i] = i < nfix ? pv_i32(fix[i % 4]) : item(kinds); if (hashing) nan |= pv_has_nan(a->c[i]); }
	if (hashing) VP_ASSUME(!nan);
	b->c[n] = pv_null();
	mv* root = pv_vec(3); root->c[0] = a; root->c[1] = b; root->c[2] = pv_null();
	pv_begin(&c);
	uint32_t h = pv_make(&c, root);
	VP_CHECK(h != PV_FAIL, "value can be created");
	pointless_create_set_root(&c, h);
	int ok = pointless_create_output_and_end_b(&c, &buf, &len, &error);
	VP_CHECK(ok, "serialization succeeds"); if (!ok) return 0;
	ok = pointless_open_b(&p, buf, len, &error);
	VP_CHECK(ok, "serialized value is accepted when opened"); if (!ok) return 0;
	pointless_value_t* va = pointless_reader_vector_value(&p, pointless_root(&p)); pointless_value_t* vb = va + 1;
	VP_CHECK(pointless_is_vector_type(va->type) && pointless_reader_vector_n_items(&p, va) == n, "number of items");
	VP_CHECK(vb->type == POINTLESS_VECTOR_VALUE_HASHABLE && pointless_reader_vector_n_items(&p, vb) == n + 1, "number of items");
	if (vb->type != POINTLESS_VECTOR_VALUE_HASHABLE) return 0;
	for (i = 0; i < n; i++) {
		mv* m = a->c[i]; int64_t x = 0; int t = typed(&p, va, i, &x);
		pointless_complete_value_t cv = pointless_reader_vector_value_case(&p, va, i), cb = pointless_reader_vector_value_case(&p, vb, i);
		VP_CHECK(pv_eq_complete(&p, &cb, m) && pv_eq_read(&p, pointless_reader_vector_value(&p, vb) + i, m), "the generic storage holds the items");
		VP_CHECK(pv_eq_complete(&p, &cv, m), "the generic accessor delivers the items");
		if (t == 0) { VP_CHECK((m->k == K_I32 || m->k == K_U32) && x == pv_int(m), "an integer storage type holds the items exactly"); VP_REACH("integer storage"); }
		else if (t == 1) { VP_CHECK(m->k == K_FLT && (uint32_t)x == m->u, "a float storage type holds the items exactly"); VP_REACH("float storage"); }
		else { VP_CHECK(pv_eq_read(&p, pointless_reader_vector_value(&p, va) + i, m), "the generic storage holds the items"); VP_REACH("generic storage"); }
		if (m->k == K_I32 || m->k == K_U32) { int64_t y = cv.type == POINTLESS_I32 ? pointless_complete_value_get_as_i64(cv.type, &cv.complete_data) : (int64_t)pointless_complete_value_get_as_u64(cv.type, &cv.complete_data); VP_CHECK(y == pv_int(m), "64-bit view of an item"); }
		if (!pv_has_nan(m)) { VP_CHECK(pointless_cmp_reader(&p, &cv, &p, &cb, &error) == 0 && error == 0, "an item equals the item in the other storage"); }
	}
	if (hashing) {
		VP_CHECK(pointless_hash_reader_32(&p, va) == pointless_hash_reader_vector_32(&p, vb, 0, n), "the hash is that of the same items in generic storage");
		pointless_complete_value_t ca = pointless_value_to_complete(va), cb = pointless_value_to_complete(vb);
		VP_CHECK(pointless_cmp_reader(&p, &ca, &p, &cb, &error) < 0 && pointless_cmp_reader(&p, &cb, &p, &ca, &error) > 0 && error == 0, "comparison goes by the items, then by the length");
	}
	VP_OUT(va->type);
	pointless_close(&p); free(buf);
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
	return 0;
}
