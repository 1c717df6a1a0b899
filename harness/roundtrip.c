// Create, serialize to memory, open (validating), read back: the same value.
#include "pv.h"
static mv* any_value(uint32_t depth, uint32_t width, uint32_t len)
{
	uint32_t i, k = vp_choice(depth ? 3 : 1);
	if (k == 0) return pv_any_leaf(len);
	if (k == 1) { mv* m = pv_vec(vp_choice(width + 1)); for (i = 0; i < m->n; i++) m->c[i] = any_value(depth - 1, width, len); return m; }
	{ uint32_t t = pv_prim_types[vp_choice(9)], n = vp_choice(width + 1), o = vp_choice(2); return pv_prim(t, n, o); }
}
int main()
{
	pointless_create_t c; pointless_t p; void* buf = 0; size_t len = 0; const char* error = 0;
	mv* m; uint32_t i, mode = vp_arg(0), a1 = vp_arg(1), a2 = vp_arg(2);
	if (mode == 0) m = any_value(a1, a2, 2);                                    // every shape, small
	else if (mode == 1) { m = pv_vec(a1); for (i = 0; i < a1; i++) m->c[i] = pv_any_number(); }   // numbers: compression decisions
	else if (mode == 2) { uint32_t t = pv_prim_types[vp_choice(9)], o = vp_choice(2); m = pv_prim(t, a1, o); }
	else if (mode == 3) { m = pv_vec(2); m->c[0] = vp_choice(2) ? pv_ucs(a1) : pv_str(a1); m->c[1] = vp_choice(2) ? pv_ucs(a1) : pv_str(a1); }  // shared text
	else if (mode == 4) { m = pv_vec(2); m->c[0] = pv_bv(vp_choice(a1 + 1)); m->c[1] = pv_bv(vp_choice(a1 + 1)); }
	else if (mode == 6) { // a set or map in a vector
		m = pv_vec(1 + vp_choice(2)); m->c[0] = vp_choice(2) ? pv_map(vp_choice(a1 + 1)) : pv_set(vp_choice(a1 + 1)); mv* x = m->c[0]; if (m->n == 2) m->c[1] = vp_choice(2) ? x : pv_null();
		pv_bits = a2;
		for (i = 0; i < x->n; i++) { if (vp_arg(4) == 1) { x->c[i] = pv_u32(i); x->d[i] = any_value(1, 1, 1); } else { x->c[i] = any_value(i == 0, 1, 1); x->d[i] = pv_u32(i); } VP_ASSUME(!pv_has_nan(x->c[i])); for (uint32_t j = 0; j < i; j++) VP_ASSUME(!pv_same(x->c[i], x->c[j])); }
	}
	else if (mode == 7) { m = pv_vec(2); m->c[0] = pv_bv(vp_concretize(a1 + vp_choice(a2 - a1 + 1))); m->c[1] = vp_choice(2) ? pv_null() : m->c[0]; mv* x = m->c[0]; uint32_t at = vp_choice((x->n + 7) / 8); for (i = 0; i < (x->n + 7) / 8; i++) if (i != at) x->raw[i] = (uint8_t)(0x35 + 0x46 * i); } // any byte of bit vectors too long to be stored in the value
	else { m = pv_vec(a1); for (i = 0; i < a1; i++) m->c[i] = vp_choice(2) ? pv_i32((int32_t)vp_u32()) : pv_u32(vp_u32()); }
	pv_begin(&c);
	uint32_t h = pv_make(&c, m);
	VP_CHECK(h != PV_FAIL, "value can be created");
	pointless_create_set_root(&c, h);
	int ok = pointless_create_output_and_end_b(&c, &buf, &len, &error);
	VP_CHECK(ok, "value can be serialized");
	if (!ok) return 0;
	ok = pointless_open_b(&p, buf, len, &error);
	VP_CHECK(ok, "serialized value is accepted when opened");
	if (!ok) return 0;
	if (vp_arg(3) && !pv_copy(&p, &buf, pointless_root(&p), 1)) return 0; // 3: check a copy of the document instead
	VP_CHECK(pv_eq_read(&p, pointless_root(&p), m), "value read back is the value written");
	VP_REACH("round trip");
	pointless_close(&p); free(buf);
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
	return 0;
}
