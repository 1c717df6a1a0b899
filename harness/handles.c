// A sequence of creation requests next to each other: every handle keeps denoting the value requested.
// arg 0: number of requests  1: kinds (bit mask)  2: text length  3: payload bits (0: all)
#include "pv.h"
enum { MAXQ = 6 };
static mv* q[MAXQ];
static mv* request(uint32_t mask, uint32_t len)
{
	uint32_t kinds[9], nk = 0, i; for (i = 0; i < 9; i++) if (mask >> i & 1) kinds[nk++] = i;
	switch (kinds[vp_choice(nk)]) {
	case 0: return pv_i32(pv_spay());
	case 1: return pv_u32(pv_pay());
	case 2: return pv_flt(pv_fpay());
	case 3: return pv_bool(vp_bool());
	case 4: return pv_null();
	case 5: return pv_ucs(vp_choice(len + 1));
	case 6: return pv_str(vp_choice(len + 1));
	case 7: { static const uint32_t b[3] = { 3, 30, 33 }; mv* m = pv_bv(b[vp_choice(3)]); uint32_t i; for (i = 1; i < 16; i++) m->raw[i] = i % 2 ? 0x55 : 0; m->raw[0] &= 7; return m; }
	default: { // integers around the ends of the cached ranges
		static const int32_t e[8] = { -10001, -10000, -9999, 9999, 10000, 10001, 0, -1 }; int32_t v = e[vp_choice(8)]; return vp_choice(2) ? pv_i32(v) : pv_u32((uint32_t)v); }
	}
}
// the same request: kind and payload
static int same(const mv* a, const mv* b)
{
	uint32_t i, ok = 1;
	if (a->k != b->k) return 0;
	switch (a->k) {
	case K_UCS: case K_STR: if (a->n != b->n) return 0; for (i = 0; i < a->n; i++) ok &= a->it[i] == b->it[i]; return ok;
	case K_BV: if (a->n != b->n) return 0; for (i = 0; i < a->n; i++) ok &= ((a->raw[i / 8] ^ b->raw[i / 8]) >> (i % 8) & 1) == 0; return ok;
	case K_NULL: return 1;
	default: return a->u == b->u;
	}
}
static int exact(pointless_t* p, pointless_value_t* v, mv* m)
{
	if (m->k == K_I32 && v->type != POINTLESS_I32) return 0;
	if (m->k == K_U32 && v->type != POINTLESS_U32) return 0;
	return pv_eq_read(p, v, m);
}
int main()
{
	pointless_create_t c; pointless_t p; void* buf = 0; size_t len = 0; const char* error = 0;
	uint32_t n = vp_arg(0), mask = vp_arg(1), tl = vp_arg(2), i, j, h[MAXQ], g[MAXQ], nstr = 0, again = vp_choice(2);
	pv_bits = vp_arg(3);
	for (i = 0; i < n; i++) q[i] = request(mask, tl);
	pv_begin(&c);
	for (i = 0; i < n; i++) {
		h[i] = pv_make(&c, q[i]); VP_CHECK(h[i] != PV_FAIL, "request succeeds");
		if (again) { g[i] = pv_make(&c, q[n - 1 - i]); VP_CHECK(g[i] != PV_FAIL, "repeated request succeeds"); } else g[i] = h[i];
	}
	for (i = 0; i < n; i++) for (j = 0; j < i; j++) if (h[i] == h[j]) VP_CHECK(same(q[i], q[j]), "a handle is shared only by requests for the same value of the same kind");
	for (i = 0; i < n; i++) if (q[i]->k == K_UCS || q[i]->k == K_STR) { for (j = 0; j < i; j++) if (same(q[i], q[j])) break; if (j == i) nstr++; }
	// all handles in one vector, next to a null so that no compact storage applies; half of them through a second vector
	uint32_t v = pointless_create_vector_value(&c), w = pointless_create_vector_value(&c), nul = pointless_create_null(&c);
	VP_CHECK(v != PV_FAIL && w != PV_FAIL && nul != PV_FAIL, "request succeeds");
	pointless_create_vector_value_append(&c, v, nul); pointless_create_vector_value_append(&c, w, nul); pointless_create_vector_value_append(&c, v, w);
	for (i = 0; i < n; i++) { pointless_create_vector_value_append(&c, v, h[i]); pointless_create_vector_value_append(&c, w, again ? g[n - 1 - i] : g[i]); }
	pointless_create_set_root(&c, v);
	int ok = pointless_create_output_and_end_b(&c, &buf, &len, &error);
	VP_CHECK(ok, "serialization succeeds");
	if (!ok) return 0;
	ok = pointless_open_b(&p, buf, len, &error);
	VP_CHECK(ok, "serialized value is accepted when opened");
	if (!ok) return 0;
	VP_CHECK(p.header->n_string_unicode == nstr, "equal strings are stored once");
	pointless_value_t* rv = pointless_root(&p);
	VP_CHECK(pointless_is_vector_type(rv->type) && pointless_reader_vector_n_items(&p, rv) == n + 2, "root vector");
	pointless_value_t* a = pointless_reader_vector_value(&p, rv); pointless_value_t* b = pointless_reader_vector_value(&p, a + 1);
	for (i = 0; i < n; i++) {
		VP_CHECK(exact(&p, a + 2 + i, q[i]), "the handle denotes the value requested");
		VP_CHECK(exact(&p, b + 1 + i, q[i]), "the handle of the repeated request denotes the value requested");
	}
	pointless_close(&p); free(buf);
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
	VP_REACH("sequence stored");
	return 0;
}
