// Comparison and hashing of two values, while being created and after being read back.
// args: 0 family of a, 1 family of b, 2 length bound, 3 payload bits, 4 float tables (1) or all floats (0), 5: 0 comparison, 1 hashing
#include "pv.h"
typedef struct { int f; float v; int neg; uint64_t mag; } num;
static num num_of(uint32_t kind_signed, int64_t x) { num r; r.f = 0; r.v = 0; r.neg = kind_signed && x < 0; r.mag = r.neg ? 0 - (uint64_t)x : (uint64_t)x; return r; }
static num num_f(float f) { num r; r.f = 1; r.v = f; r.neg = 0; r.mag = 0; return r; }
static int cmp_u(uint64_t a, uint64_t b) { return a < b ? -1 : a > b; }
static int cmp_int_float(num a, float f)      // exact
{
	if (a.mag < 9007199254740992ull) { double d = a.neg ? -(double)a.mag : (double)a.mag; return d < (double)f ? -1 : d > (double)f; }
	if (f < 0.0f) { if (!a.neg) return 1; if (f <= -18446744073709551616.0f) return 1; return -cmp_u(a.mag, (uint64_t)-f); }
	if (a.neg) return -1;
	if (f >= 18446744073709551616.0f) return -1;
	return cmp_u(a.mag, (uint64_t)f);
}
static int cmp_num(num a, num b)
{
	if (a.f && b.f) return a.v < b.v ? -1 : a.v > b.v;
	if (a.f) return -cmp_int_float(b, a.v);
	if (b.f) return cmp_int_float(a, b.v);
	if (a.neg != b.neg) return a.neg ? -1 : 1;
	return a.neg ? cmp_u(b.mag, a.mag) : cmp_u(a.mag, b.mag);
}
static num leaf_num(const mv* m) { return m->k == K_FLT ? num_f(pv_f(m->u)) : num_of(m->k == K_I32, m->k == K_I32 ? (int64_t)(int32_t)m->u : (int64_t)m->u); }
static int is_vec(const mv* m) { return m->k == K_VEC || m->k == K_PRIM; }
// the i-th item of a native vector as a number
static num prim_num(const mv* m, uint32_t i)
{
	switch (m->type) {
	case POINTLESS_VECTOR_FLOAT: return num_f(pv_f((uint32_t)m->it[i]));
	case POINTLESS_VECTOR_U8: case POINTLESS_VECTOR_U16: case POINTLESS_VECTOR_U32: case POINTLESS_VECTOR_U64: return num_of(0, m->it[i]);
	default: return num_of(1, m->it[i]);
	}
}
#define APART 9       // different families: ordered, but how is the library's choice
static int ref(const mv* a, const mv* b)
{
	uint32_t i;
	if (is_vec(a) && is_vec(b)) {
		for (i = 0; i < a->n && i < b->n; i++) {
			int na = a->k == K_PRIM || pv_is_num(a->c[i]->k), nb = b->k == K_PRIM || pv_is_num(b->c[i]->k), r;
			if (na && nb) r = cmp_num(a->k == K_PRIM ? prim_num(a, i) : leaf_num(a->c[i]), b->k == K_PRIM ? prim_num(b, i) : leaf_num(b->c[i]));
			else if (na != nb) return APART;
			else r = ref(a->c[i], b->c[i]);
			if (r) return r;
		}
		return a->n < b->n ? -1 : a->n > b->n;
	}
	if (pv_is_num(a->k) && pv_is_num(b->k)) return cmp_num(leaf_num(a), leaf_num(b));
	if ((a->k == K_UCS || a->k == K_STR) && (b->k == K_UCS || b->k == K_STR)) {
		for (i = 0; i < a->n && i < b->n; i++) if (a->it[i] != b->it[i]) return (uint32_t)a->it[i] < (uint32_t)b->it[i] ? -1 : 1;
		return a->n < b->n ? -1 : a->n > b->n;
	}
	if (a->k == K_BV && b->k == K_BV) {
		for (i = 0; i < a->n && i < b->n; i++) { int x = a->raw[i / 8] >> (i % 8) & 1, y = b->raw[i / 8] >> (i % 8) & 1; if (x != y) return x < y ? -1 : 1; }
		return a->n < b->n ? -1 : a->n > b->n;
	}
	if (a->k == b->k && a->k == K_NULL) return 0;
	return APART;
}
static int nan_in(const mv* m)
{
	uint32_t i, r = 0;
	if (m->k == K_PRIM && m->type == POINTLESS_VECTOR_FLOAT) for (i = 0; i < m->n; i++) r |= isnan(pv_f((uint32_t)m->it[i])) != 0;
	return r | (uint32_t)pv_has_nan(m);
}
static uint32_t bits;
static int64_t item(uint32_t type)
{
	static const float tab[6] = { 0.0f, 1.0f, -1.0f, 1.5f, 4294967296.0f, 255.0f };
	if (type == POINTLESS_VECTOR_FLOAT) return pv_fb(tab[vp_choice(6)]);
	int64_t x = pv_any_item(type);
	if (bits) switch (type) {
	case POINTLESS_VECTOR_I8: case POINTLESS_VECTOR_I16: case POINTLESS_VECTOR_I32: VP_ASSUME(x >= -(1 << (bits - 1)) && x < (1 << (bits - 1))); break;
	case POINTLESS_VECTOR_I64: case POINTLESS_VECTOR_U64: VP_ASSUME((uint64_t)x < (1u << bits)); break;
	default: VP_ASSUME(x < (1 << bits));
	}
	return x;
}
static mv* prim(uint32_t type, uint32_t n, int outside) { mv* m = pv_new(K_PRIM); uint32_t i; m->type = type; m->n = n; m->outside = outside; for (i = 0; i < n; i++) m->it[i] = item(type); return m; }
static int have64; static int64_t prev64;      // equal bits share one input, which keeps the solver's task small
static mv* make(uint32_t fam, uint32_t len)
{
	mv* m; uint32_t i;
	switch (fam) {
	case 0: { uint32_t k = vp_choice(4); if (k == 0) return pv_i32(pv_spay()); if (k == 1) return pv_u32(pv_pay()); if (k == 2) return pv_bool(vp_bool()); return vp_arg(4) ? pv_flt(pv_fpay()) : pv_flt(vp_float()); }
	case 1: { uint32_t k = vp_choice(2), n = vp_choice(len + 1); return k ? pv_ucs(n) : pv_str(n); }
	case 2: return pv_bv(vp_choice(len + 1));
	case 3: { uint32_t t = pv_prim_types[vp_choice(9)], n = vp_choice(len + 1), o = vp_choice(2); return prim(t, n, o); }          // native vectors
	case 4: m = pv_vec(vp_choice(len + 1)); for (i = 0; i < m->n; i++) m->c[i] = make(0, 0); return m;                                // vectors of numbers (compressed)
	case 5: m = pv_vec(vp_choice(len + 1)); for (i = 0; i < m->n; i++) m->c[i] = pv_any_leaf(1); return m;                               // mixed vectors
	case 6: m = pv_vec(vp_choice(len + 1)); for (i = 0; i < m->n; i++) m->c[i] = make(vp_choice(2) ? 4 : 2, 1); return m;                // nested
	case 7: return pv_any_leaf(len);
	default: { uint32_t t = pv_prim_types[6 + vp_choice(2)]; mv* q = pv_new(K_PRIM); q->type = t; q->n = 1;
		if (have64 && vp_choice(2)) q->it[0] = prev64; else { q->it[0] = (int64_t)vp_u64(); if (have64) VP_ASSUME(q->it[0] != prev64); }
		have64 = 1; prev64 = q->it[0]; return q; }   // one 64-bit item
	}
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static uint32_t ctype(pointless_create_t* c, uint32_t h) { return pointless_dynarray_ITEM_AT(pointless_create_value_t, &c->values, h).header.type_29; }
static uint32_t chash(pointless_create_t* c, uint32_t h) { return pointless_hash_create_32(c, &pointless_dynarray_ITEM_AT(pointless_create_value_t, &c->values, h)); }
// an integer beyond 32 bits on one side, a float on the other, at the same place
static int wide_num(num a, num b) { return !a.f && b.f && (a.neg ? a.mag > 0x80000000u : a.mag > 0xffffffffu); }
static int wide(const mv* a, const mv* b)
{
	uint32_t i; int r = 0;
	if (is_vec(a) && is_vec(b)) for (i = 0; i < a->n && i < b->n; i++) {
		int na = a->k == K_PRIM || pv_is_num(a->c[i]->k), nb = b->k == K_PRIM || pv_is_num(b->c[i]->k);
		if (na && nb) { num x = a->k == K_PRIM ? prim_num(a, i) : leaf_num(a->c[i]), y = b->k == K_PRIM ? prim_num(b, i) : leaf_num(b->c[i]); r |= wide_num(x, y) | wide_num(y, x); }
		else if (!na && !nb) r |= wide(a->c[i], b->c[i]);
	}
	return r;
}
#define HASHES_ALIKE(eq, what) do { if (wd) VP_CHECK(eq, "an integer item beyond 32 bits hashes like the equal float item"); else VP_CHECK(eq, what); } while (0)
int main()
{
	pointless_create_t c; pointless_t p; void* buf = 0; size_t len = 0; const char* error = 0; uint32_t hashing = vp_arg(5);
	bits = pv_bits = vp_arg(3);
	mv* a = make(vp_arg(0), vp_arg(2)); mv* b = make(vp_arg(1), vp_arg(2));
	VP_ASSUME(!nan_in(a)); VP_ASSUME(!nan_in(b));
	int want = ref(a, b), wd = want == 0 && wide(a, b);
	mv* root = pv_vec(3); root->c[0] = a; root->c[1] = b; root->c[2] = pv_null();
	pv_begin(&c);
	uint32_t h = pv_make(&c, root);
	VP_CHECK(h != PV_FAIL, "values can be created");
	pointless_create_set_root(&c, h);
	int ha = pointless_is_hashable(ctype(&c, a->handle)), hb = pointless_is_hashable(ctype(&c, b->handle));
	uint32_t cha = hashing && ha ? chash(&c, a->handle) : 0, chb = hashing && hb ? chash(&c, b->handle) : 0;
	if (!hashing) {
		int ab = sgn(pointless_cmp_create(&c, a->handle, b->handle, &error)), ba = sgn(pointless_cmp_create(&c, b->handle, a->handle, &error));
		int aa = pointless_cmp_create(&c, a->handle, a->handle, &error);
		VP_CHECK(error == 0, "comparison during creation succeeds");
		VP_CHECK(aa == 0, "a value being created equals itself");
		VP_CHECK(ab == -ba, "create-time comparison is antisymmetric");
		if (want == APART) VP_CHECK(ab != 0, "different kinds of value are never equal during creation");
		else VP_CHECK(ab == want, "create-time comparison is the documented order");
	} else if (ha && hb && want == 0) { HASHES_ALIKE(cha == chb, "equal values being created hash alike"); }
	int ok = pointless_create_output_and_end_b(&c, &buf, &len, &error);
	VP_CHECK(ok, "values can be serialized"); if (!ok) return 0;
	ok = pointless_open_b(&p, buf, len, &error);
	VP_CHECK(ok, "serialized values are accepted when opened"); if (!ok) return 0;
	pointless_value_t* items = pointless_reader_vector_value(&p, pointless_root(&p));
	if (want == APART) VP_REACH("different kinds");
	if (!hashing) {
		pointless_complete_value_t va = pointless_value_to_complete(items), vb = pointless_value_to_complete(items + 1);
		int ab = sgn(pointless_cmp_reader(&p, &va, &p, &vb, &error)), ba = sgn(pointless_cmp_reader(&p, &vb, &p, &va, &error));
		int aa = pointless_cmp_reader(&p, &va, &p, &va, &error);
		VP_CHECK(error == 0, "comparison of stored values succeeds");
		VP_CHECK(aa == 0, "a stored value equals itself");
		VP_CHECK(ab == -ba, "comparison of stored values is antisymmetric");
		if (want == APART) VP_CHECK(ab != 0, "different kinds of stored value are never equal");
		else { VP_CHECK(ab == want, "comparison of stored values is the documented order"); VP_OUT(ab + 1); }
		if (want == 0) VP_REACH("equal when stored");
	} else if (pointless_is_hashable(items[0].type) && pointless_is_hashable(items[1].type)) {
		uint32_t xa = pointless_hash_reader_32(&p, items), xb = pointless_hash_reader_32(&p, items + 1);
		if (want == 0) { VP_REACH("equal when stored"); HASHES_ALIKE(xa == xb, "equal stored values hash alike"); }
		if (ha) VP_CHECK(xa == cha, "hash is the same during creation and reading");
		if (hb) VP_CHECK(xb == chb, "hash is the same during creation and reading");
		VP_OUT(xa);
		if (pointless_is_vector_type(items[0].type)) VP_CHECK(pointless_hash_reader_vector_32(&p, items, 0, pointless_reader_vector_n_items(&p, items)) == xa, "hash of a whole-vector slice is the hash of the vector");
	}
	pointless_close(&p); free(buf);
	return 0;
}
