// Shadow values: what the user put in.  pv_make builds the real value through the public
// create API; pv_eq_read decides, through the public read API, whether a stored value is it.
#ifndef PV_H
#define PV_H
#include "vp.h"
#include <math.h>
#include <pointless/pointless.h>
enum { K_NULL, K_BOOL, K_I32, K_U32, K_FLT, K_UCS, K_STR, K_BV, K_VEC, K_PRIM, K_SET, K_MAP };
#define PV_N 10
typedef struct mv {
	int k; uint32_t n;              // kind; items / code units / bits
	uint32_t type;                  // K_PRIM: POINTLESS_VECTOR_*
	int outside;                    // K_PRIM: buffer owned by the caller
	uint32_t u;                     // scalar payload (bits)
	int64_t it[PV_N];               // K_PRIM: items (float: bits); K_UCS/K_STR: code units
	uint8_t raw[16];                // K_BV
	struct mv* c[PV_N]; struct mv* d[PV_N];
	uint32_t handle;
	uint64_t store[PV_N];           // K_PRIM, caller-owned buffer
} mv;
static mv pv_pool[40]; static int pv_used;
static mv* pv_new(int k) { mv* m = &pv_pool[pv_used++]; m->k = k; return m; }
static float pv_f(uint32_t b) { union { uint32_t u; float f; } x; x.u = b; return x.f; }
static uint32_t pv_fb(float f) { union { uint32_t u; float f; } x; x.f = f; return x.u; }

static mv* pv_null(void) { return pv_new(K_NULL); }
static mv* pv_bool(int b) { mv* m = pv_new(K_BOOL); m->u = b ? 1 : 0; return m; }
static mv* pv_i32(int32_t v) { mv* m = pv_new(K_I32); m->u = (uint32_t)v; return m; }
static mv* pv_u32(uint32_t v) { mv* m = pv_new(K_U32); m->u = v; return m; }
static mv* pv_flt(float v) { mv* m = pv_new(K_FLT); m->u = pv_fb(v); return m; }
// bound on payloads (0: none): integers below 2^pv_bits in magnitude, floats from a table, code units below 2^pv_bits
static uint32_t pv_bits;
static uint32_t pv_pay(void) { uint32_t x = vp_u32(); if (pv_bits && pv_bits < 32) VP_ASSUME((x >> pv_bits) == 0); return x; }
static int32_t pv_spay(void) { if (!pv_bits) return (int32_t)vp_u32(); return (int32_t)(pv_pay() << (32 - pv_bits)) >> (32 - pv_bits); }
static float pv_fpay(void)
{
	static const float f[8] = { 0.0f, -0.0f, 1.0f, 1.5f, -1.0f, 2147483648.0f, 4294967296.0f, 3.0f };
	return pv_bits ? f[vp_choice(8)] : vp_float();
}
// strings of n symbolic non-zero code units
static mv* pv_ucs(uint32_t n) { mv* m = pv_new(K_UCS); uint32_t i; m->n = n; for (i = 0; i < n; i++) { uint32_t x = pv_pay(); VP_ASSUME(x != 0); m->it[i] = x; } return m; }
static mv* pv_str(uint32_t n) { mv* m = pv_new(K_STR); uint32_t i; m->n = n; for (i = 0; i < n; i++) { uint8_t x = pv_bits ? (uint8_t)pv_pay() : vp_u8(); VP_ASSUME(x != 0); m->it[i] = x; } return m; }
static mv* pv_bv(uint32_t n) { mv* m = pv_new(K_BV); uint32_t i; m->n = n; for (i = 0; i < (n + 7) / 8; i++) m->raw[i] = vp_u8(); return m; }
static mv* pv_vec(uint32_t n) { mv* m = pv_new(K_VEC); m->n = n; return m; }
static mv* pv_set(uint32_t n) { mv* m = pv_new(K_SET); m->n = n; return m; }
static mv* pv_map(uint32_t n) { mv* m = pv_new(K_MAP); m->n = n; return m; }
static int64_t pv_any_item(uint32_t type)
{
	switch (type) {
	case POINTLESS_VECTOR_I8: return (int8_t)vp_u8();
	case POINTLESS_VECTOR_U8: return vp_u8();
	case POINTLESS_VECTOR_I16: return (int16_t)vp_u16();
	case POINTLESS_VECTOR_U16: return vp_u16();
	case POINTLESS_VECTOR_I32: return (int32_t)vp_u32();
	case POINTLESS_VECTOR_U32: case POINTLESS_VECTOR_FLOAT: return vp_u32();
	default: return (int64_t)vp_u64();
	}
}
static mv* pv_prim(uint32_t type, uint32_t n, int outside) { mv* m = pv_new(K_PRIM); uint32_t i; m->type = type; m->n = n; m->outside = outside; for (i = 0; i < n; i++) m->it[i] = pv_any_item(type); return m; }
static const uint32_t pv_prim_types[9] = { POINTLESS_VECTOR_I8, POINTLESS_VECTOR_U8, POINTLESS_VECTOR_I16, POINTLESS_VECTOR_U16, POINTLESS_VECTOR_I32, POINTLESS_VECTOR_U32, POINTLESS_VECTOR_I64, POINTLESS_VECTOR_U64, POINTLESS_VECTOR_FLOAT };

// a scalar whose kind and payload the solver chooses
static mv* pv_any_number(void)
{
	switch (vp_choice(3)) { case 0: return pv_i32(pv_spay()); case 1: return pv_u32(pv_pay()); default: return pv_flt(pv_fpay()); }
}
static mv* pv_any_leaf(uint32_t maxlen)
{
	switch (vp_choice(8)) {
	case 0: return pv_null();
	case 1: return pv_bool(vp_bool());
	case 2: return pv_i32(pv_spay());
	case 3: return pv_u32(pv_pay());
	case 4: return pv_flt(pv_fpay());
	case 5: return pv_ucs(vp_choice(maxlen + 1));
	case 6: return pv_str(vp_choice(maxlen + 1));
	default: return pv_bv(vp_choice(maxlen + 1));
	}
}

#define PV_FAIL POINTLESS_CREATE_VALUE_FAIL
// returns the handle, or PV_FAIL
static uint32_t pv_make(pointless_create_t* c, mv* m)
{
	uint32_t h = PV_FAIL, i, k, v;
	switch (m->k) {
	case K_NULL: h = pointless_create_null(c); break;
	case K_BOOL: h = pointless_create_boolean(c, (int32_t)m->u); break;
	case K_I32: h = pointless_create_i32(c, (int32_t)m->u); break;
	case K_U32: h = pointless_create_u32(c, m->u); break;
	case K_FLT: h = pointless_create_float(c, pv_f(m->u)); break;
	case K_UCS: { uint32_t s[PV_N + 1]; for (i = 0; i < m->n; i++) s[i] = (uint32_t)m->it[i]; s[m->n] = 0; h = pointless_create_unicode_ucs4(c, s); } break;
	case K_STR: { uint8_t s[PV_N + 1]; for (i = 0; i < m->n; i++) s[i] = (uint8_t)m->it[i]; s[m->n] = 0; h = pointless_create_string_ascii(c, s); } break;
	case K_BV: h = pointless_create_bitvector(c, m->raw, m->n); break;
	case K_VEC:
		h = pointless_create_vector_value(c);
		if (h == PV_FAIL) break;
		for (i = 0; i < m->n; i++) { v = pv_make(c, m->c[i]); if (v == PV_FAIL || pointless_create_vector_value_append(c, h, v) == PV_FAIL) { h = PV_FAIL; break; } }
		break;
	case K_SET:
		h = pointless_create_set(c);
		if (h == PV_FAIL) break;
		for (i = 0; i < m->n; i++) { k = pv_make(c, m->c[i]); if (k == PV_FAIL || pointless_create_set_add(c, h, k) == PV_FAIL) { h = PV_FAIL; break; } }
		break;
	case K_MAP:
		h = pointless_create_map(c);
		if (h == PV_FAIL) break;
		for (i = 0; i < m->n; i++) { k = pv_make(c, m->c[i]); v = k == PV_FAIL ? PV_FAIL : pv_make(c, m->d[i]); if (v == PV_FAIL || pointless_create_map_add(c, h, k, v) == PV_FAIL) { h = PV_FAIL; break; } }
		break;
	case K_PRIM:
#define PV_P(T, t, ct) case T: if (m->outside) { for (i = 0; i < m->n; i++) ((ct*)m->store)[i] = (ct)m->it[i]; h = pointless_create_vector_##t##_owner(c, (ct*)m->store, m->n); } \
		else { h = pointless_create_vector_##t(c); for (i = 0; h != PV_FAIL && i < m->n; i++) if (pointless_create_vector_##t##_append(c, h, (ct)m->it[i]) == PV_FAIL) h = PV_FAIL; } break;
		switch (m->type) {
		PV_P(POINTLESS_VECTOR_I8, i8, int8_t) PV_P(POINTLESS_VECTOR_U8, u8, uint8_t) PV_P(POINTLESS_VECTOR_I16, i16, int16_t) PV_P(POINTLESS_VECTOR_U16, u16, uint16_t)
		PV_P(POINTLESS_VECTOR_I32, i32, int32_t) PV_P(POINTLESS_VECTOR_U32, u32, uint32_t) PV_P(POINTLESS_VECTOR_I64, i64, int64_t) PV_P(POINTLESS_VECTOR_U64, u64, uint64_t)
		case POINTLESS_VECTOR_FLOAT:
			if (m->outside) { for (i = 0; i < m->n; i++) ((uint32_t*)m->store)[i] = (uint32_t)m->it[i]; h = pointless_create_vector_float_owner(c, (float*)m->store, m->n); }
			else { h = pointless_create_vector_float(c); for (i = 0; h != PV_FAIL && i < m->n; i++) if (pointless_create_vector_float_append(c, h, pv_f((uint32_t)m->it[i])) == PV_FAIL) h = PV_FAIL; }
			break;
		}
		break;
	}
	m->handle = h;
	return h;
}

static int pv_is_bv(uint32_t t) { return t == POINTLESS_BITVECTOR || t == POINTLESS_BITVECTOR_0 || t == POINTLESS_BITVECTOR_1 || t == POINTLESS_BITVECTOR_01 || t == POINTLESS_BITVECTOR_10 || t == POINTLESS_BITVECTOR_PACKED; }
static int pv_is_num(int k) { return k == K_BOOL || k == K_I32 || k == K_U32 || k == K_FLT; }
static double pv_num(const mv* m) { return m->k == K_FLT ? (double)pv_f(m->u) : m->k == K_I32 ? (double)(int32_t)m->u : (double)m->u; }
static int64_t pv_int(const mv* m) { return m->k == K_I32 ? (int64_t)(int32_t)m->u : (int64_t)m->u; }

static int pv_eq_read(pointless_t* p, pointless_value_t* v, mv* m);
// one element of a stored vector, whatever storage the library chose for it
static int pv_eq_complete(pointless_t* p, pointless_complete_value_t* cv, mv* m)
{
	if (cv->type == POINTLESS_I64 || cv->type == POINTLESS_U64)
		return 0;
	pointless_value_t v = pointless_value_from_complete(cv);
	return pv_eq_read(p, &v, m);
}
// Integers are the same value whichever of the two 32-bit kinds stores them; everything else
// must keep its kind; floats must keep their bits.
static int pv_eq_read(pointless_t* p, pointless_value_t* v, mv* m)
{
	uint32_t i, j, ok = 1;
	switch (m->k) {
	case K_NULL: return v->type == POINTLESS_NULL;
	case K_BOOL: return v->type == POINTLESS_BOOLEAN && pointless_value_get_bool(v->type, &v->data) == m->u;
	case K_I32: case K_U32: return (v->type == POINTLESS_I32 && (int64_t)pointless_value_get_i32(v->type, &v->data) == pv_int(m)) || (v->type == POINTLESS_U32 && (int64_t)pointless_value_get_u32(v->type, &v->data) == pv_int(m));
	case K_FLT: return v->type == POINTLESS_FLOAT && pv_fb(pointless_value_get_float(v->type, &v->data)) == m->u;
	case K_UCS: {
		if (v->type != POINTLESS_UNICODE_ || pointless_reader_unicode_len(p, v) != m->n) return 0;
		uint32_t* s = pointless_reader_unicode_value_ucs4(p, v);
		for (i = 0; i < m->n; i++) ok &= s[i] == (uint32_t)m->it[i];
		return ok & (s[m->n] == 0); }
	case K_STR: {
		if (v->type != POINTLESS_STRING_ || pointless_reader_string_len(p, v) != m->n) return 0;
		uint8_t* s = pointless_reader_string_value_ascii(p, v);
		for (i = 0; i < m->n; i++) ok &= s[i] == (uint8_t)m->it[i];
		return ok & (s[m->n] == 0); }
	case K_BV:
		if (!pv_is_bv(v->type) || pointless_reader_bitvector_n_bits(p, v) != m->n) return 0;
		for (i = 0; i < m->n; i++) ok &= (pointless_reader_bitvector_is_set(p, v, i) != 0) == ((m->raw[i / 8] >> (i % 8)) & 1);
		return ok;
	case K_VEC:
		if (!pointless_is_vector_type(v->type) || pointless_reader_vector_n_items(p, v) != m->n) return 0;
		for (i = 0; i < m->n; i++) { pointless_complete_value_t cv = pointless_reader_vector_value_case(p, v, i); if (!pv_eq_complete(p, &cv, m->c[i])) return 0; }
		return 1;
	case K_PRIM:
		if (!pointless_is_vector_type(v->type) || pointless_reader_vector_n_items(p, v) != m->n) return 0;
		if (v->type != m->type && !(m->n == 0 && v->type == POINTLESS_VECTOR_EMPTY)) return 0;
		for (i = 0; i < m->n; i++) {
			switch (m->type) {
			case POINTLESS_VECTOR_I8: ok &= pointless_reader_vector_i8(p, v)[i] == (int8_t)m->it[i]; break;
			case POINTLESS_VECTOR_U8: ok &= pointless_reader_vector_u8(p, v)[i] == (uint8_t)m->it[i]; break;
			case POINTLESS_VECTOR_I16: ok &= pointless_reader_vector_i16(p, v)[i] == (int16_t)m->it[i]; break;
			case POINTLESS_VECTOR_U16: ok &= pointless_reader_vector_u16(p, v)[i] == (uint16_t)m->it[i]; break;
			case POINTLESS_VECTOR_I32: ok &= pointless_reader_vector_i32(p, v)[i] == (int32_t)m->it[i]; break;
			case POINTLESS_VECTOR_U32: ok &= pointless_reader_vector_u32(p, v)[i] == (uint32_t)m->it[i]; break;
			case POINTLESS_VECTOR_I64: ok &= pointless_reader_vector_i64(p, v)[i] == m->it[i]; break;
			case POINTLESS_VECTOR_U64: ok &= pointless_reader_vector_u64(p, v)[i] == (uint64_t)m->it[i]; break;
			case POINTLESS_VECTOR_FLOAT: ok &= ((uint32_t*)pointless_reader_vector_float(p, v))[i] == (uint32_t)m->it[i]; break;
			}
			// the generic accessor must deliver the same element
			pointless_complete_value_t cv = pointless_reader_vector_value_case(p, v, i);
			if (m->type == POINTLESS_VECTOR_FLOAT) ok &= cv.type == POINTLESS_FLOAT && pv_fb(pointless_complete_value_get_float(cv.type, &cv.complete_data)) == (uint32_t)m->it[i];
			else if (m->type == POINTLESS_VECTOR_U64) ok &= cv.type == POINTLESS_U64 && pointless_complete_value_get_as_u64(cv.type, &cv.complete_data) == (uint64_t)m->it[i];
			else ok &= (cv.type == POINTLESS_U32 ? (int64_t)cv.complete_data.data_u32 : cv.type == POINTLESS_I32 ? (int64_t)cv.complete_data.data_i32 : cv.type == POINTLESS_I64 ? cv.complete_data.data_i64 : ~m->it[i]) == m->it[i];
		}
		return ok;
	case K_SET: {
		pointless_value_t* kk; uint32_t it = 0, cnt = 0;
		if (v->type != POINTLESS_SET_VALUE || pointless_reader_set_n_items(p, v) != m->n) return 0;
		while (pointless_reader_set_iter(p, v, &kk, &it)) {
			for (j = 0; j < m->n; j++) if (pv_eq_read(p, kk, m->c[j])) break;
			if (j == m->n) return 0;
			cnt++;
		}
		return cnt == m->n; }
	case K_MAP: {
		pointless_value_t *kk, *vv; uint32_t it = 0, cnt = 0;
		if (v->type != POINTLESS_MAP_VALUE_VALUE || pointless_reader_map_n_items(p, v) != m->n) return 0;
		while (pointless_reader_map_iter(p, v, &kk, &vv, &it)) {
			for (j = 0; j < m->n; j++) if (pv_eq_read(p, kk, m->c[j]) && pv_eq_read(p, vv, m->d[j])) break;
			if (j == m->n) return 0;
			cnt++;
		}
		return cnt == m->n; }
	}
	return 0;
}

// equality the library defines for hashable values: numbers by value, text by code units,
// bit vectors and vectors element-wise
static int pv_has_nan(const mv* m) { uint32_t i; if (m->k == K_FLT) return isnan(pv_f(m->u)); if (m->k == K_VEC) for (i = 0; i < m->n; i++) if (pv_has_nan(m->c[i])) return 1; if (m->k == K_PRIM && m->type == POINTLESS_VECTOR_FLOAT) for (i = 0; i < m->n; i++) if (isnan(pv_f((uint32_t)m->it[i]))) return 1; return 0; }
static int pv_same(const mv* a, const mv* b)
{
	uint32_t i, ok = 1;
	if (pv_is_num(a->k) && pv_is_num(b->k)) return a->k != K_FLT && b->k != K_FLT ? pv_int(a) == pv_int(b) : pv_num(a) == pv_num(b);
	if ((a->k == K_UCS || a->k == K_STR) && (b->k == K_UCS || b->k == K_STR)) { if (a->n != b->n) return 0; for (i = 0; i < a->n; i++) ok &= a->it[i] == b->it[i]; return ok; }
	if (a->k != b->k) return 0;
	switch (a->k) {
	case K_NULL: return 1;
	case K_BV: if (a->n != b->n) return 0; for (i = 0; i < a->n; i++) ok &= ((a->raw[i / 8] ^ b->raw[i / 8]) >> (i % 8) & 1) == 0; return ok;
	case K_VEC: if (a->n != b->n) return 0; for (i = 0; i < a->n; i++) ok &= pv_same(a->c[i], b->c[i]); return ok;
	}
	return 0;
}
#include <pointless/pointless_recreate.h>
// the same kinds of values in the same places (sets and maps not entered: their order is free)
static int pv_twin(pointless_t* p, pointless_value_t* v, pointless_t* q, pointless_value_t* w)
{
	uint32_t i, ok = v->type == w->type;
	if (ok && (v->type == POINTLESS_VECTOR_VALUE || v->type == POINTLESS_VECTOR_VALUE_HASHABLE))
		for (i = 0; ok && i < pointless_reader_vector_n_items(p, v); i++) ok = pv_twin(p, pointless_reader_vector_value(p, v) + i, q, pointless_reader_vector_value(q, w) + i);
	return (int)ok;
}
// copies the value into a document of its own, which replaces *p
static int pv_copy(pointless_t* p, void** buf, pointless_value_t* v, int acyclic)
{
	pointless_create_t c; pointless_t q; void* b2 = 0; size_t len = 0; const char* error = 0;
	pointless_create_begin_64(&c);
	uint32_t h = pointless_recreate_value(p, v, &c, &error);
	VP_CHECK(h != PV_FAIL && error == 0, "a stored value can be recreated");
	if (h == PV_FAIL) return 0;
	pointless_create_set_root(&c, h);
	int ok = pointless_create_output_and_end_b(&c, &b2, &len, &error);
	VP_CHECK(ok, "a recreated value can be serialized"); if (!ok) return 0;
	ok = pointless_open_b(&q, b2, len, &error);
	VP_CHECK(ok, "the copy is accepted when opened"); if (!ok) return 0;
	if (acyclic) VP_CHECK(pv_twin(p, v, &q, pointless_root(&q)), "the copy has the same kinds of values");
	pointless_close(p); free(*buf); *p = q; *buf = b2;
	VP_REACH("copied");
	return 1;
}
static void pv_begin(pointless_create_t* c) { pointless_create_begin_64(c); }
#endif
