// The lookup helpers against plain lookup and a list of the entries written.
// arg 0: 0 integer keys, 1 text keys, 2 typed values, 3 key sets   1: keys  2: key kinds (2: text length)  3: payload bits
#include "pv.h"
#include <pointless/pointless_reader_helpers.h>
static pointless_t p; static void* buf;
static int stored(mv* root)
{
	pointless_create_t c; size_t len = 0; const char* error = 0;
	pv_begin(&c); uint32_t h = pv_make(&c, root);
	VP_CHECK(h != PV_FAIL, "values can be created"); if (h == PV_FAIL) return 0;
	pointless_create_set_root(&c, h);
	if (!pointless_create_output_and_end_b(&c, &buf, &len, &error)) return 0; // equal keys
	int ok = pointless_open_b(&p, buf, len, &error);
	VP_CHECK(ok, "a document written is accepted");
	return ok;
}
static pointless_value_t* item(uint32_t i) { return pointless_reader_vector_value(&p, pointless_root(&p)) + i; }
static int identical(const pointless_value_t* a, const pointless_value_t* b) { return a->type == b->type && a->data.data_u32 == b->data.data_u32; }
static mv* key(uint32_t kinds, uint32_t len)
{
	switch (kinds) {
	case 0: return vp_choice(2) ? pv_i32(pv_spay()) : pv_u32(pv_pay());
	case 1: return pv_any_leaf(len);
	case 2: return vp_choice(2) ? pv_ucs(vp_choice(len + 1)) : pv_str(vp_choice(len + 1));
	case 3: { mv* m = pv_vec(vp_choice(2)); if (m->n) m->c[0] = vp_choice(2) ? pv_i32(pv_spay()) : pv_null(); return m; }
	case 4: { mv* m = pv_vec(1), *e = pv_vec(1); m->c[0] = e; e->c[0] = vp_choice(2) ? pv_u32(pv_pay()) : pv_str(vp_choice(len + 1)); return m; }
	default: switch (vp_choice(4)) { case 0: return pv_u32(pv_pay()); case 1: return pv_str(vp_choice(len + 1)); case 2: return pv_bool(vp_bool()); default: { mv* m = pv_vec(1); m->c[0] = pv_u32(pv_pay()); return m; } }
	}
}
static int is_int(const mv* m) { return m->k == K_I32 || m->k == K_U32; }
static void ints(void)
{
	uint32_t n = vp_arg(1), i; mv *map = pv_map(n), *set = pv_set(n), *root = pv_vec(2);
	for (i = 0; i < n; i++) { map->c[i] = set->c[i] = key(vp_arg(2), 1); map->d[i] = pv_u32(0x55550000 + i); VP_ASSUME(!pv_has_nan(map->c[i])); }
	root->c[0] = map; root->c[1] = set;
	if (!stored(root)) return;
	int64_t q = (int64_t)vp_u64(); int hit = -1; pointless_value_t v = { 0 };
	for (i = 0; i < n; i++) if (is_int(map->c[i]) && pv_int(map->c[i]) == q) hit = (int)i;
	int r = pointless_get_mapping_int_to_value(&p, item(0), q, &v);
	VP_CHECK((r != 0) == (hit >= 0), "an integer key is found in a map exactly if it is there");
	if (r && hit >= 0) { VP_CHECK(pv_eq_read(&p, &v, map->d[hit]), "the value stored under the integer key is delivered"); VP_REACH("integer found"); } else VP_REACH("integer absent");
	VP_CHECK((pointless_is_int_in_map(&p, item(0), q) != 0) == (hit >= 0), "an integer is in a map exactly if it is there");
	VP_CHECK((pointless_is_int_in_set(&p, item(1), q) != 0) == (hit >= 0), "an integer is in a set exactly if it is there");
}
static uint8_t q8[4]; static uint32_t q32[4]; static uint32_t qn;
static int hit8(mv* m) { uint32_t i, ok = m->n == qn; if (m->k != K_UCS && m->k != K_STR) return 0; for (i = 0; ok && i < qn; i++) ok &= m->it[i] == q8[i]; return ok; }
static int hit32(mv* m) { uint32_t i, ok = m->n == qn; if (m->k != K_UCS && m->k != K_STR) return 0; for (i = 0; ok && i < qn; i++) ok &= m->it[i] == q32[i]; return ok; }
static void query(uint32_t len, int zero)
{
	uint32_t i; qn = vp_choice(len + 1);
	for (i = 0; i < qn; i++) { q32[i] = pv_pay(); if (!zero) VP_ASSUME(q32[i] != 0); q8[i] = (uint8_t)q32[i]; if (!zero) VP_ASSUME(q8[i] != 0); }
	q32[qn] = 0; q8[qn] = 0;
}
static void texts(void)
{
	uint32_t n = vp_arg(1), i, k; mv *map = pv_map(n), *root = pv_vec(1); int a = -1, b = -1;
	for (i = 0; i < n; i++) { map->c[i] = key(2, vp_arg(2)); map->d[i] = pv_u32(0x55550000 + i); }
	root->c[0] = map;
	if (!stored(root)) return;
	int w = (int)vp_choice(3); query(vp_arg(2) + 1, w == 2);
	for (i = 0; i < n; i++) { if (hit8(map->c[i])) a = (int)i; if (hit32(map->c[i])) b = (int)i; }
	pointless_value_t v = { 0 }; uint32_t u = 0; int64_t s = 0;
	if (w == 0) {
		k = pointless_get_mapping_string_to_value(&p, item(0), (char*)q8, &v);
		VP_CHECK((k != 0) == (a >= 0) && (!k || pv_eq_read(&p, &v, map->d[a])), "a string key is found exactly if it is there");
		k = pointless_get_mapping_string_to_u32(&p, item(0), (char*)q8, &u);
		VP_CHECK((k != 0) == (a >= 0) && (!k || u == map->d[a]->u), "a string key is found with its 32-bit value exactly if it is there");
		k = pointless_get_mapping_string_to_i64(&p, item(0), (char*)q8, &s);
		VP_CHECK((k != 0) == (a >= 0) && (!k || s == (int64_t)map->d[a]->u), "a string key is found with its 64-bit value exactly if it is there");
		if (k) VP_REACH("string found"); else VP_REACH("string absent");
	} else if (w == 1) {
		k = pointless_get_mapping_unicode_to_value(&p, item(0), q32, &v);
		VP_CHECK((k != 0) == (b >= 0) && (!k || pv_eq_read(&p, &v, map->d[b])), "a wide string key is found exactly if it is there");
		k = pointless_get_mapping_unicode_to_u32(&p, item(0), q32, &u);
		VP_CHECK((k != 0) == (b >= 0) && (!k || u == map->d[b]->u), "a wide string key is found with its value exactly if it is there");
		if (k) VP_REACH("wide string found");
	} else {
		uint8_t* exact = malloc(qn ? qn : 1); memcpy(exact, q8, qn); // no terminator behind it
		k = pointless_get_mapping_string_n_to_value(&p, item(0), (char*)exact, qn, &v);
		VP_CHECK((k != 0) == (a >= 0) && (!k || pv_eq_read(&p, &v, map->d[a])), "a string key of given length is found exactly if it is there");
		if (k) VP_REACH("string of given length found");
		free(exact);
	}
}
static void typed(void)
{
	mv *map = pv_map(1), *root = pv_vec(2), *x; uint32_t t = vp_choice(17), i, n = 77, u = 77; void* a = (void*)77; int64_t s = 77; int r; pointless_value_t o = { 0 }, *it = 0;
	switch (t) {
	case 0: x = pv_null(); break; case 1: x = pv_bool(vp_bool()); break; case 2: x = pv_i32(pv_spay()); break; case 3: x = pv_u32(pv_pay()); break;
	case 4: x = pv_flt(1.5f); break; case 5: x = pv_str(1); break; case 6: x = pv_set(1); x->c[0] = pv_null(); break; case 7: x = pv_map(0); break;
	default: if (t < 17 - 1) { x = vp_choice(2) ? pv_prim(pv_prim_types[t - 8], vp_choice(3), 0) : pv_prim(POINTLESS_VECTOR_FLOAT, 1, 0); }
		else { x = pv_vec(vp_choice(3)); for (i = 0; i < x->n; i++) x->c[i] = i ? pv_i32(pv_spay()) : vp_choice(2) ? pv_null() : pv_i32(pv_spay()); }
	}
	map->c[0] = pv_str(0); map->c[0]->n = 1; map->c[0]->it[0] = 'k'; map->d[0] = x; root->c[0] = map; root->c[1] = x;
	if (!stored(root)) { VP_CHECK(0, "the document is written"); return; }
	pointless_value_t *kk, *v = 0; uint32_t st = 0;
	VP_CHECK(pointless_reader_map_iter(&p, item(0), &kk, &v, &st), "one entry"); if (!v) return;
	int vec = pointless_is_vector_type(v->type), empty = v->type == POINTLESS_VECTOR_EMPTY, prim = vec && v->type != POINTLESS_VECTOR_VALUE && v->type != POINTLESS_VECTOR_VALUE_HASHABLE;
	int isint = v->type == POINTLESS_I32 || v->type == POINTLESS_U32; int64_t value = v->type == POINTLESS_I32 ? (int64_t)v->data.data_i32 : (int64_t)v->data.data_u32;
	char* key = vp_choice(2) ? "k" : "q"; int there = key[0] == 'k';
	r = pointless_get_mapping_string_to_u32(&p, item(0), key, &u); VP_CHECK((r != 0) == (there && isint && value >= 0) && (!r || (int64_t)u == value), "a 32-bit value is delivered exactly if it fits");
	if (r) VP_REACH("integer value"); else VP_CHECK(u == 77, "nothing is delivered on failure");
	r = pointless_get_mapping_string_to_i64(&p, item(0), key, &s); VP_CHECK((r != 0) == (there && isint) && (!r || s == value), "a 64-bit value is delivered exactly if it is an integer");
	r = pointless_get_mapping_string_to_set(&p, item(0), key, &o); VP_CHECK((r != 0) == (there && v->type == POINTLESS_SET_VALUE) && (!r || identical(&o, v)), "a set is delivered exactly if it is one"); if (r) VP_REACH("set value");
	r = pointless_get_mapping_string_to_map(&p, item(0), key, &o); VP_CHECK((r != 0) == (there && v->type == POINTLESS_MAP_VALUE_VALUE) && (!r || identical(&o, v)), "a map is delivered exactly if it is one"); if (r) VP_REACH("map value");
	r = pointless_get_mapping_string_to_vector(&p, item(0), key, &o, &n); VP_CHECK((r != 0) == (there && prim) && (!r || (identical(&o, v) && n == pointless_reader_vector_n_items(&p, v))), "a native vector is delivered exactly if it is one"); if (r) VP_REACH("vector value");
#define VEC(T, sfx, ct) n = 77; r = pointless_get_mapping_string_to_vector_##sfx(&p, item(0), key, (ct**)&a, &n); \
	VP_CHECK((r != 0) == (there && (empty || v->type == T)), "a vector of an item type is delivered exactly if it has that type"); \
	if (r) { VP_CHECK(n == pointless_reader_vector_n_items(&p, v) && (empty || a == (void*)pointless_reader_vector_##sfx(&p, v)), "the items of the vector are delivered"); VP_REACH("typed vector value"); }
	VEC(POINTLESS_VECTOR_I8, i8, int8_t) VEC(POINTLESS_VECTOR_U8, u8, uint8_t) VEC(POINTLESS_VECTOR_I16, i16, int16_t) VEC(POINTLESS_VECTOR_U16, u16, uint16_t) VEC(POINTLESS_VECTOR_I32, i32, int32_t)
	VEC(POINTLESS_VECTOR_U32, u32, uint32_t) VEC(POINTLESS_VECTOR_I64, i64, int64_t) VEC(POINTLESS_VECTOR_U64, u64, uint64_t) VEC(POINTLESS_VECTOR_FLOAT, float, float)
	n = 77; r = pointless_get_mapping_string_to_vector_value(&p, item(0), key, &it, &n);
	VP_CHECK((r != 0) == (there && vec && (empty || !prim)), "a value vector is delivered exactly if it is one");
	if (r) { VP_CHECK(n == pointless_reader_vector_n_items(&p, v) && (empty || it == pointless_reader_vector_value(&p, v)), "the items of the value vector are delivered"); VP_REACH("value vector value"); }
}
static int in(mv* m, mv* k) { uint32_t i, r = 0; for (i = 0; i < m->n; i++) r |= (uint32_t)pv_same(m->c[i], k); return (int)r; }
static void same_keys(void)
{
	uint32_t n = vp_arg(1), i; mv *c[3], *root = pv_vec(4), *cand; uint32_t na = n, nb = vp_choice(2) ? n : n - 1; int eq = na == nb;
	c[0] = pv_set(na); c[1] = pv_map(na); c[2] = pv_map(nb);
	for (i = 0; i < na; i++) { c[0]->c[i] = c[1]->c[na - 1 - i] = key(vp_arg(2), 1); VP_ASSUME(!pv_has_nan(c[0]->c[i])); c[1]->d[na - 1 - i] = pv_null(); }
	for (i = 0; i < nb; i++) { c[2]->c[i] = key(vp_arg(2), 1); VP_ASSUME(!pv_has_nan(c[2]->c[i])); c[2]->d[i] = pv_null(); }
	cand = nb ? c[2]->c[0] : c[0]->c[0];
	for (i = 0; i < 3; i++) root->c[i] = c[i];
	root->c[3] = cand;
	if (!stored(root)) { VP_REACH("equal keys"); return; }
	for (i = 0; i < nb; i++) eq &= in(c[0], c[2]->c[i]);
	VP_CHECK(pointless_has_same_keys_set_map(&p, item(0), item(1)), "a set and a map with the same keys have the same keys");
	VP_CHECK((pointless_has_same_keys_set_map(&p, item(0), item(2)) != 0) == eq, "set and map key sets are compared exactly");
	VP_CHECK((pointless_has_same_keys_map_map(&p, item(1), item(2)) != 0) == eq, "map key sets are compared exactly");
	if (eq) VP_REACH("same keys"); else VP_REACH("different keys");
	VP_CHECK((pointless_is_in_set_acyclic(&p, item(0), item(3)) != 0) == in(c[0], cand), "a key is in a set exactly if it is there");
	VP_CHECK((pointless_is_in_map_acyclic(&p, item(1), item(3)) != 0) == in(c[1], cand), "a key is in a map exactly if it is there");
}
int main()
{
	pv_bits = vp_arg(3);
	switch (vp_arg(0)) { case 0: ints(); break; case 1: texts(); break; case 2: typed(); break; default: same_keys(); }
	return 0;
}
