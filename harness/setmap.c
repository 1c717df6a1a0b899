// Sets and maps: written keys are found, others are not, iteration yields each entry once,
// duplicate keys are refused.   0: set  1: map
#include "pv.h"
static uint32_t eq_user(pointless_t* p, pointless_complete_value_t* v, void* user, const char** error)
{ (void)error; return (uint32_t)(pv_eq_complete(p, v, (mv*)user) != 0); }
// kinds: 0 numbers, 1 text, 2 any leaf, 3 vectors, 4 bit vectors and booleans, 5 u32, 6 i32, 7 str, 8 ints and special floats
static mv* key(uint32_t kinds, uint32_t len)
{
	switch (kinds) {
	case 8: return vp_choice(4) ? pv_any_number() : pv_bool(vp_bool());
	case 0: return pv_any_number();
	case 1: return vp_choice(2) ? pv_ucs(vp_choice(len + 1)) : pv_str(vp_choice(len + 1));
	case 2: return pv_any_leaf(len);
	case 3: { mv* m = pv_vec(vp_choice(len + 1)); uint32_t i; for (i = 0; i < m->n; i++) m->c[i] = vp_choice(2) ? pv_any_number() : pv_null(); return m; }
	case 5: return pv_u32(pv_pay());
	case 6: return pv_i32(pv_spay());
	case 7: return pv_str(len);
	default: return vp_choice(2) ? pv_bv(vp_choice(len + 1)) : pv_bool(vp_bool());
	}
}
int main()
{
	pointless_create_t c; pointless_t p; void* buf = 0; size_t len = 0; const char* error = 0;
	uint32_t is_map = vp_arg(0), n = vp_arg(1), kinds = vp_arg(2), klen = vp_arg(3), ncand = vp_arg(5), nfix = vp_arg(6), i, j;
	pv_bits = vp_arg(4);
	mv* m = is_map ? pv_map(n) : pv_set(n);
	for (i = 0; i < n; i++) { m->c[i] = i < nfix ? pv_u32(i * 8 + (i >> 1)) : key(kinds, klen); m->d[i] = pv_u32(0x55550000 + i); VP_ASSUME(!pv_has_nan(m->c[i])); }
	mv* cand = 0; if (ncand) { cand = key(kinds, klen); VP_ASSUME(!pv_has_nan(cand)); }
	mv* root = pv_vec(n + 1 + ncand);
	root->c[0] = m;
	for (i = 0; i < n; i++) root->c[1 + i] = m->c[i];
	if (ncand) root->c[n + 1] = cand;
	int dup = 0;
	for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) dup |= pv_same(m->c[i], m->c[j]);
	pv_begin(&c);
	uint32_t h = pv_make(&c, root);
	VP_CHECK(h != PV_FAIL, "container can be created");
	pointless_create_set_root(&c, h);
	int ok = pointless_create_output_and_end_b(&c, &buf, &len, &error);
	VP_CHECK((ok != 0) == !dup, "serialization refuses exactly the containers with equal keys");
	VP_CHECK((ok != 0) == (error == 0), "an error is reported exactly on failure");
	if (!ok) { VP_REACH("duplicate refused"); VP_CHECK(vp_heap_live() == 0, "no memory left allocated"); return 0; }
	ok = pointless_open_b(&p, buf, len, &error);
	VP_CHECK(ok, "serialized container is accepted when opened");
	if (!ok) return 0;
	if (vp_arg(7) && !pv_copy(&p, &buf, pointless_root(&p), 1)) return 0; // 7: check a copy of the document instead
	pointless_value_t* rv = pointless_root(&p);
	VP_CHECK((rv->type == POINTLESS_VECTOR_VALUE || rv->type == POINTLESS_VECTOR_VALUE_HASHABLE) && pointless_reader_vector_n_items(&p, rv) == n + 1 + ncand, "root vector");
	pointless_value_t* items = pointless_reader_vector_value(&p, rv);
	pointless_value_t *s = items, *kk, *vv; uint32_t it = 0, cnt = 0;
	VP_CHECK(pv_eq_read(&p, s, m), "container read back holds exactly the entries written");
	VP_CHECK((is_map ? pointless_reader_map_n_items(&p, s) : pointless_reader_set_n_items(&p, s)) == n, "number of entries");
	while (is_map ? pointless_reader_map_iter(&p, s, &kk, &vv, &it) : pointless_reader_set_iter(&p, s, &kk, &it)) cnt++;
	VP_CHECK(cnt == n, "iteration yields each entry once");
	for (i = 0; i < n + ncand; i++) {
		mv* q = i < n ? m->c[i] : cand; int want = 0;
		for (j = 0; j < n; j++) want |= pv_same(q, m->c[j]);
		kk = 0; vv = 0; error = 0;
		if (is_map) pointless_reader_map_lookup(&p, s, items + 1 + i, &kk, &vv, &error); else pointless_reader_set_lookup(&p, s, items + 1 + i, &kk, &error);
		VP_CHECK(error == 0, "lookup of a hashable key succeeds");
		VP_CHECK((kk != 0) == want, "lookup finds exactly the written keys");
		if (kk && is_map) for (j = 0; j < n; j++) if (pv_same(q, m->c[j])) VP_CHECK(pv_eq_read(&p, vv, m->d[j]), "lookup delivers the value stored under the key");
		uint32_t hash = pointless_hash_reader_32(&p, items + 1 + i);
		pointless_hash_iter_state_t st; int found = 0; uint32_t steps = 0;
		if (is_map) pointless_reader_map_iter_hash_init(&p, s, hash, &st); else pointless_reader_set_iter_hash_init(&p, s, hash, &st);
		while (is_map ? pointless_reader_map_iter_hash(&p, s, hash, &kk, &vv, &st) : pointless_reader_set_iter_hash(&p, s, hash, &kk, &st)) { if (i < n) found |= pv_eq_read(&p, kk, q); else found = want; steps++; VP_CHECK(steps < 1000, "iteration by hash ends"); }
		VP_CHECK(found == want || i == n, "iteration by hash visits the key");
		if (i < n) {
			kk = 0; error = 0;
			if (is_map) pointless_reader_map_lookup_ext(&p, s, hash, eq_user, q, &kk, &vv, &error); else pointless_reader_set_lookup_ext(&p, s, hash, eq_user, q, &kk, &error);
			VP_CHECK(error == 0 && kk != 0, "lookup by caller-defined equality finds the key");
		}
		if (i == n && want) VP_REACH("candidate present");
		if (i == n && !want) VP_REACH("candidate absent");
	}
	pointless_close(&p); free(buf);
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
	return 0;
}
