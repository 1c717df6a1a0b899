// Python keys against stored sets and maps, comparison and hashing of Python objects and stored values.
// 0: 0 set, 1 map, 2 comparison of two values, 3 keys which cannot be in a set
#include "pypv.h"
// kinds: 0 numbers, 1 text, 2 any leaf, 3 vectors, 4 bit vectors and booleans, 5 u32, 6 vectors of vectors, 7, 10 vectors and primvectors (10: of all nine types), 9 leaves and vectors
static mv* key(uint32_t kinds, uint32_t len)
{
	switch (kinds) {
	case 0: return vp_choice(4) ? pv_any_number() : pv_bool(vp_bool());
	case 1: return vp_choice(2) ? pv_ucs(vp_choice(len + 1)) : pv_str(vp_choice(len + 1));
	case 2: return pv_any_leaf(len);
	case 3: { mv* m = pv_vec(vp_choice(len + 1)); uint32_t i; for (i = 0; i < m->n; i++) m->c[i] = vp_choice(2) ? pv_any_number() : pv_null(); return m; }
	case 5: return pv_u32(pv_pay());
	case 6: { mv* m = pv_vec(vp_choice(2) + 1); uint32_t i; for (i = 0; i < m->n; i++) m->c[i] = key(3, len); return m; }
	case 7: case 10: { uint32_t t = pv_prim_types[kinds == 10 ? vp_choice(9) : 4 + vp_choice(5)]; if (vp_choice(2)) return key(3, len); mv* m = pv_prim(t, vp_choice(len + 1), 0); if (pv_bits) for (uint32_t i = 0; i < m->n; i++) m->it[i] = t == POINTLESS_VECTOR_FLOAT ? (int64_t)pv_fb(pv_fpay()) : t == POINTLESS_VECTOR_U64 ? (int64_t)((uint64_t)pv_pay() << 61 * vp_choice(2)) : t == POINTLESS_VECTOR_I64 ? (int64_t)((uint64_t)(int64_t)pv_spay() << 61 * vp_choice(2)) : t == POINTLESS_VECTOR_I8 || t == POINTLESS_VECTOR_I16 || t == POINTLESS_VECTOR_I32 ? (int64_t)pv_spay() : (int64_t)pv_pay(); return m; }
	case 11: { uint32_t t = pv_prim_types[vp_choice(6)]; uint32_t n = vp_choice(len + 1); return pv_prim(t, n, 0); }
	case 9: return vp_choice(2) ? key(2, len) : key(3, len);
	default: return vp_choice(2) ? pv_bv(vp_choice(len + 1)) : pv_bool(vp_bool());
	}
}
// numbers exactly: sign and magnitude, or a float
typedef struct { int f, neg; uint64_t mag; float x; } num;
static num num_of(const mv* m, uint32_t i)
{
	num r; r.f = m->k == K_FLT || (m->k == K_PRIM && m->type == POINTLESS_VECTOR_FLOAT); r.neg = 0; r.mag = 0; r.x = 0;
	if (r.f) { r.x = pv_f(m->k == K_FLT ? m->u : (uint32_t)m->it[i]); return r; }
	int64_t v = m->k == K_PRIM ? m->it[i] : pv_int(m);
	r.neg = v < 0 && !(m->k == K_PRIM && m->type == POINTLESS_VECTOR_U64); r.mag = r.neg ? 0 - (uint64_t)v : (uint64_t)v;
	return r;
}
static int num_same(num a, num b)
{
	if (a.f && b.f) return a.x == b.x;
	if (!a.f && !b.f) return a.neg == b.neg && a.mag == b.mag;
	if (b.f) { num t = a; a = b; b = t; }
	float x = a.x < 0 ? -a.x : a.x;
	return (a.x < 0) == b.neg && x < 18446744073709551616.0f && (uint64_t)x == b.mag && (float)(uint64_t)x == x;
}
static int same(const mv* a, const mv* b)
{
	uint32_t i; int ok = 1;
	if ((a->k != K_VEC && a->k != K_PRIM) || (b->k != K_VEC && b->k != K_PRIM) || a->n != b->n) return pv_same(a, b);
	for (i = 0; i < a->n; i++)
		if (a->k == K_VEC && b->k == K_VEC) ok &= same(a->c[i], b->c[i]);
		else if ((a->k == K_VEC && !pv_is_num(a->c[i]->k)) || (b->k == K_VEC && !pv_is_num(b->c[i]->k))) return 0;
		else ok &= num_same(num_of(a->k == K_VEC ? a->c[i] : a, i), num_of(b->k == K_VEC ? b->c[i] : b, i));
	return ok;
}
// not together: 64-bit items beyond 32 bits hash unlike the equal floats (the recorded finding of C05)
static int wide(const mv* m) { uint32_t i; int w = 0; if (m->k == K_PRIM) for (i = 0; i < m->n; i++) w |= m->type == POINTLESS_VECTOR_I64 || m->type == POINTLESS_VECTOR_U64; return w; }
static int floaty(const mv* m) { uint32_t i; int w = m->k == K_FLT || (m->k == K_PRIM && m->type == POINTLESS_VECTOR_FLOAT); if (m->k == K_VEC) for (i = 0; i < m->n; i++) w |= floaty(m->c[i]); return w; }
static void known(const mv* a, const mv* b) { if (floaty(b)) VP_ASSUME(!wide(a)); if (floaty(a)) VP_ASSUME(!wide(b)); }
static int cls(const mv* m) { return m->k == K_NULL ? 0 : pv_is_num(m->k) ? 1 : m->k == K_UCS || m->k == K_STR ? 2 : m->k == K_BV ? 3 : 4; }
// whether deciding the order meets values of different kinds
static int mixed(const mv* a, const mv* b)
{
	if (cls(a) != cls(b)) return 1;
	if (a->k == K_VEC && b->k == K_VEC) for (uint32_t i = 0; i < a->n && i < b->n; i++) if (!same(a->c[i], b->c[i])) return mixed(a->c[i], b->c[i]);
	if (a->k == K_PRIM && b->k == K_VEC) return mixed(b, a);
	if (a->k == K_VEC && b->k == K_PRIM) for (uint32_t i = 0; i < a->n && i < b->n; i++) { if (!pv_is_num(a->c[i]->k)) return 1; if (!num_same(num_of(a->c[i], 0), num_of(b, i))) return 0; }
	return 0;
}
static int sign(PyObject* o) { VP_CHECK(o && PyLong_Check(o), "comparison answers a number"); if (!o) return 0; long v = PyLong_AsLong(o); Py_DECREF(o); return (v > 0) - (v < 0); }
PyObject* pointless_cmp(PyObject* self, PyObject* args); PyObject* pointless_is_eq(PyObject* self, PyObject* args); PyObject* pointless_pyobject_hash_32(PyObject* self, PyObject* args);
static PyObject* two(PyObject* a, PyObject* b) { Py_INCREF(a); Py_INCREF(b); return vp_tuple(2, a, b, 0, 0); }
static PyObject* cmp(PyObject* a, PyObject* b) { PyObject* t = two(a, b); PyObject* r = vp_py_checked(pointless_cmp(0, t)); Py_DECREF(t); return r; }
static PyObject* eq(PyObject* a, PyObject* b) { PyObject* t = two(a, b); PyObject* r = vp_py_checked(pointless_is_eq(0, t)); Py_DECREF(t); return r; }
static PyObject* hash(PyObject* a) { Py_INCREF(a); PyObject* t = vp_tuple(1, a, 0, 0, 0); PyObject* r = vp_py_checked(pointless_pyobject_hash_32(0, t)); Py_DECREF(t); return r; }
static PyPointless* store(mv* root)
{
	pointless_create_t c; void* buf = 0; size_t len = 0; const char* error = 0;
	py_text(root); pv_begin(&c); uint32_t h = pv_make(&c, root); pointless_create_set_root(&c, h);
	int ok = pointless_create_output_and_end_b(&c, &buf, &len, &error);
	if (!ok) { VP_REACH("duplicate refused"); return 0; }
	PyPointless* pp = py_open(buf, len); free(buf);
	VP_CHECK(pp != 0, "a serialized document can be opened");
	return pp;
}
static void query(PyObject* s, int is_map, mv* m, PyObject* q, int at)
{
	int r = vp_py_checked_int(Py_TYPE(s)->tp_as_sequence->sq_contains(s, q));
	VP_CHECK(r == (at >= 0), "a Python key is found exactly if an equal key is stored"); vp_exc = 0;
	if (!is_map) return;
	PyObject* c = py_call1(s, "__contains__", q); VP_CHECK(c == (at >= 0 ? Py_True : Py_False), "__contains__ agrees"); vp_exc = 0;
	PyObject* v = vp_py_checked(Py_TYPE(s)->tp_as_mapping->mp_subscript(s, q));
	VP_CHECK(at >= 0 ? py_is(v, m->d[at]) : v == 0 && vp_exc == PyExc_KeyError, "subscription answers the value stored under the key, or raises KeyError"); vp_exc = 0; Py_XDECREF(v);
	v = py_call1(s, "get", q); VP_CHECK(at >= 0 ? py_is(v, m->d[at]) : v == Py_None, "get answers the value stored under the key, or None"); vp_exc = 0; Py_XDECREF(v);
	PyObject* d = vp_other(); PyObject* t = two(q, d); v = vp_py_call(s, "get", t); VP_CHECK(at >= 0 ? py_is(v, m->d[at]) : v == d, "get answers the value stored under the key, or the default"); vp_exc = 0; Py_XDECREF(v); Py_DECREF(t); Py_DECREF(d);
}
static void lookups(uint32_t is_map)
{
	uint32_t n = vp_arg(1), kinds = vp_arg(2), len = vp_arg(3), nfix = vp_arg(5), i, j; int dup = 0;
	mv* m = is_map ? pv_map(n) : pv_set(n);
	for (i = 0; i < n; i++) { m->c[i] = i < nfix ? pv_u32(i * 8 + (i >> 1)) : key(kinds, len); m->d[i] = pv_u32(0x55550000 + i); VP_ASSUME(!pv_has_nan(m->c[i])); }
	mv* cand = key(kinds, len); VP_ASSUME(!pv_has_nan(cand));
	for (i = 0; i < n; i++) known(m->c[i], cand);
	for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) dup |= same(m->c[i], m->c[j]);
	VP_ASSUME(!dup);
	mv* root = pv_vec(n + 2); root->c[0] = m; for (i = 0; i < n; i++) root->c[1 + i] = m->c[i]; root->c[n + 1] = cand;
	PyPointless* pp = store(root); if (!pp) return;
	PyObject* r = py_root(pp);
	PyObject* s = vp_py_checked(Py_TYPE(r)->tp_as_sequence->sq_item(r, 0));
	VP_CHECK(py_is(s, m), "iteration yields the stored entries");
	for (i = 0; i < n + 1; i++) {
		mv* q = root->c[1 + i]; int at = -1;
		for (j = 0; j < n; j++) if (same(q, m->c[j])) at = (int)j;
		PyObject* k = py_of(q);
		query(s, is_map, m, k, at);
		PyObject* view = vp_py_checked(Py_TYPE(r)->tp_as_sequence->sq_item(r, 1 + i));
		VP_CHECK(py_is(view, q), "the stored key is delivered as it was written");
		PyObject* h1 = hash(k); PyObject* h2 = hash(view);
		uint32_t h = pointless_hash_reader_32(&pp->p, pointless_reader_vector_value(&pp->p, pointless_root(&pp->p)) + 1 + i);
		VP_CHECK(vp_is_int(h1, 0, h) && vp_is_int(h2, 0, h), "a Python key hashes as the stored key"); Py_XDECREF(h1); Py_XDECREF(h2); vp_exc = 0;
		if (q->k >= K_BV) query(s, is_map, m, view, at);
		Py_DECREF(view); Py_DECREF(k);
		if (i == n) { if (at >= 0) VP_REACH("candidate present"); else VP_REACH("candidate absent"); }
	}
	if (is_map) {
		PyObject* ki = py_call0(s, "keys"); PyObject* vi = py_call0(s, "values"); PyObject* di = Py_TYPE(s)->tp_iter(s);
		for (i = 0; i < n; i++) {
			PyObject* k = vp_py_next(ki); PyObject* v = vp_py_next(vi); PyObject* k2 = vp_py_next(di);
			for (j = 0; j < n; j++) if (py_is(k, m->c[j])) break;
			VP_CHECK(j < n && py_is(v, m->d[j]) && py_is(k2, m->c[j]), "keys, values and items walk the map in one order");
			Py_XDECREF(k); Py_XDECREF(v); Py_XDECREF(k2);
		}
		VP_CHECK(!vp_py_next(ki) && !vp_py_next(vi) && !vp_py_next(di), "the iterators end"); VP_CHECK(!vp_py_next(ki), "an ended iterator stays ended");
		Py_DECREF(ki); Py_DECREF(vi); Py_DECREF(di);
	}
	Py_DECREF(s); Py_DECREF(r); Py_DECREF((PyObject*)pp);
}
static void comparison(void)
{
	uint32_t ka = vp_arg(1), kb = vp_arg(2), len = vp_arg(3); int i;
	mv* root = pv_vec(4); mv* a = root->c[0] = key(ka, len); mv* b = root->c[1] = key(kb, len);
	root->c[2] = pv_null(); root->c[3] = pv_str(0); // keeps the vector uncompressed
	VP_ASSUME(!pv_has_nan(a)); VP_ASSUME(!pv_has_nan(b));
	PyPointless* pp = store(root); if (!pp) return;
	PyObject* r = py_root(pp); PyObject* x[2][3]; mv* m[2]; m[0] = a; m[1] = b; const char* error = 0;
	pointless_value_t* items = pointless_reader_vector_value(&pp->p, pointless_root(&pp->p));
	int want = pointless_cmp_reader(&pp->p, items, &pp->p, items + 1, &error), bad = mixed(a, b);
	want = (want > 0) - (want < 0);
	for (i = 0; i < 2; i++) { py_lists = 0; x[i][0] = py_of(m[i]); py_lists = 1; x[i][1] = py_of(m[i]); x[i][2] = vp_py_checked(Py_TYPE(r)->tp_as_sequence->sq_item(r, i)); }
	for (i = 0; i < 9; i++) {
		PyObject* p = x[0][i / 3]; PyObject* q = x[1][i % 3];
		PyObject* c = cmp(p, q);
		if (bad) VP_CHECK(py_raised(c, PyExc_TypeError), "values of different kinds cannot be ordered"); else VP_CHECK(sign(c) == want, "Python objects are ordered like the stored values");
		vp_exc = 0;
		PyObject* e = eq(p, q);
		if (bad) VP_CHECK(py_raised(e, PyExc_ValueError), "values of different kinds cannot be compared"); else VP_CHECK(e == (vp_concretize(same(a, b)) ? Py_True : Py_False), "Python objects are equal exactly if the values are");
		vp_exc = 0;
	}
	if (bad) VP_REACH("different kinds"); else VP_REACH("same kind");
	for (i = 0; i < 6; i++) Py_DECREF(x[i / 3][i % 3]);
	Py_DECREF(r); Py_DECREF((PyObject*)pp);
}
static void foreign(void)
{
	uint32_t is_map = vp_arg(1), how = vp_arg(2);
	mv* m = is_map ? pv_map(2) : pv_set(2); m->c[0] = pv_u32(vp_u32()); m->c[1] = pv_null(); m->d[0] = pv_null(); m->d[1] = pv_null();
	PyPointless* pp = store(m); if (!pp) return;
	PyObject* s = py_root(pp); PyObject* k; uint64_t mag = 0; int neg = 0;
	switch (how) {
	case 0: k = vp_other(); break;
	case 1: k = vp_list(0); break;
	case 2: k = vp_dict_new(); break;
	case 3: k = vp_huge(vp_bool()); break;
	case 4: neg = vp_bool(); mag = vp_u64(); VP_ASSUME(mag > (neg ? 0x80000000ull : 0xFFFFFFFFull)); k = vp_int(neg, mag); break;
	case 5: k = Py_NewRef(s); break;
	default: { PyObject* o = vp_other(); k = vp_tuple(1, o, 0, 0, 0); } break;
	}
	int r = vp_py_checked_int(Py_TYPE(s)->tp_as_sequence->sq_contains(s, k)); VP_CHECK(r == -1 && vp_exc == PyExc_ValueError, "a key which cannot be hashed is refused"); vp_exc = 0;
	if (is_map) { VP_CHECK(py_raised(Py_TYPE(s)->tp_as_mapping->mp_subscript(s, k), PyExc_ValueError), "a key which cannot be hashed is refused"); VP_CHECK(py_raised(py_call1(s, "get", k), PyExc_ValueError), "a key which cannot be hashed is refused"); }
	VP_REACH("foreign key");
	Py_DECREF(k); Py_DECREF(s); Py_DECREF((PyObject*)pp);
}
int main()
{
	py_types();
	pv_bits = vp_arg(4);
	switch (vp_arg(0)) { case 0: case 1: lookups(vp_arg(0)); break; case 2: comparison(); break; default: foreign(); }
	VP_CHECK(vp_exc == 0, "no exception is left pending");
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
	return 0;
}
