// Stored vectors and their slices, seen from Python, against the items written.
// mode 0: items, iteration, membership, buffer; 1: extremes and search; 2: order of two views; 3: refused subscripts
// 1: type (0-8 primitive types, 9 values, 10 numbers in a value vector), 2: items, 3: slices (0 none, 1 slice, 2 slice of a slice)
#include "pypv.h"
static mv* m; static PyPointless* pp; static uint32_t off, cnt;
static mv* source(uint32_t type, uint32_t n)
{
	uint32_t i;
	if (type < 9) return pv_prim(pv_prim_types[type], n, 0);
	mv* x = pv_vec(n);
	for (i = 0; i < n; i++) x->c[i] = type == 10 ? (i % 2 ? pv_flt(pv_fpay()) : pv_i32((int32_t)vp_u32())) : i == 0 ? pv_str(1) : i == 1 ? pv_any_number() : i == 2 ? pv_vec(1) : pv_null();
	if (type == 9 && n > 2) x->c[2]->c[0] = pv_bool(vp_bool());
	return x;
}

static int is_item(PyObject* x, uint32_t i)
{
	int ok;
	if (m->k == K_VEC) ok = py_is(x, m->c[off + i]);
	else if (m->type == POINTLESS_VECTOR_FLOAT) ok = py_is_float(x, (uint32_t)m->it[off + i]);
	else { int64_t v = m->it[off + i]; int neg = v < 0 && m->type != POINTLESS_VECTOR_U64; ok = vp_is_int(x, neg, neg ? 0 - (uint64_t)v : (uint64_t)v); }
	Py_XDECREF(x);
	return ok;
}
static PyObject* sub(PyObject* v, PyObject* i) { PyObject* r = vp_py_checked(Py_TYPE(v)->tp_as_mapping->mp_subscript(v, i)); Py_DECREF(i); return r; }
static PyObject* bound(int64_t* x) { if (vp_choice(2) == 0) { *x = INT64_MIN; return Py_None; } *x = (int64_t)vp_u64(); return PyLong_FromLongLong(*x); }
static int64_t clamp(int64_t x, int64_t n) { if (x < 0) x = x < -n ? 0 : x + n; return x > n ? n : x; }
// a slice of the view with any bounds
static PyObject* slice(PyObject* v)
{
	int64_t a, b; PyObject* pa = bound(&a); PyObject* pb = bound(&b); PyObject* s = PySlice_New(pa, pb, Py_None); Py_DECREF(pa); Py_DECREF(pb);
	int64_t lo = vp_concretize(pa == Py_None ? 0 : clamp(a, cnt)), hi = vp_concretize(pb == Py_None ? cnt : clamp(b, cnt));
	PyObject* r = sub(v, s); VP_CHECK(r && PyPointlessVector_Check(r), "a slice is a vector");
	off += (uint32_t)lo; cnt = hi > lo ? (uint32_t)(hi - lo) : 0;
	Py_DECREF(v);
	return r;
}
static PyObject* view(void)
{
	PyObject* v; uint32_t k;
	if (m->k == K_VEC) { v = py_root(pp); PyObject* w = Py_TYPE(v)->tp_as_sequence->sq_item(v, 0); Py_DECREF(v); v = w; } else v = py_root(pp);
	VP_CHECK(v && PyPointlessVector_Check(v), "a stored vector is a vector"); if (!v) return 0;
	off = 0; cnt = m->n;
	for (k = 0; k < vp_arg(3); k++) v = slice(v);
	VP_CHECK(Py_TYPE(v)->tp_as_sequence->sq_length(v) == (Py_ssize_t)cnt && Py_TYPE(v)->tp_as_mapping->mp_length(v) == (Py_ssize_t)cnt, "the length is the number of items");
	return v;
}
static void items(PyObject* v)
{
	uint32_t i; PyObject* x; Py_buffer b;
	for (i = 0; i < cnt; i++) VP_CHECK(is_item(vp_py_checked(Py_TYPE(v)->tp_as_sequence->sq_item(v, i)), i), "an item is the one written");
	int64_t at = (int64_t)vp_u64(); x = sub(v, PyLong_FromLongLong(at));
	int64_t want = at < 0 ? at + (int64_t)cnt : at;
	if (vp_concretize(want >= 0 && want < (int64_t)cnt)) VP_CHECK(is_item(x, (uint32_t)vp_concretize(want)), "a subscript answers its item"); else VP_CHECK(py_raised(x, PyExc_IndexError), "a subscript out of range is refused");
	PyObject* it = vp_py_checked(Py_TYPE(v)->tp_iter(v)); PyObject* rv = vp_py_checked(py_call0(v, "__reversed__"));
	for (i = 0; i < cnt; i++) { VP_CHECK(is_item(vp_py_next(it), i), "iteration yields the items in order"); VP_CHECK(is_item(vp_py_next(rv), cnt - 1 - i), "reversed iteration yields the items backwards"); }
	for (i = 0; i < 2; i++) VP_CHECK(!vp_py_next(it) && !vp_py_next(rv), "the iterators end and stay ended");
	Py_DECREF(it); Py_DECREF(rv);
	// membership
	if (m->k == K_PRIM && m->type != POINTLESS_VECTOR_FLOAT) {
		int neg = vp_bool(), in = 0; uint64_t mag = vp_u64();
		for (i = 0; i < cnt; i++) { int64_t w = m->it[off + i]; int wn = w < 0 && m->type != POINTLESS_VECTOR_U64; in |= (wn ? 0 - (uint64_t)w : (uint64_t)w) == mag && (mag == 0 || wn == neg); }
		if (neg) VP_ASSUME(mag <= (uint64_t)1 << 63);
		x = vp_int(neg, mag); int r = vp_py_checked_int(Py_TYPE(v)->tp_as_sequence->sq_contains(v, x)); Py_DECREF(x);
		VP_CHECK(r == in, "membership is that of an equal item"); vp_exc = 0;
	}
	for (i = 0; i < cnt; i++) if (m->k == K_VEC && !pv_has_nan(m->c[off + i])) {
		x = py_of(m->c[off + i]); int r = vp_py_checked_int(Py_TYPE(v)->tp_as_sequence->sq_contains(v, x)); Py_DECREF(x); VP_CHECK(r == 1, "an item is a member"); vp_exc = 0;
	}
	// the buffer and the type
	b.obj = 0;
	int r = vp_py_checked_int(PyObject_GetBuffer(v, &b, PyBUF_SIMPLE));
	PyObject* tc = Py_TYPE(v)->tp_getset[0].get(v, 0);
	if (m->k == K_VEC && m->n) {
		VP_CHECK(r == -1 && vp_exc == PyExc_BufferError || r == -1, "a vector of values has no buffer"); VP_CHECK(tc == 0, "a vector of values has no type code"); vp_exc = 0;
	} else if (r == 0) {
		static const uint32_t size[9] = { 1, 1, 2, 2, 4, 4, 8, 8, 4 };
		uint32_t t = (uint32_t)vp_arg(1), sz = t < 9 ? size[t] : 0, j;
		VP_CHECK(b.len == (Py_ssize_t)(cnt * sz), "the buffer holds the bytes of the items");
		for (i = 0; i < cnt; i++) for (j = 0; j < sz; j++) VP_CHECK(((uint8_t*)b.buf)[i * sz + j] == (uint8_t)((uint64_t)m->it[off + i] >> 8 * j), "the buffer holds the bytes of the items");
		PyBuffer_Release(&b);
		if (m->n && t < 9) VP_CHECK(tc && vp_str_is(tc, py_codes[t]), "the type code is the one of the items");
		Py_XDECREF(tc); vp_exc = 0;
	} else VP_CHECK(0, "a primitive vector has a buffer");
}
static void extremes(PyObject* v)
{
	uint32_t i, lo = 0, hi = 0; int flt = m->type == POINTLESS_VECTOR_FLOAT, uns = m->type == POINTLESS_VECTOR_U64;
	if (flt) for (i = 0; i < cnt; i++) VP_ASSUME(!isnan(pv_f((uint32_t)m->it[off + i])));
	PyObject* a = vp_py_checked(py_call0(v, "min")); if (cnt == 0) { VP_CHECK(py_raised(a, PyExc_ValueError), "an empty vector has no extremes"); a = 0; }
	PyObject* b = vp_py_checked(py_call0(v, "max")); if (cnt == 0) { VP_CHECK(py_raised(b, PyExc_ValueError), "an empty vector has no extremes"); b = 0; }
	PyObject* c = vp_py_checked(py_call0(v, "range")); if (cnt == 0) { VP_CHECK(py_raised(c, PyExc_ValueError), "an empty vector has no extremes"); c = 0; }
	for (i = 1; i < cnt; i++) {
		int64_t x = m->it[off + i], l = m->it[off + lo], h = m->it[off + hi];
		if (vp_concretize(flt ? pv_f((uint32_t)x) < pv_f((uint32_t)l) : uns ? (uint64_t)x < (uint64_t)l : x < l)) lo = i;
		if (vp_concretize(flt ? pv_f((uint32_t)x) > pv_f((uint32_t)h) : uns ? (uint64_t)x > (uint64_t)h : x > h)) hi = i;
	}
	if (cnt) {
		PyTupleObject* t = (PyTupleObject*)c;
		VP_CHECK(t && PyTuple_Check(c) && Py_SIZE(c) == 2, "the range is a pair"); if (!t) return;
		VP_CHECK(is_item(a, lo) && is_item(Py_NewRef(t->ob_item[0]), lo), "the minimum is the least item"); VP_CHECK(is_item(b, hi) && is_item(Py_NewRef(t->ob_item[1]), hi), "the maximum is the greatest item");
		Py_DECREF(c);
	}
	uint64_t q = vp_u64(); PyObject* r = vp_py_checked(py_call1(v, "bisect_left", a = vp_int(0, q))); Py_DECREF(a);
	if (!uns || m->n == 0) VP_CHECK(py_raised(r, PyExc_ValueError), "only vectors of unsigned 64-bit integers are searched");
	else {
		int sorted = 1; uint32_t at = 0;
		for (i = 1; i < cnt; i++) sorted &= (uint64_t)m->it[off + i - 1] <= (uint64_t)m->it[off + i];
		if (vp_concretize(sorted)) { for (i = 0; i < cnt; i++) at += (uint64_t)m->it[off + i] < q; VP_CHECK(vp_is_int(r, 0, at), "bisect_left counts the smaller items"); }
		Py_XDECREF(r);
		r = vp_py_checked(py_call1(v, "bisect_left", a = vp_int(1, q | 1))); Py_DECREF(a); VP_CHECK(py_raised(r, PyExc_ValueError), "only unsigned numbers are searched for");
		r = vp_py_checked(py_call1(v, "bisect_left", a = vp_huge(vp_bool()))); Py_DECREF(a); VP_CHECK(py_raised(r, PyExc_ValueError), "only 64-bit numbers are searched for");
	}
	if (m->k == K_PRIM) VP_REACH("extremes");
}
static int less(int64_t x, int64_t y) { return m->type == POINTLESS_VECTOR_FLOAT ? pv_f((uint32_t)x) < pv_f((uint32_t)y) : m->type == POINTLESS_VECTOR_U64 ? (uint64_t)x < (uint64_t)y : x < y; }
static void order(void)
{
	if (m->k == K_PRIM && m->type == POINTLESS_VECTOR_FLOAT) for (uint32_t i = 0; i < m->n; i++) VP_ASSUME(!isnan(pv_f((uint32_t)m->it[i])));
	PyObject* v = view(); uint32_t o1 = off, n1 = cnt, i; PyObject* w = view(); uint32_t o2 = off, n2 = cnt; int c = 0, op;
	for (i = 0; c == 0 && i < n1 && i < n2; i++) { int64_t x = m->it[o1 + i], y = m->it[o2 + i]; c = vp_concretize(less(x, y)) ? -1 : vp_concretize(less(y, x)) ? 1 : 0; }
	if (c == 0) c = n1 < n2 ? -1 : n1 > n2;
	for (op = 0; op < 6; op++) {
		static const int yes[6][3] = { { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 }, { 1, 0, 1 }, { 0, 0, 1 }, { 0, 1, 1 } };
		PyObject* r = vp_py_checked(Py_TYPE(v)->tp_richcompare(v, w, op)); VP_CHECK(r == (yes[op][c + 1] ? Py_True : Py_False), "vectors are ordered by items, then by length"); vp_exc = 0;
		PyObject* o = vp_other(); VP_CHECK(Py_TYPE(v)->tp_richcompare(v, o, op) == Py_NotImplemented, "a vector is comparable to vectors only"); Py_DECREF(o);
	}
	VP_REACH("ordered");
	Py_DECREF(v); Py_DECREF(w);
}
static void refused(PyObject* v)
{
	PyObject* x = vp_other(); VP_CHECK(py_raised(sub(v, Py_NewRef(x)), PyExc_TypeError), "a subscript is a number or a slice"); Py_DECREF(x);
	VP_CHECK(py_raised(sub(v, vp_huge(vp_bool())), PyExc_IndexError), "a huge subscript is out of range");
	int64_t st = (int64_t)vp_u64(); VP_ASSUME(st != 1); x = PyLong_FromLongLong(st); PyObject* s = PySlice_New(Py_None, Py_None, x); Py_DECREF(x);
	VP_CHECK(py_raised(sub(v, s), PyExc_ValueError), "slices have step 1");
	s = PySlice_New(x = vp_other(), Py_None, Py_None); Py_DECREF(x); VP_CHECK(py_raised(sub(v, s), PyExc_TypeError), "slice bounds are numbers");
	VP_REACH("refused");
}
int main()
{
	pointless_create_t c; void* buf = 0; size_t len = 0; const char* error = 0; uint32_t mode = vp_arg(0);
	py_types();
	pv_bits = vp_arg(4);
	m = source(vp_arg(1), vp_arg(2)); py_text(m);
	mv* root = m; if (m->k == K_VEC) { root = pv_vec(2); root->c[0] = m; root->c[1] = pv_null(); }
	pv_begin(&c); pointless_create_set_root(&c, pv_make(&c, root));
	VP_CHECK(pointless_create_output_and_end_b(&c, &buf, &len, &error), "a vector can be serialized"); if (!buf) return 0;
	pp = py_open(buf, len); free(buf); VP_CHECK(pp != 0, "a serialized vector can be opened"); if (!pp) return 0;
	if (mode == 2) order();
	else { PyObject* v = view(); if (v) { if (mode == 0) items(v); else if (mode == 1) extremes(v); else refused(v); Py_DECREF(v); } }
	VP_CHECK(pp->n_vector_refs == 0, "no view is counted once all are gone");
	Py_DECREF((PyObject*)pp);
	VP_CHECK(vp_exc == 0, "no exception is left pending");
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
	return 0;
}
