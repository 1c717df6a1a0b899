// PointlessPrimVector objects against a plain list of numbers.
// mode 0: a history of operations; 1: searching, extremes and iteration; 2: construction from a
// sequence; 3: construction from a buffer; 4: sort_proj; 5: FromRemap; 6: exported buffers; 7: stored vectors
#include <Python.h>
#include "vp.h"
#include "py.h"
#include "pointless_ext.h"
static void pp_dealloc(PyObject* o) { pointless_close(&((PyPointless*)o)->p); free(o); }
PyTypeObject PyPointlessType = { .tp_name = "pointless", .tp_basicsize = sizeof(PyPointless), .tp_dealloc = pp_dealloc };
#define CAP 24
#define T (&PyPointlessPrimVectorType)
#define FLT POINTLESS_PRIM_VECTOR_TYPE_FLOAT
static const char* const names[9] = { "i8", "u8", "i16", "u16", "i32", "u32", "f", "i64", "u64" };
static const int bits_[9] = { 8, 8, 16, 16, 32, 32, 32, 64, 64 };
static int is_signed(int t) { return t == 0 || t == 2 || t == 4 || t == 7; }
typedef struct { int t, n; uint64_t v[CAP]; } sh;   // integers sign-extended to 64 bits, floats by their bits
static uint32_t fb(float f) { union { float f; uint32_t u; } x; x.f = f; return x.u; }
static float bf(uint64_t u) { union { float f; uint32_t u; } x; x.u = (uint32_t)u; return x.f; }
static int fits(int t, int neg, uint64_t m)
{
	if (!is_signed(t)) return (!neg || m == 0) && (bits_[t] == 64 || m >> bits_[t] == 0);
	uint64_t lim = (uint64_t)1 << (bits_[t] - 1);
	return neg ? m <= lim : m < lim;
}
static PyObject* tup1(PyObject* a) { return vp_tuple(1, a, 0, 0, 0); }
static PyObject* call0(PyObject* v, const char* m) { return vp_py_call(v, m, 0); }
static PyObject* call1(PyObject* v, const char* m, PyObject* a) { PyObject* t = tup1(a); PyObject* r = vp_py_call(v, m, t); Py_DECREF(t); return r; }
static int is(PyObject* o, PyObject* what) { int r = o == what; Py_XDECREF(o); return r; }
static void failed(PyObject* r, PyObject* e) { VP_CHECK(r == 0, "the operation fails"); VP_CHECK(vp_exc == e, "the operation raises its exception"); PyErr_Clear(); }
// does the Python number have that value?
static int same(PyObject* o, int t, uint64_t v)
{
	int r;
	if (t == FLT) { r = o && PyFloat_Check(o) && (PyFloat_AS_DOUBLE(o) == (double)bf(v) || bf(v) != bf(v)); }
	else { int neg = is_signed(t) && (int64_t)v < 0; r = o && PyLong_Check(o) && vp_is_int(o, neg, neg ? 0 - v : v); }
	Py_XDECREF(o);
	return r;
}
static PyObject* make(const char* k1, PyObject* v1, const char* k2, PyObject* v2)
{
	PyObject* a = PyTuple_New(0); PyObject* d = vp_dict_new();
	vp_dict_add(d, PyUnicode_FromString(k1), v1); if (k2) vp_dict_add(d, PyUnicode_FromString(k2), v2);
	PyObject* o = vp_py_new(T, a, d);
	Py_DECREF(a); Py_DECREF(d);
	return o;
}
// a new number to put in: *good: it has a place in type t, as *v
static PyObject* number(int t, int* good, uint64_t* v)
{
	if (t == FLT) {
		if (vp_choice(3) == 0) { *good = 0; *v = 0; return vp_int(0, vp_u64()); }
		float f = vp_float(); VP_ASSUME(f == f); *good = 1; *v = fb(f); return PyFloat_FromDouble((double)f);
	}
	int k = (int)vp_choice(4); *v = 0;
	if (k == 2) { *good = 0; return vp_huge((int)vp_choice(2)); }
	if (k == 3) { *good = 0; return vp_choice(2) ? vp_other() : PyFloat_FromDouble(1.0); }
	uint64_t m = vp_u64(); int neg = vp_bool();
	*good = (int)vp_concretize(fits(t, neg, m)); *v = neg ? 0 - m : m;
	return vp_int(neg, m);
}
static PyObject* good_number(int t, uint64_t* v)
{
	if (t == FLT) { float f = vp_float(); VP_ASSUME(f == f); *v = fb(f); return PyFloat_FromDouble((double)f); }
	uint64_t m = vp_u64(); int neg = is_signed(t) && vp_concretize(vp_bool()); VP_ASSUME(fits(t, neg, m) && !(neg && m == 0)); *v = neg ? 0 - m : m;
	return vp_int(neg, m);
}
static PyObject* good_list(int t, int n, sh* s) { PyObject* l = vp_list(n); s->t = t; s->n = n; for (int i = 0; i < n; i++) ((PyListObject*)l)->ob_item[i] = good_number(t, &s->v[i]); return l; }
static PyObject* symbolic(sh* s, int t, int n)
{
	PyObject* l = good_list(t, n, s);
	PyObject* v = make("type", PyUnicode_FromString(names[t]), "sequence", l);
	VP_CHECK(v != 0, "a vector of allowed numbers is made");
	return v;
}
static PyObject* at(PyObject* v, Py_ssize_t i) { PyObject* ix = i < 0 ? vp_int(1, (uint64_t)-i) : vp_int(0, (uint64_t)i); PyObject* r = vp_py_checked(Py_TYPE(v)->tp_as_mapping->mp_subscript(v, ix)); Py_DECREF(ix); return r; }
static void check_items(PyObject* v, const sh* s)
{
	VP_CHECK(Py_TYPE(v)->tp_as_mapping->mp_length(v) == s->n, "length of the vector");
	for (int i = 0; i < s->n; i++) VP_CHECK(same(at(v, i), s->t, s->v[i]), "every item is the one put there");
}
static void check_type(PyObject* v, int t) { PyObject* r = vp_py_checked(Py_TYPE(v)->tp_getset[0].get(v, 0)); VP_CHECK(vp_str_is(r, names[t]), "the type code"); Py_DECREF(r); }
static int equal(int t, uint64_t a, uint64_t b) { return t == FLT ? bf(a) == bf(b) : a == b; }
static int less(int t, uint64_t a, uint64_t b) { return t == FLT ? bf(a) < bf(b) : is_signed(t) ? (int64_t)a < (int64_t)b : a < b; }
static void push(sh* s, uint64_t x) { if (s->n >= CAP) vp_fail_limit("items"); s->v[s->n++] = x; }
static void op(PyObject* v, sh* s, int o)
{
	int good; uint64_t x;
	switch (o) {
	case 0: {
		PyObject* r = call1(v, "append", number(s->t, &good, &x));
		if (good) { VP_CHECK(r == Py_None, "append"); push(s, x); VP_REACH("append"); } else { VP_CHECK(r == 0, "a number out of range is refused"); PyErr_Clear(); VP_REACH("append refused"); }
		break; }
	case 1: {
		PyObject* r = call0(v, "pop");
		if (s->n == 0) { failed(r, PyExc_IndexError); break; }
		s->n--; VP_CHECK(same(r, s->t, s->v[s->n]), "pop returns the last item"); break; }
	case 2: {
		int64_t i = (int64_t)vp_choice(2 * s->n + 3) - s->n - 1; PyObject* ix = i < 0 ? vp_int(1, (uint64_t)-i) : vp_int(0, (uint64_t)i);
		PyObject* p = number(s->t, &good, &x); int in = i >= -s->n && i < s->n;
		int rc = vp_py_checked_int(Py_TYPE(v)->tp_as_mapping->mp_ass_subscript(v, ix, p));
		VP_CHECK((rc == 0) == (in && good), "an item is assigned exactly when the index is in range and the number fits"); PyErr_Clear();
		if (rc == 0) { s->v[i < 0 ? i + s->n : i] = x; VP_REACH("set"); }
		Py_DECREF(ix); Py_DECREF(p);
		break; }
	case 3: {
		sh t; PyObject* w; int k = (int)vp_choice(5), fine = 1;
		if (k == 0) { w = Py_NewRef(v); t = *s; VP_REACH("append to itself"); }
		else if (k == 1) w = symbolic(&t, s->t, 2);
		else if (k == 2) { int u = s->t == 3 ? 1 : 3; w = symbolic(&t, u, 1); fine = s->t != FLT && fits(s->t, 0, t.v[0]); }
		else if (k == 3) { w = vp_list(2); t.n = 2; for (int i = 0; i < 2; i++) { ((PyListObject*)w)->ob_item[i] = number(s->t, &good, &t.v[i]); fine &= good; } }
		else { PyObject* l = good_list(s->t, 2, &t); w = vp_failing_iter(l, (Py_ssize_t)vp_choice(2) + 1); Py_DECREF(l); fine = 0; }
		fine = (int)vp_concretize(fine);
		PyObject* r = call1(v, "append_bulk", w);
		if (fine) { VP_CHECK(r == Py_None, "append_bulk"); for (int i = 0; i < t.n; i++) push(s, t.v[i]); } else { VP_CHECK(r == 0, "append_bulk fails with an item that is refused"); PyErr_Clear(); VP_REACH("append_bulk refused"); }
		break; }
	case 4: {
		int64_t k = (int64_t)vp_choice(s->n + 3) - 1; PyObject* r = call1(v, "pop_bulk", k < 0 ? vp_int(1, 1) : vp_int(0, (uint64_t)k));
		if (k > s->n) { failed(r, PyExc_ValueError); VP_REACH("pop_bulk refused"); } else { if (k >= 0) { VP_CHECK(r == Py_None, "pop_bulk"); s->n -= (int)k; } PyErr_Clear(); }
		break; }
	case 5: case 6: {
		PyObject* p = good_number(s->t, &x); int i = 0; for (; i < s->n; i++) if (vp_concretize(equal(s->t, s->v[i], x))) break;
		PyObject* r = call1(v, o == 5 ? "remove" : "fast_remove", p);
		if (i == s->n) { failed(r, PyExc_ValueError); VP_REACH("not there"); break; }
		VP_CHECK(r == Py_None, "the first occurrence is removed"); VP_REACH("removed");
		if (o == 5) for (int j = i; j + 1 < s->n; j++) s->v[j] = s->v[j + 1]; else s->v[i] = s->v[s->n - 1];
		s->n--; break; }
	case 7: {
		sh t = *s; VP_CHECK(is(call0(v, "sort"), Py_None), "sort");
		for (int i = 1; i < t.n; i++) for (int j = i; j > 0 && vp_concretize(less(t.t, t.v[j], t.v[j - 1])); j--) { uint64_t y = t.v[j]; t.v[j] = t.v[j - 1]; t.v[j - 1] = y; }
		*s = t; break; }
	case 8: VP_CHECK(is(call0(v, "clear"), Py_None), "clear"); s->n = 0; break;
	case 9: {
		int64_t a = (int64_t)vp_choice(2 * s->n + 3) - s->n - 1, b = (int64_t)vp_choice(2 * s->n + 3) - s->n - 1;
		PyObject* pa = a < 0 ? vp_int(1, (uint64_t)-a) : vp_int(0, (uint64_t)a); PyObject* pb = b < 0 ? vp_int(1, (uint64_t)-b) : vp_int(0, (uint64_t)b); PyObject* sl = PySlice_New(pa, pb, 0); Py_DECREF(pa); Py_DECREF(pb);
		PyObject* w = vp_py_checked(Py_TYPE(v)->tp_as_mapping->mp_subscript(v, sl)); VP_CHECK(w != 0 && w != v, "a slice is a new vector"); Py_DECREF(sl);
		if (a < 0) a += s->n; if (b < 0) b += s->n; if (a < 0) a = 0; if (b < 0) b = 0; if (a > s->n) a = s->n; if (b > s->n) b = s->n;
		sh t; t.t = s->t; t.n = 0; for (; a < b; a++) push(&t, s->v[a]);
		check_items(w, &t); check_type(w, s->t);
		VP_CHECK(((PyPointlessPrimVector*)w)->allow_print == ((PyPointlessPrimVector*)v)->allow_print, "a slice prints like the original");
		uint64_t y; PyObject* p = good_number(s->t, &y); is(call1(w, "append", p), 0); push(&t, y); check_items(w, &t);
		Py_DECREF(w); VP_REACH("slice"); break; }
	}
}
static PyObject* raw_buffer(uint32_t n) { PyObject* b = PyByteArray_FromStringAndSize(0, n); for (uint32_t i = 0; i < n; i++) PyByteArray_AS_STRING(b)[i] = (char)vp_u8(); return b; }
static uint64_t item_of(int t, const uint8_t* p)
{
	uint64_t x = 0; int nb = bits_[t] / 8;
	for (int i = 0; i < nb; i++) x |= (uint64_t)p[i] << (8 * i);
	if (is_signed(t) && nb < 8) x = (uint64_t)((int64_t)(x << (64 - 8 * nb)) >> (64 - 8 * nb));
	return x;
}
// a numeric vector stored in a document
static const uint32_t stored_type[9] = { POINTLESS_VECTOR_I8, POINTLESS_VECTOR_U8, POINTLESS_VECTOR_I16, POINTLESS_VECTOR_U16, POINTLESS_VECTOR_I32, POINTLESS_VECTOR_U32, POINTLESS_VECTOR_FLOAT, POINTLESS_VECTOR_I64, POINTLESS_VECTOR_U64 };
static PyObject* stored(sh* s, int t, int n, int from, int len)
{
	static uint64_t mem[CAP]; uint8_t* q = (uint8_t*)mem; int nb = bits_[t] / 8; pointless_create_t c; const char* err = 0; void* buf = 0; size_t blen = 0; uint32_t h = 0;
	for (int i = 0; i < n * nb; i++) q[i] = vp_u8();
	if (t == FLT) for (int i = 0; i < n; i++) VP_ASSUME(bf(item_of(t, q + 4 * i)) == bf(item_of(t, q + 4 * i)));
	pointless_create_begin_64(&c);
	switch (t) {
	case 0: h = pointless_create_vector_i8_owner(&c, (int8_t*)q, n); break; case 1: h = pointless_create_vector_u8_owner(&c, q, n); break;
	case 2: h = pointless_create_vector_i16_owner(&c, (int16_t*)q, n); break; case 3: h = pointless_create_vector_u16_owner(&c, (uint16_t*)q, n); break;
	case 4: h = pointless_create_vector_i32_owner(&c, (int32_t*)q, n); break; case 5: h = pointless_create_vector_u32_owner(&c, (uint32_t*)q, n); break;
	case 6: h = pointless_create_vector_float_owner(&c, (float*)q, n); break; case 7: h = pointless_create_vector_i64_owner(&c, (int64_t*)q, n); break;
	case 8: h = pointless_create_vector_u64_owner(&c, (uint64_t*)q, n); break; }
	VP_CHECK(h != POINTLESS_CREATE_VALUE_FAIL, "created"); pointless_create_set_root(&c, h);
	VP_CHECK(pointless_create_output_and_end_b(&c, &buf, &blen, &err), "serialized");
	PyPointless* pp = PyObject_New(PyPointless, &PyPointlessType); pp->is_open = 1; pp->allow_print = 1; pp->n_vector_refs = 0;
	VP_CHECK(pointless_open_b(&pp->p, buf, blen, &err), "opened"); free(buf);
	pointless_value_t root = *pointless_root(&pp->p); PyObject* v = (PyObject*)PyPointlessVector_New(pp, &root, (uint32_t)from, (uint32_t)len); Py_DECREF(pp);
	s->t = t; s->n = len; for (int i = 0; i < len; i++) s->v[i] = item_of(t, q + (from + i) * nb);
	return v;
}
static PyObject* call_n(PyObject* v, const char* m, PyObject* a, PyObject* b) { PyObject* t = vp_tuple(b ? 2 : 1, Py_NewRef(a), b ? Py_NewRef(b) : 0, 0, 0); PyObject* r = vp_py_call(v, m, t); Py_DECREF(t); return r; }
static void check_buffer_round_trip(PyObject* v, const sh* s)
{
	PyObject* b = call0(v, "serialize"); VP_CHECK(b != 0 && PyByteArray_GET_SIZE(b) == 8 + s->n * bits_[s->t] / 8, "the serialized size");
	PyObject* w = make("buffer", b, 0, 0); VP_CHECK(w != 0, "a serialized vector is read back"); check_items(w, s); check_type(w, s->t); Py_DECREF(w);
}
int main(void)
{
	int mode = (int)vp_arg(0), t = (int)vp_arg(1), n = (int)vp_arg(2); sh s;
	vp_py_init(); PyType_Ready(&PyPointlessType); PyType_Ready(T); PyType_Ready(&PyPointlessPrimVectorIterType); PyType_Ready(&PyPointlessPrimVectorRevIterType); PyType_Ready(&PyPointlessVectorType);
	uint64_t base = vp_heap_live();
	if (mode == 0) {
		PyObject* v = symbolic(&s, t, n); check_items(v, &s); check_type(v, t);
		for (int k = 3; k < 8 && vp_arg(k) != 99; k++) { op(v, &s, (int)vp_arg(k)); check_items(v, &s); }
		check_buffer_round_trip(v, &s);
		Py_DECREF(v);
	}
	if (mode == 1) {
		PyObject* v = symbolic(&s, t, n); int i, good, k = (int)vp_arg(3); uint64_t x;
		if (k == 0) {                                                                   // index and in
			PyObject* p = number(t, &good, &x); float f = 0; if (t == FLT && !good) VP_ASSUME(PyFloat_AsDouble(p) < 16777216.0);
			if (t == FLT) { f = good ? bf(x) : (float)PyFloat_AsDouble(p); good = 1; x = fb(f); }
			for (i = 0; i < n; i++) if (good && vp_concretize(equal(t, s.v[i], x))) break;
			int c = vp_py_checked_int(Py_TYPE(v)->tp_as_sequence->sq_contains(v, p)); VP_CHECK(c == (i < n), "in tells whether an equal item is there");
			PyObject* r = call1(v, "index", p);
			if (i == n) failed(r, PyExc_ValueError); else { VP_CHECK(vp_is_int(r, 0, (uint64_t)i), "index is the first equal item's"); Py_DECREF(r); VP_REACH("found"); }
		} else if (k == 1) {                                                            // extremes
			PyObject* lo = call0(v, "min"); if (n == 0) failed(lo, PyExc_ValueError);
			PyObject* hi = call0(v, "max"); if (n == 0) failed(hi, PyExc_ValueError);
			PyObject* r = call0(v, "range"); if (n == 0) failed(r, PyExc_ValueError);
			if (n) {
				int a = 0, b = 0; for (i = 1; i < n; i++) { if (vp_concretize(less(t, s.v[i], s.v[a]))) a = i; if (vp_concretize(less(t, s.v[b], s.v[i]))) b = i; }
				VP_CHECK(same(lo, t, s.v[a]), "min"); VP_CHECK(same(hi, t, s.v[b]), "max");
				VP_CHECK(PyTuple_Check(r) && PyTuple_GET_SIZE(r) == 2 && same(Py_NewRef(PyTuple_GET_ITEM(r, 0)), t, s.v[a]) && same(Py_NewRef(PyTuple_GET_ITEM(r, 1)), t, s.v[b]), "range"); Py_DECREF(r);
			}
		} else if (k == 2) {                                                            // iteration, both ways
			for (int rev = 0; rev < 2; rev++) {
				PyObject* it = rev ? call0(v, "__reversed__") : vp_py_checked(Py_TYPE(v)->tp_iter(v)); VP_CHECK(it != 0, "iterating works");
				for (i = 0; i < n; i++) VP_CHECK(same(vp_py_next(it), t, s.v[rev ? n - 1 - i : i]), "iteration yields the items in order");
				VP_CHECK(vp_py_next(it) == 0 && !vp_exc && vp_py_next(it) == 0 && !vp_exc, "iteration ends after the last item"); Py_DECREF(it);
			}
			check_buffer_round_trip(v, &s);
		} else {                                                                        // any index
			int neg = vp_bool(); uint64_t m = vp_u64(); int kind = (int)vp_choice(3); PyObject* ix = kind == 0 ? vp_int(neg, m) : kind == 1 ? vp_huge(neg) : vp_other();
			int in = (int)vp_concretize(kind == 0 && (neg && m ? m <= (uint64_t)n : m < (uint64_t)n)); uint64_t j = in ? vp_concretize(neg && m ? n - m : m) : 0;
			PyObject* r = vp_py_checked(Py_TYPE(v)->tp_as_mapping->mp_subscript(v, ix)); VP_CHECK((r != 0) == in, "an index in range delivers an item");
			if (in) VP_CHECK(same(r, t, s.v[j]), "an index delivers that item"); PyErr_Clear();
			uint64_t y; PyObject* p = good_number(t, &y); int rc = vp_py_checked_int(Py_TYPE(v)->tp_as_mapping->mp_ass_subscript(v, ix, p)); VP_CHECK((rc == 0) == in, "an index in range is assigned to"); PyErr_Clear();
			if (in) s.v[j] = y; check_items(v, &s); Py_DECREF(ix); Py_DECREF(p); VP_REACH("any index");
		}
		Py_DECREF(v);
	}
	if (mode == 2) {
		int fine = 1, g; PyObject* l = vp_list(n); s.t = t; s.n = n;
		for (int i = 0; i < n; i++) { ((PyListObject*)l)->ob_item[i] = number(t, &g, &s.v[i]); fine &= g; }
		PyObject* src = l; int fail = (int)vp_arg(3);
		if (fail != 99) { src = vp_failing_iter(l, fail); Py_DECREF(l); fine = 0; }
		PyObject* v = make("type", PyUnicode_FromString(names[t]), "sequence", src);
		VP_CHECK((v != 0) == fine, "a sequence is accepted exactly when every number fits"); if (v) { check_items(v, &s); check_type(v, t); Py_DECREF(v); VP_REACH("sequence"); } else VP_REACH("bad sequence");
	}
	if (mode == 3) {
		uint32_t len = (uint32_t)t; PyObject* b = raw_buffer(len); uint8_t q[CAP * 8]; memcpy(q, PyByteArray_AS_STRING(b), len);
		uint32_t type = 0, items = 0; int good = 0;
		if (len >= 8) { type = (uint32_t)item_of(5, q); items = (uint32_t)item_of(5, q + 4); for (int k = 0; k < 9; k++) good |= type == (uint32_t)k && (uint64_t)items * (bits_[k] / 8) + 8 == len; }
		good = (int)vp_concretize(good);
		PyObject* v = make("buffer", b, 0, 0);
		VP_CHECK((v != 0) == good, "a buffer is accepted exactly when its header fits its length");
		if (v) { s.t = (int)vp_concretize(type); s.n = (int)vp_concretize(items); for (int i = 0; i < s.n; i++) { s.v[i] = item_of(s.t, q + 8 + i * bits_[s.t] / 8); if (s.t == FLT) VP_ASSUME(bf(s.v[i]) == bf(s.v[i])); } check_items(v, &s); check_type(v, s.t); VP_REACH("buffer"); Py_DECREF(v); }
		else { VP_CHECK(vp_exc == PyExc_ValueError, "a bad buffer is a ValueError"); VP_REACH("bad buffer"); }
	}
	if (mode == 4) {
		sh a, b; int ta = (int)vp_arg(3), tb = (int)vp_arg(4), na = (int)vp_arg(5); PyObject* v = symbolic(&s, t, n);
		PyObject* x = (vp_arg(6) & 1) ? stored(&a, ta, na + 1, 1, na) : symbolic(&a, ta, na); PyObject* y = tb == 99 ? 0 : symbolic(&b, tb, na);
		int in = t != FLT; for (int i = 0; i < n; i++) in &= s.v[i] < (uint64_t)na; in = (int)vp_concretize(in);
		PyObject* r = call_n(v, "sort_proj", x, y);
		if (!in) { VP_CHECK((r == 0) || n == 0, "a projection out of bounds is refused"); VP_REACH("out of bounds"); PyErr_Clear(); }
		else {
			VP_CHECK(r == Py_None, "sort_proj"); VP_REACH("projected"); sh z; z.t = t; z.n = n;
			for (int i = 0; i < n; i++) s.v[i] = vp_concretize(s.v[i]);
			uint8_t have[CAP], want[CAP]; memset(have, 0, sizeof have); memset(want, 0, sizeof want);
			for (int i = 0; i < n; i++) { PyObject* o = at(v, i); int ok = 0; for (int k = 0; k < na; k++) if (vp_is_int(o, 0, (uint64_t)k)) { z.v[i] = (uint64_t)k; ok = 1; } VP_CHECK(ok, "a projection stays in bounds"); Py_DECREF(o); z.v[i] = vp_concretize(z.v[i]); have[z.v[i]]++; want[s.v[i]]++; }
			VP_CHECK(memcmp(have, want, sizeof have) == 0, "sort_proj permutes the projection");
			for (int i = 1; i < n; i++) {
				int lt = less(ta, a.v[z.v[i]], a.v[z.v[i - 1]]), eq = equal(ta, a.v[z.v[i]], a.v[z.v[i - 1]]);
				VP_CHECK(!lt, "sort_proj orders by the first vector"); if (y) VP_CHECK(!(eq && less(tb, b.v[z.v[i]], b.v[z.v[i - 1]])), "sort_proj orders by the second vector next");
			}
			s = z;
		}
		check_items(v, &s); check_items(x, &a); Py_DECREF(v); Py_DECREF(x); Py_XDECREF(y);
	}
	if (mode == 5) {
		sh ix, z; int ti = (int)vp_arg(3), ni = (int)vp_arg(4); PyObject* src = symbolic(&s, t, n); PyObject* pi = (vp_arg(5) & 1) ? stored(&ix, ti, ni + 1, 1, ni) : symbolic(&ix, ti, ni);
		int in = ti != FLT || ni == 0; for (int i = 0; i < ni; i++) in &= ix.v[i] < (uint64_t)n; in = (int)vp_concretize(in);
		PyObject* r = call_n(src, "FromRemap", src, pi);
		VP_CHECK((r != 0) == in, "FromRemap succeeds exactly when every index is in range"); 
		if (r) { z.t = t; z.n = ni; for (int i = 0; i < ni; i++) z.v[i] = s.v[vp_concretize(ix.v[i])]; check_items(r, &z); check_type(r, t); VP_CHECK(((PyPointlessPrimVector*)r)->allow_print == 1, "the new vector can be printed"); Py_DECREF(r); VP_REACH("remapped"); }
		else { VP_CHECK(vp_exc == PyExc_ValueError, "a bad remap is a ValueError"); PyErr_Clear(); VP_REACH("bad remap"); }
		Py_DECREF(src); Py_DECREF(pi);
	}
	if (mode == 6) {
		PyObject* v = symbolic(&s, t, n); Py_buffer view; uint64_t y;
		VP_CHECK(vp_py_checked_int(PyObject_GetBuffer(v, &view, 0)) == 0, "the buffer is exported"); VP_CHECK(view.len == n * bits_[t] / 8, "the exported length");
		for (int i = 0; i < n; i++) VP_CHECK(equal(t, item_of(t, (uint8_t*)view.buf + i * bits_[t] / 8), s.v[i]), "the exported bytes");
		PyObject* x = n ? (t == FLT ? PyFloat_FromDouble((double)bf(s.v[0])) : vp_int(is_signed(t) && vp_concretize((int64_t)s.v[0] < 0), vp_concretize((int64_t)s.v[0] < 0) && is_signed(t) ? 0 - s.v[0] : s.v[0])) : 0;
		switch (vp_choice(8)) {
		case 0: failed(call1(v, "append", good_number(t, &y)), PyExc_BufferError); break;
		case 1: failed(call0(v, "pop"), n ? PyExc_BufferError : PyExc_IndexError); break;
		case 2: failed(call1(v, "pop_bulk", vp_int(0, (uint64_t)(n > 1))), PyExc_BufferError); break;
		case 3: if (x) failed(call1(v, "remove", Py_NewRef(x)), PyExc_BufferError); break;
		case 4: if (x) failed(call1(v, "fast_remove", Py_NewRef(x)), PyExc_BufferError); break;
		case 5: failed(call0(v, "clear"), PyExc_BufferError); break;
		case 6: { sh l; failed(call1(v, "append_bulk", good_list(t, 1, &l)), PyExc_BufferError); break; }
		case 7: { PyObject* a = tup1(PyUnicode_FromString("i8")); VP_CHECK(T->tp_init(v, a, 0) == -1 && vp_exc == PyExc_BufferError, "an exported vector is not initialized again"); PyErr_Clear(); Py_DECREF(a); break; }
		}
		check_items(v, &s); Py_XDECREF(x); PyBuffer_Release(&view);
		PyObject* r = call1(v, "append", good_number(t, &y)); VP_CHECK(r == Py_None, "a vector can grow again once the export is released"); push(&s, y); check_items(v, &s);
		Py_DECREF(v); VP_REACH("exported");
	}
	if (mode == 7) {
		sh a; int ta = (int)vp_arg(3); PyObject* v = symbolic(&s, t, n); PyObject* x = stored(&a, ta, 4, 1, 2); int fine = (ta == FLT) == (t == FLT);
		if (fine && t != FLT) for (int i = 0; i < a.n; i++) { int neg = is_signed(ta) && (int64_t)a.v[i] < 0; fine &= fits(t, neg, neg ? 0 - a.v[i] : a.v[i]); }
		fine = (int)vp_concretize(fine);
		PyObject* r = call1(v, "append_bulk", x);
		if (fine) { VP_CHECK(r == Py_None, "a stored vector is appended"); push(&s, a.v[0]); push(&s, a.v[1]); VP_REACH("stored appended"); } else { VP_CHECK(r == 0, "a stored vector that does not fit is refused"); PyErr_Clear(); VP_REACH("stored refused"); }
		check_items(v, &s); Py_DECREF(v);
	}
	PyErr_Clear();
	VP_CHECK(vp_heap_live() == base, "no object or buffer is leaked");
	VP_OUT(mode);
	return 0;
}
