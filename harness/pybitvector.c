// PointlessBitvector objects against a plain list of bits.
// mode 0: a history of operations; 1: built from a sequence; 2: two vectors compared, hashed, copied;
// 3: item assignment and access with any index and value; 4: any size, any extension
#include <Python.h>
#include "vp.h"
#include "py.h"
#include "pointless_ext.h"
uint32_t PyPointlessBitvector_n_items(PyPointlessBitvector* self);
uint32_t PyPointlessBitvector_is_set(PyPointlessBitvector* self, uint32_t i);
static void pp_dealloc(PyObject* o) { pointless_close(&((PyPointless*)o)->p); free(o); }
PyTypeObject PyPointlessType = { .tp_name = "pointless", .tp_basicsize = sizeof(PyPointless), .tp_dealloc = pp_dealloc };
#define CAP 80
typedef struct { int n; uint8_t b[CAP]; } sh;
#define T (&PyPointlessBitvectorType)
static PyObject* call0(PyObject* v, const char* m) { return vp_py_call(v, m, 0); }
static PyObject* call1(PyObject* v, const char* m, PyObject* a) { PyObject* t = vp_tuple(1, a, 0, 0, 0); PyObject* r = vp_py_call(v, m, t); Py_DECREF(t); return r; }
static PyObject* py_bool(int b) { return PyBool_FromLong(vp_concretize(b)); }
static PyObject* kw1(const char* k, PyObject* v) { PyObject* d = vp_dict_new(); vp_dict_add(d, PyUnicode_FromString(k), v); return d; }
static PyObject* make(const char* k, PyObject* v)
{
	PyObject* a = PyTuple_New(0); PyObject* d = k ? kw1(k, v) : 0;
	PyObject* o = vp_py_new(T, a, d);
	Py_DECREF(a); Py_XDECREF(d);
	return o;
}
static int is(PyObject* o, PyObject* what) { int r = o == what; Py_XDECREF(o); return r; }
static int is_int(PyObject* o, uint64_t v) { int r = vp_is_int(o, 0, v); Py_XDECREF(o); return r; }
static void check_bits(PyObject* v, const sh* s)
{
	VP_CHECK(Py_TYPE(v)->tp_as_mapping->mp_length(v) == s->n, "length of the bit vector");
	int all = 1;
	for (int i = 0; i < s->n; i++) all &= PyPointlessBitvector_is_set((PyPointlessBitvector*)v, i) == s->b[i];
	VP_CHECK(all, "every bit is the one put there");
}
static void check_counts(PyObject* v, const sh* s)
{
	int z0 = 0, z1 = 0, o0 = 0, o1 = 0, any = 0, r;
	for (int i = 0; i < s->n; i++) any |= s->b[i];
	VP_CHECK(is(call0(v, "IsAnySet"), vp_concretize(any) ? Py_True : Py_False), "IsAnySet tells whether a bit is set");
	for (r = 1; z0 < s->n; z0++) { r = s->b[z0]; if (r) break; }
	VP_CHECK(is_int(call0(v, "NumZeroPrefix"), z0), "NumZeroPrefix");
	for (; z1 < s->n; z1++) if (s->b[s->n - 1 - z1]) break;
	VP_CHECK(is_int(call0(v, "NumZeroPostfix"), z1), "NumZeroPostfix");
	for (; o0 < s->n; o0++) if (!s->b[o0]) break;
	VP_CHECK(is_int(call0(v, "NumOnePrefix"), o0), "NumOnePrefix");
	for (; o1 < s->n; o1++) if (!s->b[s->n - 1 - o1]) break;
	VP_CHECK(is_int(call0(v, "NumOnePostfix"), o1), "NumOnePostfix");
}
static void check_hash(PyObject* v, const sh* s)
{
	uint8_t raw[CAP / 8]; memset(raw, 0, sizeof raw);
	for (int i = 0; i < s->n; i++) raw[i / 8] |= (uint8_t)(s->b[i] << (i % 8));
	VP_CHECK(pointless_pybitvector_hash_32((PyPointlessBitvector*)v) == pointless_bitvector_hash_n_bits_bits_32(s->n, raw), "the stored-key hash depends on the bits only");
	VP_CHECK(Py_TYPE(v)->tp_hash(v) == (Py_hash_t)pointless_bitvector_hash_n_bits_bits_64(s->n, raw), "the hash depends on the bits only");
}
static void check_iter(PyObject* v, const sh* s)
{
	PyObject* it = vp_py_checked(Py_TYPE(v)->tp_iter(v));
	VP_CHECK(it != 0, "iterating works");
	for (int i = 0; i < s->n; i++) { PyObject* x = vp_py_next(it); VP_CHECK(x == (vp_concretize(s->b[i]) ? Py_True : Py_False), "iteration yields the bits in order"); }
	VP_CHECK(vp_py_next(it) == 0 && !vp_exc, "iteration ends after the last bit");
	VP_CHECK(vp_py_next(it) == 0 && !vp_exc, "an exhausted iterator stays exhausted");
	Py_DECREF(it);
}
static PyObject* symbolic(sh* s, int n)
{
	PyObject* z = vp_int(0, (uint64_t)n); PyObject* v = make("size", z);
	VP_CHECK(v != 0, "a vector of that size is made");
	s->n = n;
	for (int i = 0; i < n; i++) { s->b[i] = (uint8_t)vp_bool(); PyObject* ix = vp_int(0, (uint64_t)i); PyObject* x = vp_int(0, s->b[i]);
		VP_CHECK(vp_py_checked_int(Py_TYPE(v)->tp_as_mapping->mp_ass_subscript(v, ix, x)) == 0, "a bit is set"); Py_DECREF(ix); Py_DECREF(x); }
	return v;
}
// the same bits stored in a document
static PyObject* stored(const sh* s)
{
	uint8_t raw[CAP / 8 + 1]; memset(raw, 0, sizeof raw); const char* err = 0; void* buf = 0; size_t len = 0; pointless_create_t c;
	for (int i = 0; i < s->n; i++) raw[i / 8] |= (uint8_t)(s->b[i] << (i % 8));
	pointless_create_begin_64(&c);
	uint32_t h = pointless_create_bitvector(&c, raw, s->n);
	VP_CHECK(h != POINTLESS_CREATE_VALUE_FAIL, "created");
	pointless_create_set_root(&c, h);
	VP_CHECK(pointless_create_output_and_end_b(&c, &buf, &len, &err), "serialized");
	PyPointless* pp = PyObject_New(PyPointless, &PyPointlessType);
	pp->is_open = 1; pp->allow_print = 1; pp->n_bitvector_refs = 0;
	VP_CHECK(pointless_open_b(&pp->p, buf, len, &err), "opened"); free(buf);
	pointless_value_t root = *pointless_root(&pp->p) ;
	PyObject* v = (PyObject*)PyPointlessBitvector_New(pp, &root);
	Py_DECREF(pp);
	return v;
}
static void push(sh* s, int b) { if (s->n >= CAP) vp_fail_limit("bits"); s->b[s->n++] = (uint8_t)b; }
static void op(PyObject* v, sh* s, int o)
{
	switch (o) {
	case 0: { int b = (int)vp_concretize(vp_bool()); VP_CHECK(is(call1(v, "append", PyBool_FromLong(b)), Py_None), "append"); push(s, b); break; }
	case 1: {
		PyObject* r = call0(v, "pop");
		if (s->n == 0) { VP_CHECK(r == 0 && vp_exc == PyExc_IndexError, "pop from an empty vector is an IndexError"); PyErr_Clear(); VP_REACH("pop empty"); break; }
		s->n--; VP_CHECK(r == (vp_concretize(s->b[s->n]) ? Py_True : Py_False), "pop returns the last bit"); VP_REACH("pop"); break; }
	case 2: case 3: { uint32_t k = vp_choice(10); VP_CHECK(is(call1(v, o == 2 ? "extend_true" : "extend_false", vp_int(0, k)), Py_None), "extend"); for (uint32_t i = 0; i < k; i++) push(s, o == 2); break; }
	case 4: { // append_bulk of another vector, or of itself
		sh t; PyObject* w;
		if (vp_choice(2)) { t = *s; w = Py_NewRef(v); VP_REACH("append to itself"); } else w = symbolic(&t, (int)vp_choice(4));
		VP_CHECK(is(call1(v, "append_bulk", w), Py_None), "append_bulk");
		for (int i = 0; i < t.n; i++) push(s, t.b[i]);
		break; }
	case 5: { if (!s->n) break; uint32_t i = vp_choice(s->n); int b = vp_bool(); PyObject* ix = vp_choice(2) ? vp_int(0, i) : vp_int(1, s->n - i); PyObject* x = py_bool(b);
		VP_CHECK(vp_py_checked_int(Py_TYPE(v)->tp_as_mapping->mp_ass_subscript(v, ix, x)) == 0, "item assignment"); s->b[i] = (uint8_t)vp_concretize(b); Py_DECREF(ix); VP_REACH("set"); break; }
	case 6: { PyObject* c = call0(v, "copy"); VP_CHECK(c != 0 && c != v, "copy"); VP_CHECK(((PyPointlessBitvector*)c)->allow_print == ((PyPointlessBitvector*)v)->allow_print, "a copy prints like the original"); check_bits(c, s); check_counts(c, s); check_hash(c, s);
		PyObject* e = vp_py_checked(Py_TYPE(v)->tp_richcompare(v, c, Py_EQ)); VP_CHECK(e == Py_True, "a copy is equal"); Py_DECREF(c); VP_REACH("copy"); break; }
	}
}
static int ref_cmp(const sh* a, const sh* b) { for (int i = 0; i < a->n && i < b->n; i++) if (a->b[i] != b->b[i]) return a->b[i] < b->b[i] ? -1 : 1; return a->n < b->n ? -1 : a->n > b->n; }
int main(void)
{
	int mode = (int)vp_arg(0);
	vp_py_init(); PyType_Ready(T); PyType_Ready(&PyPointlessBitvectorIterType); PyType_Ready(&PyPointlessType);
	uint64_t base = vp_heap_live();
	if (mode == 0) {
		sh s; int n0 = (int)vp_arg(1); PyObject* v = symbolic(&s, n0);
		for (int k = 0; k < 4 && vp_arg(2 + k) != 99; k++) { op(v, &s, (int)vp_arg(2 + k)); check_bits(v, &s); }
		check_counts(v, &s); check_hash(v, &s); check_iter(v, &s);
		Py_DECREF(v);
	}
	if (mode == 1) {
		int n = (int)vp_arg(1), good = 1; sh s; s.n = 0; PyObject* l = vp_list(n);
		for (int i = 0; i < n; i++) {
			PyObject* x = 0; int k = (int)vp_choice(5);
			switch (k) {
			case 0: x = Py_True; push(&s, 1); break;
			case 1: x = Py_False; push(&s, 0); break;
			case 2: { uint64_t m = vp_u64(); int neg = vp_bool(); x = vp_int(neg, m); int ok = m <= 1 && !(neg && m); push(&s, (int)(m & 1)); good &= ok; break; }
			case 3: x = vp_other(); good = 0; break;
			case 4: x = vp_huge((int)vp_choice(2)); good = 0; break;
			}
			((PyListObject*)l)->ob_item[i] = x;
		}
		PyObject* src = l; int fail = (int)vp_arg(2);
		if (fail != 99) { src = vp_failing_iter(l, fail); Py_DECREF(l); good = 0; }
		PyObject* v = make("sequence", src);
		VP_CHECK((v != 0) == vp_concretize(good), "a sequence is accepted exactly when it is all True, False, 0 or 1");
		if (v) { check_bits(v, &s); check_counts(v, &s); VP_REACH("sequence"); Py_DECREF(v); }
		else { VP_CHECK(vp_exc == PyExc_ValueError || vp_exc == PyExc_RuntimeError, "the exception of a bad sequence"); VP_REACH("bad sequence"); }
	}
	if (mode == 2) {
		sh a, b; PyObject* x = symbolic(&a, (int)vp_arg(1)); PyObject* y = symbolic(&b, (int)vp_arg(2));
		if (vp_arg(3) & 1) { PyObject* o = stored(&a); Py_DECREF(x); x = o; }
		if (vp_arg(3) & 2) { PyObject* o = stored(&b); Py_DECREF(y); y = o; }
		if (vp_arg(3) & 4) { if (a.n) { a.n--; is(call0(x, "pop"), 0); } }    // leftovers behind the last bit
		int c = (int)vp_concretize(ref_cmp(&a, &b) + 1) - 1;
		for (int o = Py_LT; o <= Py_GE; o++) {
			PyObject* r = vp_py_checked(Py_TYPE(x)->tp_richcompare(x, y, o));
			int want = o == Py_LT ? c < 0 : o == Py_LE ? c <= 0 : o == Py_EQ ? c == 0 : o == Py_NE ? c != 0 : o == Py_GT ? c > 0 : c >= 0;
			VP_CHECK(r == (want ? Py_True : Py_False), "bit vectors compare like lists of bits");
		}
		check_bits(x, &a); check_hash(x, &a); check_hash(y, &b);
		if (vp_arg(4)) { check_counts(x, &a); check_iter(x, &a); op(x, &a, 6); }
		if (vp_arg(3) & 1) {
			PyObject* e = call0(x, "pop"); VP_CHECK(e == 0 && vp_exc == PyExc_ValueError, "a stored vector cannot be changed"); PyErr_Clear();
			e = call1(x, "append", Py_True); VP_CHECK(e == 0 && vp_exc == PyExc_ValueError, "a stored vector cannot be changed"); PyErr_Clear();
			e = call1(x, "extend_true", vp_int(0, 1)); VP_CHECK(e == 0 && vp_exc == PyExc_ValueError, "a stored vector cannot be changed"); PyErr_Clear();
			e = call1(x, "append_bulk", Py_NewRef(y)); VP_CHECK(e == 0 && vp_exc == PyExc_ValueError, "a stored vector cannot be changed"); PyErr_Clear();
			PyObject* ix = vp_int(0, 0); VP_CHECK(vp_py_checked_int(Py_TYPE(x)->tp_as_mapping->mp_ass_subscript(x, ix, Py_True)) < 0, "a stored vector cannot be changed"); PyErr_Clear(); Py_DECREF(ix);
			check_bits(x, &a); VP_REACH("read only");
		}
		Py_DECREF(x); Py_DECREF(y);
	}
	if (mode == 3) {
		sh s; PyObject* v = symbolic(&s, (int)vp_arg(1)); int neg = vp_bool(); uint64_t m = vp_u64(); PyObject* ix; int kind = (int)vp_choice(3);
		ix = kind == 0 ? vp_int(neg, m) : kind == 1 ? vp_huge(neg) : vp_other();
		int in = kind == 0 && (neg && m ? m <= (uint64_t)s.n : m < (uint64_t)s.n); in = (int)vp_concretize(in);
		uint64_t i = in ? vp_concretize(neg && m ? s.n - m : m) : 0;
		PyObject* want = in ? (vp_concretize(s.b[i]) ? Py_True : Py_False) : 0;
		PyObject* r = vp_py_checked(Py_TYPE(v)->tp_as_mapping->mp_subscript(v, ix));
		VP_CHECK(r == want, "an index delivers that bit or fails");
		if (!in) { VP_CHECK(vp_exc == (kind == 2 ? PyExc_TypeError : PyExc_IndexError), "the exception of a bad index"); PyErr_Clear(); VP_REACH("bad index"); } else VP_REACH("good index");
		int vk = (int)vp_choice(4); uint64_t xm = vp_u64(); int xn = vp_bool(); PyObject* x = vk == 0 ? py_bool((int)(xm & 1)) : vk == 1 ? vp_int(xn, xm) : vk == 2 ? vp_huge(xn) : vp_other();
		int good = in && (vk == 0 || (vk == 1 && (xm == 0 || (xm == 1 && !xn)))); good = (int)vp_concretize(good);
		int rc = vp_py_checked_int(Py_TYPE(v)->tp_as_mapping->mp_ass_subscript(v, ix, x));
		VP_CHECK((rc == 0) == good, "only 0, 1, True and False at a valid index can be assigned");
		PyErr_Clear();
		if (good) s.b[i] = (uint8_t)(xm & 1);
		check_bits(v, &s); check_counts(v, &s);
		Py_DECREF(ix); Py_DECREF(x); Py_DECREF(v);
	}
	if (mode == 4) {
		int kind = (int)vp_choice(3); uint64_t m = vp_u64(); int neg = vp_bool();
		VP_ASSUME(m <= 70 || m > UINT32_MAX);
		PyObject* z = kind == 0 ? vp_int(neg, m) : kind == 1 ? vp_huge(neg) : vp_other();
		int good = kind == 0 && m <= UINT32_MAX && !(neg && m); good = (int)vp_concretize(good);
		if (good) m = vp_concretize(m);
		if (vp_arg(1) == 0) {
			PyObject* v = make("size", z);
			VP_CHECK((v != 0) == good, "a size is accepted exactly when it is in 0..2**32-1");
			if (v) { sh s; memset(&s, 0, sizeof s); s.n = (int)m; check_bits(v, &s); check_counts(v, &s); Py_DECREF(v); VP_REACH("size"); } else { VP_CHECK(vp_exc == PyExc_ValueError || vp_exc == PyExc_OverflowError, "the exception of a bad size"); VP_REACH("bad size"); }
		} else {
			sh s; PyObject* v = symbolic(&s, 3); int t = (int)vp_choice(2);
			PyObject* r = call1(v, t ? "extend_true" : "extend_false", z);
			VP_CHECK((r == Py_None) == good, "an extension is accepted exactly when it is not negative");
			if (good) for (uint64_t i = 0; i < m; i++) push(&s, t); 
			PyErr_Clear();
			check_bits(v, &s); check_counts(v, &s); Py_DECREF(v);
		}
	}
	PyErr_Clear();
	VP_CHECK(vp_heap_live() == base, "no object or buffer is leaked");
	VP_OUT(mode);
	return 0;
}
