// Serialization of Python objects, read back through the views of the opened document.
// mode 0: objects of every kind; 1: containers with hashed items; 2: stored views and slices of them serialized again;
// 3: refused objects; 4: shared and cyclic lists; 5: numbers; 6: text
#include "pypv.h"
PyObject* pointless_write_object_to_primvector(PyObject* self, PyObject* args, PyObject* kwds); PyObject* pointless_write_object_to_bytearray(PyObject* self, PyObject* args, PyObject* kwds);
static mv* value(uint32_t depth, uint32_t width, uint32_t len)
{
	uint32_t i, k = vp_choice(depth ? 4 : 2);
	if (k == 0) return pv_any_leaf(len);
	if (k == 1) { uint32_t t = vp_choice(9), n = vp_choice(width + 1); return pv_prim(pv_prim_types[t], n, 0); }
	if (k == 2) { mv* m = pv_vec(vp_choice(width + 1)); for (i = 0; i < m->n; i++) m->c[i] = value(depth - 1, width, len); return m; }
	mv* m = vp_choice(2) ? pv_map(1) : pv_set(1); m->c[0] = pv_any_leaf(len); m->d[0] = value(depth - 1, width, len); VP_ASSUME(!pv_has_nan(m->c[0]));
	return m;
}
// a container with n hashed items
static mv* hashed(uint32_t n, uint32_t len)
{
	mv* m = vp_choice(2) ? pv_map(n) : pv_set(n); uint32_t i, j;
	for (i = 0; i < n; i++) {
		if (vp_choice(2)) m->c[i] = pv_any_leaf(len); else { m->c[i] = pv_vec(1); m->c[i]->c[0] = pv_any_leaf(len); }
		m->d[i] = pv_u32(i);
		VP_ASSUME(!pv_has_nan(m->c[i])); for (j = 0; j < i; j++) VP_ASSUME(!pv_same(m->c[i], m->c[j]));
	}
	return m;
}
static int to_bytes, unwiden, keep;
// serializes an object; takes it over
static PyObject* write_out(PyObject* o)
{
	PyObject* a = vp_tuple(1, o, 0, 0, 0); PyObject* k = vp_dict_new();
	if (unwiden) vp_dict_add(k, PyUnicode_FromString("unwiden_strings"), Py_True);
	if (keep) vp_dict_add(k, PyUnicode_FromString("normalize_bitvector"), Py_False);
	PyObject* r = vp_py_checked(to_bytes ? pointless_write_object_to_bytearray(0, a, k) : pointless_write_object_to_primvector(0, a, k));
	Py_DECREF(a); Py_DECREF(k);
	return r;
}
static PyPointless* open_up(PyObject* buf)
{
	PyObject* a = vp_tuple(1, buf, 0, 0, 0); PyPointless* pp = (PyPointless*)vp_py_new(&PyPointlessType, a, 0);
	Py_DECREF(a);
	VP_CHECK(pp != 0, "a serialized object can be opened");
	return pp;
}
static PyPointless* through(PyObject* o)
{
	PyObject* b = write_out(o);
	VP_CHECK(b != 0, "an object can be serialized"); if (!b) return 0;
	VP_CHECK(to_bytes ? PyByteArray_Check(b) : PyPointlessPrimVector_Check(b), "the bytes come in the kind of buffer asked for");
	return open_up(b);
}
static void forms(uint32_t f) { to_bytes = (int)vp_choice(2); unwiden = f ? (int)vp_choice(2) : 0; py_lists = f > 1 ? (int)vp_choice(2) : 0; py_frozen = !py_lists; py_bytes = py_lists; }
static void there_and_back(mv* m)
{
	py_text(m);
	PyPointless* pp = through(py_of(m)); if (!pp) return;
	PyObject* r = py_root(pp); VP_CHECK(py_is(r, m), "the object read back is the one written"); Py_XDECREF(r);
	Py_DECREF((PyObject*)pp);
	VP_REACH("there and back");
}
static void views(uint32_t kind, uint32_t n, uint32_t len)
{
	pointless_create_t c; void* buf = 0; size_t bl = 0; const char* error = 0; uint32_t i;
	mv* root = pv_vec(2); mv* m = kind == 0 ? pv_prim(pv_prim_types[vp_arg(4)], n, 0) : kind == 1 ? pv_vec(n) : kind == 2 ? hashed(n, len) : pv_bv(vp_choice(len + 1));
	if (kind == 1) for (i = 0; i < n; i++) m->c[i] = i == 0 ? pv_any_leaf(len) : i == 1 ? pv_any_number() : pv_null();
	root->c[0] = m; root->c[1] = pv_null(); py_text(root);
	pv_begin(&c); pointless_create_set_root(&c, pv_make(&c, root));
	VP_CHECK(pointless_create_output_and_end_b(&c, &buf, &bl, &error), "a document can be written"); if (!buf) return;
	PyPointless* pp = py_open(buf, bl); free(buf); if (!pp) return;
	PyObject* r = py_root(pp); PyObject* v = vp_py_checked(Py_TYPE(r)->tp_as_sequence->sq_item(r, 0)); Py_DECREF(r);
	uint32_t lo = 0, hi = n;
	if (kind < 2 && vp_choice(2)) { // a part of the vector
		lo = vp_choice(n + 1); hi = lo + vp_choice(n - lo + 1); PyObject* a = PyLong_FromLong(lo); PyObject* b = PyLong_FromLong(hi); PyObject* s = PySlice_New(a, b, Py_None); Py_DECREF(a); Py_DECREF(b);
		PyObject* w = vp_py_checked(Py_TYPE(v)->tp_as_mapping->mp_subscript(v, s)); Py_DECREF(s); Py_DECREF(v); v = w;
		mv* p = pv_new(m->k); p->type = m->type; p->n = hi - lo; for (i = lo; i < hi; i++) { if (m->k == K_VEC) p->c[i - lo] = m->c[i]; else p->it[i - lo] = m->it[i]; } m = p;
	}
	mv* whole = pv_vec(3); whole->c[0] = m; whole->c[1] = pv_null(); whole->c[2] = m;
	PyObject* o = vp_list(3); PyObject** it = ((PyListObject*)o)->ob_item; it[0] = v; it[1] = Py_None; it[2] = Py_NewRef(v);
	PyPointless* q = through(o); Py_DECREF((PyObject*)pp); if (!q) return;
	r = py_root(q); VP_CHECK(py_is(r, whole), "a stored view serialized again is the same value"); Py_XDECREF(r); Py_DECREF((PyObject*)q);
	VP_REACH("views");
}
static PyObject* text32(uint32_t a, uint32_t b, uint32_t c) { uint32_t s[3]; s[0] = a; s[1] = b; s[2] = c; return PyUnicode_FromKindAndData(4, s, 3); }
static void refused(uint32_t how, uint32_t place)
{
	PyObject* o; PyObject* k; uint64_t mag; uint32_t x, y;
	switch (how) {
	case 0: o = vp_other(); break;
	case 1: o = vp_huge(vp_bool()); break;
	case 2: mag = vp_u64(); VP_ASSUME(mag > 0xFFFFFFFFull); o = vp_int(0, mag); break;
	case 3: mag = vp_u64(); VP_ASSUME(mag > 0x80000000ull); o = vp_int(1, mag); break;
	case 4: x = vp_u32(); y = vp_u32(); VP_ASSUME(x <= 0x10FFFF && y <= 0x10FFFF); o = vp_choice(2) ? text32(x, 0, y) : text32(x, y, 0); break;
	default: o = PySlice_New(Py_None, Py_None, Py_None); break;
	}
	switch (place) {
	case 0: break;
	case 1: o = vp_tuple(3, text32(97, 98, 99), o, Py_None, 0); break;
	case 2: k = vp_dict_new(); vp_dict_add(k, text32(97, 98, 99), vp_tuple(0, 0, 0, 0, 0)); vp_dict_add(k, vp_int(0, 1), o); o = k; break;
	case 3: k = vp_dict_new(); vp_dict_add(k, o, vp_tuple(0, 0, 0, 0, 0)); o = k; break;
	case 4: k = vp_set_new(0); vp_dict_add(k, vp_int(0, 7), 0); vp_dict_add(k, o, 0); o = k; break;
	default: k = vp_list(2); ((PyListObject*)k)->ob_item[0] = PyByteArray_FromStringAndSize("ab", 2); ((PyListObject*)k)->ob_item[1] = vp_tuple(1, o, 0, 0, 0); o = k; break;
	}
	PyObject* r = write_out(o); VP_CHECK(py_raised(r, PyExc_ValueError), "an object which cannot be stored is refused");
	VP_REACH("refused");
}
// n lists whose two items are lists or numbers, as chosen: sharing and cycles are kept
static void graph(uint32_t n)
{
	PyObject* l[4]; uint32_t to[4][2], i, j, k, val = vp_u32();
	for (i = 0; i < n; i++) l[i] = vp_list(2);
	for (i = 0; i < n; i++) for (j = 0; j < 2; j++) { k = to[i][j] = vp_choice(n + 1); ((PyListObject*)l[i])->ob_item[j] = k < n ? Py_NewRef(l[k]) : vp_int(0, val); }
	PyObject* o = l[0]; Py_INCREF(o);
	PyPointless* pp = through(o); if (!pp) return;
	// walk both together: equal list, equal container
	uint32_t queue[4], q = 1, h; PyObject* seen[4]; uint32_t id[4];
	for (i = 0; i < n; i++) seen[i] = 0;
	queue[0] = 0; seen[0] = py_root(pp);
	for (h = 0; h < q; h++) {
		PyPointlessVector* v = (PyPointlessVector*)seen[queue[h]]; i = queue[h];
		VP_CHECK(v && PyPointlessVector_Check((PyObject*)v) && v->slice_n == 2, "a list is read back as a vector"); if (!v) return;
		id[i] = v->container_id;
		for (j = 0; j < 2; j++) {
			PyObject* x = vp_py_checked(Py_TYPE(v)->tp_as_sequence->sq_item((PyObject*)v, j)); k = to[i][j];
			if (k == n) VP_CHECK(vp_is_int(x, 0, val), "a number is read back");
			else {
				VP_CHECK(x && PyPointlessVector_Check(x), "a list is read back as a vector"); if (!x) return;
				if (seen[k]) VP_CHECK(((PyPointlessVector*)x)->v.data.data_u32 == ((PyPointlessVector*)seen[k])->v.data.data_u32 && ((PyPointlessVector*)x)->container_id == ((PyPointlessVector*)seen[k])->container_id, "one list is stored once");
				else { seen[k] = Py_NewRef(x); queue[q++] = k; }
			}
			Py_XDECREF(x);
		}
	}
	for (h = 0; h < q; h++) for (i = 0; i < h; i++) VP_CHECK(id[queue[h]] != id[queue[i]], "different lists are different containers");
	for (i = 0; i < n; i++) Py_XDECREF(seen[i]);
	for (i = 0; i < n; i++) for (j = 0; j < 2; j++) { PyObject** s = &((PyListObject*)l[i])->ob_item[j]; PyObject* x = *s; *s = Py_None; Py_XDECREF(x); }
	for (i = 0; i < n; i++) Py_DECREF(l[i]);
	Py_DECREF((PyObject*)pp);
	VP_REACH("graph");
}
int main()
{
	uint32_t mode = vp_arg(0), a1 = vp_arg(1), a2 = vp_arg(2), a3 = vp_arg(3), i;
	py_types();
	pv_bits = vp_arg(5);
	forms(mode == 3 ? 0 : mode == 6 ? 1 : mode == 4 ? 0 : 2); if (mode == 0 || mode == 2) keep = (int)vp_choice(2);
	if (mode == 0) there_and_back(value(a1, a2, a3));
	else if (mode == 1) { py_lists = 0; there_and_back(hashed(a1, a2)); }
	else if (mode == 2) views(a1, a2, a3);
	else if (mode == 3) refused(a1, a2);
	else if (mode == 4) graph(a1);
	else if (mode == 5) { mv* m = pv_vec(a1); for (i = 0; i < a1; i++) m->c[i] = pv_any_number(); there_and_back(m); }
	else { mv* m = pv_vec(2); m->c[0] = vp_choice(2) ? pv_ucs(a1) : pv_str(a1); m->c[1] = vp_choice(2) ? pv_ucs(a1) : pv_str(a1); there_and_back(m); }
	VP_CHECK(vp_exc == 0, "no exception is left pending");
	VP_CHECK(vp_heap_live() == 0, "no memory left allocated");
	return 0;
}
