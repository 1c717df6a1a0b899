// Python objects for shadow values (pv.h), and documents opened from Python.
#ifndef VP_PYPV_H
#define VP_PYPV_H
#include <Python.h>
#include "pv.h"
#include "py.h"
#include "pointless_ext.h"
uint32_t PyPointlessBitvector_is_set(PyPointlessBitvector* self, uint32_t i);
static void py_types(void)
{
	static PyTypeObject* const t[] = { &PyPointlessType, &PyPointlessVectorType, &PyPointlessVectorIterType, &PyPointlessVectorRevIterType, &PyPointlessBitvectorType, &PyPointlessBitvectorIterType,
		&PyPointlessSetType, &PyPointlessSetIterType, &PyPointlessMapType, &PyPointlessMapKeyIterType, &PyPointlessMapValueIterType, &PyPointlessMapItemIterType, &PyPointlessPrimVectorType, &PyPointlessPrimVectorIterType };
	vp_py_init();
	for (unsigned i = 0; i < sizeof t / sizeof t[0]; i++) PyType_Ready(t[i]);
}
static PyObject* py_kw1(const char* k, PyObject* v) { PyObject* d = vp_dict_new(); vp_dict_add(d, PyUnicode_FromString(k), v); return d; }
static PyObject* py_call0(PyObject* v, const char* m) { return vp_py_call(v, m, 0); }
static PyObject* py_call1(PyObject* v, const char* m, PyObject* a) { Py_INCREF(a); PyObject* t = vp_tuple(1, a, 0, 0, 0); PyObject* r = vp_py_call(v, m, t); Py_DECREF(t); return r; }
static int py_raised(PyObject* r, PyObject* exc) { int ok = r == 0 && vp_exc == exc; vp_exc = 0; Py_XDECREF(r); return ok; }
static const char* const py_codes[9] = { "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f" };
static PyObject* py_item(uint32_t type, int64_t x)
{
	if (type == POINTLESS_VECTOR_FLOAT) return PyFloat_FromDouble((double)pv_f((uint32_t)x));
	if (type == POINTLESS_VECTOR_U64) return vp_int(0, (uint64_t)x);
	return PyLong_FromLongLong(x);
}
// the object a user would write down for the value
// text a Python string can hold
static void py_text(const mv* m)
{
	uint32_t i;
	if (m->k == K_UCS) for (i = 0; i < m->n; i++) VP_ASSUME(m->it[i] <= 0x10FFFF);
	if (m->k >= K_VEC && m->k != K_PRIM) for (i = 0; i < m->n; i++) { if (m->k != K_BV) py_text(m->c[i]); if (m->k == K_MAP) py_text(m->d[i]); }
}
static int py_lists, py_frozen, py_bytes; // vectors as lists, sets as frozen sets, bytes as bytearrays
static PyObject* py_of(mv* m)
{
	uint32_t i; PyObject* o = 0;
	switch (m->k) {
	case K_NULL: return Py_None;
	case K_BOOL: return PyBool_FromLong(vp_concretize((int)m->u));
	case K_I32: case K_U32: return PyLong_FromLongLong(pv_int(m));
	case K_FLT: return PyFloat_FromDouble((double)pv_f(m->u));
	case K_UCS: case K_STR: { uint32_t s[PV_N + 1]; for (i = 0; i < m->n; i++) s[i] = (uint32_t)m->it[i]; return PyUnicode_FromKindAndData(4, s, m->n); }
	case K_VEC:
		o = py_lists ? vp_list(m->n) : PyTuple_New(m->n);
		for (i = 0; i < m->n; i++) { PyObject* x = py_of(m->c[i]); if (py_lists) ((PyListObject*)o)->ob_item[i] = x; else ((PyTupleObject*)o)->ob_item[i] = x; }
		return o;
	case K_SET: o = vp_set_new(py_frozen); for (i = 0; i < m->n; i++) { PyObject* x = py_of(m->c[i]); vp_dict_add(o, x, 0); } return o;
	case K_MAP: o = vp_dict_new(); for (i = 0; i < m->n; i++) { PyObject* x = py_of(m->c[i]); PyObject* y = py_of(m->d[i]); vp_dict_add(o, x, y); } return o;
	case K_BV: case K_PRIM: {
		if (py_bytes && m->k == K_PRIM && m->type == POINTLESS_VECTOR_U8) { char b[PV_N + 1]; for (i = 0; i < m->n; i++) b[i] = (char)m->it[i]; return PyByteArray_FromStringAndSize(b, m->n); }
		PyObject* l = PyTuple_New(m->n); PyObject* a = PyTuple_New(0);
		for (i = 0; i < m->n; i++) ((PyTupleObject*)l)->ob_item[i] = m->k == K_BV ? PyBool_FromLong(vp_concretize((m->raw[i / 8] >> (i % 8)) & 1)) : py_item(m->type, m->it[i]);
		PyObject* k = py_kw1("sequence", l);
		if (m->k == K_PRIM) for (i = 0; i < 9; i++) if (pv_prim_types[i] == m->type) { Py_DECREF(a); PyObject* s = PyUnicode_FromString(py_codes[i]); a = vp_tuple(1, s, 0, 0, 0); }
		o = vp_py_new(m->k == K_BV ? &PyPointlessBitvectorType : &PyPointlessPrimVectorType, a, k);
		Py_DECREF(a); Py_DECREF(k);
		VP_CHECK(o != 0, "a bit vector or primitive vector can be made");
		return o; }
	}
	return 0;
}
// a document opened from its bytes
static PyPointless* py_open(const void* buf, size_t len)
{
	PyObject* b = PyByteArray_FromStringAndSize(buf, (Py_ssize_t)len);
	PyObject* a = vp_tuple(1, b, 0, 0, 0);
	PyObject* pp = vp_py_new(&PyPointlessType, a, 0);
	Py_DECREF(a);
	return (PyPointless*)pp;
}
static PyObject* py_root(PyPointless* pp) { return vp_py_checked(py_call0((PyObject*)pp, "GetRoot")); }
// the same float; NaN payloads are not compared
static int py_is_float(PyObject* o, uint32_t bits) { if (!o || !PyFloat_Check(o)) return 0; double d = PyFloat_AS_DOUBLE(o), x = (double)pv_f(bits); return d == x || (d != d && x != x); }
static int py_is_number(PyObject* o, const mv* m)
{
	if (m->k == K_FLT) return py_is_float(o, m->u);
	int64_t v = pv_int(m);
	return PyLong_Check(o) && !PyBool_Check(o) && vp_is_int(o, v < 0, v < 0 ? 0 - (uint64_t)v : (uint64_t)v);
}
// whether the object a document hands out is that value; vectors from slice_i on
static int py_is(PyObject* o, mv* m)
{
	uint32_t i, j; int ok = 1;
	if (o == 0) return 0;
	switch (m->k) {
	case K_NULL: return o == Py_None;
	case K_BOOL: return (o == Py_True) == (m->u != 0) && PyBool_Check(o);
	case K_I32: case K_U32: case K_FLT: return py_is_number(o, m);
	case K_UCS: case K_STR:
		if (!PyUnicode_Check(o) || PyUnicode_GET_LENGTH(o) != (Py_ssize_t)m->n) return 0;
		for (i = 0; i < m->n; i++) ok &= (int64_t)PyUnicode_READ_CHAR(o, i) == m->it[i];
		return ok;
	case K_BV:
		if (!PyPointlessBitvector_Check(o) || Py_TYPE(o)->tp_as_mapping->mp_length(o) != (Py_ssize_t)m->n) return 0;
		for (i = 0; i < m->n; i++) ok &= (PyPointlessBitvector_is_set((PyPointlessBitvector*)o, i) != 0) == ((m->raw[i / 8] >> (i % 8)) & 1);
		return ok;
	case K_VEC: case K_PRIM:
		if (!PyPointlessVector_Check(o) || Py_TYPE(o)->tp_as_sequence->sq_length(o) != (Py_ssize_t)m->n) return 0;
		for (i = 0; ok && i < m->n; i++) {
			PyObject* x = vp_py_checked(Py_TYPE(o)->tp_as_sequence->sq_item(o, i));
			if (m->k == K_VEC) ok &= py_is(x, m->c[i]);
			else if (m->type == POINTLESS_VECTOR_FLOAT) ok &= py_is_float(x, (uint32_t)m->it[i]);
			else if (m->type == POINTLESS_VECTOR_U64) ok &= vp_is_int(x, 0, (uint64_t)m->it[i]);
			else ok &= vp_is_int(x, m->it[i] < 0, m->it[i] < 0 ? 0 - (uint64_t)m->it[i] : (uint64_t)m->it[i]);
			Py_XDECREF(x);
		}
		return ok;
	case K_SET: case K_MAP: {
		if (m->k == K_SET ? !PyPointlessSet_Check(o) : !PyPointlessMap_Check(o)) return 0;
		if (Py_TYPE(o)->tp_as_mapping->mp_length(o) != (Py_ssize_t)m->n) return 0;
		PyObject* it = vp_py_checked(m->k == K_SET ? Py_TYPE(o)->tp_iter(o) : py_call0(o, "items")); PyObject* x; uint32_t cnt = 0;
		while (ok && (x = vp_py_next(it)) != 0) {
			PyObject* k = m->k == K_SET ? x : ((PyTupleObject*)x)->ob_item[0];
			for (j = 0; j < m->n; j++) if (py_is(k, m->c[j]) && (m->k == K_SET || py_is(((PyTupleObject*)x)->ob_item[1], m->d[j]))) break;
			ok &= j < m->n; cnt++;
			Py_DECREF(x);
		}
		Py_DECREF(it);
		return ok && cnt == m->n; }
	}
	return 0;
}
#endif
