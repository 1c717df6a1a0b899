// A small CPython runtime for both builds: the objects, reference counts, exceptions, argument
// parsing, iteration and slicing the extension module uses.  The real headers of Python 3.12 are
// included, so the inline parts (reference counts, type checks, field access) are CPython's own.
// Integers hold a sign and a 64-bit magnitude, or are "huge" (beyond 64 bits).
#include <Python.h>
#include <structmember.h>
#include <stdarg.h>
#include <math.h>
#include "vp.h"
#include "py.h"

typedef struct { PyObject_HEAD uint64_t mag; uint32_t flags; } vp_long; // flags: 1 negative, 2 huge
typedef struct { PyObject_HEAD Py_ssize_t n; PyObject* keys[VP_PY_MAX]; PyObject* values[VP_PY_MAX]; } vp_dict;
typedef struct { PyObject_HEAD PyObject* seq; Py_ssize_t i, fail_at; } vp_iter;
static void vp_dict_dealloc(PyObject* o) { vp_dict* d = (vp_dict*)o; for (Py_ssize_t i = 0; i < d->n; i++) { Py_XDECREF(d->keys[i]); Py_XDECREF(d->values[i]); } free(o); }
static void vp_list_dealloc(PyObject* o) { PyListObject* l = (PyListObject*)o; for (Py_ssize_t i = 0; i < Py_SIZE(l); i++) Py_XDECREF(l->ob_item[i]); free(l->ob_item); free(o); }
static void vp_tuple_dealloc(PyObject* o) { PyTupleObject* t = (PyTupleObject*)o; for (Py_ssize_t i = 0; i < Py_SIZE(t); i++) Py_XDECREF(t->ob_item[i]); free(o); }
static void vp_slice_dealloc(PyObject* o) { PySliceObject* s = (PySliceObject*)o; Py_XDECREF(s->start); Py_XDECREF(s->stop); Py_XDECREF(s->step); free(o); }
static void vp_bytearray_dealloc(PyObject* o) { free(((PyByteArrayObject*)o)->ob_bytes); free(o); }
static void vp_iter_dealloc(PyObject* o) { Py_XDECREF(((vp_iter*)o)->seq); free(o); }
static void vp_plain_dealloc(PyObject* o) { free(o); }
static PyObject* vp_seq_iter(PyObject* o);
static PyObject* vp_iter_next(PyObject* o);
static PyNumberMethods vp_index_methods;
static PyObject* vp_long_index(PyObject* o) { return Py_NewRef(o); }
static int vp_bytearray_getbuffer(PyObject* o, Py_buffer* v, int flags) { return PyBuffer_FillInfo(v, o, PyByteArray_AS_STRING(o), Py_SIZE(o), 0, flags); }
static PyBufferProcs vp_bytearray_buffer = { vp_bytearray_getbuffer, 0 };

#define T_(NAME, STR, SIZE, FLAGS, DEALLOC) PyTypeObject NAME = { .ob_base = { { { _Py_IMMORTAL_REFCNT }, &PyType_Type }, 0 }, .tp_name = STR, .tp_basicsize = SIZE, .tp_flags = Py_TPFLAGS_DEFAULT | FLAGS, .tp_dealloc = DEALLOC }
T_(PyBaseObject_Type, "object", sizeof(PyObject), 0, vp_plain_dealloc);
T_(PyType_Type, "type", sizeof(PyTypeObject), Py_TPFLAGS_TYPE_SUBCLASS, 0);
T_(PyLong_Type, "int", sizeof(vp_long), Py_TPFLAGS_LONG_SUBCLASS, vp_plain_dealloc);
T_(PyBool_Type, "bool", sizeof(vp_long), Py_TPFLAGS_LONG_SUBCLASS, 0);
T_(PyFloat_Type, "float", sizeof(PyFloatObject), 0, vp_plain_dealloc);
T_(PyUnicode_Type, "str", sizeof(PyUnicodeObject), Py_TPFLAGS_UNICODE_SUBCLASS, vp_plain_dealloc);
T_(PyBytes_Type, "bytes", sizeof(PyBytesObject), Py_TPFLAGS_BYTES_SUBCLASS, vp_plain_dealloc);
T_(PyByteArray_Type, "bytearray", sizeof(PyByteArrayObject), 0, vp_bytearray_dealloc);
T_(PyTuple_Type, "tuple", sizeof(PyTupleObject), Py_TPFLAGS_TUPLE_SUBCLASS, vp_tuple_dealloc);
T_(PyList_Type, "list", sizeof(PyListObject), Py_TPFLAGS_LIST_SUBCLASS, vp_list_dealloc);
T_(PyDict_Type, "dict", sizeof(vp_dict), Py_TPFLAGS_DICT_SUBCLASS, vp_dict_dealloc);
T_(PySet_Type, "set", sizeof(vp_dict), 0, vp_dict_dealloc);
T_(PyFrozenSet_Type, "frozenset", sizeof(vp_dict), 0, vp_dict_dealloc);
T_(PySlice_Type, "slice", sizeof(PySliceObject), 0, vp_slice_dealloc);
T_(vp_iter_Type, "iterator", sizeof(vp_iter), 0, vp_iter_dealloc);
T_(vp_none_Type, "NoneType", sizeof(PyObject), 0, 0);
T_(vp_notimpl_Type, "NotImplementedType", sizeof(PyObject), 0, 0);
T_(vp_other_Type, "other", sizeof(PyObject), 0, vp_plain_dealloc);
PyObject _Py_NoneStruct = { { _Py_IMMORTAL_REFCNT }, &vp_none_Type };
PyObject _Py_NotImplementedStruct = { { _Py_IMMORTAL_REFCNT }, &vp_notimpl_Type };
PyLongObject _Py_TrueStruct = { { { _Py_IMMORTAL_REFCNT }, &PyBool_Type }, { 1, { 0 } } };
PyLongObject _Py_FalseStruct = { { { _Py_IMMORTAL_REFCNT }, &PyBool_Type }, { 0, { 0 } } };
#define X_(NAME) static PyTypeObject vp_x_##NAME = { .ob_base = { { { _Py_IMMORTAL_REFCNT }, &PyType_Type }, 0 }, .tp_name = #NAME, .tp_flags = Py_TPFLAGS_BASE_EXC_SUBCLASS }; PyObject* PyExc_##NAME = (PyObject*)&vp_x_##NAME
X_(Exception); X_(TypeError); X_(ValueError); X_(IndexError); X_(KeyError); X_(OverflowError); X_(MemoryError); X_(SystemError); X_(BufferError); X_(IOError); X_(OSError); X_(ImportError); X_(StopIteration); X_(RuntimeError); X_(AttributeError); X_(UnicodeDecodeError);

PyObject* vp_exc;
void vp_py_init(void)
{
	vp_exc = 0;
	vp_index_methods.nb_index = vp_long_index;
	PyLong_Type.tp_as_number = &vp_index_methods; PyBool_Type.tp_as_number = &vp_index_methods;
	PyBool_Type.tp_base = &PyLong_Type;
	PyTuple_Type.tp_iter = PyList_Type.tp_iter = PySet_Type.tp_iter = PyFrozenSet_Type.tp_iter = PyDict_Type.tp_iter = vp_seq_iter;
	vp_iter_Type.tp_iter = PyObject_SelfIter; vp_iter_Type.tp_iternext = vp_iter_next;
	PyByteArray_Type.tp_as_buffer = &vp_bytearray_buffer;
}
// ---- errors
PyObject* PyErr_Occurred(void) { return vp_exc; }
void PyErr_Clear(void) { vp_exc = 0; }
void PyErr_SetString(PyObject* e, const char* s) { VP_CHECK(s != 0, "an exception has a message"); vp_exc = e; }
void PyErr_SetObject(PyObject* e, PyObject* o) { vp_exc = e; }
void PyErr_SetNone(PyObject* e) { vp_exc = e; }
PyObject* PyErr_Format(PyObject* e, const char* f, ...) { vp_exc = e; return 0; }
PyObject* PyErr_NoMemory(void) { vp_exc = PyExc_MemoryError; return 0; }
PyObject* PyErr_SetFromErrno(PyObject* e) { vp_exc = e; return 0; }
void _PyErr_BadInternalCall(const char* f, int l) { vp_exc = PyExc_SystemError; }
#undef PyErr_BadInternalCall
void PyErr_BadInternalCall(void) { vp_exc = PyExc_SystemError; }
int PyErr_ExceptionMatches(PyObject* e) { return vp_exc == e; }
void PyErr_Print(void) { vp_exc = 0; }
// ---- memory and types
void* PyObject_Malloc(size_t n) { return malloc(n ? n : 1); }
void PyObject_Free(void* p) { free(p); }
void _Py_Dealloc(PyObject* o) { VP_CHECK(Py_TYPE(o)->tp_dealloc != 0, "an object that must never be freed was freed"); Py_TYPE(o)->tp_dealloc(o); }
PyObject* _PyObject_New(PyTypeObject* t) { PyObject* o = malloc((size_t)t->tp_basicsize); if (!o) return PyErr_NoMemory(); o->ob_refcnt = 1; o->ob_type = t; return o; }
PyObject* PyType_GenericAlloc(PyTypeObject* t, Py_ssize_t n) { PyObject* o = calloc(1, (size_t)t->tp_basicsize); if (!o) return PyErr_NoMemory(); o->ob_refcnt = 1; o->ob_type = t; return o; }
PyObject* PyType_GenericNew(PyTypeObject* t, PyObject* a, PyObject* k) { return t->tp_alloc(t, 0); }
int PyType_IsSubtype(PyTypeObject* a, PyTypeObject* b) { for (; a; a = a->tp_base) if (a == b) return 1; return b == &PyBaseObject_Type; }
int PyType_Ready(PyTypeObject* t)
{
	t->ob_base.ob_base.ob_refcnt = _Py_IMMORTAL_REFCNT; t->ob_base.ob_base.ob_type = &PyType_Type;
	if (!t->tp_alloc) t->tp_alloc = PyType_GenericAlloc;
	if (!t->tp_free) t->tp_free = PyObject_Free;
	if (!t->tp_new) t->tp_new = PyType_GenericNew;
	if (!t->tp_base) t->tp_base = &PyBaseObject_Type;
	return 0;
}
PyObject* PyObject_SelfIter(PyObject* o) { return Py_NewRef(o); }
PyObject* PyObject_GenericGetAttr(PyObject* o, PyObject* n) { vp_fail_limit("attribute access"); return 0; }
// ---- threads and files
PyThreadState* PyEval_SaveThread(void) { return (PyThreadState*)&PyType_Type; }
void PyEval_RestoreThread(PyThreadState* t) { VP_CHECK(t != 0, "the thread state is restored"); }
// ---- numbers
PyObject* vp_int(int neg, uint64_t mag) { vp_long* o = (vp_long*)_PyObject_New(&PyLong_Type); if (!o) return 0; o->mag = mag; o->flags = (neg ? 1 : 0); return (PyObject*)o; }
PyObject* vp_huge(int neg) { vp_long* o = (vp_long*)vp_int(neg, 0); if (o) o->flags |= 2; return (PyObject*)o; }
PyObject* vp_other(void) { return _PyObject_New(&vp_other_Type); }
static PyObject* from_i(int64_t v) { return vp_int(v < 0, v < 0 ? 0 - (uint64_t)v : (uint64_t)v); }
PyObject* PyLong_FromLong(long v) { return from_i(v); }
PyObject* PyLong_FromLongLong(long long v) { return from_i(v); }
PyObject* PyLong_FromSsize_t(Py_ssize_t v) { return from_i(v); }
PyObject* PyLong_FromUnsignedLong(unsigned long v) { return vp_int(0, v); }
PyObject* PyLong_FromUnsignedLongLong(unsigned long long v) { return vp_int(0, v); }
PyObject* PyLong_FromSize_t(size_t v) { return vp_int(0, v); }
PyObject* PyBool_FromLong(long v) { return v ? Py_True : Py_False; }
PyObject* PyFloat_FromDouble(double v) { PyFloatObject* o = (PyFloatObject*)_PyObject_New(&PyFloat_Type); if (o) o->ob_fval = v; return (PyObject*)o; }
int vp_is_int(PyObject* o, int neg, uint64_t mag)
{
	if (o == 0 || !PyLong_Check(o)) return 0;
	vp_long* l = (vp_long*)o;
	return !(l->flags & 2) && l->mag == mag && (mag == 0 || (l->flags & 1) == (neg ? 1u : 0u));
}
long long PyLong_AsLongLong(PyObject* o)
{
	if (!PyLong_Check(o)) { vp_exc = PyExc_TypeError; return -1; }
	vp_long* l = (vp_long*)o;
	if ((l->flags & 2) || ((l->flags & 1) ? l->mag > (uint64_t)1 << 63 : l->mag > INT64_MAX)) { vp_exc = PyExc_OverflowError; return -1; }
	return (l->flags & 1) ? (long long)(0 - l->mag) : (long long)l->mag;
}
long PyLong_AsLong(PyObject* o) { return (long)PyLong_AsLongLong(o); }
Py_ssize_t PyLong_AsSsize_t(PyObject* o) { return (Py_ssize_t)PyLong_AsLongLong(o); }
unsigned long long PyLong_AsUnsignedLongLong(PyObject* o)
{
	if (!PyLong_Check(o)) { vp_exc = PyExc_TypeError; return (unsigned long long)-1; }
	vp_long* l = (vp_long*)o;
	if ((l->flags & 2) || ((l->flags & 1) && l->mag)) { vp_exc = PyExc_OverflowError; return (unsigned long long)-1; }
	return l->mag;
}
unsigned long PyLong_AsUnsignedLong(PyObject* o) { return (unsigned long)PyLong_AsUnsignedLongLong(o); }
double PyFloat_AsDouble(PyObject* o)
{
	if (PyFloat_Check(o)) return ((PyFloatObject*)o)->ob_fval;
	if (PyLong_Check(o)) { vp_long* l = (vp_long*)o; if (l->flags & 2) vp_fail_limit("huge integers as floats"); return (l->flags & 1) ? -(double)l->mag : (double)l->mag; }
	vp_exc = PyExc_TypeError; return -1.0;
}
int PyIndex_Check(PyObject* o) { return PyLong_Check(o); }
Py_ssize_t PyNumber_AsSsize_t(PyObject* o, PyObject* e)
{
	if (!PyLong_Check(o)) { vp_exc = PyExc_TypeError; return -1; }
	Py_ssize_t v = PyLong_AsLongLong(o);
	if (v == -1 && vp_exc) { if (e) vp_exc = e; else { vp_exc = 0; return (((vp_long*)o)->flags & 1) ? PY_SSIZE_T_MIN : PY_SSIZE_T_MAX; } }
	return v;
}
// ---- containers
PyObject* vp_list(Py_ssize_t n) { PyListObject* l = (PyListObject*)_PyObject_New(&PyList_Type); if (!l) return 0; l->ob_item = calloc(n ? n : 1, sizeof(PyObject*)); l->allocated = n; Py_SET_SIZE(l, n); return (PyObject*)l; }
PyObject* PyTuple_New(Py_ssize_t n) { PyTupleObject* t = calloc(1, sizeof(PyTupleObject) + (size_t)n * sizeof(PyObject*)); t->ob_base.ob_base.ob_refcnt = 1; t->ob_base.ob_base.ob_type = &PyTuple_Type; Py_SET_SIZE(t, n); return (PyObject*)t; }
PyObject* vp_tuple(int n, PyObject* a, PyObject* b, PyObject* c, PyObject* d) { PyObject* t = PyTuple_New(n); PyObject* v[4]; v[0] = a; v[1] = b; v[2] = c; v[3] = d; for (int i = 0; i < n; i++) ((PyTupleObject*)t)->ob_item[i] = v[i]; return t; }
static PyObject* new_dict(PyTypeObject* t) { PyObject* o = PyType_GenericAlloc(t, 0); return o; }
PyObject* vp_dict_new(void) { return new_dict(&PyDict_Type); }
PyObject* vp_set_new(int frozen) { return new_dict(frozen ? &PyFrozenSet_Type : &PySet_Type); }
void vp_dict_add(PyObject* o, PyObject* k, PyObject* v) { vp_dict* d = (vp_dict*)o; if (d->n >= VP_PY_MAX) vp_fail_limit("size of a dict"); d->keys[d->n] = k; d->values[d->n] = v; d->n++; }
int PyDict_Next(PyObject* o, Py_ssize_t* pos, PyObject** k, PyObject** v) { vp_dict* d = (vp_dict*)o; if (*pos >= d->n) return 0; if (k) *k = d->keys[*pos]; if (v) *v = d->values[*pos]; (*pos)++; return 1; }
Py_ssize_t PyDict_Size(PyObject* o) { return ((vp_dict*)o)->n; }
Py_ssize_t PySet_Size(PyObject* o) { return ((vp_dict*)o)->n; }
PyObject* vp_failing_iter(PyObject* seq, Py_ssize_t fail_at) { vp_iter* it = (vp_iter*)_PyObject_New(&vp_iter_Type); if (!it) return 0; Py_INCREF(seq); it->seq = seq; it->i = 0; it->fail_at = fail_at; return (PyObject*)it; }
static PyObject* vp_seq_iter(PyObject* o) { return vp_failing_iter(o, -1); }
static PyObject* vp_iter_next(PyObject* o)
{
	vp_iter* it = (vp_iter*)o; PyObject* r = 0;
	if (it->i == it->fail_at) { vp_exc = PyExc_RuntimeError; return 0; }
	if (it->seq == 0) return 0;
	if (PyList_Check(it->seq)) { if (it->i < Py_SIZE(it->seq)) r = ((PyListObject*)it->seq)->ob_item[it->i]; }
	else if (PyTuple_Check(it->seq)) { if (it->i < Py_SIZE(it->seq)) r = ((PyTupleObject*)it->seq)->ob_item[it->i]; }
	else { if (it->i < ((vp_dict*)it->seq)->n) r = ((vp_dict*)it->seq)->keys[it->i]; }
	it->i++;
	return Py_XNewRef(r);
}
PyObject* PyObject_GetIter(PyObject* o) { if (!Py_TYPE(o)->tp_iter) { vp_exc = PyExc_TypeError; return 0; } return Py_TYPE(o)->tp_iter(o); }
PyObject* PyIter_Next(PyObject* o) { PyObject* r = Py_TYPE(o)->tp_iternext(o); if (!r && vp_exc == PyExc_StopIteration) vp_exc = 0; return r; }
// ---- slices
static int slice_index(PyObject* o, Py_ssize_t* r) { if (o == Py_None) return 1; *r = PyNumber_AsSsize_t(o, 0); return vp_exc == 0; }
PyObject* PySlice_New(PyObject* a, PyObject* b, PyObject* c) { PySliceObject* s = (PySliceObject*)_PyObject_New(&PySlice_Type); if (!s) return 0; s->start = Py_NewRef(a ? a : Py_None); s->stop = Py_NewRef(b ? b : Py_None); s->step = Py_NewRef(c ? c : Py_None); return (PyObject*)s; }
int PySlice_Unpack(PyObject* o, Py_ssize_t* start, Py_ssize_t* stop, Py_ssize_t* step)
{
	PySliceObject* s = (PySliceObject*)o;
	*step = 1;
	if (!slice_index(s->step, step)) return -1;
	if (*step == 0) { vp_exc = PyExc_ValueError; return -1; }
	if (*step < -PY_SSIZE_T_MAX) *step = -PY_SSIZE_T_MAX;
	*start = *step < 0 ? PY_SSIZE_T_MAX : 0;
	if (!slice_index(s->start, start)) return -1;
	*stop = *step < 0 ? PY_SSIZE_T_MIN : PY_SSIZE_T_MAX;
	if (!slice_index(s->stop, stop)) return -1;
	return 0;
}
Py_ssize_t PySlice_AdjustIndices(Py_ssize_t n, Py_ssize_t* start, Py_ssize_t* stop, Py_ssize_t step)
{
	if (*start < 0) { *start += n; if (*start < 0) *start = step < 0 ? -1 : 0; } else if (*start >= n) *start = step < 0 ? n - 1 : n;
	if (*stop < 0) { *stop += n; if (*stop < 0) *stop = step < 0 ? -1 : 0; } else if (*stop >= n) *stop = step < 0 ? n - 1 : n;
	if (step < 0) { if (*stop < *start) return (*start - *stop - 1) / (-step) + 1; }
	else if (*start < *stop) return (*stop - *start - 1) / step + 1;
	return 0;
}
// ---- buffers, bytes, strings
int PyBuffer_FillInfo(Py_buffer* v, PyObject* o, void* p, Py_ssize_t n, int ro, int flags)
{
	if (v == 0) { vp_exc = PyExc_BufferError; return -1; }
	if ((flags & PyBUF_WRITABLE) && ro) { vp_exc = PyExc_BufferError; return -1; }
	v->obj = Py_XNewRef(o); v->buf = p; v->len = n; v->readonly = ro; v->itemsize = 1; v->format = 0; v->ndim = 1; v->shape = 0; v->strides = 0; v->suboffsets = 0; v->internal = 0;
	return 0;
}
int PyObject_GetBuffer(PyObject* o, Py_buffer* v, int flags) { PyBufferProcs* b = Py_TYPE(o)->tp_as_buffer; if (!b || !b->bf_getbuffer) { vp_exc = PyExc_TypeError; return -1; } return b->bf_getbuffer(o, v, flags); }
void PyBuffer_Release(Py_buffer* v) { PyObject* o = v->obj; if (!o) return; PyBufferProcs* b = Py_TYPE(o)->tp_as_buffer; if (b && b->bf_releasebuffer) b->bf_releasebuffer(o, v); v->obj = 0; Py_DECREF(o); }
PyObject* PyByteArray_FromStringAndSize(const char* s, Py_ssize_t n)
{
	PyByteArrayObject* o = (PyByteArrayObject*)_PyObject_New(&PyByteArray_Type); if (!o) return 0;
	o->ob_bytes = malloc(n ? (size_t)n : 1); o->ob_start = o->ob_bytes; o->ob_alloc = n; o->ob_exports = 0; Py_SET_SIZE(o, n);
	if (!o->ob_bytes) { free(o); return PyErr_NoMemory(); }
	if (s) memcpy(o->ob_bytes, s, (size_t)n);
	return (PyObject*)o;
}
char* PyByteArray_AsString(PyObject* o) { return ((PyByteArrayObject*)o)->ob_start; }
Py_ssize_t PyByteArray_Size(PyObject* o) { return Py_SIZE(o); }
static PyObject* new_str(int kind, Py_ssize_t n, uint32_t max)
{
	int ascii = max < 128;
	size_t head = ascii ? sizeof(PyASCIIObject) : sizeof(PyCompactUnicodeObject);
	PyASCIIObject* o = calloc(1, head + (size_t)(n + 1) * kind); if (!o) return PyErr_NoMemory();
	o->ob_base.ob_refcnt = 1; o->ob_base.ob_type = &PyUnicode_Type; o->length = n; o->hash = -1;
	o->state.kind = kind; o->state.compact = 1; o->state.ascii = ascii;
	return (PyObject*)o;
}
PyObject* PyUnicode_FromKindAndData(int kind, const void* p, Py_ssize_t n)
{
	uint32_t max = 0;
	for (Py_ssize_t i = 0; i < n; i++) { uint32_t c = kind == 1 ? ((const uint8_t*)p)[i] : kind == 2 ? ((const uint16_t*)p)[i] : ((const uint32_t*)p)[i]; if (c > max) max = c; }
	if (max > 0x10FFFF) { vp_exc = PyExc_SystemError; return 0; }
	int k = vp_concretize(max < 256 ? 1 : max < 65536 ? 2 : 4);
	PyObject* o = new_str(k, n, vp_concretize(max < 128) ? 0 : 255); if (!o) return 0;
	for (Py_ssize_t i = 0; i < n; i++) {
		uint32_t c = kind == 1 ? ((const uint8_t*)p)[i] : kind == 2 ? ((const uint16_t*)p)[i] : ((const uint32_t*)p)[i];
		if (k == 1) PyUnicode_1BYTE_DATA(o)[i] = (Py_UCS1)c; else if (k == 2) PyUnicode_2BYTE_DATA(o)[i] = (Py_UCS2)c; else PyUnicode_4BYTE_DATA(o)[i] = c;
	}
	return o;
}
PyObject* PyUnicode_FromString(const char* s) { return PyUnicode_FromKindAndData(1, s, (Py_ssize_t)strlen(s)); }
PyObject* PyUnicode_FromFormat(const char* f, ...) { return PyUnicode_FromString("<formatted>"); }
int vp_str_is(PyObject* o, const char* s) { Py_ssize_t n = (Py_ssize_t)strlen(s); return o && PyUnicode_Check(o) && PyUnicode_GET_LENGTH(o) == n && PyUnicode_KIND(o) == 1 && memcmp(PyUnicode_1BYTE_DATA(o), s, (size_t)n) == 0; }
const char* PyUnicode_AsUTF8(PyObject* o) { if (!PyUnicode_IS_ASCII(o)) vp_fail_limit("non-ASCII names"); return (const char*)PyUnicode_1BYTE_DATA(o); }
PyObject* Py_BuildValue(const char* f, ...)
{
	va_list ap; va_start(ap, f); PyObject* r = 0;
	if (strcmp(f, "s") == 0) r = PyUnicode_FromString(va_arg(ap, const char*));
	else if (strcmp(f, "(NN)") == 0) { PyObject* a = va_arg(ap, PyObject*); PyObject* b = va_arg(ap, PyObject*); r = vp_tuple(2, a, b, 0, 0); }
	else if (strcmp(f, "i") == 0) r = PyLong_FromLong(va_arg(ap, int));
	else vp_fail_limit("format of Py_BuildValue");
	va_end(ap);
	return r;
}
// ---- comparison
PyObject* PyObject_RichCompare(PyObject* a, PyObject* b, int op)
{
	static const int swapped[6] = { Py_GT, Py_GE, Py_EQ, Py_NE, Py_LT, Py_LE };
	PyObject* r = Py_NotImplemented;
	if (PyLong_Check(a) && PyLong_Check(b)) {
		vp_long* x = (vp_long*)a; vp_long* y = (vp_long*)b;
		if ((x->flags | y->flags) & 2) vp_fail_limit("comparison of huge integers");
		int nx = (x->flags & 1) && x->mag, ny = (y->flags & 1) && y->mag;
		int c = nx != ny ? (nx ? -1 : 1) : x->mag == y->mag ? 0 : ((x->mag < y->mag) != nx) ? -1 : 1;
		return PyBool_FromLong(op == Py_LT ? c < 0 : op == Py_LE ? c <= 0 : op == Py_EQ ? c == 0 : op == Py_NE ? c != 0 : op == Py_GT ? c > 0 : c >= 0);
	}
	if (PyFloat_Check(a) && PyFloat_Check(b)) {
		double x = PyFloat_AS_DOUBLE(a), y = PyFloat_AS_DOUBLE(b);
		return PyBool_FromLong(op == Py_LT ? x < y : op == Py_LE ? x <= y : op == Py_EQ ? x == y : op == Py_NE ? x != y : op == Py_GT ? x > y : x >= y);
	}
	if (Py_TYPE(a)->tp_richcompare) r = Py_TYPE(a)->tp_richcompare(a, b, op);
	if (r == Py_NotImplemented && Py_TYPE(b)->tp_richcompare) r = Py_TYPE(b)->tp_richcompare(b, a, swapped[op]);
	if (r == Py_NotImplemented) { if (op == Py_EQ) r = PyBool_FromLong(a == b); else if (op == Py_NE) r = PyBool_FromLong(a != b); else { vp_exc = PyExc_TypeError; return 0; } }
	return r;
}
int PyObject_RichCompareBool(PyObject* a, PyObject* b, int op)
{
	if (a == b) { if (op == Py_EQ) return 1; if (op == Py_NE) return 0; }
	PyObject* r = PyObject_RichCompare(a, b, op);
	if (!r) return -1;
	return r == Py_True;
}
// ---- argument parsing: i I L K n f d O O! s s* | $
static int one_arg(const char** fp, PyObject* v, va_list* ap)
{
	const char* f = *fp; int ok = 1;
	switch (*f++) {
	case 'i': { int* p = va_arg(*ap, int*); if (v) { long long x = PyLong_AsLongLong(v); if (vp_exc) ok = 0; else if (x < INT_MIN || x > INT_MAX) { vp_exc = PyExc_OverflowError; ok = 0; } else *p = (int)x; } break; }
	case 'I': { unsigned* p = va_arg(*ap, unsigned*); if (v) { long long x = PyLong_AsLongLong(v); if (vp_exc) ok = 0; else *p = (unsigned)x; } break; }
	case 'L': case 'n': { long long* p = va_arg(*ap, long long*); if (v) { long long x = PyLong_AsLongLong(v); if (vp_exc) ok = 0; else *p = x; } break; }
	case 'f': { float* p = va_arg(*ap, float*); if (v) { double x = PyFloat_AsDouble(v); if (vp_exc) ok = 0; else *p = (float)x; } break; }
	case 'd': { double* p = va_arg(*ap, double*); if (v) { double x = PyFloat_AsDouble(v); if (vp_exc) ok = 0; else *p = x; } break; }
	case 's':
		if (*f == '*') { f++; Py_buffer* p = va_arg(*ap, Py_buffer*); if (v && PyObject_GetBuffer(v, p, 0) != 0) ok = 0; }
		else { const char** p = va_arg(*ap, const char**); if (v) { if (!PyUnicode_Check(v)) { vp_exc = PyExc_TypeError; ok = 0; } else *p = PyUnicode_AsUTF8(v); } }
		break;
	case 'O':
		if (*f == '!') { f++; PyTypeObject* t = va_arg(*ap, PyTypeObject*); PyObject** p = va_arg(*ap, PyObject**); if (v) { if (!PyObject_TypeCheck(v, t)) { vp_exc = PyExc_TypeError; ok = 0; } else *p = v; } }
		else { PyObject** p = va_arg(*ap, PyObject**); if (v) *p = v; }
		break;
	default: vp_fail_limit("format of PyArg_Parse");
	}
	*fp = f;
	return ok;
}
int PyArg_Parse(PyObject* v, const char* f, ...) { va_list ap; va_start(ap, f); int ok = one_arg(&f, v, &ap); va_end(ap); return ok; }
int PyArg_ParseTuple(PyObject* args, const char* f, ...)
{
	va_list ap; va_start(ap, f); int ok = 1, optional = 0; Py_ssize_t i = 0, n = Py_SIZE(args);
	while (*f && ok && *f != ':' && *f != ';') {
		if (*f == '|') { optional = 1; f++; continue; }
		if (i >= n && !optional) { vp_exc = PyExc_TypeError; ok = 0; break; }
		ok = one_arg(&f, i < n ? ((PyTupleObject*)args)->ob_item[i] : 0, &ap); i++;
	}
	if (ok && i < n) { vp_exc = PyExc_TypeError; ok = 0; }
	va_end(ap);
	return ok;
}
int PyArg_ParseTupleAndKeywords(PyObject* args, PyObject* kw, const char* f, char** names, ...)
{
	va_list ap; va_start(ap, names); int ok = 1, optional = 0; Py_ssize_t i = 0, n = Py_SIZE(args); Py_ssize_t used = n; vp_dict* d = (vp_dict*)kw;
	while (*f && ok && *f != ':' && *f != ';') {
		if (*f == '|' || *f == '$') { optional = 1; f++; continue; }
		PyObject* v = i < n ? ((PyTupleObject*)args)->ob_item[i] : 0;
		if (!v && d) for (Py_ssize_t j = 0; j < d->n; j++) if (strcmp(PyUnicode_AsUTF8(d->keys[j]), names[i]) == 0) { v = d->values[j]; used++; }
		if (!v && !optional) { vp_exc = PyExc_TypeError; ok = 0; break; }
		ok = one_arg(&f, v, &ap); i++;
	}
	if (ok && used < n + (d ? d->n : 0)) { vp_exc = PyExc_TypeError; ok = 0; }
	if (ok && i < n) { vp_exc = PyExc_TypeError; ok = 0; }
	va_end(ap);
	return ok;
}
int PyArg_UnpackTuple(PyObject* args, const char* name, Py_ssize_t lo, Py_ssize_t hi, ...)
{
	Py_ssize_t n = Py_SIZE(args);
	if (n < lo || n > hi) { vp_exc = PyExc_TypeError; return 0; }
	va_list ap; va_start(ap, hi);
	for (Py_ssize_t i = 0; i < n; i++) { PyObject** p = va_arg(ap, PyObject**); *p = ((PyTupleObject*)args)->ob_item[i]; }
	va_end(ap);
	return 1;
}
// ---- what a harness calls
PyObject* vp_py_new(PyTypeObject* t, PyObject* args, PyObject* kw)
{
	PyObject* o = t->tp_new(t, args, kw);
	if (!o) { VP_CHECK(vp_exc != 0, "a constructor that fails raises an exception"); return 0; }
	VP_CHECK(vp_exc == 0, "an object is made with an exception pending");
	if (t->tp_init) {
		int r = t->tp_init(o, args, kw);
		VP_CHECK((r == 0) == (vp_exc == 0), "__init__ fails exactly when it raises an exception");
		if (r != 0) { Py_DECREF(o); return 0; }
	}
	return o;
}
PyObject* vp_py_call(PyObject* self, const char* name, PyObject* args)
{
	for (PyMethodDef* m = Py_TYPE(self)->tp_methods; m && m->ml_name; m++)
		if (strcmp(m->ml_name, name) == 0) {
			PyObject* r = m->ml_meth((m->ml_flags & METH_CLASS) ? (PyObject*)Py_TYPE(self) : self, (m->ml_flags & METH_NOARGS) ? 0 : (m->ml_flags & METH_O) ? ((PyTupleObject*)args)->ob_item[0] : args);
			VP_CHECK((r != 0) == (vp_exc == 0), "a method returns nothing exactly when it raises an exception");
			return r;
		}
	VP_CHECK(0, "the method exists");
	return 0;
}
PyObject* vp_py_checked(PyObject* r) { VP_CHECK((r != 0) == (vp_exc == 0), "an operation returns nothing exactly when it raises an exception"); return r; }
int vp_py_checked_int(int r) { VP_CHECK((r >= 0) == (vp_exc == 0), "an operation fails exactly when it raises an exception"); return r; }
PyObject* vp_py_next(PyObject* it) { PyObject* r = Py_TYPE(it)->tp_iternext(it); VP_CHECK(!(r && vp_exc), "an iterator yields an item with an exception pending"); return r; }
