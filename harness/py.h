// What the stub CPython runtime (stubs/cpython.c) offers to harnesses.
#ifndef VP_PY_H
#define VP_PY_H
#include <Python.h>
#include <stdint.h>
#define VP_PY_MAX 8
extern PyObject* vp_exc;                                     // the pending exception's type
void vp_py_init(void);
PyObject* vp_int(int neg, uint64_t mag);
PyObject* vp_huge(int neg);                                  // an integer beyond 64 bits
PyObject* vp_other(void);                                    // an object of an unrelated type
PyObject* vp_list(Py_ssize_t n);                             // items to be filled in
PyObject* vp_tuple(int n, PyObject* a, PyObject* b, PyObject* c, PyObject* d); // steals
PyObject* vp_dict_new(void);
PyObject* vp_set_new(int frozen);
void vp_dict_add(PyObject* o, PyObject* k, PyObject* v);     // steals
PyObject* vp_failing_iter(PyObject* seq, Py_ssize_t fail_at); // raises RuntimeError at that item
int vp_is_int(PyObject* o, int neg, uint64_t mag);
int vp_str_is(PyObject* o, const char* s);
PyObject* vp_py_new(PyTypeObject* t, PyObject* args, PyObject* kw);
PyObject* vp_py_call(PyObject* self, const char* name, PyObject* args);
PyObject* vp_py_checked(PyObject* r);
int vp_py_checked_int(int r);
PyObject* vp_py_next(PyObject* it);
#endif
