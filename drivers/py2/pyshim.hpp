// The bindings are written against Python 2; the few names Python 3 has not are told here.
#pragma once
#include <Python.h>
#include <structmember.h>
#include <algorithm>
#include <iterator>
#if PY_MAJOR_VERSION >= 3
#define PyInt_AsSsize_t PyLong_AsSsize_t
#define PyInt_FromSize_t PyLong_FromSize_t
#define PyInt_AsLong PyLong_AsLong
#define PyInt_FromLong PyLong_FromLong
#define PyInt_Check PyLong_Check
#define PyString_FromStringAndSize PyUnicode_FromStringAndSize
#define PyString_FromString PyUnicode_FromString
// the slot of the comparison became another
struct cmpfunc {
  template <class F> cmpfunc(F) {}
  operator PyAsyncMethods *() const { return nullptr; }
};
#endif
