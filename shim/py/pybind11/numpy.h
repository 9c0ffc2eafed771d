#pragma once
#include "pybind11.h"
namespace pybind11
{
template <class T> struct format_descriptor { static std::string format() { return std::is_same<T, double>::value ? "d" : std::is_same<T, int>::value ? "i" : "?"; } };
struct buffer_info { void *ptr = nullptr; ssize_t itemsize = 0, size = 0; std::string format; ssize_t ndim = 0; std::vector<ssize_t> shape, strides; };
struct np { static object &mod() { static object *m = new object(PyImport_ImportModule("numpy"), object::stolen()); return *m; } static const char *name(const double *) { return "float64"; } static const char *name(const int *) { return "int32"; } };
template <class T> struct array_t : object, array_tag
{
   array_t(handle h, borrowed b) : object(h, b) { }
   array_t(ssize_t n, const T *d) { PyObject *a = PyObject_CallMethod(np::mod().ptr(), "empty", "ns", n, np::name((T *)nullptr)); if (!a) { throw error_already_set(); } m = a; std::memcpy(request().ptr, d, n * sizeof(T)); }
   static bool check_(handle h)
   {
      object nd(PyObject_GetAttrString(np::mod().ptr(), "ndarray"), stolen()); if (PyObject_IsInstance(h.ptr(), nd.ptr()) != 1) { return false; }
      Py_buffer b; if (PyObject_GetBuffer(h.ptr(), &b, PyBUF_STRIDES | PyBUF_FORMAT) < 0) { PyErr_Clear(); return false; } bool ok = format_descriptor<T>::format() == b.format; PyBuffer_Release(&b); return ok;
   }
   buffer_info request() const { Py_buffer b; if (PyObject_GetBuffer(m, &b, PyBUF_STRIDES | PyBUF_FORMAT) < 0) { throw error_already_set(); } buffer_info i; i.ptr = b.buf; i.itemsize = b.itemsize; i.format = b.format; i.ndim = b.ndim; i.shape.assign(b.shape, b.shape + b.ndim); i.strides.assign(b.strides, b.strides + b.ndim); i.size = b.len / b.itemsize; PyBuffer_Release(&b); return i; }
};
namespace detail
{
template <class T> struct type_caster<array_t<T>, void>
{
   object value; std::unique_ptr<array_t<T>> held; operator array_t<T> &() { if (!held) { held = std::make_unique<array_t<T>>(value, object::borrowed()); } return *held; }
   bool load(handle h, bool convert) { if (array_t<T>::check_(h)) { value = object(h, object::borrowed()); return true; } if (!convert) { return false; } if (!h.ptr() || h.is_none() || PyCallable_Check(h.ptr()) || PyDict_Check(h.ptr()) || PyUnicode_Check(h.ptr())) { return false; } PyObject *a = PyObject_CallMethod(np::mod().ptr(), "asarray", "Os", h.ptr(), np::name((T *)nullptr)); if (!a) { PyErr_Clear(); return false; } value = object(a, object::stolen()); return true; }
   static handle cast(const array_t<T> &a, return_value_policy, handle) { return object(a).release(); }
};
}
}
