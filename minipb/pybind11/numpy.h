// arrays of doubles by way of numpy.ndarray objects
#pragma once
#include <pybind11/pybind11.h>
namespace pybind11 {
namespace detail {
inline PyObject *numpy_attr(const char *n) {
  static std::map<std::string, PyObject *> cache;
  PyObject *&o = cache[n];
  if (!o) {
    object m = object::steal(PyImport_ImportModule("numpy"));
    o = PyObject_GetAttrString(m.ptr(), n);
    if (!o)
      throw error_already_set();
  }
  return o;
}
// new array over a copy of the data; strides in elements
inline PyObject *new_array(const double *data, size_t count, const std::vector<Py_ssize_t> &shape, const std::vector<Py_ssize_t> &strides) {
  object buf = object::steal(PyByteArray_FromStringAndSize(reinterpret_cast<const char *>(data), (Py_ssize_t)(count * sizeof(double))));
  object sh = object::steal(PyTuple_New((Py_ssize_t)shape.size())), st = object::steal(PyTuple_New((Py_ssize_t)shape.size()));
  for (size_t i = 0; i < shape.size(); i++) {
    PyTuple_SET_ITEM(sh.ptr(), (Py_ssize_t)i, PyLong_FromSsize_t(shape[i]));
    PyTuple_SET_ITEM(st.ptr(), (Py_ssize_t)i, PyLong_FromSsize_t(strides[i] * (Py_ssize_t)sizeof(double)));
  }
  if (count == 0)
    return PyObject_CallFunctionObjArgs(numpy_attr("zeros"), sh.ptr(), nullptr);
  object off = object::steal(PyLong_FromLong(0));
  return PyObject_CallFunctionObjArgs(numpy_attr("ndarray"), sh.ptr(), numpy_attr("float64"), buf.ptr(), off.ptr(), st.ptr(), nullptr);
}
// contents of anything array-like; false when it is not
inline bool read_array(PyObject *o, std::vector<double> &data, std::vector<Py_ssize_t> &shape) {
  if (PyUnicode_Check(o) || PyBytes_Check(o) || o == Py_None)
    return false;
  PyObject *a = PyObject_CallFunctionObjArgs(numpy_attr("asarray"), o, numpy_attr("float64"), nullptr);
  if (!a) {
    PyErr_Clear();
    return false;
  }
  object keep = object::steal(a);
  object c = object::steal(PyObject_CallFunctionObjArgs(numpy_attr("ascontiguousarray"), a, nullptr));
  Py_buffer v;
  if (PyObject_GetBuffer(c.ptr(), &v, PyBUF_C_CONTIGUOUS | PyBUF_FORMAT)) {
    PyErr_Clear();
    return false;
  }
  object nd = object::steal(PyObject_GetAttrString(a, "ndim"));
  shape.assign(v.shape, v.shape + v.ndim);
  if (PyLong_AsLong(nd.ptr()) == 0)
    shape.clear();
  data.assign(static_cast<const double *>(v.buf), static_cast<const double *>(v.buf) + v.len / (Py_ssize_t)sizeof(double));
  PyBuffer_Release(&v);
  return true;
}
} // namespace detail
// read access to arrays; data in row-major order
template <class T = double, int Flags = 0> class array_t : public object {
  std::shared_ptr<std::vector<double>> d = std::make_shared<std::vector<double>>();
  std::vector<Py_ssize_t> s;

public:
  enum { c_style = 1, f_style = 2, forcecast = 16 };
  bool from(PyObject *o) {
    if (!detail::read_array(o, *d, s))
      return false;
    static_cast<object &>(*this) = object::borrow(o);
    return true;
  }
  Py_ssize_t ndim() const { return (Py_ssize_t)s.size(); }
  Py_ssize_t shape(Py_ssize_t i) const { return s.at((size_t)i); }
  Py_ssize_t size() const { return (Py_ssize_t)d->size(); }
  const double *data() const { return d->data(); }
  double at(Py_ssize_t i) const { return d->at((size_t)i); }
  double at(Py_ssize_t i, Py_ssize_t k) const { return d->at((size_t)(i * s.at(1) + k)); }
  template <int N> const array_t &unchecked() const { return *this; }
  double operator()(Py_ssize_t i) const { return at(i); }
  double operator()(Py_ssize_t i, Py_ssize_t k) const { return at(i, k); }
};
namespace detail {
template <class T, int F> struct caster<array_t<T, F>> : value_caster<array_t<T, F>> {
  bool load(PyObject *o, bool) { return this->value.from(o); }
  static PyObject *cast(const array_t<T, F> &v) { return Py_XNewRef(v.ptr()); }
};
} // namespace detail
using array = array_t<double>;
} // namespace pybind11
