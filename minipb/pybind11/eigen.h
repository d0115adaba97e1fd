// conversions of dense Eigen types
#pragma once
#include <Eigen/Core>
#include <pybind11/numpy.h>
namespace pybind11 {
namespace detail {
template <class T> std::true_type eigen_test(const Eigen::MatrixBase<T> *);
template <class T> std::true_type eigen_test(const Eigen::ArrayBase<T> *);
std::false_type eigen_test(const void *);
template <class T> struct is_eigen : decltype(eigen_test(static_cast<T *>(nullptr))) {};
template <class T> struct caster<T, typename std::enable_if<std::is_class<T>::value && is_eigen<T>::value>::type> {
  using P = typename T::PlainObject;
  P value;
  std::unique_ptr<T> other; // references and maps
  P &ref() { return value; }
  bool load(PyObject *o, bool convert) {
    if (!convert && !PyObject_HasAttrString(o, "__array_interface__"))
      return false;
    std::vector<double> d;
    std::vector<Py_ssize_t> s;
    if (!read_array(o, d, s) || s.empty() || s.size() > 2)
      return false;
    Py_ssize_t r, c;
    if (s.size() == 1) {
      if (P::RowsAtCompileTime == 1)
        r = 1, c = s[0];
      else
        r = s[0], c = 1;
    } else
      r = s[0], c = s[1];
    if ((P::RowsAtCompileTime != Eigen::Dynamic && r != P::RowsAtCompileTime) || (P::ColsAtCompileTime != Eigen::Dynamic && c != P::ColsAtCompileTime))
      return false;
    value.resize(r, c);
    for (Py_ssize_t i = 0; i < r; i++)
      for (Py_ssize_t k = 0; k < c; k++)
        value(i, k) = (typename P::Scalar)d[(size_t)(i * c + k)];
    return true;
  }
  template <class U> static PyObject *cast(const U &m) {
    const P v(m);
    std::vector<double> d((size_t)v.size());
    for (Eigen::Index i = 0; i < v.size(); i++)
      d[(size_t)i] = (double)v.data()[i];
    if (P::IsVectorAtCompileTime)
      return new_array(d.data(), d.size(), {(Py_ssize_t)v.size()}, {1});
    const bool row = P::IsRowMajor;
    return new_array(d.data(), d.size(), {(Py_ssize_t)v.rows(), (Py_ssize_t)v.cols()}, {row ? (Py_ssize_t)v.cols() : 1, row ? 1 : (Py_ssize_t)v.rows()});
  }
};
} // namespace detail
template <class T> using EigenDRef = Eigen::Ref<T>;
} // namespace pybind11
