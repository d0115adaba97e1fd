// conversions of the standard containers
#pragma once
#include <pybind11/pybind11.h>
#include <deque>
#include <list>
#include <set>
#include <unordered_set>
namespace pybind11 {
namespace detail {
inline bool is_seq(PyObject *o) { return PySequence_Check(o) && !PyUnicode_Check(o) && !PyBytes_Check(o); }
// calls f on every element; false when an element is refused
template <class F> bool each(PyObject *o, F f) {
  if (PyList_Check(o) || PyTuple_Check(o)) {
    for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(o); i++) {
      object x = object::borrow(PySequence_Fast_GET_ITEM(o, i));
      if (!f(x.ptr()))
        return false;
    }
    return true;
  }
  Py_ssize_t n = PySequence_Size(o);
  if (n < 0) {
    PyErr_Clear();
    return false;
  }
  for (Py_ssize_t i = 0; i < n; i++) {
    PyObject *x = PySequence_GetItem(o, i);
    if (!x) {
      PyErr_Clear();
      return false;
    }
    object k = object::steal(x);
    if (!f(x))
      return false;
  }
  return true;
}
template <class L> struct sequence_caster : value_caster<L> {
  using V = typename L::value_type;
  bool load(PyObject *o, bool convert) {
    if (!is_seq(o))
      return false;
    this->value.clear();
    return each(o, [&](PyObject *x) {
      caster<intrinsic_t<V>> c;
      if (!c.load(x, convert))
        return false;
      this->value.push_back(arg_of<V>(c));
      return true;
    });
  }
  template <class U> static PyObject *cast(U &&v) {
    PyObject *l = PyList_New(0);
    for (auto &&x : v) {
      PyObject *o = caster<intrinsic_t<V>>::cast(x);
      if (!o || PyList_Append(l, o)) {
        Py_XDECREF(o);
        Py_DECREF(l);
        return nullptr;
      }
      Py_DECREF(o);
    }
    return l;
  }
};
template <class T, class A> struct caster<std::vector<T, A>> : sequence_caster<std::vector<T, A>> {};
template <class T, class A> struct caster<std::list<T, A>> : sequence_caster<std::list<T, A>> {};
template <class T, class A> struct caster<std::deque<T, A>> : sequence_caster<std::deque<T, A>> {};
template <class T, size_t N> struct caster<std::array<T, N>> : value_caster<std::array<T, N>> {
  bool load(PyObject *o, bool convert) {
    if (!is_seq(o) || PySequence_Size(o) != (Py_ssize_t)N) {
      PyErr_Clear();
      return false;
    }
    size_t i = 0;
    return each(o, [&](PyObject *x) {
      caster<intrinsic_t<T>> c;
      if (i >= N || !c.load(x, convert))
        return false;
      this->value[i++] = arg_of<T>(c);
      return true;
    });
  }
  template <class U> static PyObject *cast(U &&v) {
    PyObject *l = PyList_New((Py_ssize_t)N);
    for (size_t i = 0; i < N; i++) {
      PyObject *o = caster<intrinsic_t<T>>::cast(v[i]);
      if (!o) {
        Py_DECREF(l);
        return nullptr;
      }
      PyList_SET_ITEM(l, (Py_ssize_t)i, o);
    }
    return l;
  }
};
template <class... T> struct tuple_loader {};
template <class P, class... T> struct tuple_caster {
  std::tuple<caster<intrinsic_t<T>>...> c;
  template <size_t... I> bool load2(PyObject *o, bool convert, seq<I...>) {
    std::vector<object> x;
    if (!each(o, [&](PyObject *e) {
          x.push_back(object::borrow(e));
          return true;
        }))
      return false;
    bool ok[] = {true, std::get<I>(c).load(x[I].ptr(), convert)...};
    for (bool b : ok)
      if (!b)
        return false;
    keep = std::move(x);
    value = P(arg_of<T>(std::get<I>(c))...);
    return true;
  }
  std::vector<object> keep;
  P value{};
  P &ref() { return value; }
  bool load(PyObject *o, bool convert) {
    if (!is_seq(o) || PySequence_Size(o) != (Py_ssize_t)sizeof...(T)) {
      PyErr_Clear();
      return false;
    }
    return load2(o, convert, typename make_seq<sizeof...(T)>::type());
  }
  template <size_t... I> static PyObject *cast2(const P &v, seq<I...>) {
    PyObject *parts[] = {caster<intrinsic_t<T>>::cast(std::get<I>(v))...};
    PyObject *t = PyTuple_New(sizeof...(T));
    bool bad = false;
    for (size_t i = 0; i < sizeof...(T); i++) {
      bad = bad || !parts[i];
      PyTuple_SET_ITEM(t, (Py_ssize_t)i, parts[i]);
    }
    if (bad) {
      Py_DECREF(t);
      return nullptr;
    }
    return t;
  }
  static PyObject *cast(const P &v) { return cast2(v, typename make_seq<sizeof...(T)>::type()); }
};
template <class A, class B> struct caster<std::pair<A, B>> : tuple_caster<std::pair<A, B>, A, B> {};
template <class... T> struct caster<std::tuple<T...>> : tuple_caster<std::tuple<T...>, T...> {};
template <class M> struct map_caster : value_caster<M> {
  bool load(PyObject *o, bool convert) {
    if (!PyDict_Check(o))
      return false;
    this->value.clear();
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(o, &pos, &k, &v)) {
      caster<intrinsic_t<typename M::key_type>> ck;
      caster<intrinsic_t<typename M::mapped_type>> cv;
      if (!ck.load(k, convert) || !cv.load(v, convert))
        return false;
      this->value.emplace(arg_of<typename M::key_type>(ck), arg_of<typename M::mapped_type>(cv));
    }
    return true;
  }
  template <class U> static PyObject *cast(U &&m) {
    PyObject *d = PyDict_New();
    for (auto &&x : m) {
      object k = object::steal(caster<intrinsic_t<typename M::key_type>>::cast(x.first)), v = object::steal(caster<intrinsic_t<typename M::mapped_type>>::cast(x.second));
      PyDict_SetItem(d, k.ptr(), v.ptr());
    }
    return d;
  }
};
template <class K, class V, class C, class A> struct caster<std::map<K, V, C, A>> : map_caster<std::map<K, V, C, A>> {};
template <class K, class V, class H, class Q, class A> struct caster<std::unordered_map<K, V, H, Q, A>> : map_caster<std::unordered_map<K, V, H, Q, A>> {};
template <class S> struct set_caster : value_caster<S> {
  bool load(PyObject *o, bool convert) {
    if (!PyAnySet_Check(o))
      return false;
    object l = object::steal(PySequence_List(o));
    this->value.clear();
    return each(l.ptr(), [&](PyObject *x) {
      caster<intrinsic_t<typename S::value_type>> c;
      if (!c.load(x, convert))
        return false;
      this->value.insert(arg_of<typename S::value_type>(c));
      return true;
    });
  }
  template <class U> static PyObject *cast(U &&s) {
    PyObject *r = PySet_New(nullptr);
    for (auto &&x : s) {
      object o = object::steal(caster<intrinsic_t<typename S::value_type>>::cast(x));
      PySet_Add(r, o.ptr());
    }
    return r;
  }
};
template <class T, class C, class A> struct caster<std::set<T, C, A>> : set_caster<std::set<T, C, A>> {};
template <class T, class H, class Q, class A> struct caster<std::unordered_set<T, H, Q, A>> : set_caster<std::unordered_set<T, H, Q, A>> {};
} // namespace detail
} // namespace pybind11
