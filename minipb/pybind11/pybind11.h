// A small stand-in for pybind11 on the CPython C-API. The real library is not part of this
// sandbox; this one covers what src/wrapper.cpp (and reasonable edits of it) use, with the
// conversion rules and the exception translation of pybind11 2.x.
#pragma once
#include <Python.h>
#include <array>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 13
#define PYBIND11_NOINLINE
#define PYBIND11_NAMESPACE pybind11

namespace pybind11 {

// ------------------------------------------------------------------ C++11 helpers
namespace detail {
template <class T> struct remove_cvref { using type = typename std::remove_cv<typename std::remove_reference<T>::type>::type; };
template <class T> using remove_cvref_t = typename remove_cvref<T>::type;
template <class T> using intrinsic_t = remove_cvref_t<typename std::remove_pointer<remove_cvref_t<T>>::type>;
template <size_t... I> struct seq {};
template <size_t N, size_t... I> struct make_seq : make_seq<N - 1, N - 1, I...> {};
template <size_t... I> struct make_seq<0, I...> { using type = seq<I...>; };
} // namespace detail

class error_already_set : public std::exception {
public:
  const char *what() const noexcept override { return "Python exception"; }
  void restore() {}
};
class builtin_exception : public std::runtime_error {
public:
  using std::runtime_error::runtime_error;
  virtual PyObject *type() const = 0;
};
#define MINIPB_EXC(name, t)                                                                                                                                                                            \
  class name : public builtin_exception {                                                                                                                                                              \
  public:                                                                                                                                                                                              \
    using builtin_exception::builtin_exception;                                                                                                                                                        \
    name() : name("") {}                                                                                                                                                                               \
    PyObject *type() const override { return t; }                                                                                                                                                      \
  };
MINIPB_EXC(stop_iteration, PyExc_StopIteration)
MINIPB_EXC(index_error, PyExc_IndexError)
MINIPB_EXC(key_error, PyExc_KeyError)
MINIPB_EXC(value_error, PyExc_ValueError)
MINIPB_EXC(type_error, PyExc_TypeError)
MINIPB_EXC(attribute_error, PyExc_AttributeError)
MINIPB_EXC(buffer_error, PyExc_BufferError)
MINIPB_EXC(import_error, PyExc_ImportError)
MINIPB_EXC(cast_error, PyExc_RuntimeError)
MINIPB_EXC(reference_cast_error, PyExc_RuntimeError)

namespace detail {
inline PyObject *translate() {
  try {
    throw;
  } catch (error_already_set &) {
    if (!PyErr_Occurred())
      PyErr_SetString(PyExc_SystemError, "error_already_set without an error");
  } catch (const builtin_exception &e) {
    PyErr_SetString(e.type(), e.what());
  } catch (const std::bad_alloc &e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error &e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception &e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
  return nullptr;
}
} // namespace detail

// ------------------------------------------------------------------ object wrappers
template <class T> T cast_from(PyObject *);
class handle {
public:
  PyObject *p = nullptr;
  handle() = default;
  handle(PyObject *o) : p(o) {}
  PyObject *ptr() const { return p; }
  explicit operator bool() const { return p != nullptr; }
  bool is_none() const { return p == Py_None; }
  bool is(const handle &o) const { return p == o.p; }
  const handle &inc_ref() const {
    Py_XINCREF(p);
    return *this;
  }
  const handle &dec_ref() const {
    Py_XDECREF(p);
    return *this;
  }
  template <class T> T cast() const;
};
class object : public handle {
public:
  object() = default;
  object(const object &o) : handle(o.p) { Py_XINCREF(p); }
  object(object &&o) noexcept : handle(o.p) { o.p = nullptr; }
  object &operator=(const object &o) {
    Py_XINCREF(o.p);
    Py_XDECREF(p);
    p = o.p;
    return *this;
  }
  object &operator=(object &&o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~object() { Py_XDECREF(p); }
  handle release() {
    handle h(p);
    p = nullptr;
    return h;
  }
  static object steal(PyObject *o) {
    if (!o)
      throw error_already_set();
    object r;
    r.p = o;
    return r;
  }
  static object borrow(PyObject *o) {
    Py_XINCREF(o);
    object r;
    r.p = o;
    return r;
  }
  object attr(const char *n) const { return steal(PyObject_GetAttrString(p, n)); }
  template <class... A> object operator()(A &&...a) const;
};
template <class T> T reinterpret_borrow(handle h) {
  T t;
  static_cast<object &>(t) = object::borrow(h.ptr());
  return t;
}
template <class T> T reinterpret_steal(handle h) {
  T t;
  static_cast<object &>(t) = object::steal(h.ptr());
  return t;
}
class none : public object {
public:
  none() { p = Py_NewRef(Py_None); }
};
class str : public object {
public:
  str() { p = PyUnicode_FromString(""); }
  str(const char *s) { p = PyUnicode_FromString(s); }
  str(const std::string &s) { p = PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size()); }
  operator std::string() const {
    Py_ssize_t n;
    const char *s = PyUnicode_AsUTF8AndSize(p, &n);
    if (!s)
      throw error_already_set();
    return std::string(s, (size_t)n);
  }
};
class list : public object {
public:
  list() { p = PyList_New(0); }
  size_t size() const { return (size_t)PyList_Size(p); }
  template <class T> void append(T &&v);
  object operator[](size_t i) const { return borrow(PyList_GetItem(p, (Py_ssize_t)i)); }
};
class tuple : public object {
public:
  tuple() { p = PyTuple_New(0); }
  size_t size() const { return (size_t)PyTuple_Size(p); }
  object operator[](size_t i) const {
    PyObject *o = PyTuple_GetItem(p, (Py_ssize_t)i);
    if (!o)
      throw error_already_set();
    return borrow(o);
  }
};
class dict : public object {
public:
  dict() { p = PyDict_New(); }
  size_t size() const { return (size_t)PyDict_Size(p); }
};
class args : public tuple {};
class kwargs : public dict {};
template <class T> bool isinstance(handle h);

class gil_scoped_release {
  PyThreadState *s;

public:
  gil_scoped_release() : s(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s); }
};
class gil_scoped_acquire {
  PyGILState_STATE s;

public:
  gil_scoped_acquire() : s(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s); }
};

// ------------------------------------------------------------------ annotations
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct arg_v;
struct arg {
  const char *name;
  bool noconv = false, allow_none = true;
  constexpr explicit arg(const char *n = nullptr) : name(n) {}
  template <class T> arg_v operator=(T &&v) const;
  arg &noconvert(bool f = true) {
    noconv = f;
    return *this;
  }
  arg &none(bool f = true) {
    allow_none = f;
    return *this;
  }
};
struct arg_v : arg {
  object value;
  arg_v(const arg &a, object v) : arg(a), value(std::move(v)) {}
};
struct kw_only {};
struct pos_only {};
struct doc {
  const char *value;
  explicit doc(const char *v) : value(v) {}
};
template <class... T> struct call_guard {};
template <size_t, size_t> struct keep_alive {};
struct is_method {
  handle c;
  explicit is_method(handle h) : c(h) {}
};
struct is_operator {};
struct dynamic_attr {};
struct module_local {
  explicit module_local(bool = true) {}
};
struct arithmetic {};
struct prepend {};
inline namespace literals {
constexpr arg operator""_a(const char *n, size_t) { return arg(n); }
} // namespace literals

namespace detail {
// ------------------------------------------------------------------ registered classes
struct Instance {
  PyObject_HEAD void *ptr;
  void (*del)(void *);
};
inline std::unordered_map<std::type_index, PyTypeObject *> &registry() {
  static std::unordered_map<std::type_index, PyTypeObject *> r;
  return r;
}

// ------------------------------------------------------------------ casters
// load(): Python to C++; ref(): the loaded value; cast(): C++ to Python (new reference)
template <class T, class = void> struct caster { // instances of registered classes
  T *ptr = nullptr;
  bool load(PyObject *o, bool) {
    if (o == Py_None) {
      ptr = nullptr;
      return true; // for pointers; references check below
    }
    auto it = registry().find(typeid(T));
    if (it == registry().end() || !PyObject_TypeCheck(o, it->second))
      return false;
    ptr = static_cast<T *>(reinterpret_cast<Instance *>(o)->ptr);
    return ptr != nullptr;
  }
  T &ref() {
    if (!ptr)
      throw reference_cast_error("");
    return *ptr;
  }
  template <class U> static PyObject *cast(U &&v) {
    auto it = registry().find(typeid(T));
    if (it == registry().end()) {
      PyErr_SetString(PyExc_TypeError, "Unable to convert function return value to a Python type!");
      return nullptr;
    }
    PyObject *o = it->second->tp_alloc(it->second, 0);
    if (!o)
      return nullptr;
    auto *in = reinterpret_cast<Instance *>(o);
    in->ptr = new T(std::forward<U>(v));
    in->del = [](void *q) { delete static_cast<T *>(q); };
    return o;
  }
};
template <class T> struct value_caster {
  T value{};
  T &ref() { return value; }
};
template <> struct caster<bool> : value_caster<bool> {
  bool load(PyObject *o, bool convert) {
    if (o == Py_True || o == Py_False) {
      value = o == Py_True;
      return true;
    }
    if (convert || !strcmp(Py_TYPE(o)->tp_name, "numpy.bool") || !strcmp(Py_TYPE(o)->tp_name, "numpy.bool_")) {
      if (o == Py_None) {
        value = false;
        return true;
      }
      if (Py_TYPE(o)->tp_as_number && Py_TYPE(o)->tp_as_number->nb_bool) {
        int r = Py_TYPE(o)->tp_as_number->nb_bool(o);
        if (r == 0 || r == 1) {
          value = r;
          return true;
        }
      }
      PyErr_Clear();
    }
    return false;
  }
  static PyObject *cast(bool v) { return PyBool_FromLong(v); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> : value_caster<T> {
  bool load(PyObject *o, bool convert) {
    if (!convert && !PyFloat_Check(o))
      return false;
    double d = PyFloat_AsDouble(o);
    if (d == -1 && PyErr_Occurred()) {
      PyErr_Clear();
      if (convert && PyNumber_Check(o)) {
        PyObject *t = PyNumber_Float(o);
        PyErr_Clear();
        bool r = t && load(t, false);
        Py_XDECREF(t);
        return r;
      }
      return false;
    }
    this->value = (T)d;
    return true;
  }
  static PyObject *cast(T v) { return PyFloat_FromDouble((double)v); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>::type> : value_caster<T> {
  bool load(PyObject *o, bool convert) {
    if (PyFloat_Check(o))
      return false;
    if (!convert && !PyLong_Check(o) && !PyIndex_Check(o))
      return false;
    PyObject *i = PyNumber_Index(o);
    if (!i) {
      PyErr_Clear();
      if (!convert)
        return false;
      i = PyNumber_Check(o) ? PyNumber_Long(o) : nullptr;
      if (!i) {
        PyErr_Clear();
        return false;
      }
    }
    bool ok = true;
    if (std::is_unsigned<T>::value) {
      unsigned long long v = PyLong_AsUnsignedLongLong(i);
      if ((v == (unsigned long long)-1 && PyErr_Occurred()) || v > (unsigned long long)std::numeric_limits<T>::max()) {
        PyErr_Clear();
        ok = false;
      }
      this->value = (T)v;
    } else {
      long long v = PyLong_AsLongLong(i);
      if ((v == -1 && PyErr_Occurred()) || v < (long long)std::numeric_limits<T>::min() || v > (long long)std::numeric_limits<T>::max()) {
        PyErr_Clear();
        ok = false;
      }
      this->value = (T)v;
    }
    Py_DECREF(i);
    return ok;
  }
  static PyObject *cast(T v) { return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong((unsigned long long)v) : PyLong_FromLongLong((long long)v); }
};
template <> struct caster<std::string> : value_caster<std::string> {
  bool load(PyObject *o, bool) {
    if (PyUnicode_Check(o)) {
      Py_ssize_t n;
      const char *s = PyUnicode_AsUTF8AndSize(o, &n);
      if (!s) {
        PyErr_Clear();
        return false;
      }
      value.assign(s, (size_t)n);
      return true;
    }
    if (PyBytes_Check(o)) {
      value.assign(PyBytes_AS_STRING(o), (size_t)PyBytes_GET_SIZE(o));
      return true;
    }
    if (PyByteArray_Check(o)) {
      value.assign(PyByteArray_AS_STRING(o), (size_t)PyByteArray_GET_SIZE(o));
      return true;
    }
    return false;
  }
  static PyObject *cast(const std::string &s) { return PyUnicode_DecodeUTF8(s.data(), (Py_ssize_t)s.size(), nullptr); }
};
template <> struct caster<char> { // const char *
  std::string s;
  char c = 0, *q = nullptr;
  bool load(PyObject *o, bool convert) {
    caster<std::string> k;
    if (!k.load(o, convert))
      return false;
    s = k.value;
    q = &s[0];
    return true;
  }
  char &ref() { return *q; }
  static PyObject *cast(const char *v) { return v ? PyUnicode_FromString(v) : Py_NewRef(Py_None); }
  static PyObject *cast(char v) { return PyUnicode_FromStringAndSize(&v, 1); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_base_of<handle, T>::value>::type> : value_caster<T> {
  bool load(PyObject *o, bool) {
    if ((std::is_base_of<list, T>::value && !PyList_Check(o)) || (std::is_base_of<tuple, T>::value && !PyTuple_Check(o)) || (std::is_base_of<dict, T>::value && !PyDict_Check(o)) ||
        (std::is_base_of<str, T>::value && !PyUnicode_Check(o)))
      return false;
    set(this->value, o);
    return true;
  }
  static void set(object &v, PyObject *o) { v = object::borrow(o); }
  static void set(handle &v, PyObject *o) { v = handle(o); }
  static PyObject *cast(const handle &v) { return Py_XNewRef(v.ptr()); }
};

// argument of declared type A from a loaded caster
template <class C> auto pointer_of(C &c, int) -> decltype(c.ptr) { return c.ptr; }
template <class C> auto pointer_of(C &c, long) -> decltype(&c.ref()) { return &c.ref(); }
template <class C> auto value_of(C &c, int) -> decltype(std::move(c.value)) { return std::move(c.value); }
template <class C> auto value_of(C &c, long) -> decltype(c.ref()) { return c.ref(); } // instances are copied
struct by_pointer {};
struct by_lvalue {};
struct by_value {};
template <class C> decltype(auto) get_arg(C &c, by_pointer) { return pointer_of(c, 0); }
template <class C> decltype(auto) get_arg(C &c, by_lvalue) { return c.ref(); }
template <class C> decltype(auto) get_arg(C &c, by_value) { return value_of(c, 0); }
template <class A>
using passing = typename std::conditional<std::is_pointer<typename std::remove_reference<A>::type>::value, by_pointer,
                                          typename std::conditional<std::is_lvalue_reference<A>::value, by_lvalue, by_value>::type>::type;
template <class A, class C> decltype(auto) arg_of(C &c) { return get_arg(c, passing<A>()); }

template <class T> PyObject *to_python(T &&v) { return caster<intrinsic_t<T>>::cast(std::forward<T>(v)); }
template <class R> struct returns {
  template <class F> static PyObject *call(F &&f) {
    decltype(auto) r = f();
    return to_python(std::forward<decltype(r)>(r));
  }
};
template <> struct returns<void> {
  template <class F> static PyObject *call(F &&f) {
    f();
    return Py_NewRef(Py_None);
  }
};

// ------------------------------------------------------------------ functions
struct Param {
  std::string name;
  bool noconvert = false, has_default = false, none_ok = true;
  object def;
};
struct Overload {
  size_t nargs = 0;
  bool method = false, has_args = false, has_kwargs = false;
  std::vector<Param> params; // without self; empty when not named
  std::string docstring;
  std::function<PyObject *(PyObject **, bool *convert)> impl; // nullptr without error: try the next one
  bool *no_match = nullptr;
};
struct Function {
  std::string name;
  std::vector<std::unique_ptr<Overload>> overloads;
  PyMethodDef def;
};
inline PyObject *mismatch() {
  static PyObject *o = PyObject_CallNoArgs((PyObject *)&PyBaseObject_Type);
  return o;
}
inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kw) {
  auto *f = static_cast<Function *>(PyCapsule_GetPointer(self, nullptr));
  const bool many = f->overloads.size() > 1;
  for (int pass = many ? 0 : 1; pass < 2; pass++)
    for (auto &o : f->overloads) {
      const size_t given = (size_t)PyTuple_GET_SIZE(args);
      const size_t fixed = o->nargs - o->has_args - o->has_kwargs;
      if (given > fixed && !o->has_args)
        continue;
      std::vector<PyObject *> a(o->nargs, nullptr);
      std::vector<object> keep;
      for (size_t i = 0; i < given && i < fixed; i++)
        a[i] = PyTuple_GET_ITEM(args, (Py_ssize_t)i);
      size_t used = 0;
      bool ok = true;
      for (size_t i = std::min(given, fixed); i < fixed && ok; i++) {
        size_t k = i - o->method;
        if (k < o->params.size() && !(o->method && i == 0)) {
          PyObject *v = kw ? PyDict_GetItemString(kw, o->params[k].name.c_str()) : nullptr;
          if (v)
            used++;
          else if (o->params[k].has_default)
            v = o->params[k].def.ptr();
          a[i] = v;
        }
        ok = a[i] != nullptr;
      }
      if (!ok)
        continue;
      size_t nkw = kw ? (size_t)PyDict_GET_SIZE(kw) : 0;
      if (o->has_args) {
        keep.push_back(object::steal(PyTuple_GetSlice(args, (Py_ssize_t)std::min(given, fixed), (Py_ssize_t)given)));
        a[fixed] = keep.back().ptr();
      }
      if (o->has_kwargs) {
        PyObject *d = kw ? PyDict_Copy(kw) : PyDict_New();
        for (auto &p : o->params)
          if (PyDict_GetItemString(d, p.name.c_str()))
            PyDict_DelItemString(d, p.name.c_str());
        keep.push_back(object::steal(d));
        a[o->nargs - 1] = d;
      } else if (used != nkw)
        continue;
      std::vector<char> conv(o->nargs, pass);
      std::unique_ptr<bool[]> cv(new bool[o->nargs + 1]);
      for (size_t i = 0; i < o->nargs; i++) {
        cv[i] = pass;
        size_t k = i - o->method;
        if (!(o->method && i == 0) && k < o->params.size()) {
          if (o->params[k].noconvert)
            cv[i] = false;
          if (!o->params[k].none_ok && a[i] == Py_None)
            ok = false;
        }
      }
      if (!ok)
        continue;
      PyObject *r;
      try {
        r = o->impl(a.data(), cv.get());
      } catch (reference_cast_error &) {
        continue;
      } catch (...) {
        return translate();
      }
      if (r == mismatch())
        continue;
      return r;
    }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments. Invoked with: %R %R", f->name.c_str(), args, kw ? kw : Py_None);
  return nullptr;
}
inline void extra(Overload &o, const arg &a) {
  Param p;
  p.name = a.name ? a.name : "";
  p.noconvert = a.noconv;
  p.none_ok = a.allow_none;
  o.params.push_back(p);
}
inline void extra(Overload &o, const arg_v &a) {
  extra(o, static_cast<const arg &>(a));
  o.params.back().has_default = true;
  o.params.back().def = a.value;
}
inline void extra(Overload &o, const char *d) { o.docstring = d; }
inline void extra(Overload &o, const doc &d) { o.docstring = d.value; }
template <class T> void extra(Overload &, const T &) {}

template <class... E> struct guards_of { using type = std::tuple<>; };
template <class... G, class... E> struct guards_of<call_guard<G...>, E...> { using type = std::tuple<G...>; };
template <class E0, class... E> struct guards_of<E0, E...> : guards_of<E...> {};
template <class T> struct guard_holder;
template <class... G> struct guard_holder<std::tuple<G...>> {
  std::tuple<std::unique_ptr<G>...> g;
  guard_holder() : g(std::unique_ptr<G>(new G())...) {}
};

template <class F, class R, class Guards, class... A, size_t... I> std::function<PyObject *(PyObject **, bool *)> make_impl(F f, seq<I...>) {
  return [f](PyObject **a, bool *convert) mutable -> PyObject * {
    std::tuple<caster<intrinsic_t<A>>...> c;
    bool ok[] = {true, std::get<I>(c).load(a[I], convert[I])...};
    (void)a;
    (void)convert;
    for (bool b : ok)
      if (!b)
        return mismatch();
    return returns<R>::call([&]() -> R {
      guard_holder<Guards> g;
      (void)g;
      return f(arg_of<A>(std::get<I>(c))...);
    });
  };
}

inline object make_cfunction(const char *name, object previous, std::unique_ptr<Overload> o) {
  if (previous.ptr() && PyInstanceMethod_Check(previous.ptr()))
    previous = object::borrow(PyInstanceMethod_GET_FUNCTION(previous.ptr()));
  if (previous.ptr() && PyCFunction_Check(previous.ptr()) && PyCFunction_GET_SELF(previous.ptr()) && PyCapsule_CheckExact(PyCFunction_GET_SELF(previous.ptr()))) {
    auto *f = static_cast<Function *>(PyCapsule_GetPointer(PyCFunction_GET_SELF(previous.ptr()), nullptr));
    f->overloads.push_back(std::move(o));
    return previous;
  }
  auto *f = new Function();
  f->name = name;
  f->overloads.push_back(std::move(o));
  f->def.ml_name = f->name.c_str();
  f->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)(void)>(static_cast<PyObject *(*)(PyObject *, PyObject *, PyObject *)>(&dispatch)));
  f->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
  f->def.ml_doc = nullptr;
  object cap = object::steal(PyCapsule_New(f, nullptr, nullptr));
  return object::steal(PyCFunction_New(&f->def, cap.ptr()));
}
template <class... A> struct tail_kind {
  static constexpr bool has_args = false, has_kwargs = false;
};
template <class A> struct tail_kind<A> {
  static constexpr bool has_args = std::is_same<remove_cvref_t<A>, args>::value, has_kwargs = std::is_same<remove_cvref_t<A>, kwargs>::value;
};
template <class A, class B, class... C> struct tail_kind<A, B, C...> {
  static constexpr bool has_args = std::is_same<remove_cvref_t<A>, args>::value || tail_kind<B, C...>::has_args;
  static constexpr bool has_kwargs = tail_kind<B, C...>::has_kwargs;
};
template <class R, class... A> struct signature {};
template <class F, class R, class... A, class... E> std::unique_ptr<Overload> make_overload(F f, signature<R, A...>, bool method, const E &...e) {
  std::unique_ptr<Overload> o(new Overload());
  o->nargs = sizeof...(A);
  o->method = method;
  o->has_args = tail_kind<A...>::has_args;
  o->has_kwargs = tail_kind<A...>::has_kwargs;
  int dummy[] = {0, (extra(*o, e), 0)...};
  (void)dummy;
  o->impl = make_impl<F, R, typename guards_of<E...>::type, A...>(std::move(f), typename make_seq<sizeof...(A)>::type());
  return o;
}
// any callable
template <class F> struct callable_signature;
template <class C, class R, class... A> struct callable_signature<R (C::*)(A...)> { using type = signature<R, A...>; };
template <class C, class R, class... A> struct callable_signature<R (C::*)(A...) const> { using type = signature<R, A...>; };
template <class F, class... E> std::unique_ptr<Overload> overload_of(F f, bool method, const E &...e) {
  return make_overload(std::move(f), typename callable_signature<decltype(&F::operator())>::type(), method, e...);
}
template <class R, class... A, class... E> std::unique_ptr<Overload> overload_of(R (*f)(A...), bool method, const E &...e) { return make_overload(f, signature<R, A...>(), method, e...); }
// member functions, on objects of type T (the registered class)
template <class T> struct method_maker {
  template <class F, class... E> static std::unique_ptr<Overload> make(F f, const E &...e) { return overload_of(std::move(f), true, e...); }
  template <class C, class R, class... A, class... E> static std::unique_ptr<Overload> make(R (C::*f)(A...), const E &...e) {
    return make_overload([f](T &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }, signature<R, T &, A...>(), true, e...);
  }
  template <class C, class R, class... A, class... E> static std::unique_ptr<Overload> make(R (C::*f)(A...) const, const E &...e) {
    return make_overload([f](const T &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }, signature<R, const T &, A...>(), true, e...);
  }
};
template <class T, class F, class... E> std::unique_ptr<Overload> method_of(F &&f, const E &...e) { return method_maker<T>::make(std::forward<F>(f), e...); }
} // namespace detail

template <class T> T handle_cast(PyObject *o) {
  detail::caster<detail::intrinsic_t<T>> c;
  if (!c.load(o, true))
    throw cast_error("Unable to cast Python instance to C++ type");
  return detail::arg_of<T>(c);
}
template <class T> T handle::cast() const { return handle_cast<T>(p); }
template <class T> T cast(const handle &h) { return handle_cast<T>(h.ptr()); }
template <class T> object cast(T &&v, typename std::enable_if<!std::is_base_of<handle, detail::remove_cvref_t<T>>::value, int>::type = 0) {
  return object::steal(detail::to_python(std::forward<T>(v)));
}
template <class T> bool isinstance(handle h) {
  detail::caster<T> c;
  return c.load(h.ptr(), false);
}
template <class T> arg_v arg::operator=(T &&v) const { return arg_v(*this, object::steal(detail::to_python(std::forward<T>(v)))); }
template <class T> void list::append(T &&v) {
  object o = object::steal(detail::to_python(std::forward<T>(v)));
  PyList_Append(p, o.ptr());
}
template <class... A> tuple make_tuple(A &&...a) {
  tuple t;
  PyObject *r = PyTuple_New(sizeof...(A));
  Py_ssize_t i = 0;
  int dummy[] = {0, (PyTuple_SET_ITEM(r, i++, detail::to_python(std::forward<A>(a))), 0)...};
  (void)dummy;
  static_cast<object &>(t) = object::steal(r);
  return t;
}
template <class... A> object object::operator()(A &&...a) const {
  tuple t = make_tuple(std::forward<A>(a)...);
  return steal(PyObject_CallObject(p, t.ptr()));
}

template <class... A> struct overload_cast_impl {
  template <class R> constexpr auto operator()(R (*f)(A...)) const noexcept -> decltype(f) { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const noexcept -> decltype(f) { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const noexcept -> decltype(f) { return f; }
};
template <class... A> constexpr overload_cast_impl<A...> overload_cast{};
constexpr auto const_ = std::true_type{};

class module_ : public object {
  struct DocProxy {
    PyObject *m;
    DocProxy &operator=(const char *s) {
      PyObject_SetAttrString(m, "__doc__", str(s).ptr());
      return *this;
    }
  };
  struct AttrProxy {
    PyObject *m;
    std::string n;
    template <class T> AttrProxy &operator=(T &&v) {
      object o = object::steal(detail::to_python(std::forward<T>(v)));
      PyObject_SetAttrString(m, n.c_str(), o.ptr());
      return *this;
    }
    AttrProxy &operator=(const char *s) {
      PyObject_SetAttrString(m, n.c_str(), str(s).ptr());
      return *this;
    }
  };

public:
  DocProxy doc() { return DocProxy{p}; }
  AttrProxy attr(const char *n) { return AttrProxy{p, n}; }
  template <class F, class... E> module_ &def(const char *name, F &&f, const E &...e) {
    object prev = PyObject_HasAttrString(p, name) ? object::steal(PyObject_GetAttrString(p, name)) : object();
    object fn = detail::make_cfunction(name, prev, detail::overload_of(std::forward<F>(f), false, e...));
    PyObject_SetAttrString(p, name, fn.ptr());
    return *this;
  }
  static module_ import(const char *n) {
    module_ m;
    static_cast<object &>(m) = steal(PyImport_ImportModule(n));
    return m;
  }
};
using module = module_;

template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }
template <class F> struct init_factory {
  F f;
};
template <class F> init_factory<F> init(F f) { return {std::move(f)}; }
template <class G, class S> struct pickle_factory {
  G get;
  S set;
};
template <class G, class S> pickle_factory<G, S> pickle(G g, S s) { return {std::move(g), std::move(s)}; }

namespace detail {
inline PyObject *instance_new(PyTypeObject *t, PyObject *, PyObject *) {
  PyObject *o = t->tp_alloc(t, 0);
  if (o) {
    reinterpret_cast<Instance *>(o)->ptr = nullptr;
    reinterpret_cast<Instance *>(o)->del = nullptr;
  }
  return o;
}
inline int instance_init(PyObject *o, PyObject *, PyObject *) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(o)->tp_name);
  return -1;
}
inline void instance_dealloc(PyObject *o) {
  auto *in = reinterpret_cast<Instance *>(o);
  PyTypeObject *t = Py_TYPE(o);
  if (in->ptr && in->del)
    in->del(in->ptr);
  t->tp_free(o);
  Py_DECREF(t);
}
// the object under construction
struct self_t {
  Instance *in;
};
template <> struct caster<self_t> : value_caster<self_t> {
  bool load(PyObject *o, bool) {
    value.in = reinterpret_cast<Instance *>(o);
    return true;
  }
};
template <class T> void install(self_t s, T *p) {
  if (s.in->ptr && s.in->del)
    s.in->del(s.in->ptr);
  s.in->ptr = p;
  s.in->del = [](void *q) { delete static_cast<T *>(q); };
}
template <class T, class R> struct constructed {
  static T *ptr(R &&r) { return new T(std::move(r)); }
};
template <class T, class U> struct constructed<T, U *> {
  static T *ptr(U *r) { return r; }
};
template <class T, class U, class D> struct constructed<T, std::unique_ptr<U, D>> {
  static T *ptr(std::unique_ptr<U, D> &&r) { return r.release(); }
};
template <class T, class F, class R, class... A, class... E> std::unique_ptr<Overload> init_overload(F f, signature<R, A...>, const E &...e) {
  return make_overload([f](self_t s, A... a) mutable { install<T>(s, constructed<T, R>::ptr(f(std::forward<A>(a)...))); }, signature<void, self_t, A...>(), true, e...);
}
template <class T, class... A, class... E> std::unique_ptr<Overload> init_overload_args(init_t<A...>, const E &...e) {
  return make_overload([](self_t s, A... a) { install<T>(s, new T(std::forward<A>(a)...)); }, signature<void, self_t, A...>(), true, e...);
}
} // namespace detail

template <class T, class... Options> class class_ : public object {
protected:
  class_() = default;
  void add(const char *name, std::unique_ptr<detail::Overload> o, bool is_static = false) {
    PyObject *d = PyDict_GetItemString(reinterpret_cast<PyTypeObject *>(p)->tp_dict, name);
    object prev = object::borrow(d);
    if (d && Py_TYPE(d) == &PyStaticMethod_Type)
      prev = object::steal(PyObject_GetAttrString(p, name));
    object fn = detail::make_cfunction(name, prev, std::move(o));
    object wrapped = object::steal(is_static ? PyStaticMethod_New(fn.ptr()) : PyInstanceMethod_New(fn.ptr()));
    if (PyObject_SetAttrString(p, name, wrapped.ptr()))
      throw error_already_set();
  }
  void property(const char *name, std::unique_ptr<detail::Overload> get, std::unique_ptr<detail::Overload> set) {
    object g = detail::make_cfunction(name, object(), std::move(get));
    object s = set ? detail::make_cfunction(name, object(), std::move(set)) : object::borrow(Py_None);
    object pr = object::steal(PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, g.ptr(), s.ptr(), nullptr));
    if (PyObject_SetAttrString(p, name, pr.ptr()))
      throw error_already_set();
  }
  void create(handle scope, const char *name) {
    std::string full = (PyModule_Check(scope.ptr()) ? std::string(PyModule_GetName(scope.ptr())) + "." : std::string()) + name;
    auto *keep = new std::string(full);
    PyType_Slot slots[] = {{Py_tp_new, (void *)&detail::instance_new}, {Py_tp_init, (void *)&detail::instance_init}, {Py_tp_dealloc, (void *)&detail::instance_dealloc}, {0, nullptr}};
    PyType_Spec spec = {keep->c_str(), sizeof(detail::Instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    static_cast<object &>(*this) = object::steal(PyType_FromSpec(&spec));
    detail::registry()[typeid(T)] = reinterpret_cast<PyTypeObject *>(p);
    if (PyObject_SetAttrString(scope.ptr(), name, p))
      throw error_already_set();
  }

public:
  using type = T;
  template <class... E> class_(handle scope, const char *name, const E &...) { create(scope, name); }
  template <class F, class... E> class_ &def(const char *name, F &&f, const E &...e) {
    add(name, detail::method_of<T>(std::forward<F>(f), e...));
    return *this;
  }
  template <class... A, class... E> class_ &def(const init_t<A...> &i, const E &...e) {
    add("__init__", detail::init_overload_args<T>(i, e...));
    return *this;
  }
  template <class F, class... E> class_ &def(init_factory<F> f, const E &...e) {
    add("__init__", factory(std::move(f.f), 0, e...));
    return *this;
  }
  template <class G, class S, class... E> class_ &def(pickle_factory<G, S> f, const E &...e) {
    add("__getstate__", detail::method_of<T>(std::move(f.get), e...));
    add("__setstate__", factory(std::move(f.set), 0, e...));
    return *this;
  }
  template <class F, class... E> class_ &def_static(const char *name, F &&f, const E &...e) {
    add(name, detail::overload_of(std::forward<F>(f), false, e...), true);
    return *this;
  }
  template <class C, class D, class... E> class_ &def_readonly(const char *name, D C::*m, const E &...) {
    property(name, detail::method_of<T>([m](const T &t) -> const D & { return t.*m; }), nullptr);
    return *this;
  }
  template <class C, class D, class... E> class_ &def_readwrite(const char *name, D C::*m, const E &...) {
    property(name, detail::method_of<T>([m](const T &t) -> const D & { return t.*m; }), detail::method_of<T>([m](T &t, const D &v) { t.*m = v; }));
    return *this;
  }
  template <class F, class... E> class_ &def_property_readonly(const char *name, F &&f, const E &...e) {
    property(name, detail::method_of<T>(std::forward<F>(f), e...), nullptr);
    return *this;
  }
  template <class F, class G, class... E> class_ &def_property(const char *name, F &&f, G &&g, const E &...e) {
    property(name, detail::method_of<T>(std::forward<F>(f), e...), detail::method_of<T>(std::forward<G>(g), e...));
    return *this;
  }

private:
  template <class F, class... E> static auto factory(F f, int, const E &...e) -> decltype((void)&F::operator(), std::unique_ptr<detail::Overload>()) {
    return detail::init_overload<T>(std::move(f), typename detail::callable_signature<decltype(&F::operator())>::type(), e...);
  }
  template <class R, class... A, class... E> static std::unique_ptr<detail::Overload> factory(R (*f)(A...), long, const E &...e) {
    return detail::init_overload<T>(f, detail::signature<R, A...>(), e...);
  }
};

// enumerations: a class with one instance per value
template <class T> class enum_ : public class_<T> {
  handle scope_;
  struct Entries {
    std::vector<std::pair<std::string, T>> v;
    std::string name;
  };
  std::shared_ptr<Entries> entries = std::make_shared<Entries>();

public:
  using U = typename std::underlying_type<T>::type;
  template <class... E> enum_(handle scope, const char *name, const E &...e) : class_<T>(scope, name, e...), scope_(scope) {
    auto en = entries;
    en->name = name;
    auto text = [en](T v) {
      for (auto &x : en->v)
        if (x.second == v)
          return x.first;
      return std::string("???");
    };
    this->def(pybind11::init([](U v) { return static_cast<T>(v); }), arg("value"));
    this->def_property_readonly("name", [text](const T &v) { return text(v); });
    this->def_property_readonly("value", [](const T &v) { return (long long)static_cast<U>(v); });
    this->def("__int__", [](const T &v) { return (long long)static_cast<U>(v); });
    this->def("__index__", [](const T &v) { return (long long)static_cast<U>(v); });
    this->def("__hash__", [](const T &v) { return (long long)static_cast<U>(v); });
    this->def("__repr__", [en, text](const T &v) { return "<" + en->name + "." + text(v) + ": " + std::to_string((long long)static_cast<U>(v)) + ">"; });
    this->def("__str__", [en, text](const T &v) { return en->name + "." + text(v); });
    this->def("__eq__", [](const T &a, object b) {
      detail::caster<T> c;
      return b.ptr() != Py_None && c.load(b.ptr(), false) && c.ref() == a;
    });
    this->def("__ne__", [](const T &a, object b) {
      detail::caster<T> c;
      return !(b.ptr() != Py_None && c.load(b.ptr(), false) && c.ref() == a);
    });
    this->def("__getstate__", [](const T &v) { return (long long)static_cast<U>(v); });
    this->add("__setstate__", detail::init_overload<T>([](U v) { return static_cast<T>(v); }, detail::signature<T, U>()));
  }
  enum_ &value(const char *name, T v, const char * = nullptr) {
    entries->v.emplace_back(name, v);
    object o = object::steal(detail::caster<T>::cast(v));
    PyObject_SetAttrString(this->p, name, o.ptr());
    dict d;
    for (auto &x : entries->v) {
      object e = object::steal(detail::caster<T>::cast(x.second));
      PyDict_SetItemString(d.ptr(), x.first.c_str(), e.ptr());
    }
    PyObject_SetAttrString(this->p, "__members__", d.ptr());
    return *this;
  }
  enum_ &export_values() {
    for (auto &x : entries->v) {
      object o = object::steal(PyObject_GetAttrString(this->p, x.first.c_str()));
      PyObject_SetAttrString(scope_.ptr(), x.first.c_str(), o.ptr());
    }
    return *this;
  }
};

inline void print(const std::string &s) { PySys_WriteStdout("%s\n", s.c_str()); }
} // namespace pybind11

#define PYBIND11_MODULE(name, variable, ...)                                                                            \
  static void minipb_init_##name(::pybind11::module_ &);                                                                \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {                                         \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, (Py_ssize_t)-1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
    PyObject *o = PyModule_Create(&def);                                                                                \
    if (!o)                                                                                                             \
      return nullptr;                                                                                                   \
    ::pybind11::module_ m;                                                                                              \
    static_cast<::pybind11::object &>(m) = ::pybind11::object::borrow(o);                                               \
    try {                                                                                                               \
      minipb_init_##name(m);                                                                                            \
    } catch (...) {                                                                                                     \
      Py_DECREF(o);                                                                                                     \
      return ::pybind11::detail::translate();                                                                           \
    }                                                                                                                   \
    return o;                                                                                                           \
  }                                                                                                                     \
  static void minipb_init_##name(::pybind11::module_ &variable)
