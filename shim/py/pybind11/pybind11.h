// A small stand-in for pybind11 (not installed here): enough of it to build /repo/miso/pyMISO as it is.
// It follows pybind11's rules where they matter to callers: two passes over the overloads (first without, then
// with conversions), arrays of another type converted to a new array, C++ exceptions turned into Python ones.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>
namespace pybind11
{
using ssize_t = Py_ssize_t;
struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("a Python error") { } };
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
enum class return_value_policy { automatic };
class handle; class object; template <class T> T cast_to(handle h);
namespace detail { class item_accessor; struct list_accessor; struct tuple_accessor; struct sequence_accessor; struct str_attr_accessor; struct obj_attr_accessor; }
struct iterator;
class handle
{
public:
   handle() = default; handle(PyObject *p) : m(p) { } PyObject *ptr() const { return m; } bool is_none() const { return m == Py_None; } explicit operator bool() const { return m; }
   handle inc_ref() const { Py_XINCREF(m); return *this; } void dec_ref() const { Py_XDECREF(m); }
   template <class T> T cast() const { return cast_to<T>(*this); }
   detail::item_accessor operator[](handle key) const; iterator begin() const; iterator end() const;
protected: PyObject *m = nullptr;
};
class object : public handle
{
public:
   object() = default; object(const object &o) : handle(o) { inc_ref(); } object(object &&o) noexcept : handle(o.m) { o.m = nullptr; } ~object() { dec_ref(); }
   object &operator=(const object &o) { o.inc_ref(); dec_ref(); m = o.m; return *this; } object &operator=(object &&o) noexcept { std::swap(m, o.m); return *this; }
   struct stolen { }; object(PyObject *p, stolen) : handle(p) { if (!p) { throw error_already_set(); } } struct borrowed { }; object(handle h, borrowed) : handle(h) { inc_ref(); }
   handle release() { handle h(m); m = nullptr; return h; }
};
namespace detail
{
class item_accessor : public object
{
public:
   item_accessor(handle o, handle k) : object(PyObject_GetItem(o.ptr(), k.ptr()) ? PyObject_GetItem(o.ptr(), k.ptr()) : (PyErr_Clear(), Py_NewRef(Py_None)), stolen()), on(o, borrowed()), key(k, borrowed()) { }
   void operator=(const object &v) { if (PyObject_SetItem(on.ptr(), key.ptr(), v.ptr()) < 0) { throw error_already_set(); } }
private: object on, key;
};
struct list_accessor : object { }; struct tuple_accessor : object { }; struct sequence_accessor : object { }; struct str_attr_accessor : object { }; struct obj_attr_accessor : object { };
}
inline detail::item_accessor handle::operator[](handle k) const { return {*this, k}; }
struct iterator { object it, now; iterator() = default; explicit iterator(handle o) : it(PyObject_GetIter(o.ptr()), object::stolen()) { ++*this; } iterator &operator++() { PyObject *p = PyIter_Next(it.ptr()); now = p ? object(p, object::stolen()) : object(); return *this; } bool operator!=(const iterator &) const { return bool(now); } const handle &operator*() const { return now; } };
inline iterator handle::begin() const { return iterator(*this); } inline iterator handle::end() const { return {}; }
#define PB_TYPE(name, test) static bool check_(handle h) { return h.ptr() && test(h.ptr()); } name(handle h, borrowed b) : object(h, b) { } name(PyObject *p, stolen s) : object(p, s) { } name(const object &o) : object(o) { if (!check_(o)) { throw cast_error("not of the type " #name); } }
struct array_tag { };
struct none : object { none() : object(Py_NewRef(Py_None), stolen()) { } };
struct bool_ : object { PB_TYPE(bool_, PyBool_Check) bool_(bool b) : object(PyBool_FromLong(b), stolen()) { } };
struct int_ : object { PB_TYPE(int_, PyLong_Check) int_(long i) : object(PyLong_FromLong(i), stolen()) { } int_(long long i) : object(PyLong_FromLongLong(i), stolen()) { } int_(unsigned long i) : object(PyLong_FromUnsignedLong(i), stolen()) { } int_(int i) : int_(long(i)) { } };
struct float_ : object { PB_TYPE(float_, PyFloat_Check) float_(double d) : object(PyFloat_FromDouble(d), stolen()) { } };
struct str : object { PB_TYPE(str, PyUnicode_Check) str(const std::string &s) : object(PyUnicode_FromStringAndSize(s.data(), s.size()), stolen()) { } explicit str(handle h) : object(PyObject_Str(h.ptr()), stolen()) { } };
struct tuple : object { PB_TYPE(tuple, PyTuple_Check) };
struct list : object { PB_TYPE(list, PyList_Check) list() : object(PyList_New(0), stolen()) { } void append(const object &o) { PyList_Append(m, o.ptr()); } };
struct dict : object
{
   PB_TYPE(dict, PyDict_Check) dict() : object(PyDict_New(), stolen()) { } std::size_t size() const { return PyDict_Size(m); }
   struct iter { PyObject *d; Py_ssize_t pos = 0; std::pair<handle, handle> kv; bool more = false; void next() { PyObject *k, *v; more = PyDict_Next(d, &pos, &k, &v); if (more) { kv = {handle(k), handle(v)}; } } iter &operator++() { next(); return *this; } bool operator!=(const iter &) const { return more; } const std::pair<handle, handle> &operator*() const { return kv; } };
   iter begin() const { iter i{m}; i.next(); return i; } iter end() const { return {m}; }
};
template <class T> bool isinstance(handle h) { return T::check_(h); }
inline str repr(handle h) { return str(PyObject_Repr(h.ptr()), object::stolen()); }
struct module : object { module(PyObject *p) : object(handle(p), borrowed()) { } }; using module_ = module;
// arguments
struct arg { const char *name; arg(const char *n) : name(n) { } template <class T> struct arg_v operator=(T &&v) const; };
struct arg_v { const char *name; object value; };
namespace detail
{
struct instance { PyObject_HEAD void *ptr; void (*del)(void *); std::type_index *type; };
struct info { PyTypeObject *py; std::type_index base; void *(*up)(void *); };
inline std::map<std::type_index, info> &types() { static std::map<std::type_index, info> t; return t; }
inline std::vector<std::function<bool(std::exception_ptr)>> &translators() { static std::vector<std::function<bool(std::exception_ptr)>> t; return t; }
#define _(x) x
#define PYBIND11_TYPE_CASTER(T, NAME) T value; operator T &() { return value; } operator T &&() && { return std::move(value); }
template <class T, class = void> struct type_caster
{  // an instance of a registered class
   T *p = nullptr; operator T &() { return *p; }
   bool load(handle h, bool)
   {
      auto it = types().find(typeid(T)); if (it == types().end() || !PyObject_TypeCheck(h.ptr(), it->second.py)) { return false; }
      auto *i = reinterpret_cast<instance *>(h.ptr()); if (!i->ptr) { return false; } void *q = i->ptr; std::type_index t = *i->type;
      while (t != std::type_index(typeid(T))) { auto &f = types().at(t); if (!f.up) { return false; } q = f.up(q); t = f.base; } p = static_cast<T *>(q); return true;
   }
};
template <class T> struct type_caster<T, std::enable_if_t<std::is_base_of<object, T>::value && !std::is_base_of<array_tag, T>::value>> { std::unique_ptr<T> held; operator T &() { return *held; } bool load(handle h, bool) { if (!T::check_(h)) { return false; } held = std::make_unique<T>(h, object::borrowed()); return true; } static handle cast(const T &o, return_value_policy, handle) { return object(o).release(); } };
template <> struct type_caster<bool> { PYBIND11_TYPE_CASTER(bool, "") bool load(handle h, bool) { if (!PyBool_Check(h.ptr())) { return false; } value = h.ptr() == Py_True; return true; } static handle cast(bool b, return_value_policy, handle) { return PyBool_FromLong(b); } };
template <class T> struct type_caster<T, std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>>
{
   PYBIND11_TYPE_CASTER(T, "")
   bool load(handle h, bool convert)
   {
      if (std::is_floating_point<T>::value) { if (!convert && !PyFloat_Check(h.ptr())) { return false; } double d = PyFloat_AsDouble(h.ptr()); if (PyErr_Occurred()) { PyErr_Clear(); return false; } value = T(d); return true; }
      if (PyFloat_Check(h.ptr()) || (!convert && !PyLong_Check(h.ptr()))) { return false; } long l = PyLong_AsLong(h.ptr()); if (PyErr_Occurred()) { PyErr_Clear(); return false; } value = T(l); return true;
   }
   static handle cast(T v, return_value_policy, handle) { return std::is_floating_point<T>::value ? PyFloat_FromDouble(double(v)) : PyLong_FromLongLong((long long)v); }
};
template <> struct type_caster<std::string> { PYBIND11_TYPE_CASTER(std::string, "") bool load(handle h, bool) { if (!PyUnicode_Check(h.ptr())) { return false; } Py_ssize_t n; const char *c = PyUnicode_AsUTF8AndSize(h.ptr(), &n); if (!c) { PyErr_Clear(); return false; } value.assign(c, n); return true; } static handle cast(const std::string &s, return_value_policy, handle) { return PyUnicode_FromStringAndSize(s.data(), s.size()); } };
template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template <class T> using caster = type_caster<bare<T>>;
template <class T> object to_py(T &&v) { return object(caster<T>::cast(std::forward<T>(v), return_value_policy::automatic, handle()).ptr(), object::stolen()); }
template <class T, class = void> struct castable : std::false_type { };
template <class T> struct castable<T, std::void_t<decltype(&caster<T>::cast)>> : std::true_type { };
// Python callables given for C++ functions
template <class R, class... A> struct type_caster<std::function<R(A...)>>
{
   PYBIND11_TYPE_CASTER(std::function<R(A...)>, "")
   template <class T> static object convert(T &&a) { if constexpr (castable<bare<T>>::value) { return to_py(std::forward<T>(a)); } else { PyErr_SetString(PyExc_TypeError, "unregistered type given to a function"); throw error_already_set(); } }
   bool load(handle h, bool) { if (!PyCallable_Check(h.ptr())) { return false; } object f(h, object::borrowed());
      value = [f](A... a) -> R { std::vector<object> v{convert(std::forward<A>(a))...}; object t(PyTuple_New(v.size()), object::stolen()); for (std::size_t i = 0; i < v.size(); ++i) { PyTuple_SetItem(t.ptr(), i, v[i].release().ptr()); } object r(PyObject_CallObject(f.ptr(), t.ptr()), object::stolen()); if constexpr (!std::is_void<R>::value) { return cast_to<R>(r); } };
      return true; }
};
// functions and their overloads
struct overload { std::function<PyObject *(const std::vector<object> &, bool)> call; std::vector<arg_v> named; std::size_t n; };
struct overloads { std::string name; std::vector<overload> set; PyMethodDef def; };
inline PyObject *refuse_all(const std::string &n) { PyErr_SetString(PyExc_TypeError, (n + "(): incompatible function arguments").c_str()); return nullptr; }
inline void translate()
{
   auto e = std::current_exception(); for (auto i = translators().rbegin(); i != translators().rend(); ++i) { if ((*i)(e)) { return; } }
   try { std::rethrow_exception(e); } catch (const error_already_set &) { if (!PyErr_Occurred()) { PyErr_SetString(PyExc_RuntimeError, "?"); } } catch (const std::bad_alloc &x) { PyErr_SetString(PyExc_MemoryError, x.what()); } catch (const std::domain_error &x) { PyErr_SetString(PyExc_ValueError, x.what()); } catch (const std::invalid_argument &x) { PyErr_SetString(PyExc_ValueError, x.what()); } catch (const std::out_of_range &x) { PyErr_SetString(PyExc_IndexError, x.what()); } catch (const std::exception &x) { PyErr_SetString(PyExc_RuntimeError, x.what()); } catch (...) { PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception"); }
}
inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kw)
{
   auto *o = static_cast<overloads *>(PyCapsule_GetPointer(self, nullptr));
   for (int pass = 0; pass < 2; ++pass)
   {
      for (auto &f : o->set)
      {
         std::size_t np = PyTuple_Size(args), used = 0; if (np > f.n) { continue; } std::vector<object> a(f.n); for (std::size_t i = 0; i < np; ++i) { a[i] = object(PyTuple_GetItem(args, i), object::borrowed()); }
         bool ok = true; std::size_t off = f.n - f.named.size(); for (std::size_t i = np; i < f.n && ok; ++i) { if (i < off) { ok = false; break; } auto &nm = f.named[i - off]; PyObject *v = kw ? PyDict_GetItemString(kw, nm.name) : nullptr; if (v) { a[i] = object(v, object::borrowed()); ++used; } else if (nm.value) { a[i] = nm.value; } else { ok = false; } }
         if (!ok || (kw && used != std::size_t(PyDict_Size(kw)))) { continue; }
         try { PyObject *r = f.call(a, pass == 1); if (r != reinterpret_cast<PyObject *>(1)) { return r; } } catch (...) { translate(); return nullptr; }
      }
   }
   return refuse_all(o->name);
}
template <class F> struct traits : traits<decltype(&F::operator())> { };
template <class R, class... A> struct traits<R (*)(A...)> { using ret = R; using args = std::tuple<A...>; };
template <class C, class R, class... A> struct traits<R (C::*)(A...) const> { using ret = R; using args = std::tuple<A...>; };
template <class C, class R, class... A> struct traits<R (C::*)(A...)> { using ret = R; using args = std::tuple<A...>; };
template <class R, class... A, class F, std::size_t... I> PyObject *invoke(F &f, const std::vector<object> &v, bool convert, std::tuple<A...> *, std::index_sequence<I...>)
{
   std::tuple<caster<A>...> c; bool ok = true; int _unused[] = {0, (ok = ok && std::get<I>(c).load(v[I], convert), 0)...}; (void)_unused; if (!ok) { return reinterpret_cast<PyObject *>(1); }
   auto get = [](auto &x, auto *t) -> decltype(auto) { using T = std::remove_pointer_t<decltype(t)>; return static_cast<T &>(x); };
   if constexpr (std::is_void<R>::value) { f(get(std::get<I>(c), static_cast<bare<A> *>(nullptr))...); Py_RETURN_NONE; } else { return to_py(f(get(std::get<I>(c), static_cast<bare<A> *>(nullptr))...)).release().ptr(); }
}
inline void read_extra(overload &o, const arg &a) { o.named.push_back({a.name, object()}); } inline void read_extra(overload &o, const arg_v &a) { o.named.push_back(a); } inline void read_extra(overload &, const char *) { }
inline void add(PyObject *on, const std::string &name, overload o, bool method)
{
   static std::map<std::pair<PyObject *, std::string>, overloads *> all; auto &s = all[{on, name}];
   if (!s) { s = new overloads{name}; s->def = {s->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(dispatch)), METH_VARARGS | METH_KEYWORDS, nullptr}; PyObject *cap = PyCapsule_New(s, nullptr, nullptr), *f = PyCFunction_NewEx(&s->def, cap, nullptr); PyObject_SetAttrString(on, name.c_str(), method ? PyInstanceMethod_New(f) : f); }
   s->set.push_back(std::move(o));
}
template <class F> struct factory { F f; };
}
template <class T> T cast_to(handle h) { if constexpr (std::is_base_of<object, T>::value) { detail::caster<T> c; if (!c.load(h, true)) { throw cast_error("unable to cast to the type of object asked for"); } return static_cast<T &>(c); } else { detail::caster<T> c; if (!c.load(h, true)) { throw cast_error("Unable to cast Python instance"); } return static_cast<T &>(c); } }
template <class T> arg_v arg::operator=(T &&v) const { if constexpr (std::is_convertible<T, const char *>::value) { return {name, str(std::string(v))}; } else { return {name, detail::to_py(std::forward<T>(v))}; } }
template <class F> detail::factory<F> init(F f) { return {f}; }
template <class T, class B = void> class class_ : public object
{
public:
   class_(module &m, const char *name)
   {
      static PyType_Slot slots[] = {{Py_tp_dealloc, reinterpret_cast<void *>(+[](PyObject *o) { auto *i = reinterpret_cast<detail::instance *>(o); if (i->ptr && i->del) { i->del(i->ptr); } PyTypeObject *t = Py_TYPE(o); t->tp_free(o); Py_DECREF(t); })}, {0, nullptr}};
      static PyType_Spec spec = {name, sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots}; PyObject *bases = nullptr; std::type_index base = typeid(void); void *(*up)(void *) = nullptr;
      if constexpr (!std::is_void<B>::value) { bases = PyTuple_Pack(1, detail::types().at(typeid(B)).py); base = typeid(B); up = [](void *p) -> void * { return static_cast<B *>(static_cast<T *>(p)); }; }
      this->m = PyType_FromSpecWithBases(&spec, bases); if (!this->m) { throw error_already_set(); } inc_ref(); PyObject_SetAttrString(m.ptr(), name, this->m); detail::types().insert({typeid(T), {reinterpret_cast<PyTypeObject *>(this->m), base, up}});
   }
   template <class F, class... X> class_ &def(const char *name, F f, const X &...x)
   {
      detail::overload o;
      if constexpr (std::is_member_function_pointer<F>::value) { member(o, f); } else { using Tr = detail::traits<F>; using A = typename Tr::args; constexpr std::size_t n = std::tuple_size<A>::value; o.n = n; o.call = [f](const std::vector<object> &v, bool c) mutable { return detail::invoke<typename Tr::ret>(f, v, c, static_cast<A *>(nullptr), std::make_index_sequence<n>()); }; }
      (detail::read_extra(o, x), ...); detail::add(this->m, name, std::move(o), true); return *this;
   }
   template <class F, class... X> class_ &def(detail::factory<F> f, const X &...x)
   {
      using Tr = detail::traits<F>; using A = typename Tr::args; constexpr std::size_t n = std::tuple_size<A>::value; detail::overload o; o.n = n + 1; auto g = f.f;
      o.call = [g](const std::vector<object> &v, bool c) mutable { std::vector<object> w(v.begin() + 1, v.end()); auto h = [&](auto &&...a) { auto p = g(std::forward<decltype(a)>(a)...); auto *i = reinterpret_cast<detail::instance *>(v[0].ptr()); static std::type_index me = typeid(T); i->ptr = static_cast<T *>(p.release()); i->del = [](void *q) { delete static_cast<T *>(q); }; i->type = &me; }; return detail::invoke<void>(h, w, c, static_cast<A *>(nullptr), std::make_index_sequence<n>()); };
      (detail::read_extra(o, x), ...); detail::add(this->m, "__init__", std::move(o), true); return *this;
   }
private:
   template <class C, class R, class... A> static void member(detail::overload &o, R (C::*f)(A...)) { wrap<R, A...>(o, [f](T &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }); }
   template <class C, class R, class... A> static void member(detail::overload &o, R (C::*f)(A...) const) { wrap<R, A...>(o, [f](T &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }); }
   template <class R, class... A, class G> static void wrap(detail::overload &o, G g) { o.n = sizeof...(A) + 1; o.call = [g](const std::vector<object> &v, bool c) mutable { return detail::invoke<R>(g, v, c, static_cast<std::tuple<T &, A...> *>(nullptr), std::make_index_sequence<sizeof...(A) + 1>()); }; }
};
template <class E> void register_exception(module &m, const char *name, PyObject *base) { PyObject *t = PyErr_NewException((std::string("pyMISO.") + name).c_str(), base, nullptr); PyObject_SetAttrString(m.ptr(), name, t); detail::translators().push_back([t](std::exception_ptr p) { try { std::rethrow_exception(p); } catch (const E &e) { PyErr_SetString(t, e.what()); return true; } catch (...) { return false; } }); }
}
#define PYBIND11_MODULE(name, var) static void pb_init_##name(pybind11::module &); extern "C" PyObject *PyInit_##name() { static PyModuleDef d = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr}; PyObject *m = PyModule_Create(&d); try { pybind11::module v(m); pb_init_##name(v); } catch (...) { pybind11::detail::translate(); return nullptr; } return m; } static void pb_init_##name(pybind11::module &var)
