/**
 * Stand-in for pybind11 (not available offline): the part of its interface that binds classes, functions,
 * properties, iterators and pickling, over the real CPython API.
 *
 * What matters for the property is kept as in pybind11 2.x: return value policies (automatic, move for
 * values, reference_internal for properties, applied to the elements of containers), one Python object per
 * live C++ address and class, keep_alive, two-pass overload resolution, argument conversion of the STL
 * casters, and the translation of exceptions.
 */
#ifndef PYSHIM_PYBIND11_H_
#define PYSHIM_PYBIND11_H_

#include <Python.h>
#include <structmember.h>

#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 6
#define PYBIND11_NOINLINE
#define PYBIND11_NAMESPACE pybind11

namespace pybind11 {

using ssize_t = Py_ssize_t;

// ---------------------------------------------------------------------------- objects

class handle;
class object;
class str;
template <typename T>
T cast(const handle& h);
namespace detail {
template <typename T, typename Enable = void>
struct type_caster;
struct item_accessor;
struct attr_accessor;
}  // namespace detail

class error_already_set : public std::runtime_error {
 public:
  error_already_set() : std::runtime_error("Python error") { fetch(); }
  void restore() const {
    PyErr_Restore(Py_XNewRef(type_.get()), Py_XNewRef(value_.get()), Py_XNewRef(trace_.get()));
  }
  const char* what() const noexcept override { return text_.c_str(); }

 private:
  struct Deref {
    void operator()(PyObject* o) const { Py_XDECREF(o); }
  };
  void fetch() {
    PyObject *t, *v, *tb;
    PyErr_Fetch(&t, &v, &tb);
    type_.reset(t, Deref{});
    value_.reset(v, Deref{});
    trace_.reset(tb, Deref{});
    if (v != nullptr) {
      PyObject* s = PyObject_Str(v);
      if (s != nullptr) {
        text_ = PyUnicode_AsUTF8(s);
        Py_DECREF(s);
      } else {
        PyErr_Clear();
      }
    }
  }
  std::shared_ptr<PyObject> type_, value_, trace_;
  std::string text_;
};

class cast_error : public std::runtime_error {
 public:
  explicit cast_error(const std::string& what = "Unable to cast") : std::runtime_error(what) {}
};
class reference_cast_error : public cast_error {};

#define PYSHIM_EXCEPTION(name, py)                                              \
  class name : public std::runtime_error {                                      \
   public:                                                                      \
    explicit name(const std::string& s = "") : std::runtime_error(s) {}         \
    void set_error() const { PyErr_SetString(py, what()); }                     \
  };
PYSHIM_EXCEPTION(stop_iteration, PyExc_StopIteration)
PYSHIM_EXCEPTION(index_error, PyExc_IndexError)
PYSHIM_EXCEPTION(key_error, PyExc_KeyError)
PYSHIM_EXCEPTION(value_error, PyExc_ValueError)
PYSHIM_EXCEPTION(type_error, PyExc_TypeError)
PYSHIM_EXCEPTION(attribute_error, PyExc_AttributeError)
PYSHIM_EXCEPTION(buffer_error, PyExc_BufferError)
PYSHIM_EXCEPTION(import_error, PyExc_ImportError)
#undef PYSHIM_EXCEPTION

class handle {
 public:
  handle() = default;
  handle(PyObject* p) : m_ptr(p) {}  // NOLINT
  PyObject* ptr() const { return m_ptr; }
  const handle& inc_ref() const {
    Py_XINCREF(m_ptr);
    return *this;
  }
  const handle& dec_ref() const {
    Py_XDECREF(m_ptr);
    return *this;
  }
  bool is_none() const { return m_ptr == Py_None; }
  bool is(const handle& o) const { return m_ptr == o.m_ptr; }
  explicit operator bool() const { return m_ptr != nullptr; }
  template <typename T>
  T cast() const {
    return pybind11::cast<T>(*this);
  }
  inline detail::item_accessor operator[](const handle& key) const;
  inline detail::item_accessor operator[](const char* key) const;
  template <typename I, std::enable_if_t<std::is_integral<I>::value, int> = 0>
  detail::item_accessor operator[](I key) const;
  inline detail::attr_accessor attr(const char* name) const;
  template <typename... Args>
  inline object operator()(Args&&... args) const;
  int ref_count() const { return static_cast<int>(Py_REFCNT(m_ptr)); }

 protected:
  PyObject* m_ptr = nullptr;
};

class object : public handle {
 public:
  struct borrowed_t {};
  struct stolen_t {};
  object() = default;
  object(const handle& h, borrowed_t) : handle(h) { inc_ref(); }
  object(const handle& h, stolen_t) : handle(h) {}
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept : handle(o) { o.m_ptr = nullptr; }
  ~object() { dec_ref(); }
  object& operator=(const object& o) {
    object t(o);
    std::swap(m_ptr, t.m_ptr);
    return *this;
  }
  object& operator=(object&& o) noexcept {
    std::swap(m_ptr, o.m_ptr);
    return *this;
  }
  handle release() {
    PyObject* p = m_ptr;
    m_ptr = nullptr;
    return handle(p);
  }
};

template <typename T>
T reinterpret_borrow(const handle& h) {
  return T(h, object::borrowed_t{});
}
template <typename T>
T reinterpret_steal(const handle& h) {
  return T(h, object::stolen_t{});
}

namespace detail {
inline PyObject* checked(PyObject* p) {
  if (p == nullptr) throw error_already_set();
  return p;
}
struct item_accessor {
  object obj, key;
  object get() const { return reinterpret_steal<object>(checked(PyObject_GetItem(obj.ptr(), key.ptr()))); }
  operator object() const { return get(); }  // NOLINT
  template <typename T>
  T cast() const {
    return get().template cast<T>();
  }
  template <typename T>
  void operator=(T&& value);
};
struct attr_accessor {
  object obj;
  std::string key;
  object get() const { return reinterpret_steal<object>(checked(PyObject_GetAttrString(obj.ptr(), key.c_str()))); }
  operator object() const { return get(); }  // NOLINT
  template <typename T>
  T cast() const {
    return get().template cast<T>();
  }
  template <typename... Args>
  object operator()(Args&&... args) const {
    return get()(std::forward<Args>(args)...);
  }
  template <typename T>
  void operator=(T&& value);
};
}  // namespace detail

inline detail::item_accessor handle::operator[](const handle& key) const {
  return {reinterpret_borrow<object>(*this), reinterpret_borrow<object>(key)};
}
inline detail::item_accessor handle::operator[](const char* key) const {
  return {reinterpret_borrow<object>(*this), reinterpret_steal<object>(PyUnicode_FromString(key))};
}
template <typename I, std::enable_if_t<std::is_integral<I>::value, int>>
detail::item_accessor handle::operator[](I key) const {
  return {reinterpret_borrow<object>(*this), reinterpret_steal<object>(PyLong_FromLongLong(key))};
}
inline detail::attr_accessor handle::attr(const char* name) const {
  return {reinterpret_borrow<object>(*this), name};
}

#define PYSHIM_OBJECT(name, check)                                   \
  name(const handle& h, borrowed_t t) : object(h, t) {}              \
  name(const handle& h, stolen_t t) : object(h, t) {}                \
  static bool check_(const handle& h) { return h && (check(h.ptr())); }

class none : public object {
 public:
  none() : object(Py_None, borrowed_t{}) {}
  static bool check_(const handle& h) { return h.is_none(); }
};
class str : public object {
 public:
  PYSHIM_OBJECT(str, PyUnicode_Check)
  str(const std::string& s = "") : object(detail::checked(PyUnicode_FromStringAndSize(s.data(), s.size())), stolen_t{}) {}  // NOLINT
  str(const char* s) : str(std::string(s)) {}                                                                               // NOLINT
  operator std::string() const { return PyUnicode_AsUTF8(m_ptr); }                                                           // NOLINT
};
class int_ : public object {
 public:
  PYSHIM_OBJECT(int_, PyLong_Check)
  int_(long long v = 0) : object(PyLong_FromLongLong(v), stolen_t{}) {}  // NOLINT
};
class float_ : public object {
 public:
  PYSHIM_OBJECT(float_, PyFloat_Check)
  float_(double v = 0) : object(PyFloat_FromDouble(v), stolen_t{}) {}  // NOLINT
};
class bool_ : public object {
 public:
  PYSHIM_OBJECT(bool_, PyBool_Check)
  bool_(bool v = false) : object(PyBool_FromLong(v), stolen_t{}) {}  // NOLINT
};
// A position in a Python iteration.
class iterator {
 public:
  iterator() = default;
  explicit iterator(object it) : it_(std::move(it)) { next(); }
  object operator*() const { return value_; }
  iterator& operator++() {
    next();
    return *this;
  }
  bool operator==(const iterator& o) const { return value_.is(o.value_); }
  bool operator!=(const iterator& o) const { return !(*this == o); }

 private:
  void next() {
    value_ = reinterpret_steal<object>(PyIter_Next(it_.ptr()));
    if (!value_ && PyErr_Occurred() != nullptr) throw error_already_set();
  }
  object it_, value_;
};
#define PYSHIM_ITERABLE                                                                             \
  iterator begin() const {                                                                          \
    return iterator(reinterpret_steal<object>(detail::checked(PyObject_GetIter(m_ptr))));           \
  }                                                                                                 \
  iterator end() const { return iterator(); }
class tuple : public object {
 public:
  PYSHIM_OBJECT(tuple, PyTuple_Check)
  explicit tuple(size_t n = 0) : object(PyTuple_New(n), stolen_t{}) {}
  size_t size() const { return PyTuple_GET_SIZE(m_ptr); }
  bool empty() const { return size() == 0; }
  PYSHIM_ITERABLE
};
class list : public object {
 public:
  PYSHIM_OBJECT(list, PyList_Check)
  explicit list(size_t n = 0) : object(PyList_New(n), stolen_t{}) {}
  size_t size() const { return PyList_GET_SIZE(m_ptr); }
  bool empty() const { return size() == 0; }
  template <typename T>
  void append(T&& v) const;
  PYSHIM_ITERABLE
};
class set : public object {
 public:
  PYSHIM_OBJECT(set, PySet_Check)
  set() : object(PySet_New(nullptr), stolen_t{}) {}
  size_t size() const { return PySet_Size(m_ptr); }
  bool empty() const { return size() == 0; }
  template <typename T>
  bool add(T&& v) const;
  PYSHIM_ITERABLE
};
class dict : public object {
 public:
  PYSHIM_OBJECT(dict, PyDict_Check)
  dict() : object(PyDict_New(), stolen_t{}) {}
  size_t size() const { return PyDict_Size(m_ptr); }
  bool empty() const { return size() == 0; }
  bool contains(const handle& k) const { return PyDict_Contains(m_ptr, k.ptr()) == 1; }
  PYSHIM_ITERABLE
};
class sequence : public object {
 public:
  PYSHIM_OBJECT(sequence, PySequence_Check)
  size_t size() const { return PySequence_Size(m_ptr); }
  PYSHIM_ITERABLE
};
class iterable : public object {
 public:
  static bool check_(const handle& h) {
    PyObject* it = PyObject_GetIter(h.ptr());
    if (it == nullptr) PyErr_Clear();
    Py_XDECREF(it);
    return it != nullptr;
  }
  iterable(const handle& h, borrowed_t t) : object(h, t) {}
  iterable(const handle& h, stolen_t t) : object(h, t) {}
  PYSHIM_ITERABLE
};
class function : public object {
 public:
  PYSHIM_OBJECT(function, PyCallable_Check)
};
class module_ : public object {
 public:
  PYSHIM_OBJECT(module_, PyModule_Check)
  module_() = default;
  detail::attr_accessor doc() { return attr("__doc__"); }
  static module_ import(const char* name) {
    return reinterpret_steal<module_>(detail::checked(PyImport_ImportModule(name)));
  }
  template <typename Func, typename... Extra>
  module_& def(const char* name, Func&& f, const Extra&... extra);
};
using module = module_;

template <typename T>
bool isinstance(const handle& h) {
  return T::check_(h);
}
inline size_t len(const handle& h) { return PyObject_Size(h.ptr()); }
inline bool hasattr(const handle& h, const char* n) { return PyObject_HasAttrString(h.ptr(), n) == 1; }
inline object getattr(const handle& h, const char* n) { return h.attr(n).get(); }
inline str repr(const handle& h) { return reinterpret_steal<str>(detail::checked(PyObject_Repr(h.ptr()))); }

class gil_scoped_release {};
class gil_scoped_acquire {};

// ---------------------------------------------------------------------------- annotations

enum class return_value_policy : uint8_t {
  automatic = 0,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};

template <size_t Nurse, size_t Patient>
struct keep_alive {};
template <typename... Ts>
struct call_guard {};
struct is_method_tag {};
struct is_operator {};
struct dynamic_attr {};
struct module_local {
  explicit constexpr module_local(bool v = true) { (void)v; }
};
template <typename... Ts>
struct base {};
struct doc {
  const char* value;
  explicit doc(const char* v) : value(v) {}
};
struct name {
  const char* value;
  explicit name(const char* v) : value(v) {}
};
struct kw_only {};
struct pos_only {};

struct arg_v;
struct arg {
  const char* name;
  bool none_ = true, noconvert_ = false;
  explicit constexpr arg(const char* n = nullptr) : name(n) {}
  template <typename T>
  arg_v operator=(T&& value) const;
  arg& noconvert(bool v = true) {
    noconvert_ = v;
    return *this;
  }
  arg& none(bool v = true) {
    none_ = v;
    return *this;
  }
};
struct arg_v : arg {
  object value;
  arg_v(const arg& a, object v) : arg(a), value(std::move(v)) {}
};
namespace literals {
constexpr arg operator"" _a(const char* name, size_t) { return arg(name); }
}  // namespace literals

template <typename... Args>
struct overload_cast_impl {
  template <typename R>
  constexpr auto operator()(R (*f)(Args...)) const {
    return f;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*f)(Args...), std::false_type = {}) const {
    return f;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*f)(Args...) const, std::true_type) const {
    return f;
  }
};
template <typename... Args>
constexpr overload_cast_impl<Args...> overload_cast{};
constexpr auto const_ = std::true_type{};

// ---------------------------------------------------------------------------- class registry

namespace detail {

struct TypeInfo {
  PyTypeObject* type = nullptr;
  const std::type_info* cpp = nullptr;
  void (*destroy)(void*, void*) = nullptr;        // value, holder
  void* (*copy)(const void*) = nullptr;
  void* (*move)(void*) = nullptr;
  void* (*make_holder)(void*) = nullptr;          // takes ownership of the value
  bool shared = false;                            // the holder is a shared_ptr
  std::vector<std::pair<TypeInfo*, void* (*)(void*)>> bases;
};

struct Instance {
  PyObject_HEAD
  void* value;
  void* holder;
  TypeInfo* info;
  bool owned;
  std::vector<PyObject*>* patients;
  PyObject* weakrefs;
  PyObject* dict;
};

inline std::map<std::type_index, TypeInfo*>& Types() {
  static auto* m = new std::map<std::type_index, TypeInfo*>();
  return *m;
}
inline std::map<PyTypeObject*, TypeInfo*>& PyTypes() {
  static auto* m = new std::map<PyTypeObject*, TypeInfo*>();
  return *m;
}
inline std::multimap<const void*, Instance*>& Instances() {
  static auto* m = new std::multimap<const void*, Instance*>();
  return *m;
}
inline TypeInfo* FindType(const std::type_info& t) {
  const auto it = Types().find(t);
  return it == Types().end() ? nullptr : it->second;
}
// The binding of a Python class, looking through Python subclasses.
inline TypeInfo* InfoOf(PyTypeObject* t) {
  for (; t != nullptr; t = t->tp_base) {
    const auto it = PyTypes().find(t);
    if (it != PyTypes().end()) return it->second;
  }
  return nullptr;
}

inline PyObject* instance_new(PyTypeObject* type, PyObject*, PyObject*) {
  auto* self = reinterpret_cast<Instance*>(type->tp_alloc(type, 0));
  if (self == nullptr) return nullptr;
  self->info = InfoOf(type);
  self->owned = true;
  return reinterpret_cast<PyObject*>(self);
}
inline int instance_init(PyObject* self, PyObject*, PyObject*) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name);
  return -1;
}
inline void Deregister(Instance* self) {
  auto range = Instances().equal_range(self->value);
  for (auto it = range.first; it != range.second; ++it) {
    if (it->second == self) {
      Instances().erase(it);
      return;
    }
  }
}
inline void Register(Instance* self) { Instances().emplace(self->value, self); }
inline void instance_dealloc(PyObject* obj) {
  auto* self = reinterpret_cast<Instance*>(obj);
  PyTypeObject* type = Py_TYPE(obj);
  if (self->weakrefs != nullptr) PyObject_ClearWeakRefs(obj);
  if (self->value != nullptr) {
    Deregister(self);
    if (self->owned) self->info->destroy(self->value, self->holder);
    self->value = nullptr;
  }
  if (self->patients != nullptr) {
    std::vector<PyObject*>* p = self->patients;
    self->patients = nullptr;
    for (PyObject* o : *p) Py_DECREF(o);
    delete p;
  }
  Py_CLEAR(self->dict);
  type->tp_free(obj);
  Py_DECREF(type);
}

inline PyObject* keep_alive_callback(PyObject* self, PyObject* weakref) {
  Py_DECREF(self);     // the patient
  Py_DECREF(weakref);
  Py_RETURN_NONE;
}

inline void keep_alive_impl(const handle& nurse, const handle& patient) {
  if (!nurse || !patient) throw std::runtime_error("Could not activate keep_alive!");
  if (patient.is_none() || nurse.is_none()) return;
  if (InfoOf(Py_TYPE(nurse.ptr())) != nullptr) {
    auto* inst = reinterpret_cast<Instance*>(nurse.ptr());
    if (inst->patients == nullptr) inst->patients = new std::vector<PyObject*>();
    Py_INCREF(patient.ptr());
    inst->patients->push_back(patient.ptr());
    return;
  }
  static PyMethodDef def = {"keep_alive", keep_alive_callback, METH_O, nullptr};
  Py_INCREF(patient.ptr());
  PyObject* callback = checked(PyCFunction_New(&def, patient.ptr()));
  PyObject* ref = PyWeakref_NewRef(nurse.ptr(), callback);  // lists and tuples cannot be nurses
  Py_DECREF(callback);
  if (ref == nullptr) {
    Py_DECREF(patient.ptr());
    throw error_already_set();
  }
}

inline std::string TypeName(const std::type_info& t) { return t.name(); }

// The Python object of a C++ value, as pybind11's type_caster_generic::cast.
inline handle CastInstance(const void* src, TypeInfo* info, const std::type_info& cpp, return_value_policy policy,
                           handle parent, void* (*copy)(const void*), void* (*move)(void*)) {
  if (info == nullptr) {
    PyErr_Format(PyExc_TypeError, "Unregistered type : %s", cpp.name());
    throw error_already_set();
  }
  if (src == nullptr) return none().release();
  auto range = Instances().equal_range(src);
  for (auto it = range.first; it != range.second; ++it) {
    if (it->second->info == info) return handle(reinterpret_cast<PyObject*>(it->second)).inc_ref();
  }
  auto* self = reinterpret_cast<Instance*>(checked(instance_new(info->type, nullptr, nullptr)));
  object guard = reinterpret_steal<object>(reinterpret_cast<PyObject*>(self));
  switch (policy) {
    case return_value_policy::automatic:
    case return_value_policy::take_ownership:
      self->value = const_cast<void*>(src);
      self->owned = true;
      break;
    case return_value_policy::automatic_reference:
    case return_value_policy::reference:
      self->value = const_cast<void*>(src);
      self->owned = false;
      break;
    case return_value_policy::copy:
      if (copy == nullptr) throw cast_error("return_value_policy = copy, but type is non-copyable!");
      self->value = copy(src);
      self->owned = true;
      break;
    case return_value_policy::move:
      if (move != nullptr) {
        self->value = move(const_cast<void*>(src));
      } else if (copy != nullptr) {
        self->value = copy(src);
      } else {
        throw cast_error("return_value_policy = move, but type is neither movable nor copyable!");
      }
      self->owned = true;
      break;
    case return_value_policy::reference_internal:
      self->value = const_cast<void*>(src);
      self->owned = false;
      keep_alive_impl(guard, parent);
      break;
  }
  if (self->owned && info->make_holder != nullptr) self->holder = info->make_holder(self->value);
  Register(self);
  return guard.release();
}

// ---------------------------------------------------------------------------- casters

template <typename T>
using intrinsic_t = std::remove_cv_t<std::remove_pointer_t<std::remove_reference_t<T>>>;
template <typename T>
using bare_t = std::remove_cv_t<std::remove_reference_t<T>>;

template <typename T, typename = void>
struct Copier {
  static constexpr void* (*value)(const void*) = nullptr;
};
template <typename T>
void* CopyValue(const void* p) {
  return new T(*static_cast<const T*>(p));
}
template <typename T>
void* MoveValue(void* p) {
  return new T(std::move(*static_cast<T*>(p)));
}
template <typename T>
struct Copier<T, std::enable_if_t<std::is_copy_constructible<T>::value>> {
  static constexpr void* (*value)(const void*) = &CopyValue<T>;
};
template <typename T, typename = void>
struct Mover {
  static constexpr void* (*value)(void*) = nullptr;
};
template <typename T>
struct Mover<T, std::enable_if_t<std::is_move_constructible<T>::value>> {
  static constexpr void* (*value)(void*) = &MoveValue<T>;
};

struct generic_caster_tag {};

// Bound classes.
template <typename T, typename Enable>
struct type_caster : generic_caster_tag {
  T* value = nullptr;
  bool load(handle src, bool convert) {
    TypeInfo* want = FindType(typeid(T));
    if (want == nullptr) return false;
    if (src.is_none()) return convert;  // becomes a null pointer
    TypeInfo* have = InfoOf(Py_TYPE(src.ptr()));
    if (have == nullptr) return false;
    void* p = reinterpret_cast<Instance*>(src.ptr())->value;
    if (p == nullptr) return false;
    value = static_cast<T*>(Upcast(have, want, p));
    return value != nullptr;
  }
  static void* Upcast(TypeInfo* have, TypeInfo* want, void* p) {
    if (have == want) return p;
    for (const auto& b : have->bases) {
      if (void* q = Upcast(b.first, want, b.second(p))) return q;
    }
    return nullptr;
  }
  template <typename U>
  U get() {
    if constexpr (std::is_pointer<U>::value) {
      return value;
    } else {
      if (value == nullptr) throw reference_cast_error();
      if constexpr (std::is_rvalue_reference<U>::value) {
        return std::move(*value);
      } else {
        return *value;
      }
    }
  }
  static handle Cast(const T* src, return_value_policy policy, handle parent) {
    TypeInfo* info = FindType(typeid(T));
    const void* p = src;
    if constexpr (std::is_polymorphic<T>::value) {
      if (src != nullptr) {
        const std::type_info& dynamic = typeid(*src);
        if (dynamic != typeid(T)) {
          if (TypeInfo* most = FindType(dynamic)) {
            return CastInstance(dynamic_cast<const void*>(src), most, dynamic, policy, parent, most->copy, most->move);
          }
        }
      }
    }
    return CastInstance(p, info, typeid(T), policy, parent, Copier<T>::value, Mover<T>::value);
  }
  static handle cast(const T& src, return_value_policy policy, handle parent) {
    if (policy == return_value_policy::automatic || policy == return_value_policy::automatic_reference) {
      policy = return_value_policy::copy;
    }
    return Cast(&src, policy, parent);
  }
  static handle cast(T&& src, return_value_policy, handle parent) {
    return Cast(&src, return_value_policy::move, parent);
  }
  static handle cast(const T* src, return_value_policy policy, handle parent) { return Cast(src, policy, parent); }
};

template <typename T>
struct Intrinsic {
  using type = intrinsic_t<T>;
};
template <size_t N>
struct Intrinsic<const char (&)[N]> {
  using type = char;
};
template <size_t N>
struct Intrinsic<char (&)[N]> {
  using type = char;
};
template <typename T>
using make_caster = type_caster<typename Intrinsic<T>::type>;

// Shared pointers to bound classes: the Python object shares the ownership.
template <typename T>
struct type_caster<std::shared_ptr<T>> {
  std::shared_ptr<T> value;
  bool load(handle src, bool convert) {
    type_caster<std::remove_const_t<T>> c;
    if (!c.load(src, convert)) return false;
    if (c.value == nullptr) return true;
    auto* inst = reinterpret_cast<Instance*>(src.ptr());
    if (!inst->info->shared || inst->holder == nullptr) {
      throw cast_error("Unable to load a custom holder type from a default-holder instance");
    }
    value = std::shared_ptr<T>(*static_cast<std::shared_ptr<T>*>(inst->holder), c.value);
    return true;
  }
  template <typename U>
  U get() {
    if constexpr (std::is_lvalue_reference<U>::value) {
      return value;
    } else {
      return std::move(value);
    }
  }
  static handle cast(const std::shared_ptr<T>& src, return_value_policy, handle) {
    using Plain = std::remove_const_t<T>;
    TypeInfo* info = FindType(typeid(Plain));
    if (info != nullptr && !info->shared) {
      // pybind11 would treat the shared_ptr as the class's own kind of holder: undefined behaviour.
      PyErr_SetString(PyExc_SystemError, "shared_ptr returned for a class whose holder is not a shared_ptr");
      throw error_already_set();
    }
    if (!src) return none().release();
    auto range = Instances().equal_range(src.get());
    for (auto it = range.first; it != range.second; ++it) {
      if (it->second->info == info) return handle(reinterpret_cast<PyObject*>(it->second)).inc_ref();
    }
    handle h = CastInstance(src.get(), info, typeid(Plain), return_value_policy::reference, handle(), nullptr, nullptr);
    auto* inst = reinterpret_cast<Instance*>(h.ptr());
    inst->owned = true;
    inst->holder = new std::shared_ptr<Plain>(std::const_pointer_cast<Plain>(src));
    return h;
  }
};
template <typename T>
struct type_caster<std::unique_ptr<T>> {
  static handle cast(std::unique_ptr<T>&& src, return_value_policy, handle) {
    if (!src) return none().release();
    handle h = type_caster<T>::cast(src.get(), return_value_policy::take_ownership, handle());
    src.release();
    return h;
  }
};

// Values of bound classes are always moved out.
template <typename R>
return_value_policy Override(return_value_policy p) {
  if constexpr (std::is_base_of<generic_caster_tag, make_caster<R>>::value) {
    if (!std::is_lvalue_reference<R>::value && !std::is_pointer<R>::value) return return_value_policy::move;
  }
  return p;
}

// Casters that hold a value of their own.
template <typename T>
struct value_caster {
  T value;
  template <typename U>
  U get() {
    if constexpr (std::is_pointer<U>::value) {
      return &value;
    } else if constexpr (std::is_lvalue_reference<U>::value) {
      return value;
    } else {
      return std::move(value);
    }
  }
};

template <typename T>
struct type_caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value &&
                                       !std::is_same<T, char>::value>> : value_caster<T> {
  bool load(handle src, bool convert) {
    if (!src || PyFloat_Check(src.ptr())) return false;
    if (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr())) return false;
    object num = reinterpret_steal<object>(PyNumber_Index(src.ptr()));
    if (!num) {
      PyErr_Clear();
      if (!convert) return false;
      num = reinterpret_steal<object>(PyNumber_Check(src.ptr()) ? PyNumber_Long(src.ptr()) : nullptr);
      if (!num) {
        PyErr_Clear();
        return false;
      }
    }
    if constexpr (std::is_unsigned<T>::value) {
      const unsigned long long v = PyLong_AsUnsignedLongLong(num.ptr());
      if (PyErr_Occurred()) {
        PyErr_Clear();
        return false;
      }
      this->value = static_cast<T>(v);
      return this->value == v;
    } else {
      const long long v = PyLong_AsLongLong(num.ptr());
      if (PyErr_Occurred()) {
        PyErr_Clear();
        return false;
      }
      this->value = static_cast<T>(v);
      return this->value == v;
    }
  }
  static handle cast(T v, return_value_policy, handle) {
    return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong(v) : PyLong_FromLongLong(v);
  }
};
template <typename T>
struct type_caster<T, std::enable_if_t<std::is_floating_point<T>::value>> : value_caster<T> {
  bool load(handle src, bool convert) {
    if (!src || (!convert && !PyFloat_Check(src.ptr()))) return false;
    const double v = PyFloat_AsDouble(src.ptr());
    if (v == -1.0 && PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    this->value = static_cast<T>(v);
    return true;
  }
  static handle cast(T v, return_value_policy, handle) { return PyFloat_FromDouble(v); }
};
template <>
struct type_caster<bool> : value_caster<bool> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.ptr() == Py_True || src.ptr() == Py_False) {
      value = src.ptr() == Py_True;
      return true;
    }
    if (!convert) return false;
    if (src.is_none()) {
      value = false;
      return true;
    }
    PyNumberMethods* nm = Py_TYPE(src.ptr())->tp_as_number;
    if (nm == nullptr || nm->nb_bool == nullptr) return false;
    const int r = nm->nb_bool(src.ptr());
    if (r < 0) {
      PyErr_Clear();
      return false;
    }
    value = r != 0;
    return true;
  }
  static handle cast(bool v, return_value_policy, handle) { return PyBool_FromLong(v); }
};
template <>
struct type_caster<std::string> : value_caster<std::string> {
  bool load(handle src, bool) {
    if (!src) return false;
    if (PyUnicode_Check(src.ptr())) {
      Py_ssize_t n;
      const char* s = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
      if (s == nullptr) {
        PyErr_Clear();
        return false;
      }
      value.assign(s, n);
      return true;
    }
    if (PyBytes_Check(src.ptr())) {
      value.assign(PyBytes_AS_STRING(src.ptr()), PyBytes_GET_SIZE(src.ptr()));
      return true;
    }
    return false;
  }
  static handle cast(const std::string& s, return_value_policy, handle) {
    return checked(PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr));
  }
};
template <>
struct type_caster<char> {
  std::string value;
  bool is_none = false;
  bool load(handle src, bool convert) {
    if (src.is_none()) return is_none = convert;
    type_caster<std::string> c;
    if (!c.load(src, convert)) return false;
    value = c.value;
    return true;
  }
  template <typename U>
  U get() {
    if constexpr (std::is_pointer<std::remove_reference_t<U>>::value) {
      return is_none ? nullptr : const_cast<U>(value.c_str());
    } else {
      return value.empty() ? '\0' : value[0];
    }
  }
  static handle cast(const char* s, return_value_policy, handle) {
    return s == nullptr ? none().release() : handle(checked(PyUnicode_FromString(s)));
  }
  static handle cast(char c, return_value_policy, handle) { return checked(PyUnicode_FromStringAndSize(&c, 1)); }
};
// Python objects themselves.
template <typename T>
struct type_caster<T, std::enable_if_t<std::is_base_of<handle, T>::value>> {
  object value;
  bool load(handle src, bool) {
    if constexpr (!std::is_same<T, handle>::value && !std::is_same<T, object>::value) {
      if (!T::check_(src)) return false;
    }
    value = reinterpret_borrow<object>(src);
    held = Make();
    return true;
  }
  template <typename U>
  U get() {
    if constexpr (std::is_reference<U>::value) {
      return static_cast<U>(held[0]);
    } else {
      return held[0];
    }
  }
  static handle cast(const handle& src, return_value_policy, handle) { return src.inc_ref(); }

 private:
  std::vector<T> held;
  std::vector<T> Make() const {
    std::vector<T> v;
    if constexpr (std::is_same<T, handle>::value) {
      v.push_back(handle(value.ptr()));
    } else {
      v.push_back(reinterpret_borrow<T>(value));
    }
    return v;
  }
};
template <typename... Ts>
struct tuple_caster_base {};

template <typename T>
handle CastAny(T&& src, return_value_policy policy, handle parent) {
  using Ret = T&&;
  if constexpr (std::is_pointer<std::remove_reference_t<T>>::value) {
    if (policy == return_value_policy::automatic) policy = return_value_policy::take_ownership;
    return make_caster<T>::cast(src, policy, parent);
  } else {
    (void)sizeof(Ret);
    return make_caster<T>::cast(std::forward<T>(src), policy, parent);
  }
}

}  // namespace detail

template <typename T>
T cast(const handle& h) {
  if constexpr (std::is_base_of<handle, detail::bare_t<T>>::value) {
    return reinterpret_borrow<T>(h);
  } else {
    detail::make_caster<T> c;
    if (!c.load(h, true)) throw cast_error("Unable to cast Python instance to C++ type");
    return c.template get<T>();
  }
}
// cast(value[, policy[, parent]]): the policy defaults to a copy of lvalues and a move of rvalues.
template <typename T, std::enable_if_t<!std::is_base_of<handle, detail::bare_t<T>>::value, int> = 0>
object cast(T&& value, return_value_policy policy = return_value_policy::automatic_reference, handle parent = handle()) {
  if (policy == return_value_policy::automatic) {
    policy = std::is_pointer<std::remove_reference_t<T>>::value ? return_value_policy::take_ownership
             : std::is_lvalue_reference<T>::value               ? return_value_policy::copy
                                                                : return_value_policy::move;
  } else if (policy == return_value_policy::automatic_reference) {
    policy = std::is_pointer<std::remove_reference_t<T>>::value ? return_value_policy::reference
             : std::is_lvalue_reference<T>::value               ? return_value_policy::copy
                                                                : return_value_policy::move;
  }
  return reinterpret_steal<object>(detail::make_caster<T>::cast(std::forward<T>(value), policy, parent));
}
template <typename T, std::enable_if_t<std::is_base_of<handle, detail::bare_t<T>>::value, int> = 0>
object cast(T&& value) {
  return reinterpret_borrow<object>(value);
}

template <return_value_policy policy = return_value_policy::automatic_reference, typename... Args>
tuple make_tuple(Args&&... args) {
  tuple t(sizeof...(Args));
  size_t i = 0;
  (PyTuple_SET_ITEM(t.ptr(), i++, pybind11::cast(std::forward<Args>(args)).release().ptr()), ...);
  return t;
}
template <typename... Args>
object handle::operator()(Args&&... args) const {
  tuple t = make_tuple(std::forward<Args>(args)...);
  return reinterpret_steal<object>(detail::checked(PyObject_CallObject(m_ptr, t.ptr())));
}
template <typename T>
void list::append(T&& v) const {
  PyList_Append(m_ptr, pybind11::cast(std::forward<T>(v)).ptr());
}
template <typename T>
bool set::add(T&& v) const {
  return PySet_Add(m_ptr, pybind11::cast(std::forward<T>(v)).ptr()) == 0;
}
template <typename T>
void detail::item_accessor::operator=(T&& v) {
  if (PyObject_SetItem(obj.ptr(), key.ptr(), pybind11::cast(std::forward<T>(v)).ptr()) != 0) throw error_already_set();
}
template <typename T>
void detail::attr_accessor::operator=(T&& v) {
  if (PyObject_SetAttrString(obj.ptr(), key.c_str(), pybind11::cast(std::forward<T>(v)).ptr()) != 0) {
    throw error_already_set();
  }
}
template <typename T>
arg_v arg::operator=(T&& v) const {
  return arg_v(*this, pybind11::cast(std::forward<T>(v)));
}

// ---------------------------------------------------------------------------- functions

namespace detail {

struct Call {
  std::vector<object> args;
  std::vector<bool> convert;
  handle parent;
  handle self;  // constructors: the instance
};

struct Parameter {
  std::string name;
  object value;
  bool convert = true, none = true;
};

// One overload.
struct Record {
  std::function<handle(Call&)> impl;  // {} (null) : try the next overload
  size_t nargs = 0;
  std::vector<Parameter> params;
  return_value_policy policy = return_value_policy::automatic;
  std::vector<std::pair<size_t, size_t>> keep;
  bool method = false, ctor = false;
  std::string doc;
  handle scope;
};

struct Overloads {
  std::string name;
  PyMethodDef def;
  std::vector<Record> records;
};

inline const char* kTryNext = "";
inline handle TryNext() { return handle(reinterpret_cast<PyObject*>(const_cast<char*>(kTryNext))); }
inline bool IsTryNext(const handle& h) { return h.ptr() == reinterpret_cast<PyObject*>(const_cast<char*>(kTryNext)); }

inline void Translate() {
  try {
    throw;
  } catch (error_already_set& e) {
    e.restore();
  } catch (const stop_iteration& e) {
    e.set_error();
  } catch (const index_error& e) {
    e.set_error();
  } catch (const key_error& e) {
    e.set_error();
  } catch (const value_error& e) {
    e.set_error();
  } catch (const type_error& e) {
    e.set_error();
  } catch (const attribute_error& e) {
    e.set_error();
  } catch (const std::bad_alloc& e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error& e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
}

inline PyObject* Dispatch(PyObject* capsule, PyObject* args_in, PyObject* kwargs_in) {
  auto* overloads = static_cast<Overloads*>(PyCapsule_GetPointer(capsule, nullptr));
  const size_t n_in = PyTuple_GET_SIZE(args_in);
  const handle parent = n_in > 0 ? PyTuple_GET_ITEM(args_in, 0) : nullptr;
  if (overloads->records[0].ctor) {
    if (!parent || InfoOf(Py_TYPE(parent.ptr())) == nullptr) {
      PyErr_SetString(PyExc_TypeError, "__init__(self, ...) called with invalid `self` argument");
      return nullptr;
    }
    if (reinterpret_cast<Instance*>(parent.ptr())->value != nullptr) return none().release().ptr();
  }
  handle result = TryNext();
  try {
    const bool overloaded = overloads->records.size() > 1;
    for (int pass = overloaded ? 0 : 1; pass < 2 && IsTryNext(result); pass++) {
      for (Record& r : overloads->records) {
        if (n_in > r.nargs) continue;
        if (n_in < r.nargs && r.params.size() < r.nargs) continue;  // not enough arguments and no names
        Call call;
        call.parent = parent;
        bool bad = false;
        size_t i = 0;
        object kwargs = kwargs_in != nullptr ? reinterpret_steal<object>(PyDict_Copy(kwargs_in)) : object();
        for (; i < n_in; i++) {
          const handle a = PyTuple_GET_ITEM(args_in, i);
          if (i < r.params.size()) {
            if (kwargs && PyDict_GetItemString(kwargs.ptr(), r.params[i].name.c_str()) != nullptr) bad = true;
            if (!r.params[i].none && a.is_none()) bad = true;
          }
          call.args.push_back(reinterpret_borrow<object>(a));
          call.convert.push_back(pass == 1 && (i >= r.params.size() || r.params[i].convert));
        }
        for (; i < r.nargs && !bad; i++) {
          const Parameter& p = r.params[i];
          object value;
          if (kwargs && !p.name.empty()) {
            value = reinterpret_borrow<object>(PyDict_GetItemString(kwargs.ptr(), p.name.c_str()));
            if (value) PyDict_DelItemString(kwargs.ptr(), p.name.c_str());
          }
          if (!value) value = p.value;
          if (!value) {
            bad = true;
            break;
          }
          call.args.push_back(value);
          call.convert.push_back(pass == 1 && p.convert);
        }
        if (bad || (kwargs && PyDict_Size(kwargs.ptr()) > 0)) continue;
        try {
          result = r.impl(call);
        } catch (reference_cast_error&) {
          result = TryNext();
        }
        if (IsTryNext(result)) continue;
        for (const auto& k : r.keep) {
          const auto get = [&](size_t n) -> handle {
            if (n == 0) return result;
            return n <= call.args.size() ? handle(call.args[n - 1]) : handle();
          };
          try {
            keep_alive_impl(get(k.first), get(k.second));
          } catch (...) {
            result.dec_ref();
            throw;
          }
        }
        break;
      }
    }
  } catch (...) {
    Translate();
    return nullptr;
  }
  if (IsTryNext(result)) {
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", overloads->name.c_str());
    return nullptr;
  }
  if (!result) {
    if (PyErr_Occurred() == nullptr) {
      PyErr_SetString(PyExc_TypeError, "Unable to convert function return value to a Python type!");
    }
    return nullptr;
  }
  if (overloads->records[0].ctor) {
    auto* self = reinterpret_cast<Instance*>(parent.ptr());
    if (self->value != nullptr && self->owned) {
      if (self->info->make_holder != nullptr && self->holder == nullptr) {
        self->holder = self->info->make_holder(self->value);
      }
      Register(self);
    }
  }
  return result.ptr();
}

// Annotations.
inline void Process(Record* r, const char* d) { r->doc = d; }
inline void Process(Record* r, const doc& d) { r->doc = d.value; }
inline void Process(Record* r, return_value_policy p) { r->policy = p; }
inline void Process(Record*, const is_operator&) {}
inline void Process(Record*, const kw_only&) {}
inline void Process(Record*, const pos_only&) {}
template <typename... Ts>
void Process(Record*, const call_guard<Ts...>&) {}
template <size_t N, size_t P>
void Process(Record* r, const keep_alive<N, P>&) {
  r->keep.emplace_back(N, P);
}
inline void AddSelf(Record* r) {
  if (r->method && r->params.empty()) r->params.push_back({"self", object(), false, false});
}
inline void Process(Record* r, const arg& a) {
  AddSelf(r);
  r->params.push_back({a.name ? a.name : "", object(), !a.noconvert_, a.none_});
}
inline void Process(Record* r, const arg_v& a) {
  AddSelf(r);
  r->params.push_back({a.name ? a.name : "", a.value, !a.noconvert_, a.none_});
}

template <typename Return, typename Func, typename... Args, size_t... Is>
handle Invoke(Func& f, Call& call, return_value_policy policy, std::index_sequence<Is...>) {
  std::tuple<make_caster<Args>...> casters;
  bool ok = true;
  ((ok = ok && std::get<Is>(casters).load(call.args[Is], call.convert[Is])), ...);
  if (!ok) return TryNext();
  if constexpr (std::is_void<Return>::value) {
    f(std::get<Is>(casters).template get<Args>()...);
    return none().release();
  } else {
    const return_value_policy p = Override<Return>(policy);
    if constexpr (std::is_pointer<Return>::value) {
      return CastAny(f(std::get<Is>(casters).template get<Args>()...), p, call.parent);
    } else {
      return make_caster<Return>::cast(f(std::get<Is>(casters).template get<Args>()...), p, call.parent);
    }
  }
}

template <typename T>
struct Signature;
template <typename R, typename... A>
struct Signature<R(A...)> {
  using Return = R;
  static constexpr size_t n = sizeof...(A);
  template <typename F>
  static Record Make(F f) {
    Record r;
    r.nargs = n;
    (void)r;
    return r;
  }
  template <typename F>
  static std::function<handle(Call&)> Impl(F f, const return_value_policy* policy) {
    return [f, policy](Call& call) mutable {
      return Invoke<R, F, A...>(f, call, *policy, std::index_sequence_for<A...>{});
    };
  }
};

template <typename T>
struct MethodSignature;
template <typename C, typename R, typename... A>
struct MethodSignature<R (C::*)(A...)> {
  using type = R(A...);
};
template <typename C, typename R, typename... A>
struct MethodSignature<R (C::*)(A...) const> {
  using type = R(A...);
};
template <typename C, typename R, typename... A>
struct MethodSignature<R (C::*)(A...) noexcept> {
  using type = R(A...);
};
template <typename C, typename R, typename... A>
struct MethodSignature<R (C::*)(A...) const noexcept> {
  using type = R(A...);
};

// Everything callable, as a function object and its signature.
template <typename F>
struct Callable {
  using Sig = typename MethodSignature<decltype(&F::operator())>::type;
  static F Wrap(F f) { return f; }
};
template <typename R, typename... A>
struct Callable<R (*)(A...)> {
  using Sig = R(A...);
  static auto Wrap(R (*f)(A...)) { return f; }
};
template <typename R, typename C, typename... A>
struct Callable<R (C::*)(A...)> {
  using Sig = R(C&, A...);
  static auto Wrap(R (C::*f)(A...)) {
    return [f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
  }
};
template <typename R, typename C, typename... A>
struct Callable<R (C::*)(A...) const> {
  using Sig = R(const C&, A...);
  static auto Wrap(R (C::*f)(A...) const) {
    return [f](const C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
  }
};
template <typename R, typename C, typename... A>
struct Callable<R (C::*)(A...) noexcept> : Callable<R (C::*)(A...)> {};
template <typename R, typename C, typename... A>
struct Callable<R (C::*)(A...) const noexcept> : Callable<R (C::*)(A...) const> {};

// A member function, with the class it is bound to in place of a base class.
template <typename Class, typename F>
F Adapt(F f) {
  return f;
}
template <typename Class, typename R, typename C, typename... A>
auto Adapt(R (C::*f)(A...)) -> R (Class::*)(A...) {
  return f;
}
template <typename Class, typename R, typename C, typename... A>
auto Adapt(R (C::*f)(A...) const) -> R (Class::*)(A...) const {
  return f;
}

// Adds an overload to the function `name` of `scope`; returns the function (a PyCFunction).
inline object AddOverload(const handle& existing, const std::string& name, Record&& r) {
  Overloads* overloads = nullptr;
  object function;
  if (existing) {
    PyObject* f = existing.ptr();
    if (Py_IS_TYPE(f, &PyInstanceMethod_Type)) f = PyInstanceMethod_GET_FUNCTION(f);
    object inner = reinterpret_borrow<object>(f);
    if (Py_IS_TYPE(f, &PyStaticMethod_Type)) inner = handle(f).attr("__func__").get();
    if (PyCFunction_Check(inner.ptr())) {
      PyObject* self = PyCFunction_GET_SELF(inner.ptr());
      if (self != nullptr && PyCapsule_CheckExact(self)) {
        overloads = static_cast<Overloads*>(PyCapsule_GetPointer(self, nullptr));
        if (overloads != nullptr && overloads->records[0].method == r.method) {
          overloads->records.push_back(std::move(r));
          return inner;
        }
      }
    }
  }
  overloads = new Overloads();
  overloads->name = name;
  overloads->def = {overloads->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(&Dispatch)),
                    METH_VARARGS | METH_KEYWORDS, nullptr};
  overloads->records.push_back(std::move(r));
  object capsule = reinterpret_steal<object>(checked(PyCapsule_New(overloads, nullptr, nullptr)));
  return reinterpret_steal<object>(checked(PyCFunction_New(&overloads->def, capsule.ptr())));
}

template <typename F, typename... Extra>
Record MakeRecord(F&& f, bool method, const Extra&... extra) {
  using Fn = std::decay_t<F>;
  using Sig = typename Callable<Fn>::Sig;
  Record r;
  r.method = method;
  r.nargs = Signature<Sig>::n;
  (Process(&r, extra), ...);
  auto wrapped = Callable<Fn>::Wrap(std::forward<F>(f));
  auto policy = std::make_shared<return_value_policy>(r.policy);
  r.impl = [impl = Signature<Sig>::Impl(std::move(wrapped), policy.get()), policy](Call& call) { return impl(call); };
  return r;
}

}  // namespace detail

class cpp_function : public function {
 public:
  template <typename F, typename... Extra>
  explicit cpp_function(F&& f, const Extra&... extra)
      : function(detail::AddOverload(handle(), "", detail::MakeRecord(std::forward<F>(f), false, extra...)).release(),
                 stolen_t{}) {}
};

template <typename Func, typename... Extra>
module_& module_::def(const char* name, Func&& f, const Extra&... extra) {
  object existing = hasattr(*this, name) ? getattr(*this, name) : object();
  object fn = detail::AddOverload(existing, name, detail::MakeRecord(std::forward<Func>(f), false, extra...));
  PyObject_SetAttrString(m_ptr, name, fn.ptr());
  return *this;
}

namespace detail {

template <typename... Args>
struct InitArgs {};
template <typename F>
struct InitFactory {
  F f;
};
template <typename Get, typename Set>
struct Pickle {
  Get get;
  Set set;
};

template <typename T, typename... A>
T* Construct(A&&... a) {
  if constexpr (std::is_constructible<T, A...>::value) {
    return new T(std::forward<A>(a)...);
  } else {
    return new T{std::forward<A>(a)...};
  }
}

// The result of a factory becomes the instance's value, as in pybind11.
template <typename T, typename R>
T* FromFactory(R&& r) {
  if constexpr (std::is_pointer<std::decay_t<R>>::value) {
    if (r == nullptr) throw type_error("pybind11::init(): factory function returned nullptr");
    return r;
  } else if constexpr (std::is_same<std::decay_t<R>, std::unique_ptr<T>>::value) {
    if (!r) throw type_error("pybind11::init(): factory function returned nullptr");
    return r.release();
  } else {
    return new T(std::move(r));
  }
}

// Casters for the leading instance of constructors.
struct SelfArg {
  Instance* self;
};
template <>
struct type_caster<SelfArg> {
  SelfArg value{nullptr};
  bool load(handle src, bool) {
    if (InfoOf(Py_TYPE(src.ptr())) == nullptr) return false;
    value.self = reinterpret_cast<Instance*>(src.ptr());
    return true;
  }
  template <typename U>
  U get() {
    return value;
  }
};

template <typename Sig>
struct FactoryWrap;
template <typename R, typename... A>
struct FactoryWrap<R(A...)> {
  template <typename T, typename F>
  static auto Make(F f) {
    return [f](SelfArg self, A... a) { self.self->value = FromFactory<T>(f(std::forward<A>(a)...)); };
  }
};

}  // namespace detail

template <typename... Args>
detail::InitArgs<Args...> init() {
  return {};
}
template <typename F>
detail::InitFactory<std::decay_t<F>> init(F&& f) {
  return {std::forward<F>(f)};
}
template <typename Get, typename Set>
detail::Pickle<std::decay_t<Get>, std::decay_t<Set>> pickle(Get&& get, Set&& set) {
  return {std::forward<Get>(get), std::forward<Set>(set)};
}

// ---------------------------------------------------------------------------- classes

namespace detail {
template <typename T, typename... Options>
struct HolderOf {
  using type = std::unique_ptr<T>;
};
template <typename T, typename U, typename... Rest>
struct HolderOf<T, std::shared_ptr<U>, Rest...> {
  using type = std::shared_ptr<U>;
};
template <typename T, typename O, typename... Rest>
struct HolderOf<T, O, Rest...> : HolderOf<T, Rest...> {};
template <typename B>
struct IsHolder : std::false_type {};
template <typename U>
struct IsHolder<std::shared_ptr<U>> : std::true_type {};
template <typename U, typename D>
struct IsHolder<std::unique_ptr<U, D>> : std::true_type {};
}  // namespace detail

template <typename T, typename... Options>
class class_ : public object {
 public:
  using type = T;
  using Holder = typename detail::HolderOf<T, Options...>::type;
  static constexpr bool kShared = std::is_same<Holder, std::shared_ptr<T>>::value;

  template <typename... Extra>
  class_(const handle& scope, const char* name, const Extra&... extra) {
    Create(scope, name);
    (ProcessClass(extra), ...);
  }

  template <typename F, typename... Extra>
  class_& def(const char* name, F&& f, const Extra&... extra) {
    AddMethod(name, detail::MakeRecord(detail::Adapt<T>(std::forward<F>(f)), true, extra...));
    return *this;
  }
  template <typename... Args, typename... Extra>
  class_& def(const detail::InitArgs<Args...>&, const Extra&... extra) {
    return Ctor("__init__",
                [](detail::SelfArg self, Args... a) {
                  self.self->value = detail::Construct<T, Args...>(std::forward<Args>(a)...);
                },
                extra...);
  }
  template <typename F, typename... Extra>
  class_& def(const detail::InitFactory<F>& init, const Extra&... extra) {
    using Sig = typename detail::Callable<F>::Sig;
    return Ctor("__init__", detail::FactoryWrap<Sig>::template Make<T>(init.f), extra...);
  }
  template <typename G, typename S, typename... Extra>
  class_& def(const detail::Pickle<G, S>& p, const Extra&... extra) {
    def("__getstate__", p.get);
    using Sig = typename detail::Callable<S>::Sig;
    return Ctor("__setstate__", detail::FactoryWrap<Sig>::template Make<T>(p.set), extra...);
  }
  template <typename F, typename... Extra>
  class_& def_static(const char* name, F&& f, const Extra&... extra) {
    object fn = detail::AddOverload(Existing(name), name, detail::MakeRecord(std::forward<F>(f), false, extra...));
    Set(name, reinterpret_steal<object>(detail::checked(PyStaticMethod_New(fn.ptr()))));
    return *this;
  }
  template <typename G, typename... Extra>
  class_& def_property_readonly(const char* name, G&& get, const Extra&... extra) {
    return Property(name, Getter(std::forward<G>(get), extra...), none(), extra...);
  }
  template <typename G, typename S, typename... Extra>
  class_& def_property(const char* name, G&& get, S&& set, const Extra&... extra) {
    object setter;
    if constexpr (std::is_base_of<handle, std::decay_t<S>>::value) {
      setter = set;
    } else if constexpr (std::is_same<std::decay_t<S>, std::nullptr_t>::value) {
      setter = none();
    } else {
      setter = detail::AddOverload(handle(), name, detail::MakeRecord(detail::Adapt<T>(std::forward<S>(set)), true));
    }
    return Property(name, Getter(std::forward<G>(get), extra...), setter, extra...);
  }
  template <typename C, typename D, typename... Extra>
  class_& def_readonly(const char* name, const D C::*pm, const Extra&... extra) {
    return def_property_readonly(name, [pm](const T& c) -> const D& { return c.*pm; }, extra...);
  }
  template <typename C, typename D, typename... Extra>
  class_& def_readwrite(const char* name, D C::*pm, const Extra&... extra) {
    return def_property(name, [pm](const T& c) -> const D& { return c.*pm; },
                        [pm](T& c, const D& v) { c.*pm = v; }, extra...);
  }

 private:
  void Create(const handle& scope, const char* name) {
    const char* module = PyModule_Check(scope.ptr()) ? PyModule_GetName(scope.ptr()) : "pysymbolic";
    auto* full = new std::string(std::string(module) + "." + name);
    static PyMemberDef members[] = {
        {"__weaklistoffset__", T_PYSSIZET, offsetof(detail::Instance, weakrefs), READONLY, nullptr},
        {nullptr, 0, 0, 0, nullptr}};
    PyType_Slot slots[] = {{Py_tp_new, reinterpret_cast<void*>(&detail::instance_new)},
                           {Py_tp_init, reinterpret_cast<void*>(&detail::instance_init)},
                           {Py_tp_dealloc, reinterpret_cast<void*>(&detail::instance_dealloc)},
                           {Py_tp_members, members},
                           {0, nullptr}};
    PyType_Spec spec = {full->c_str(), sizeof(detail::Instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    m_ptr = detail::checked(PyType_FromSpec(&spec));
    info_ = new detail::TypeInfo();
    info_->type = reinterpret_cast<PyTypeObject*>(m_ptr);
    info_->cpp = &typeid(T);
    info_->copy = detail::Copier<T>::value;
    info_->move = detail::Mover<T>::value;
    info_->destroy = [](void* v, void* h) {
      if (h != nullptr) {
        delete static_cast<Holder*>(h);
      } else {
        delete static_cast<T*>(v);
      }
    };
    info_->shared = kShared;
    if constexpr (kShared) {
      info_->make_holder = [](void* v) -> void* { return new Holder(static_cast<T*>(v)); };
    }
    (AddBase<Options>(), ...);
    detail::Types()[typeid(T)] = info_;
    detail::PyTypes()[info_->type] = info_;
    if (PyObject_SetAttrString(scope.ptr(), name, m_ptr) != 0) throw error_already_set();
  }
  template <typename B>
  void AddBase() {
    if constexpr (!detail::IsHolder<B>::value) {
      if constexpr (std::is_base_of<B, T>::value) {
        if (detail::TypeInfo* b = detail::FindType(typeid(B))) {
          info_->bases.emplace_back(b, [](void* p) -> void* { return static_cast<B*>(static_cast<T*>(p)); });
          // Attributes are looked up in the base as well.
          PyObject* base_dict = b->type->tp_dict;
          PyObject *key, *value;
          Py_ssize_t pos = 0;
          while (PyDict_Next(base_dict, &pos, &key, &value)) {
            if (!PyDict_Contains(info_->type->tp_dict, key)) PyObject_SetAttr(m_ptr, key, value);
          }
        }
      }
    }
  }
  template <typename E>
  void ProcessClass(const E&) {}

  object Existing(const char* name) {
    PyObject* f = PyDict_GetItemString(info_->type->tp_dict, name);
    return reinterpret_borrow<object>(f);
  }
  void Set(const char* name, const object& value) {
    if (PyObject_SetAttrString(m_ptr, name, value.ptr()) != 0) throw error_already_set();
  }
  void AddMethod(const char* name, detail::Record&& r) {
    object fn = detail::AddOverload(Existing(name), name, std::move(r));
    Set(name, reinterpret_steal<object>(detail::checked(PyInstanceMethod_New(fn.ptr()))));
    if (std::strcmp(name, "__eq__") == 0 && !Existing("__hash__")) Set("__hash__", none());
  }
  template <typename F, typename... Extra>
  class_& Ctor(const char* name, F&& f, const Extra&... extra) {
    detail::Record r = detail::MakeRecord(std::forward<F>(f), true, extra...);
    r.ctor = true;
    AddMethod(name, std::move(r));
    return *this;
  }
  template <typename G, typename... Extra>
  object Getter(G&& get, const Extra&... extra) {
    if constexpr (std::is_base_of<handle, std::decay_t<G>>::value) {
      return get;
    } else {
      return detail::AddOverload(handle(), "",
                                 detail::MakeRecord(detail::Adapt<T>(std::forward<G>(get)), true,
                                                    return_value_policy::reference_internal, extra...));
    }
  }
  template <typename... Extra>
  class_& Property(const char* name, const object& get, const object& set, const Extra&...) {
    object p = reinterpret_steal<object>(detail::checked(
        PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyProperty_Type), get.ptr(), set.ptr(), nullptr)));
    Set(name, p);
    return *this;
  }

  detail::TypeInfo* info_ = nullptr;
};

// ---------------------------------------------------------------------------- iterators

namespace detail {
template <typename It, typename Sentinel, return_value_policy Policy, typename Access>
struct IteratorState {
  It it;
  Sentinel end;
  bool first_or_done;
};
struct Deref {
  template <typename It>
  decltype(auto) operator()(It& it) const {
    return *it;
  }
};
struct DerefKey {
  template <typename It>
  decltype(auto) operator()(It& it) const {
    return ((*it).first);
  }
};
template <typename Access, return_value_policy Policy, typename It, typename Sentinel, typename... Extra>
object MakeIterator(It first, Sentinel last, const Extra&... extra) {
  using S = IteratorState<It, Sentinel, Policy, Access>;
  using Value = decltype(Access{}(std::declval<It&>()));
  if (FindType(typeid(S)) == nullptr) {
    static object* scope = new object(reinterpret_steal<object>(PyModule_New("pybind11_iterators")));
    auto* c = new class_<S>(*scope, "iterator", module_local());
    c->def("__iter__", [](S& s) -> S& { return s; });
    c->def(
        "__next__",
        [](S& s) -> Value {
          if (!s.first_or_done) {
            ++s.it;
          } else {
            s.first_or_done = false;
          }
          if (s.it == s.end) {
            s.first_or_done = true;
            throw stop_iteration();
          }
          return Access{}(s.it);
        },
        extra..., Policy);
  }
  return pybind11::cast(S{std::move(first), std::move(last), true});
}
}  // namespace detail

template <return_value_policy Policy = return_value_policy::reference_internal, typename It, typename Sentinel,
          typename... Extra>
object make_iterator(It first, Sentinel last, const Extra&... extra) {
  return detail::MakeIterator<detail::Deref, Policy>(std::move(first), std::move(last), extra...);
}
template <return_value_policy Policy = return_value_policy::reference_internal, typename T, typename... Extra>
object make_iterator(T& value, const Extra&... extra) {
  return make_iterator<Policy>(std::begin(value), std::end(value), extra...);
}
template <return_value_policy Policy = return_value_policy::reference_internal, typename It, typename Sentinel,
          typename... Extra>
object make_key_iterator(It first, Sentinel last, const Extra&... extra) {
  return detail::MakeIterator<detail::DerefKey, Policy>(std::move(first), std::move(last), extra...);
}

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                                        \
  static void pybind11_init_##name(::pybind11::module_&);                                      \
  extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() {                \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr};             \
    PyObject* m = PyModule_Create(&def);                                                       \
    if (m == nullptr) return nullptr;                                                          \
    auto mod = ::pybind11::reinterpret_borrow<::pybind11::module_>(m);                         \
    try {                                                                                      \
      pybind11_init_##name(mod);                                                               \
    } catch (...) {                                                                            \
      ::pybind11::detail::Translate();                                                         \
      return nullptr;                                                                          \
    }                                                                                          \
    return m;                                                                                  \
  }                                                                                            \
  void pybind11_init_##name(::pybind11::module_& variable)

#endif  // PYSHIM_PYBIND11_H_
