// Stand-in for pybind11/stl.h.
#ifndef PYSHIM_STL_H_
#define PYSHIM_STL_H_
#include <array>
#include <deque>
#include <optional>
#include <set>
#include <unordered_map>
#include <unordered_set>

#include "pybind11.h"

namespace pybind11 {
namespace detail {

template <typename T, typename U>
decltype(auto) ForwardLike(U&& u) {
  if constexpr (std::is_lvalue_reference<T>::value) {
    return static_cast<std::remove_reference_t<U>&>(u);
  } else {
    return std::move(u);
  }
}

template <typename Type, typename Value>
struct list_caster : value_caster<Type> {
  bool load(handle src, bool convert) {
    if (!src || !PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr()) || PyBytes_Check(src.ptr())) return false;
    this->value.clear();
    const Py_ssize_t n = PySequence_Size(src.ptr());
    if (n < 0) {
      PyErr_Clear();
      return false;
    }
    for (Py_ssize_t i = 0; i < n; i++) {
      object item = reinterpret_steal<object>(checked(PySequence_GetItem(src.ptr(), i)));
      make_caster<Value> c;
      if (!c.load(item, convert)) return false;
      this->value.push_back(c.template get<Value>());
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    if (!std::is_lvalue_reference<T>::value) policy = Override<Value>(policy);
    list l(src.size());
    size_t i = 0;
    for (auto&& v : src) {
      object o = reinterpret_steal<object>(CastAny(ForwardLike<T>(v), policy, parent));
      if (!o) return handle();
      PyList_SET_ITEM(l.ptr(), i++, o.release().ptr());
    }
    return l.release();
  }
};
template <typename T, typename A>
struct type_caster<std::vector<T, A>> : list_caster<std::vector<T, A>, T> {};
template <typename T, typename A>
struct type_caster<std::deque<T, A>> : list_caster<std::deque<T, A>, T> {};
template <typename T, typename A>
struct type_caster<std::list<T, A>> : list_caster<std::list<T, A>, T> {};

template <typename Type, typename Key>
struct set_caster : value_caster<Type> {
  bool load(handle src, bool convert) {
    if (!src || !PyAnySet_Check(src.ptr())) return false;
    this->value.clear();
    object it = reinterpret_steal<object>(checked(PyObject_GetIter(src.ptr())));
    while (true) {
      object item = reinterpret_steal<object>(PyIter_Next(it.ptr()));
      if (!item) break;
      make_caster<Key> c;
      if (!c.load(item, convert)) return false;
      this->value.insert(c.template get<Key>());
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    if (!std::is_lvalue_reference<T>::value) policy = Override<Key>(policy);
    set s;
    for (auto&& v : src) {
      object o = reinterpret_steal<object>(CastAny(ForwardLike<T>(v), policy, parent));
      if (!o || PySet_Add(s.ptr(), o.ptr()) != 0) throw error_already_set();
    }
    return s.release();
  }
};
template <typename K, typename C, typename A>
struct type_caster<std::set<K, C, A>> : set_caster<std::set<K, C, A>, K> {};
template <typename K, typename H, typename E, typename A>
struct type_caster<std::unordered_set<K, H, E, A>> : set_caster<std::unordered_set<K, H, E, A>, K> {};

template <typename Type, typename Key, typename Value>
struct map_caster : value_caster<Type> {
  bool load(handle src, bool convert) {
    if (!src || !PyDict_Check(src.ptr())) return false;
    this->value.clear();
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(src.ptr(), &pos, &k, &v)) {
      make_caster<Key> kc;
      make_caster<Value> vc;
      if (!kc.load(k, convert) || !vc.load(v, convert)) return false;
      this->value.emplace(kc.template get<Key>(), vc.template get<Value>());
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    return_value_policy pk = policy, pv = policy;
    if (!std::is_lvalue_reference<T>::value) {
      pk = Override<Key>(policy);
      pv = Override<Value>(policy);
    }
    dict d;
    for (auto&& kv : src) {
      object k = reinterpret_steal<object>(CastAny(ForwardLike<T>(kv.first), pk, parent));
      object v = reinterpret_steal<object>(CastAny(ForwardLike<T>(kv.second), pv, parent));
      if (!k || !v || PyDict_SetItem(d.ptr(), k.ptr(), v.ptr()) != 0) throw error_already_set();
    }
    return d.release();
  }
};
template <typename K, typename V, typename C, typename A>
struct type_caster<std::map<K, V, C, A>> : map_caster<std::map<K, V, C, A>, K, V> {};
template <typename K, typename V, typename H, typename E, typename A>
struct type_caster<std::unordered_map<K, V, H, E, A>> : map_caster<std::unordered_map<K, V, H, E, A>, K, V> {};

template <typename T>
struct type_caster<std::optional<T>> : value_caster<std::optional<T>> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.is_none()) {
      this->value.reset();
      return true;
    }
    make_caster<T> c;
    if (!c.load(src, convert)) return false;
    this->value.emplace(c.template get<T>());
    return true;
  }
  template <typename U>
  static handle cast(U&& src, return_value_policy policy, handle parent) {
    if (!src) return none().release();
    if (!std::is_lvalue_reference<U>::value) policy = Override<T>(policy);
    return CastAny(*std::forward<U>(src), policy, parent);
  }
};

template <typename Type, typename... Ts>
struct tuple_caster : value_caster<Type> {
  template <typename T, size_t... Is>
  static handle Do(T&& src, return_value_policy policy, handle parent, std::index_sequence<Is...>) {
    tuple t(sizeof...(Ts));
    object o[] = {reinterpret_steal<object>(make_caster<Ts>::cast(std::get<Is>(std::forward<T>(src)), policy, parent))...};
    for (size_t i = 0; i < sizeof...(Ts); i++) {
      if (!o[i]) return handle();
      PyTuple_SET_ITEM(t.ptr(), i, o[i].release().ptr());
    }
    return t.release();
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    return Do(std::forward<T>(src), policy, parent, std::index_sequence_for<Ts...>{});
  }
  template <size_t... Is>
  bool Load(handle src, bool convert, std::index_sequence<Is...>) {
    std::tuple<make_caster<Ts>...> c;
    bool ok = true;
    ((ok = ok && std::get<Is>(c).load(reinterpret_steal<object>(PySequence_GetItem(src.ptr(), Is)), convert)), ...);
    if (ok) this->value = Type(std::get<Is>(c).template get<Ts>()...);
    return ok;
  }
  bool load(handle src, bool convert) {
    if (!src || !PySequence_Check(src.ptr()) || PySequence_Size(src.ptr()) != sizeof...(Ts)) return false;
    return Load(src, convert, std::index_sequence_for<Ts...>{});
  }
};
template <typename A, typename B>
struct type_caster<std::pair<A, B>> : tuple_caster<std::pair<A, B>, A, B> {};
template <typename... Ts>
struct type_caster<std::tuple<Ts...>> : tuple_caster<std::tuple<Ts...>, Ts...> {};

}  // namespace detail
}  // namespace pybind11
#endif  // PYSHIM_STL_H_
