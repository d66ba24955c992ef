// Stand-in for pybind11/eigen.h: vectors travel as Python lists in place of numpy arrays.
#ifndef PYSHIM_EIGEN_H_
#define PYSHIM_EIGEN_H_
#include <Eigen/Core>

#include "pybind11.h"
namespace pybind11 {
namespace detail {
template <typename D>
struct IsEigenPlain {
  template <typename X>
  static std::true_type Test(const Eigen::PlainObjectBase<X>*);
  static std::false_type Test(...);
  static constexpr bool value = decltype(Test(static_cast<D*>(nullptr)))::value;
};
template <typename T>
struct EigenVector {
  using Scalar = typename T::Scalar;
  T value;
  bool load(handle src, bool convert) {
    if (!src || !PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr())) return false;
    const Py_ssize_t n = PySequence_Size(src.ptr());
    if (n < 0) {
      PyErr_Clear();
      return false;
    }
    if (T::SizeAtCompileTime != Eigen::Dynamic && T::SizeAtCompileTime != n) return false;
    value.resize(n);
    for (Py_ssize_t i = 0; i < n; i++) {
      object item = reinterpret_steal<object>(checked(PySequence_GetItem(src.ptr(), i)));
      make_caster<Scalar> c;
      if (!c.load(item, true)) return false;
      value[i] = c.template get<Scalar>();
    }
    return true;
  }
  static handle Out(const T& v) {
    list l(v.size());
    for (Eigen::Index i = 0; i < v.size(); i++) {
      const Scalar s = v[i];
      PyList_SET_ITEM(l.ptr(), i, make_caster<Scalar>::cast(s, return_value_policy::copy, handle()).ptr());
    }
    return l.release();
  }
};
template <typename T>
struct type_caster<T, std::enable_if_t<IsEigenPlain<T>::value>> : EigenVector<T> {
  template <typename U>
  U get() {
    if constexpr (std::is_lvalue_reference<U>::value) {
      return this->value;
    } else {
      return std::move(this->value);
    }
  }
  static handle cast(const T& v, return_value_policy, handle) { return EigenVector<T>::Out(v); }
};
template <typename T>
struct type_caster<Eigen::Ref<T>> : EigenVector<std::remove_const_t<T>> {
  template <typename U>
  U get() {
    ref = std::make_unique<Eigen::Ref<T>>(this->value);
    return *ref;
  }
  static handle cast(const Eigen::Ref<T>& v, return_value_policy, handle) {
    return EigenVector<std::remove_const_t<T>>::Out(v);
  }
  std::unique_ptr<Eigen::Ref<T>> ref;
};
}  // namespace detail
}  // namespace pybind11
#endif
