// Stand-in for pybind11/iostream.h: the context manager class, which here does not redirect.
#ifndef PYSHIM_IOSTREAM_H_
#define PYSHIM_IOSTREAM_H_
#include <iostream>

#include "pybind11.h"
namespace pybind11 {
class scoped_ostream_redirect {
 public:
  explicit scoped_ostream_redirect(std::ostream& = std::cout, const object& = object()) {}
};
class scoped_estream_redirect : public scoped_ostream_redirect {
 public:
  using scoped_ostream_redirect::scoped_ostream_redirect;
};
namespace detail {
struct OstreamRedirect {
  OstreamRedirect(bool, bool) {}
};
}  // namespace detail
inline class_<detail::OstreamRedirect> add_ostream_redirect(module_ m, const std::string& name = "ostream_redirect") {
  class_<detail::OstreamRedirect> c(m, name.c_str(), module_local(false));
  c.def(init<bool, bool>(), arg("stdout") = true, arg("stderr") = true);
  c.def("__enter__", [](detail::OstreamRedirect&) {});
  c.def("__exit__", [](detail::OstreamRedirect&, const object&, const object&, const object&) {});
  return c;
}
}  // namespace pybind11
#endif
