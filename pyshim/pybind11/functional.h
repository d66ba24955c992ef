// Stand-in for pybind11/functional.h (nothing of it is used).
#ifndef PYSHIM_FUNCTIONAL_H_
#define PYSHIM_FUNCTIONAL_H_
#include "pybind11.h"
#endif
