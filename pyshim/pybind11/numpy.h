// Stand-in for pybind11/numpy.h (nothing of it is used).
#include "pybind11.h"
