#include <Python.h>
extern "C" PyObject* PyInit_pysymbolic();
int main(int argc, char** argv) {
  PyImport_AppendInittab("pysymbolic", &PyInit_pysymbolic);
  return Py_BytesMain(argc, argv);
}
