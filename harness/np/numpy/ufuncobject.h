/* Stand-in for NumPy's header: a universal function is the list of what it was made from. */
#ifndef NP_UFUNCOBJECT
#define NP_UFUNCOBJECT
#include "Python.h"
#include "numpy/ndarraytypes.h"
typedef void (*PyUFuncGenericFunction)(char **args, npy_intp const *dimensions, npy_intp const *strides, void *innerloopdata);
#define PyUFunc_One 1
#define PyUFunc_Zero 0
#define PyUFunc_MinusOne 2
#define PyUFunc_None -1
#define PyUFunc_ReorderableNone -2
#define import_array() ((void)0)
#define import_array1(r) ((void)0)
#define import_umath() ((void)0)
#define import_ufunc() ((void)0)
static inline PyObject *PyUFunc_FromFuncAndData(PyUFuncGenericFunction *func, void *const *data, const char *types, int ntypes, int nin, int nout,
                                                int identity, const char *name, const char *doc, int unused)
{
  PyObject *loops = PyList_New(0);
  (void)identity; (void)doc; (void)unused;
  for (int i = 0; i < ntypes; ++i) {
    PyObject *codes = PyList_New(0), *l;
    for (int k = 0; k < nin + nout; ++k) {
      PyObject *c = PyLong_FromLong(types[i * (nin + nout) + k]);
      PyList_Append(codes, c);
      Py_DECREF(c);
    }
    l = Py_BuildValue("(NNN)", PyLong_FromVoidPtr((void *)func[i]), PyLong_FromVoidPtr(data ? data[i] : 0), codes);
    PyList_Append(loops, l);
    Py_DECREF(l);
  }
  return Py_BuildValue("(siiN)", name, nin, nout, loops);
}
#endif
