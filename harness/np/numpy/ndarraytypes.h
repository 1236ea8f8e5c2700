/* Stand-in for NumPy's header: what a module with universal functions needs of it. */
#ifndef NP_NDARRAYTYPES
#define NP_NDARRAYTYPES
#include <stdint.h>
typedef intptr_t npy_intp;
typedef uintptr_t npy_uintp;
typedef float npy_float;
typedef double npy_double;
typedef float npy_float32;
typedef double npy_float64;
enum NPY_TYPES { NPY_INT = 5, NPY_LONG = 7, NPY_FLOAT = 11, NPY_DOUBLE = 12, NPY_LONGDOUBLE = 13 };
#define NPY_FLOAT32 NPY_FLOAT
#define NPY_FLOAT64 NPY_DOUBLE
#endif
