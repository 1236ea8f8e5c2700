/* Stand-in for NumPy's header. */
#include "numpy/ndarraytypes.h"
