// Stand-in for the multi-versioned build: one version of each function.
#ifndef __VDT_FATLIB__
#define __VDT_FATLIB__
#include <cmath>
#define FATLIB(RET, FUN) RET FUN
#endif
