// The scalar functions of the library, one entry per (function, precision).
#ifndef VERIF_FNS_H
#define VERIF_FNS_H
#include "vdtMath.h"
#include "identity.h"
#include "num.h"

#define DFN(ID, CALL, REF)                                                     \
  struct ID##_d { typedef double T; static const char *name() { return #ID "_d"; } \
    static inline double f(double x) { return vdt::CALL(x); }                  \
    static inline long double r(double x) { const long double v = x; return REF; } };
#define FFN(ID, CALL, REF)                                                     \
  struct ID##_f { typedef float T; static const char *name() { return #ID "_f"; } \
    static inline float f(float x) { return vdt::CALL(x); }                    \
    static inline double r(float x) { const double v = x; return REF; } };

DFN(exp, fast_exp, expl(v))            FFN(exp, fast_expf, ::exp(v))
DFN(log, fast_log, logl(v))            FFN(log, fast_logf, ::log(v))
DFN(sin, fast_sin, sinl(v))            FFN(sin, fast_sinf, ::sin(v))
DFN(cos, fast_cos, cosl(v))            FFN(cos, fast_cosf, ::cos(v))
DFN(tan, fast_tan, tanl(v))            FFN(tan, fast_tanf, ::tan(v))
DFN(tanh, fast_tanh, tanhl(v))         FFN(tanh, fast_tanhf, ::tanh(v))
DFN(asin, fast_asin, asinl(v))         FFN(asin, fast_asinf, ::asin(v))
DFN(acos, fast_acos, acosl(v))         FFN(acos, fast_acosf, ::acos(v))
DFN(atan, fast_atan, atanl(v))         FFN(atan, fast_atanf, ::atan(v))
DFN(isqrt, fast_isqrt, 1 / sqrtl(v))   FFN(isqrt, fast_isqrtf, 1 / ::sqrt(v))
DFN(aisqrt, fast_approx_isqrt, 1 / sqrtl(v)) FFN(aisqrt, fast_approx_isqrtf, 1 / ::sqrt(v))
DFN(inv, fast_inv, 1 / v)              FFN(inv, fast_invf, 1 / v)
DFN(ainv, fast_approx_inv, 1 / v)      FFN(ainv, fast_approx_invf, 1 / v)
DFN(pisqrt, isqrt, 1 / sqrtl(v))       FFN(pisqrt, isqrtf, 1 / ::sqrt(v))
DFN(pinv, inv, 1 / v)                  FFN(pinv, invf, 1 / v)

#define ALL_FNS(M) \
  M(exp_d) M(log_d) M(sin_d) M(cos_d) M(tan_d) M(tanh_d) M(asin_d) M(acos_d) M(atan_d) \
  M(isqrt_d) M(aisqrt_d) M(inv_d) M(ainv_d) M(pisqrt_d) M(pinv_d) \
  M(exp_f) M(log_f) M(sin_f) M(cos_f) M(tan_f) M(tanh_f) M(asin_f) M(acos_f) M(atan_f) \
  M(isqrt_f) M(aisqrt_f) M(inv_f) M(ainv_f) M(pisqrt_f) M(pinv_f)
#endif
