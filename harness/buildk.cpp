// The functions as one build of the headers delivers them; compiled into a
// shared object per build.  kernel(f, way, a, b, out, out2, n)
#include "vdtMath.h"
#include <cstdint>
#define BAR asm volatile("" ::: "memory")
#define LOOP1(T, CALL) static void CALL##_i(const T *a, T *o, int n) { for (int i = 0; i < n; ++i) { o[i] = vdt::CALL(a[i]); BAR; } } \
  static void CALL##_l(const T *__restrict__ a, T *__restrict__ o, int n) { for (int i = 0; i < n; ++i) o[i] = vdt::CALL(a[i]); }
#define LOOP2(T, CALL) static void CALL##_i(const T *a, const T *b, T *o, int n) { for (int i = 0; i < n; ++i) { o[i] = vdt::CALL(a[i], b[i]); BAR; } } \
  static void CALL##_l(const T *__restrict__ a, const T *__restrict__ b, T *__restrict__ o, int n) { for (int i = 0; i < n; ++i) o[i] = vdt::CALL(a[i], b[i]); }
#define LOOPJ(T, CALL) static void CALL##_i(const T *a, T *o, T *p, int n) { for (int i = 0; i < n; ++i) { vdt::CALL(a[i], o[i], p[i]); BAR; } } \
  static void CALL##_l(const T *__restrict__ a, T *__restrict__ o, T *__restrict__ p, int n) { for (int i = 0; i < n; ++i) vdt::CALL(a[i], o[i], p[i]); }
#define ONES(M) M(fast_exp) M(fast_log) M(fast_sin) M(fast_cos) M(fast_tan) M(fast_tanh) M(fast_asin) M(fast_acos) M(fast_atan) \
  M(fast_isqrt) M(fast_approx_isqrt) M(fast_inv) M(fast_approx_inv) M(isqrt) M(inv)
#define M1(N) LOOP1(double, N) LOOP1(float, N##f)
ONES(M1)
LOOP2(double, fast_atan2) LOOP2(float, fast_atan2f) LOOPJ(double, fast_sincos) LOOPJ(float, fast_sincosf)
extern "C" void kernel(int f, int way, const void *a, const void *b, void *o, void *p, int n) {
  const double *da = (const double *)a, *db = (const double *)b; double *d = (double *)o, *dp = (double *)p;
  const float *fa = (const float *)a, *fb = (const float *)b; float *g = (float *)o, *gp = (float *)p; int k = 0;
#define C1(N) if (f == k) { if (way == 0) N##_i(da, d, n); else if (way == 1) N##_l(da, d, n); else vdt::N##v(n, da, d); return; } ++k; \
  if (f == k) { if (way == 0) N##f_i(fa, g, n); else if (way == 1) N##f_l(fa, g, n); else vdt::N##fv(n, fa, g); return; } ++k;
  ONES(C1)
  if (f == k) { if (way == 0) fast_atan2_i(da, db, d, n); else if (way == 1) fast_atan2_l(da, db, d, n); else vdt::fast_atan2v(n, da, db, d); return; } ++k;
  if (f == k) { if (way == 0) fast_atan2f_i(fa, fb, g, n); else if (way == 1) fast_atan2f_l(fa, fb, g, n); else vdt::fast_atan2fv(n, fa, fb, g); return; } ++k;
  if (f == k) { if (way == 0) fast_sincos_i(da, d, dp, n); else fast_sincos_l(da, d, dp, n); return; } ++k;
  if (f == k) { if (way == 0) fast_sincosf_i(fa, g, gp, n); else fast_sincosf_l(fa, g, gp, n); return; } ++k;
}
