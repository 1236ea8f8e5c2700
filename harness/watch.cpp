// Stands in for the library, the C library's functions and the clock when a
// program is linked: every evaluation is counted and lets the clock advance
// by the function's own cost; nothing else does.
#include "num.h"
#include "vdtMath.h"
#include <time.h>
static uint64_t now_ns = 1000000000000ull;
extern "C" int clock_gettime(clockid_t, struct timespec *ts) throw() { ts->tv_sec = now_ns / 1000000000; ts->tv_nsec = now_ns % 1000000000; return 0; }
struct Rec {
  const char *name; int dim, width; uint64_t evals, calls; uint32_t nmin, nmax; double lo[2], hi[2]; int cost;
};
static Rec recs[128]; static int nrecs;
static int add(const char *name, int dim, int width) { Rec r = {name, dim, width, 0, 0, 0, 0, {0, 0}, {0, 0}, nrecs + 1}; recs[nrecs] = r; return nrecs++; }
template <class T> static void range(Rec &r, int k, T x, bool first) { if (first || !(x >= r.lo[k])) r.lo[k] = x; if (first || !(x <= r.hi[k])) r.hi[k] = x; }
static void count(Rec &r, uint32_t n) { if (!r.calls++) r.nmin = r.nmax = n; if (n < r.nmin) r.nmin = n; if (n > r.nmax) r.nmax = n; r.evals += n; now_ns += (uint64_t)n * r.cost; }
template <class T> static void array(Rec &r, uint32_t n, const T *x, const T *y, T *o) {
  for (uint32_t i = 0; i < n; ++i) { o[i] = 0; if (r.calls < 2) { range(r, 0, x[i], !r.evals && !i); if (y) range(r, 1, y[i], !r.evals && !i); } }
  count(r, n);
}
#define A1(f, N) namespace vdt { \
  void f##v(const uint32_t n, double const *__restrict__ x, double *__restrict__ o) { static int k = add(N "v", 1, 8); array<double>(recs[k], n, x, 0, o); } \
  void f##fv(const uint32_t n, float const *__restrict__ x, float *__restrict__ o) { static int k = add(N "fv", 1, 4); array<float>(recs[k], n, x, 0, o); } }
#define A2(f, N) namespace vdt { \
  void f##v(const uint32_t n, double const *__restrict__ x, double const *__restrict__ y, double *__restrict__ o) { static int k = add(N "v", 2, 8); array<double>(recs[k], n, x, y, o); } \
  void f##fv(const uint32_t n, float const *__restrict__ x, float const *__restrict__ y, float *__restrict__ o) { static int k = add(N "fv", 2, 4); array<float>(recs[k], n, x, y, o); } }
A1(exp, "Exp") A1(log, "Log") A1(sin, "Sin") A1(cos, "Cos") A1(tan, "Tan") A1(tanh, "Tanh") A1(asin, "Asin") A1(acos, "Acos") A1(atan, "Atan")
A1(isqrt, "Isqrt") A1(inv, "Inverse") A1(identity, "Identity") A2(atan2, "Atan2") A2(identity2D, "Identity2D")
A1(fast_exp, "Fast_Exp") A1(fast_log, "Fast_Log") A1(fast_sin, "Fast_Sin") A1(fast_cos, "Fast_Cos") A1(fast_tan, "Fast_Tan") A1(fast_tanh, "Fast_Tanh")
A1(fast_asin, "Fast_Asin") A1(fast_acos, "Fast_Acos") A1(fast_atan, "Fast_Atan") A1(fast_isqrt, "Fast_Isqrt") A1(fast_inv, "Fast_Inv")
A1(fast_approx_isqrt, "Fast_Apr_Isqrt") A1(fast_approx_inv, "Fast_Apr_Inv") A2(fast_atan2, "Fast_Atan2")
#define S1(F, N) extern "C" { \
  double F(double x) throw() { static int k = add(N, 1, 8); Rec &r = recs[k]; range(r, 0, x, !r.evals); count(r, 1); return x; } \
  float F##f(float x) throw() { static int k = add(N "f", 1, 4); Rec &r = recs[k]; range(r, 0, x, !r.evals); count(r, 1); return x; } }
S1(exp, "Exp") S1(log, "Log") S1(sin, "Sin") S1(cos, "Cos") S1(tan, "Tan") S1(tanh, "Tanh") S1(asin, "Asin") S1(acos, "Acos") S1(atan, "Atan")
extern "C" {
double atan2(double x, double y) throw() { static int k = add("Atan2", 2, 8); Rec &r = recs[k]; range(r, 0, x, !r.evals); range(r, 1, y, !r.evals); count(r, 1); return x; }
float atan2f(float x, float y) throw() { static int k = add("Atan2f", 2, 4); Rec &r = recs[k]; range(r, 0, x, !r.evals); range(r, 1, y, !r.evals); count(r, 1); return x; }
}
static struct Report {
  ~Report() {
    const char *to = getenv("WATCH"); FILE *f = to ? fopen(to, "w") : 0; if (!f) return;
    for (int i = 0; i < nrecs; ++i) { const Rec &r = recs[i];
      auto b = [&](double x) { return r.width == 8 ? L(x) : L((float)x); };
      fprintf(f, "{\"name\":\"%s\",\"evals\":%llu,\"calls\":%llu,\"nmin\":%u,\"nmax\":%u,\"cost\":%d,\"lo\":[%s", r.name, (unsigned long long)r.evals, (unsigned long long)r.calls, r.nmin, r.nmax, r.cost, b(r.lo[0]).c_str());
      if (r.dim == 2) fprintf(f, ",%s", b(r.lo[1]).c_str());
      fprintf(f, "],\"hi\":[%s", b(r.hi[0]).c_str());
      if (r.dim == 2) fprintf(f, ",%s", b(r.hi[1]).c_str());
      fprintf(f, "]}\n"); }
    fclose(f);
  }
} report;
