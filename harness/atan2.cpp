// Sweep of the two-argument arctangent.
// Usage: atan2 MODE PLAN RATIOS POINTS OUT      MODE = acc|parity|range|fpe
// PLAN lines: fmt kind dlo dhi   (cells of one quadrant, in the order of the walk)
#include "fns.h"
#include "atan2.h"
#include <cfenv>
#include <fstream>
#include <sstream>
static double A(double y, double x) { return vdt::fast_atan2(y, x); }
static float A(float y, float x) { return vdt::fast_atan2f(y, x); }
static long double ref(double y, double x) { return atan2l(y, x); }
static double ref(float y, float x) { return ::atan2((double)y, (double)x); }
struct Cell { std::string k; int lo, hi; };
static std::vector<double> ratios;
static std::string mode; static uint64_t N; static bool dbg;

template <class T> T mk(int sign, int e, typename Fmt<T>::U m) {   // normal number
  typedef typename Fmt<T>::U U; return fromBits<T>(((U)sign << (sizeof(T) * 8 - 1)) | ((U)(e + Fmt<T>::BIAS) << Fmt<T>::MB) | (m & ((U(1) << Fmt<T>::MB) - 1)));
}
template <class T> typename Fmt<T>::U mant(Rng &r) {
  typedef typename Fmt<T>::U U; U all = (U(1) << Fmt<T>::MB) - 1;
  switch (r.below(8)) { case 0: return 0; case 1: return all; case 2: return (U)r.below(5); case 3: return all - (U)r.below(5); default: return (U)r.next() & all; }
}
template <class T> int expo(T v) { typedef typename Fmt<T>::U U; return (int)((bits(v) >> Fmt<T>::MB) & ((U(1) << Fmt<T>::EB) - 1)); }
template <class T> bool quadPoint(const Cell &c, int sy, int sx, Rng &r, T &y, T &x) {
  const int emin = 1 - Fmt<T>::BIAS, emax = Fmt<T>::BIAS;
  int d = c.lo + (int)r.below(c.hi - c.lo + 1); int lo = std::max(emin, emin - d), hi = std::min(emax, emax - d), ex;
  switch (r.below(5)) { case 0: ex = lo + (int)r.below(std::min(3, hi - lo + 1)); break; case 1: ex = hi - (int)r.below(std::min(3, hi - lo + 1)); break;
    case 2: { int m = std::max(lo, std::min(hi, 0)); ex = m; break; } default: ex = lo + (int)r.below(hi - lo + 1); }
  x = mk<T>(sx, ex, mant<T>(r)); y = mk<T>(sy, ex + d, r.below(8) == 0 ? (typename Fmt<T>::U)bits(x) : mant<T>(r));
  if (d >= -67 && d <= 67 && r.below(3) == 0) {          // ratio at a breakpoint of the code
    double q = ratios[r.below(ratios.size())]; T yy = (T)(q * std::fabs((double)x));
    if (yy - yy == 0 && yy != 0) { typename Fmt<T>::U b = bits(yy) + (typename Fmt<T>::U)r.below(9) - 4; yy = fromBits<T>(b); if (sy) yy = -yy;
      int e = expo(yy); if (e > 0 && e < 2 * Fmt<T>::BIAS + 1 && e - expo(x) >= c.lo && e - expo(x) <= c.hi) y = yy; }
  }
  return true;
}
template <class T> T anyNormal(int s, Rng &r) { int e; switch (r.below(4)) { case 0: e = 1 - Fmt<T>::BIAS; break; case 1: e = Fmt<T>::BIAS; break; case 2: e = (int)r.below(40) - 20; break; default: e = 1 - Fmt<T>::BIAS + (int)r.below(2 * Fmt<T>::BIAS); } return mk<T>(s, e, mant<T>(r)); }
template <class T> T sub(int s, Rng &r) { typedef typename Fmt<T>::U U; U m = mant<T>(r); if (!m) m = 1; return fromBits<T>(((U)s << (sizeof(T) * 8 - 1)) | m); }
template <class T> void point(const Cell &c, int sy, int sx, Rng &r, uint64_t i, T &y, T &x) {
  if (c.k == "quad") quadPoint(c, sy, sx, r, y, x);
  else if (c.k == "axis") { int w = i < 3 ? (int)i : (int)r.below(2); T zy = sy ? -(T)0 : (T)0, zx = sx ? -(T)0 : (T)0;
    if (w == 0) { y = zy; x = anyNormal<T>(sx, r); } else if (w == 1) { y = anyNormal<T>(sy, r); x = zx; } else { y = zy; x = zx; } }
  else { int w = (int)r.below(4); T zx = sx ? -(T)0 : (T)0;
    if (w == 0) { y = sub<T>(sy, r); x = anyNormal<T>(sx, r); } else if (w == 1) { y = anyNormal<T>(sy, r); x = sub<T>(sx, r); } else if (w == 2) { y = sub<T>(sy, r); x = sub<T>(sx, r); } else { y = sub<T>(sy, r); x = zx; } }
}
template <class T> bool axisWrong(T y, T x, T r) {      // only selects which observation to record
  const T pi = (T)3.14159265358979323846L; T e = y == 0 ? ((x == 0 || !std::signbit(x)) ? (T)0 : pi) : (y > 0 ? pi / 2 : -pi / 2);
  if (y == 0 && x < 0) r = std::fabs(r); return !(std::fabs(r - e) <= pi * std::numeric_limits<T>::epsilon());
}
template <class T> __attribute__((noinline)) void blkS(const T *y, const T *x, T *o, int n) { for (int i = 0; i < n; ++i) { o[i] = A(y[i], x[i]); asm volatile("" ::: "memory"); } }
template <class T> __attribute__((noinline)) void blkV(const T *__restrict__ y, const T *__restrict__ x, T *__restrict__ o, int n) { for (int i = 0; i < n; ++i) o[i] = A(y[i], x[i]); }
template <class T> int flags(void (*f)(const T *, const T *, T *, int), const T *y, const T *x, int n) {
  T o[64]; feclearexcept(FE_ALL_EXCEPT); f(y, x, o, n); asm volatile("" ::"r"(o) : "memory"); int e = fetestexcept(FE_INVALID | FE_DIVBYZERO);
  return (e & FE_INVALID ? 1 : 0) | (e & FE_DIVBYZERO ? 2 : 0);
}
template <class T> std::string cell(const Cell &c, int sy, int sx, Rng r) {
  std::vector<std::string> obs; std::ostringstream h; uint64_t n = N; T y, x;
  if (mode == "acc" && c.k == "quad") {
    double worst = -1; T wy = 0, wx = 0; bool any = false;
    for (uint64_t i = 0; i < n; ++i) {
      point(c, sy, sx, r, i, y, x); T v = A(y, x); typename Fmt<T>::R q = ref(y, x);
      double d = v - v == 0 ? (double)std::ldexp(std::fabs((typename Fmt<T>::R)v - q), Fmt<T>::MB - ilogbClamp<T>(std::fabs(q))) : 1e300;
      if (!any || d > worst) { worst = d; wy = y; wx = x; any = true; }
    }
    if (dbg) fprintf(stderr, "%s %d%d %d..%d worst %.3f at %a %a\n", Fmt<T>::name(), sy, sx, c.lo, c.hi, worst, (double)wy, (double)wx);
    obs.push_back("\"y\":" + L(wy) + ",\"x\":" + L(wx) + ",\"r\":" + L(A(wy, wx)) + ",\"ref\":" + refJson(ref(wy, wx)));
  } else if (mode == "acc") {
    bool got[3] = {0, 0, 0};
    for (uint64_t i = 0; i < n; ++i) { point(c, sy, sx, r, i, y, x); int w = y == 0 && x == 0 ? 2 : y == 0 ? 0 : 1; T v = A(y, x); bool bad = axisWrong(y, x, v);
      if (!got[w] || (bad && obs.size() < 12)) { got[w] = true; obs.push_back("\"y\":" + L(y) + ",\"x\":" + L(x) + ",\"r\":" + L(v) + ",\"ref\":" + refJson(0)); } }
  } else if (mode == "parity") {
    T wy = 0, wx = 0; bool any = false, bad = false;
    for (uint64_t i = 0; i < n && !bad; ++i) { point(c, sy, sx, r, i, y, x); T a = A(y, x), b = A(-y, x); bool w = !(b == -a || (a != a && b != b)); if (!any || w) { any = true; wy = y; wx = x; bad = w; } }
    obs.push_back("\"y\":" + L(wy) + ",\"x\":" + L(wx) + ",\"r\":" + L(A(wy, wx)) + ",\"q\":" + L(A(-wy, wx)));
  } else if (mode == "range") {
    T mn = 0, mx = 0, ay = 0, ax = 0, by = 0, bx = 0, ny = 0, nx = 0; bool any = false, nan = false;
    for (uint64_t i = 0; i < n; ++i) { point(c, sy, sx, r, i, y, x); T v = A(y, x); if (v != v) { nan = true; ny = y; nx = x; continue; }
      if (!any || v < mn) { mn = v; ay = y; ax = x; } if (!any || v > mx) { mx = v; by = y; bx = x; } any = true; }
    auto o = [&](T p, T q) { obs.push_back("\"y\":" + L(p) + ",\"x\":" + L(q) + ",\"r\":" + L(A(p, q))); };
    if (any) { o(ay, ax); o(by, bx); } if (nan) o(ny, nx);
  } else {
    T by[64], bx[64]; int f = 0; T wy = 0, wx = 0; bool any = false; int m = 0;
    for (uint64_t i = 0; i < n; ++i) {
      point(c, sy, sx, r, i, by[m], bx[m]); if (!any) { wy = by[m]; wx = bx[m]; any = true; } ++m;
      if (m == 64 || i + 1 == n) { int a = flags<T>(blkS<T>, by, bx, m), b = flags<T>(blkV<T>, by, bx, m);
        if ((a | b) & ~f) { f |= a | b; wy = by[0]; wx = bx[0]; for (int q = 0; q < m; ++q) if (flags<T>(blkS<T>, by + q, bx + q, 1)) { wy = by[q]; wx = bx[q]; break; } } m = 0; }
    }
    std::ostringstream o; o << "\"y\":" << L(wy) << ",\"x\":" << L(wx) << ",\"f\":" << f; obs.push_back(o.str());
  }
  h << "{\"k\":\"" << c.k << "\",\"lo\":" << c.lo << ",\"hi\":" << c.hi << ",\"n\":" << n << ",\"obs\":[";
  for (size_t i = 0; i < obs.size(); ++i) h << (i ? ",{" : "{") << obs[i] << "}";
  h << "]}"; return h.str();
}
int main(int argc, char **argv) {
  if (argc < 6) return 2; dbg = getenv("SWEEP_DEBUG") != 0; mode = argv[1]; N = strtoull(argv[4], 0, 10);
  std::vector<Cell> cd, cf; std::ifstream p(argv[2]); std::string fm; Cell c; while (p >> fm >> c.k >> c.lo >> c.hi) (fm == "d" ? cd : cf).push_back(c);
  std::ifstream q(argv[3]); double v; while (q >> v) ratios.push_back(v);
  std::vector<std::string> out(4 * (cd.size() + cf.size())); uint64_t seed = envSeed(); size_t per = cd.size() + cf.size();
  parallel(out.size(), [&](size_t i) { int s = (int)(i / per); size_t j = i % per; Rng r(seed * 1315423911ull + i * 2654435761ull);
    out[i] = j < cd.size() ? cell<double>(cd[j], s >> 1, s & 1, r) : cell<float>(cf[j - cd.size()], s >> 1, s & 1, r); });
  std::ofstream f(argv[5]);
  for (int s = 0; s < 4; ++s) for (int t = 0; t < 2; ++t) {
    f << "{\"fmt\":\"" << (t ? "f" : "d") << "\",\"sy\":" << (s >> 1) << ",\"sx\":" << (s & 1) << ",\"cells\":[";
    size_t a = s * per + (t ? cd.size() : 0), b = a + (t ? cf.size() : cd.size()); for (size_t i = a; i < b; ++i) f << (i > a ? "," : "") << out[i]; f << "]}\n";
  }
  f.close(); return f ? 0 : 2;
}
