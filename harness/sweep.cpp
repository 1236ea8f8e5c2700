// Sweeps over the argument space of the one-argument functions.
// Usage: sweep PLAN DICT OUT    compiled with -DSWEEP_MODE=acc|special|parity|range|fpe|joint
// PLAN is printed from the specification, one region per line:
//   fn region loBits hiBits floor ceil binadesPerCell cellsPerBinade points
// Every region is cut into contiguous cells.  The trace gets one event per
// cell, carrying the most incriminating point(s) found in it.
#include "fns.h"
#include <cfenv>
#include <fstream>
#include <map>
#include <sstream>

struct Region { std::string fn; int idx; uint64_t lo, hi; int floorE, ceilE, bpc, cpb; uint64_t n; };
static std::vector<Region> plan;
static std::vector<uint64_t> dictD; static std::vector<uint32_t> dictF;   // sorted keys
template <class T> const std::vector<typename Fmt<T>::U> &dict();
template <> const std::vector<uint64_t> &dict<double>() { return dictD; }
template <> const std::vector<uint32_t> &dict<float>() { return dictF; }

template <class U> struct Cell { U lo, hi; };
// contiguous cells that never straddle zero and end at binade boundaries
template <class T> std::vector<Cell<typename Fmt<T>::U>> cut(const Region &g) {
  typedef typename Fmt<T>::U U; const int MB = Fmt<T>::MB;
  std::vector<Cell<U>> v; U k = keyOfBits<T>((U)g.lo); const U hi = keyOfBits<T>((U)g.hi);
  for (;;) {
    U b = bitsOfKey<T>(k); const U S = U(1) << (sizeof(T) * 8 - 1); bool neg = b & S; U mag = b & ~S;
    U e = mag >> MB, end, w = U(1) << MB;      // end: last magnitude in walking direction
    if (g.cpb > 1) {
      U step = w / g.cpb, base = e << MB, s = (mag - base) / step; if (s >= (U)g.cpb) s = g.cpb - 1;
      end = neg ? base + s * step : ((s + 1 == (U)g.cpb) ? base + w - 1 : base + (s + 1) * step - 1);
    } else {
      U grp = e / (U)g.bpc;
      end = neg ? (grp * (U)g.bpc) << MB : (((grp + 1) * (U)g.bpc) << MB) - 1;
      if (!neg && (end < mag || end > S - 1)) end = S - 1;
    }
    U ek = keyOfBits<T>(neg ? (end | S) : end);
    if (ek < k || ek > hi) ek = hi;
    v.push_back({k, ek}); if (ek == hi) break; k = ek + 1;
  }
  return v;
}

// Visits the points of a cell: all of them if there are few enough, otherwise
// one random point per stratum, the ends, and the dictionary points.
template <class T, class V> uint64_t visit(uint64_t want, typename Fmt<T>::U lo, typename Fmt<T>::U hi, Rng &rng, V v) {
  typedef typename Fmt<T>::U U; U span = hi - lo; uint64_t n = 0;
  if ((uint64_t)span < want) { for (U k = lo;; ++k) { v(k); ++n; if (k == hi) break; } return n; }
  long double w = ((long double)span + 1) / want;
  for (uint64_t i = 0; i < want; ++i) {
    U a = lo + (U)(w * i), b = lo + (U)(w * (i + 1)); U len = b > a ? b - a : 1;
    U k = a + (U)rng.below(len); if (k < lo || k > hi) k = hi; v(k); ++n;
  }
  v(lo); v(hi); n += 2;
  const std::vector<U> &d = dict<T>();
  for (auto it = std::lower_bound(d.begin(), d.end(), lo); it != d.end() && *it <= hi; ++it) { v(*it); ++n; }
  return n;
}

template <class F> double devOf(typename F::T x, typename F::T y, int floorE, int ceilE) {
  typedef typename F::T T; typedef typename Fmt<T>::R R;
  R r = F::r(x); int e = ilogbClamp<T>(std::fabs(r)); if (e < floorE) e = floorE; if (e > ceilE) e += e - ceilE;
  return (double)std::ldexp(std::fabs((R)y - r), Fmt<T>::MB - e);
}
template <class F> std::string xyr(typename F::T x) {
  return "\"x\":" + L(x) + ",\"y\":" + L(F::f(x)) + ",\"r\":" + refJson((long double)F::r(x));
}
template <class F> std::string head(const Region &g, typename Fmt<typename F::T>::U lo, typename Fmt<typename F::T>::U hi, uint64_t n, bool full) {
  typedef typename F::T T; std::ostringstream o;
  o << "{\"fn\":\"" << F::name() << "\",\"g\":" << g.idx << ",\"lo\":" << limbs(bitsOfKey<T>(lo), Fmt<T>::LIMBS) << ",\"hi\":" << limbs(bitsOfKey<T>(hi), Fmt<T>::LIMBS)
    << ",\"full\":" << (full ? 1 : 0) << ",\"d\":" << std::min<uint64_t>(full ? (uint64_t)(hi - lo) + 1 : g.n, 2000000000ull) << ",\"n\":" << (n > 2000000000ull ? 2000000000ull : n);
  return o.str();
}
static bool dbg = false;

// -- accuracy: worst deviation in the cell
template <class F> std::string acc(const Region &g, typename Fmt<typename F::T>::U lo, typename Fmt<typename F::T>::U hi, Rng &rng) {
  typedef typename F::T T; typedef typename Fmt<T>::U U;
  double worst = -1; U wk = lo; uint64_t bad = 0; U bk = lo; double sum = 0;
  auto v = [&](U k) {
    T x = ofKey<T>(k), y = F::f(x);
    if (!(y - y == 0)) { if (!bad++) bk = k; return; }
    double d = devOf<F>(x, y, g.floorE, g.ceilE); sum += d;
    if (d > worst || d != d) { worst = d; wk = k; }
  };
  uint64_t n = visit<T>(g.n, lo, hi, rng, v); bool full = (uint64_t)(hi - lo) < g.n;
  if (!full)        // look around the worst point at growing distances
    for (int round = 0; round < 5; ++round) { U c = wk; for (int i = 0; i < 64; ++i) { U r = (U)rng.below(1ull << (4 + 8 * round)), k = (rng.next() & 1) ? c + r : c - r; if (k >= lo && k <= hi) { v(k); ++n; } } }
  T x = ofKey<T>(bad ? bk : wk);
  if (dbg) fprintf(stderr, "%s %d [%g,%g] worst=%.3f %a mean=%.3f bad=%lu\n", F::name(), g.idx, (double)ofKey<T>(lo), (double)ofKey<T>(hi), worst, (double)x, sum / n, (unsigned long)bad);
  return head<F>(g, lo, hi, n, full) + "," + xyr<F>(x) + "}";
}

// -- outside the operating interval: one witness per kind of result
template <class F> std::string special(const Region &g, typename Fmt<typename F::T>::U lo, typename Fmt<typename F::T>::U hi, Rng &rng) {
  typedef typename F::T T; typedef typename Fmt<T>::U U;
  std::map<std::string, U> kinds; std::vector<U> outs; std::vector<U> pts; double worst = -1; U wk = lo; bool fin = false;
  auto v = [&](U k) {
    T x = ofKey<T>(k), y = F::f(x);
    const char *c = y != y ? "nan" : (y - y != 0) ? (y > 0 ? "+inf" : "-inf") : y == 0 ? "zero" : 0;
    if (c) { if (!kinds.count(c)) kinds[c] = k; return; }
    U b = bits(y);
    if (outs.size() < 4 && std::find(outs.begin(), outs.end(), b) == outs.end()) { outs.push_back(b); pts.push_back(k); }
    double d = devOf<F>(x, y, g.floorE, g.ceilE); fin = true; if (d > worst || d != d) { worst = d; wk = k; }
  };
  uint64_t n = visit<T>(g.n, lo, hi, rng, v); bool full = (uint64_t)(hi - lo) < g.n;
  for (auto &k : kinds) pts.push_back(k.second);
  if (fin) pts.push_back(wk);
  std::string s = head<F>(g, lo, hi, n, full) + ",\"obs\":[";
  for (size_t i = 0; i < pts.size(); ++i) s += (i ? ",{" : "{") + xyr<F>(ofKey<T>(pts[i])) + "}";
  return s + "]}";
}

// -- parity: x, f(x), f(-x) of the first point that breaks either symmetry
template <class F> std::string parity(const Region &g, typename Fmt<typename F::T>::U lo, typename Fmt<typename F::T>::U hi, Rng &rng) {
  typedef typename F::T T; typedef typename Fmt<T>::U U;
  U ok = lo, eo = lo; bool o = false, e = false;
  auto v = [&](U k) {
    T x = ofKey<T>(k), y = F::f(x), z = F::f(-x); bool nn = (y != y) && (z != z);
    if (!(nn || z == -y) && !o) { o = true; ok = k; }
    if (!(nn || z == y) && !e) { e = true; eo = k; }
  };
  uint64_t n = visit<T>(g.n, lo, hi, rng, v); bool full = (uint64_t)(hi - lo) < g.n;
  auto tri = [&](U k) { T x = ofKey<T>(k); return "{\"x\":" + L(x) + ",\"y\":" + L(F::f(x)) + ",\"z\":" + L(F::f(-x)) + "}"; };
  return head<F>(g, lo, hi, n, full) + ",\"odd\":" + tri(ok) + ",\"even\":" + tri(eo) + "}";
}

// -- range: smallest, largest and (if any) NaN result
template <class F> std::string range(const Region &g, typename Fmt<typename F::T>::U lo, typename Fmt<typename F::T>::U hi, Rng &rng) {
  typedef typename F::T T; typedef typename Fmt<T>::U U;
  U a = lo, b = lo, c = lo; bool nan = false, any = false; T mn = 0, mx = 0;
  auto v = [&](U k) {
    T y = F::f(ofKey<T>(k));
    if (y != y) { if (!nan) { nan = true; c = k; } return; }
    if (!any || y < mn) { mn = y; a = k; }
    if (!any || y > mx) { mx = y; b = k; }
    any = true;
  };
  uint64_t n = visit<T>(g.n, lo, hi, rng, v); bool full = (uint64_t)(hi - lo) < g.n;
  auto pt = [&](U k) { T x = ofKey<T>(k); return "{\"x\":" + L(x) + ",\"y\":" + L(F::f(x)) + "}"; };
  return head<F>(g, lo, hi, n, full) + ",\"obs\":[" + pt(a) + "," + pt(b) + (nan ? "," + pt(c) : std::string()) + "]}";
}

// -- floating-point exceptions, separately for isolated and vectorised calls
template <class F> __attribute__((noinline)) void blockScalar(const typename F::T *in, typename F::T *out, int n) {
  for (int i = 0; i < n; ++i) { out[i] = F::f(in[i]); asm volatile("" ::: "memory"); }
}
template <class F> __attribute__((noinline)) void blockVector(const typename F::T *__restrict__ in, typename F::T *__restrict__ out, int n) {
  for (int i = 0; i < n; ++i) out[i] = F::f(in[i]);
}
template <class F> int flagsOf(void (*f)(const typename F::T *, typename F::T *, int), const typename F::T *in, int n) {
  typename F::T out[64]; feclearexcept(FE_ALL_EXCEPT); f(in, out, n); asm volatile("" ::"r"(out) : "memory");
  int e = fetestexcept(FE_INVALID | FE_DIVBYZERO); return (e & FE_INVALID ? 1 : 0) | (e & FE_DIVBYZERO ? 2 : 0);
}
template <class F> std::string fpe(const Region &g, typename Fmt<typename F::T>::U lo, typename Fmt<typename F::T>::U hi, Rng &rng) {
  typedef typename F::T T; typedef typename Fmt<T>::U U;
  T buf[64]; int m = 0; int fs = 0, fv = 0; T ws = ofKey<T>(lo), wv = ws;
  auto flush = [&]() {
    if (!m) return;
    int a = flagsOf<F>(blockScalar<F>, buf, m), b = flagsOf<F>(blockVector<F>, buf, m);
    if (a & ~fs) for (int i = 0; i < m; ++i) { int q = flagsOf<F>(blockScalar<F>, buf + i, 1); if (q & ~fs) { fs |= q; ws = buf[i]; } }
    if (b & ~fv) { fv |= b; wv = buf[0]; }
    m = 0;
  };
  auto v = [&](U k) { buf[m++] = ofKey<T>(k); if (m == 64) flush(); };
  uint64_t n = visit<T>(g.n, lo, hi, rng, v); flush(); bool full = (uint64_t)(hi - lo) < g.n;
  std::ostringstream o; o << head<F>(g, lo, hi, n, full) << ",\"x\":" << L(ws) << ",\"fs\":" << fs << ",\"xv\":" << L(wv) << ",\"fv\":" << fv << "}";
  return o.str();
}

// -- joint sine-cosine against the single functions: first disagreement
struct JD { typedef double T; static const char *name() { return "sin_d"; }
  static void j(double x, double &s, double &c) { vdt::fast_sincos(x, s, c); } static double s(double x) { return vdt::fast_sin(x); } static double c(double x) { return vdt::fast_cos(x); } };
struct JF { typedef float T; static const char *name() { return "sin_f"; }
  static void j(float x, float &s, float &c) { vdt::fast_sincosf(x, s, c); } static float s(float x) { return vdt::fast_sinf(x); } static float c(float x) { return vdt::fast_cosf(x); } };
template <class F> std::string joint(const Region &g, typename Fmt<typename F::T>::U lo, typename Fmt<typename F::T>::U hi, Rng &rng) {
  typedef typename F::T T; typedef typename Fmt<T>::U U;
  U a = lo, b = lo; bool fa = false, fb = false;
  auto v = [&](U k) {
    T x = ofKey<T>(k), s, c; F::j(x, s, c); T p = F::s(x), q = F::c(x);
    if (!(s == p || (s != s && p != p)) && !fa) { fa = true; a = k; }
    if (!(c == q || (c != c && q != q)) && !fb) { fb = true; b = k; }
  };
  uint64_t n = visit<T>(g.n, lo, hi, rng, v); bool full = (uint64_t)(hi - lo) < g.n;
  auto pt = [&](U k) { T x = ofKey<T>(k), s, c; F::j(x, s, c); return "{\"x\":" + L(x) + ",\"s\":" + L(s) + ",\"c\":" + L(c) + ",\"p\":" + L(F::s(x)) + ",\"q\":" + L(F::c(x)) + "}"; };
  return head<F>(g, lo, hi, n, full) + ",\"obs\":[" + pt(a) + "," + pt(b) + "]}";
}

#define acc_FNS(M) ALL_FNS(M)
#define special_FNS(M) ALL_FNS(M)
#define parity_FNS(M) ALL_FNS(M)
#define range_FNS(M) ALL_FNS(M)
#define fpe_FNS(M) ALL_FNS(M)
#define joint_FNS(M) M(JD) M(JF)
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)

struct Job { std::function<std::string()> run; };
template <class F> void addJobs(std::vector<Job> &jobs, uint64_t seed) {
  typedef typename F::T T; typedef typename Fmt<T>::U U;
  for (auto &g : plan) if (g.fn == F::name())
    for (auto &c : cut<T>(g)) {
      U lo = c.lo, hi = c.hi; const Region *pg = &g; uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ (uint64_t)lo ^ ((uint64_t)g.idx << 56);
      jobs.push_back({[=]() -> std::string { Rng rng(s);
        return SWEEP_MODE<F>(*pg, lo, hi, rng); }});
    }
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  dbg = getenv("SWEEP_DEBUG") != 0;
  std::ifstream p(argv[1]); std::string line;
  while (std::getline(p, line)) { std::istringstream is(line); Region g; std::string a, b; if (is >> g.fn >> g.idx >> a >> b >> g.floorE >> g.ceilE >> g.bpc >> g.cpb >> g.n) { g.lo = strtoull(a.c_str(), 0, 16); g.hi = strtoull(b.c_str(), 0, 16); plan.push_back(g); } }
  std::ifstream d(argv[2]); std::string tag, hex;
  while (d >> tag >> hex) { uint64_t v = strtoull(hex.c_str(), 0, 16); if (tag == "d") dictD.push_back(keyOfBits<double>(v)); else dictF.push_back(keyOfBits<float>((uint32_t)v)); }
  std::sort(dictD.begin(), dictD.end()); std::sort(dictF.begin(), dictF.end());
  std::vector<Job> jobs; uint64_t seed = envSeed();
#define ADD(F) addJobs<F>(jobs, seed);
  CAT(SWEEP_MODE, _FNS)(ADD)
  std::vector<std::string> out(jobs.size());
  parallel(jobs.size(), [&](size_t i) { out[i] = jobs[i].run(); });
  FILE *f = fopen(argv[3], "w"); if (!f) return 2;
  for (auto &s : out) { fputs(s.c_str(), f); fputc('\n', f); }
  return fclose(f) ? 2 : 0;
}
