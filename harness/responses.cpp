// Builds function responses from instrumented functions and logs the calls
// the functions received and what the responses hold.
//   responses <plan> <patterns.d> <patterns.f> <out> <seed>
// plan lines: kind length repeat
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <memory>
#include <random>
#include "vdtMath.h"
#include "vdtdiag_fcnResponse.h"
template <class T> struct UOf; template <> struct UOf<double> { typedef uint64_t U; }; template <> struct UOf<float> { typedef uint32_t U; };
template <class T> static uint64_t B(T v) { typename UOf<T>::U u; memcpy(&u, &v, sizeof v); return u; }
template <class T> static T V(uint64_t b) { typename UOf<T>::U u = (typename UOf<T>::U)b; T v; memcpy(&v, &u, sizeof v); return v; }
static std::unordered_map<uint64_t, int> ids;
template <class T> static int id(T v) { auto r = ids.emplace(B<T>(v), (int)ids.size() + 1); return r.first->second; }
static FILE *out;
template <class It> static void list(const char *k, const It &v) { fprintf(out, "\"%s\":[", k); bool f = true; for (auto x : v) { fprintf(out, f ? "%d" : ",%d", x); f = false; } fprintf(out, "],"); }
template <class T> static std::vector<int> idl(const std::vector<T> &v) { std::vector<int> r; for (auto x : v) r.push_back(id<T>(x)); return r; }

template <class T> static void run(const std::string &kind, size_t n, const std::string &rep, const std::vector<uint64_t> &pat, uint64_t seed) {
  ids.clear();
  std::mt19937_64 g(seed * 31 + n * 7 + rep.size());
  const bool two = kind[1] == '2', scalar = kind[0] == 's';
  auto val = [&](size_t i, int c) -> T {
    size_t j = rep == "distinct" ? i : rep == "runs" ? i / 3 : rep == "period" ? i % 4 : 0;
    if (rep == "distinct" && j >= pat.size()) return V<T>(g());
    return V<T>(pat[(j * (c ? 5 : 1) + seed + c * 3) % pat.size()]);
  };
  std::unique_ptr<std::vector<T>> a(new std::vector<T>), b(new std::vector<T>);
  for (size_t i = 0; i < n; ++i) { a->push_back(val(i, 0)); if (two) b->push_back(val(i, 1)); }
  const std::vector<int> in1 = idl<T>(*a), in2 = idl<T>(*b);
  struct Call { long n; std::vector<int> x, y; }; std::vector<Call> calls; std::vector<int> rets;
  auto answer = [&](size_t k) -> T { T y = k < pat.size() ? V<T>(pat[(k * 7 + 2) % pat.size()]) : V<T>(g()); return y; };
  std::function<T(T)> s1 = [&](T x) { calls.push_back({1, {id<T>(x)}, {}}); T y = answer(rets.size()); rets.push_back(id<T>(y)); return y; };
  std::function<T(T, T)> s2 = [&](T x, T z) { calls.push_back({1, {id<T>(x), id<T>(z)}, {}}); T y = answer(rets.size()); rets.push_back(id<T>(y)); return y; };
  auto arr = [&](uint32_t m, T *x, T *z, T *o) {
    Call c; c.n = m; size_t lim = m > 2 * n + 4 ? 0 : (m < n ? m : n);
    for (size_t i = 0; i < lim; ++i) { c.x.push_back(id<T>(x[i])); if (z) c.y.push_back(id<T>(z[i])); }
    calls.push_back(c); rets.assign(lim, 0);
    for (size_t i = lim; i-- > 0;) { T y = answer(i); o[i] = y; rets[i] = id<T>(y); } };
  std::function<void(uint32_t, T *, T *)> a1 = [&](uint32_t m, T *x, T *o) { arr(m, x, (T *)0, o); };
  std::function<void(uint32_t, T *, T *, T *)> a2 = [&](uint32_t m, T *x, T *z, T *o) { arr(m, x, z, o); };
  std::vector<int> h1, h2, o, x1, x2, xo;
  if (!two) {
    std::unique_ptr<fcnResponse1D<T>> r(scalar ? new fcnResponse1D<T>("f", *a, s1) : new fcnResponse1D<T>("f", *a, a1));
    a.reset();
    h1 = idl<T>(r->getInput()); o = idl<T>(r->getOutput());
    for (size_t i = 0; i < r->getInput().size(); ++i) x1.push_back(id<T>(r->inputVal(i)));
    for (size_t i = 0; i < r->getOutput().size(); ++i) xo.push_back(id<T>(r->outputVal(i)));
  } else {
    std::unique_ptr<fcnResponse2D<T>> r(scalar ? new fcnResponse2D<T>("f", *a, *b, s2) : new fcnResponse2D<T>("f", *a, *b, a2));
    a.reset(); b.reset();
    h1 = idl<T>(r->getInput1()); h2 = idl<T>(r->getInput2()); o = idl<T>(r->getOutput());
    for (size_t i = 0; i < h1.size(); ++i) x1.push_back(id<T>(r->input1Val(i)));
    for (size_t i = 0; i < h2.size(); ++i) x2.push_back(id<T>(r->input2Val(i)));
    for (size_t i = 0; i < o.size(); ++i) xo.push_back(id<T>(r->outputVal(i)));
  }
  fprintf(out, "{\"kind\":\"%s\",\"fmt\":\"%s\",\"rep\":\"%s\",", kind.c_str(), sizeof(T) == 8 ? "d" : "f", rep.c_str());
  list("in1", in1); list("in2", in2);
  fprintf(out, "\"calls\":[");
  for (size_t k = 0; k < calls.size(); ++k) {
    fprintf(out, "%s{\"n\":%ld,", k ? "," : "", calls[k].n > 1000000 ? 1000000 : calls[k].n);
    list("a", calls[k].x); fprintf(out, "\"b\":["); for (size_t j = 0; j < calls[k].y.size(); ++j) fprintf(out, j ? ",%d" : "%d", calls[k].y[j]); fprintf(out, "]}");
  }
  fprintf(out, "],"); list("rets", rets); list("held1", h1); list("held2", h2); list("out", o); list("at1", x1); list("at2", x2); list("ato", xo);
  fprintf(out, "\"n\":%zu}\n", n); fflush(out);
}
static std::vector<uint64_t> pats(const char *f) { std::vector<uint64_t> p; std::ifstream i(f); std::string h; while (i >> h) p.push_back(strtoull(h.c_str(), 0, 16)); if (p.size() < 50) exit(3); return p; }
int main(int argc, char **argv) {
  if (argc != 6) return 3;
  auto pd = pats(argv[2]), pf = pats(argv[3]); out = fopen(argv[4], "w"); if (!out) return 3;
  std::cout.rdbuf(0);
  std::ifstream in(argv[1]); std::string kind, rep; size_t n; uint64_t seed = strtoull(argv[5], 0, 10);
  while (in >> kind >> n >> rep) { run<double>(kind, n, rep, pd, seed); run<float>(kind, n, rep, pf, seed); }
  fclose(out); return 0;
}
