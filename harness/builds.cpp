// Runs all builds on the same arguments and records digests of what they
// return, with the first argument on which a build differs from the reference.
// Usage: builds PLAN DICT OUT POINTS BUILD.so...
#include "num.h"
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <sstream>
typedef void (*Kernel)(int, int, const void *, const void *, void *, void *, int);
struct Region { uint64_t lo, hi; };
static std::map<std::string, std::vector<Region>> plan;
static std::vector<uint64_t> dictD; static std::vector<uint32_t> dictF;
template <class T> const std::vector<typename Fmt<T>::U> &dict();
template <> const std::vector<uint64_t> &dict<double>() { return dictD; }
template <> const std::vector<uint32_t> &dict<float>() { return dictF; }
static std::vector<Kernel> ks; static uint64_t N;
template <class T> uint64_t canon(T v) { return v != v ? (uint64_t)0x7ff8 << 48 : (uint64_t)bits(v); }
template <class T> void args(const Region &g, Rng &r, std::vector<T> &a) {
  typedef typename Fmt<T>::U U; U lo = keyOfBits<T>((U)g.lo), hi = keyOfBits<T>((U)g.hi); U span = hi - lo;
  for (uint64_t i = 0; i < N; ++i) a.push_back(ofKey<T>(lo + (U)((span == ~U(0)) ? r.next() : r.below((uint64_t)span + 1))));
  const std::vector<U> &d = dict<T>(); auto b = std::lower_bound(d.begin(), d.end(), lo), e = std::upper_bound(d.begin(), d.end(), hi);
  size_t m = e - b, step = m / 20000 + 1; for (size_t i = 0; i < m; i += step) a.push_back(ofKey<T>(b[i])); a.push_back(ofKey<T>(lo)); a.push_back(ofKey<T>(hi));
}
template <class T> void pairs(int q, Rng &r, std::vector<T> &a, std::vector<T> &b) {
  typedef typename Fmt<T>::U U; const U S = U(1) << (sizeof(T) * 8 - 1), top = ((U(1) << Fmt<T>::EB) - 1) << Fmt<T>::MB;
  for (uint64_t i = 0; i < 4 * N; ++i) {
    U y = (U)r.below(top), x = (U)r.below(top); unsigned k = (unsigned)r.below(16); if (k == 0) y = 0; if (k == 1) x = 0; if (k == 2) x = y;
    if (k >= 4) { long d = (long)r.below(41) - 20; long e = (long)(x >> Fmt<T>::MB) + (k < 12 ? d / 7 : d); if (e < 0) e = 0; if (e > (long)(top >> Fmt<T>::MB) - 1) e = (long)(top >> Fmt<T>::MB) - 1; y = ((U)e << Fmt<T>::MB) | (y & ((U(1) << Fmt<T>::MB) - 1)); }
    a.push_back(fromBits<T>(y | (q & 2 ? S : 0))); b.push_back(fromBits<T>(x | (q & 1 ? S : 0)));
  }
}
template <class T> void one(int f, const std::string &name, const std::string &rname, int arity, bool lib, int second, std::vector<std::string> &out) {
  std::vector<Region> rs; if (arity == 1) rs = plan[rname]; else rs.resize(4); if (rs.empty()) exit(3);
  std::ostringstream o; bool firstObs = true;
  for (size_t g = 0; g < rs.size(); ++g) {
    Rng r(envSeed() * 977 + f * 131 + g); std::vector<T> a, b; if (arity == 1) args<T>(rs[g], r, a); else pairs<T>((int)g, r, a, b);
    int n = (int)a.size(); std::vector<T> ref, y(n), z(n); if (b.empty()) b.resize(1);
    for (size_t k = 0; k < ks.size(); ++k) for (int way = 0; way < (lib ? 3 : 2); ++way) {
      ks[k](f, way, a.data(), b.data(), second == 1 ? z.data() : y.data(), second == 1 ? y.data() : z.data(), n);
      if (ref.empty()) ref = y; uint64_t h = 1469598103934665603ull; long w = -1;
      for (int i = 0; i < n; ++i) { uint64_t c = canon(y[i]); h ^= c; h *= 1099511628211ull; h ^= h >> 31; if (w < 0 && c != canon(ref[i])) w = i; }
      if (w < 0) w = (long)r.below(n);
      static const char *wn[] = {"isolated", "loop", "library"};
      o << (firstObs ? "" : ",") << "{\"b\":" << k + 1 << ",\"way\":\"" << wn[way] << "\",\"g\":" << g + 1 << ",\"n\":" << n << ",\"h\":" << limbs(h, 4)
        << ",\"x\":" << L(a[w]); if (arity == 2) o << ",\"x2\":" << L(b[w]); o << ",\"y\":" << limbs(canon(y[w]), 4) << ",\"y0\":" << limbs(canon(ref[w]), 4) << "}"; firstObs = false;
    }
  }
  out[0] = "{\"fn\":\"" + name + "\",\"groups\":" + std::to_string(rs.size()) + ",\"ways\":" + (lib ? "[\"isolated\",\"loop\",\"library\"]" : "[\"isolated\",\"loop\"]") + ",\"obs\":[" + o.str() + "]}";
}
int main(int argc, char **argv) {
  if (argc < 6) return 2; std::ifstream p(argv[1]); std::string fn, a, b, line; N = strtoull(argv[4], 0, 10);
  while (std::getline(p, line)) { std::istringstream is(line); int g; if (is >> fn >> g >> a >> b) plan[fn].push_back({strtoull(a.c_str(), 0, 16), strtoull(b.c_str(), 0, 16)}); }
  std::ifstream d(argv[2]); std::string tag, hex; while (d >> tag >> hex) { uint64_t v = strtoull(hex.c_str(), 0, 16); if (tag == "d") dictD.push_back(keyOfBits<double>(v)); else dictF.push_back(keyOfBits<float>((uint32_t)v)); }
  std::sort(dictD.begin(), dictD.end()); std::sort(dictF.begin(), dictF.end());
  for (int i = 5; i < argc; ++i) { void *h = dlopen(argv[i], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 4; } ks.push_back((Kernel)dlsym(h, "kernel")); if (!ks.back()) return 4; }
  static const char *names[] = {"exp", "log", "sin", "cos", "tan", "tanh", "asin", "acos", "atan", "isqrt", "aisqrt", "inv", "ainv", "pisqrt", "pinv"};
  std::vector<std::vector<std::string>> out(36, std::vector<std::string>(1)); std::vector<std::function<void()>> jobs;
  for (int i = 0; i < 15; ++i) { std::string n = names[i]; jobs.push_back([=, &out] { one<double>(2 * i, n + "_d", n + "_d", 1, true, 0, out[2 * i]); }); jobs.push_back([=, &out] { one<float>(2 * i + 1, n + "_f", n + "_f", 1, true, 0, out[2 * i + 1]); }); }
  jobs.push_back([&] { one<double>(30, "atan2_d", "", 2, true, 0, out[30]); }); jobs.push_back([&] { one<float>(31, "atan2_f", "", 2, true, 0, out[31]); });
  for (int s = 0; s < 2; ++s) { jobs.push_back([=, &out] { one<double>(32, s ? "sincos_c_d" : "sincos_s_d", "sin_d", 1, false, s, out[32 + 2 * s]); }); jobs.push_back([=, &out] { one<float>(33, s ? "sincos_c_f" : "sincos_s_f", "sin_f", 1, false, s, out[33 + 2 * s]); }); }
  parallel(jobs.size(), [&](size_t i) { jobs[i](); });
  std::ofstream f(argv[3]); for (auto &v : out) f << v[0] << "\n"; f.close(); return f ? 0 : 2;
}
