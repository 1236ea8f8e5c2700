// Octant walk of the joint sine-cosine: for every octant up to 5000 some points
// inside it (close to both ends and at random) with both outputs.
// Usage: octant POINTS OUT
#include "fns.h"
#include <fstream>
#include <sstream>
static void sc(double x, double &s, double &c) { vdt::fast_sincos(x, s, c); }
static void sc(float x, float &s, float &c) { vdt::fast_sincosf(x, s, c); }
template <class T> std::string walk(int neg, int npts, Rng rng) {
  const long double P = 3.14159265358979323846264338327950288L / 4, M = 0.0078125L * 1.002L + 1e-3L * (sizeof(T) == 4);
  std::ostringstream o; o << "{\"fmt\":\"" << Fmt<T>::name() << "\",\"neg\":" << neg << ",\"octs\":[";
  for (int k = 0; k <= 6366; ++k) {
    o << (k ? "," : "") << "{\"k\":" << k << ",\"obs\":[";
    long double lo = k * P + M, hi = (k + 1) * P - M; bool first = true; if (hi > 5000) hi = 5000;
    for (int i = 0; i < npts; ++i) {
      long double f = (long double)(rng.next() >> 11) / 9007199254740992.0L;
      long double xl = i == 0 ? lo : i == 1 ? hi : lo + (hi - lo) * f; if (xl < lo) xl = lo; if (hi < lo) break;
      T x = (T)xl; if (neg) x = -x; T s, c; sc(x, s, c);
      o << (first ? "" : ",") << "{\"x\":" << L(x) << ",\"s\":" << L(s) << ",\"c\":" << L(c) << "}"; first = false;
    }
    o << "]}";
  }
  o << "]}"; return o.str();
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  int n = atoi(argv[1]); uint64_t seed = envSeed(); std::string out[4];
  parallel(4, [&](size_t i) { Rng r(seed * 77 + i); out[i] = i < 2 ? walk<double>(i & 1, n, r) : walk<float>(i & 1, n, r); });
  std::ofstream f(argv[2]); for (auto &s : out) f << s << "\n"; f.close(); return f ? 0 : 2;
}
