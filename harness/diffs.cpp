// Logs bit differences of pairs and comparisons of lists.
//   diffs <fmt> <pairs> <patterns> <out> <dir> <seed> <random pairs>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <algorithm>
#include "vdtMath.h"
#include "vdtdiag_fcnComparison.h"
template <class T> struct UOf; template <> struct UOf<double> { typedef uint64_t U; enum { N = 4 }; }; template <> struct UOf<float> { typedef uint32_t U; enum { N = 2 }; };
template <class T> static uint64_t B(T v) { typename UOf<T>::U u; memcpy(&u, &v, sizeof v); return u; }
template <class T> static T V(uint64_t b) { typename UOf<T>::U u = (typename UOf<T>::U)b; T v; memcpy(&v, &u, sizeof v); return v; }
static FILE *out;
template <class T> static void lim(uint64_t b) { fputc('[', out); for (int i = UOf<T>::N - 1; i >= 0; --i) fprintf(out, i ? "%u," : "%u]", (unsigned)((b >> (16 * i)) & 0xffff)); }
typedef std::vector<std::pair<uint64_t, uint64_t>> Pairs;
template <class T> static void pairs(const Pairs &p) {
  for (size_t i = 0; i < p.size(); i += 500) {
    fprintf(out, "{\"kind\":\"pair\",\"obs\":[");
    for (size_t k = i; k < p.size() && k < i + 500; ++k) {
      T a = V<T>(p[k].first), b = V<T>(p[k].second);
      unsigned d = vdth::diffbit<T>(a, b), r = vdth::diffbit<T>(b, a);
      fprintf(out, "%s{\"a\":", k > i ? "," : ""); lim<T>(p[k].first); fprintf(out, ",\"b\":"); lim<T>(p[k].second); fprintf(out, ",\"d\":%u,\"r\":%u}", d, r);
    }
    fprintf(out, "]}\n");
  }
}
static int number = 0;
template <class T> static void compare(const Pairs &p, const std::string &dir, int dim) {
  std::vector<T> x, y, a, b;
  for (size_t i = 0; i < p.size(); ++i) { x.push_back((T)i / 4); y.push_back(-(T)i); a.push_back(V<T>(p[i].first)); b.push_back(V<T>(p[i].second)); }
  const std::string f = dir + "/cmp" + std::to_string(++number);
  std::ostringstream o; auto *old = std::cout.rdbuf(o.rdbuf()); bool has;
  if (dim == 1) { fcnComparison1D<T> c("list", x, a, b); c.printStats(true); has = c.hasDifference(); c.writeFile(f); }
  else { fcnComparison2D<T> c("list", x, y, a, b); c.printStats(true); has = c.hasDifference(); c.writeFile(f); }
  std::cout.rdbuf(old);
  std::string s = o.str(); while (s.size() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
  fprintf(out, "{\"kind\":\"cmp\",\"dim\":%d,\"fmt\":\"%s\",\"file\":\"%s\",\"has\":%d,\"printed\":\"%s\",\"rows\":[", dim, sizeof(T) == 8 ? "d" : "f", f.c_str(), has ? 1 : 0, s.c_str());
  for (size_t i = 0; i < p.size(); ++i) { fprintf(out, "%s{\"a\":", i ? "," : ""); lim<T>(p[i].first); fprintf(out, ",\"b\":"); lim<T>(p[i].second); fprintf(out, "}"); }
  fprintf(out, "]}\n");
}
template <class T> static void run(char **argv) {
  Pairs p; std::vector<uint64_t> pat; std::string a, b;
  { std::ifstream i(argv[2]); while (i >> a >> b) p.push_back({strtoull(a.c_str(), 0, 16), strtoull(b.c_str(), 0, 16)}); }
  { std::ifstream i(argv[3]); while (i >> a) pat.push_back(strtoull(a.c_str(), 0, 16)); }
  if (pat.size() < 50 || p.size() < 50) exit(3);
  Pairs all = p; for (auto u : pat) for (auto v : pat) if (u <= v) all.push_back({u, v});
  const int W = sizeof(T) * 8; const uint64_t mask = W == 64 ? ~0ULL : 0xffffffffULL;
  std::mt19937_64 g(strtoull(argv[6], 0, 10) * 13 + W);
  for (long k = atol(argv[7]); k > 0; --k) { uint64_t u = g() & mask; int s = g() % W; uint64_t dd = (g() & mask) >> s; all.push_back({u, (k & 1) ? (u + dd) & mask : (u - dd) & mask}); }
  pairs<T>(all);
  const std::string dir = argv[5];
  for (int dim = 1; dim <= 2; ++dim) {
    for (size_t n : {0, 1, 2, 3, 4, 10, 33, 100, 255, 256, 257, 500}) {
      for (int c = 0; c < 6; ++c) {
        Pairs l;
        for (size_t i = 0; i < n; ++i) {
          uint64_t u = pat[(i * 7 + c) % pat.size()], v = u;
          switch (c) {
            case 0: break;                                            // all identical
            case 1: if (i == n / 2) v = u ^ 1; break;                 // one differs in the last bit
            case 2: v = u ^ (1ULL << (W - 1)); break;                 // all differ in the sign
            case 3: v = pat[(i * 5 + 2) % pat.size()]; break;         // special patterns
            case 4: v = (u + ((g() & mask) >> (g() % W))) & mask; break;
            case 5: if (i + 1 == n) v = u ^ (1ULL << (W - 1)); else v = u ^ 1; break;  // extreme at the end
          }
          l.push_back({u, v});
        }
        compare<T>(l, dir, dim);
        if (c == 5) { std::reverse(l.begin(), l.end()); compare<T>(l, dir, dim); }
      }
    }
    // long lists: sums beyond 16 bits, numbers of rows beyond 16 bits
    Pairs l; if (dim == 1) { for (int i = 0; i < 66000; ++i) { uint64_t u = g() & mask; l.push_back({u, i % 5 ? u : u ^ 1}); } compare<T>(l, dir, dim); }
    else { for (int i = 0; i < 66000; ++i) { uint64_t u = g() & mask; l.push_back({u, u ^ (1ULL << (W - 1))}); } compare<T>(l, dir, dim); }
    // and sums of squares beyond 24 and 32 bits of everything
    l.clear(); for (int i = 0; i < 20000; ++i) { uint64_t u = g() & mask; l.push_back({u, (u + ((g() & mask) >> (g() % W))) & mask}); } compare<T>(l, dir, dim);
  }
}
int main(int argc, char **argv) {
  if (argc != 8) return 3;
  out = fopen(argv[4], "w"); if (!out) return 3;
  if (argv[1][0] == 'd') run<double>(argv); else run<float>(argv);
  fclose(out); return 0;
}
