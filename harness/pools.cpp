// Creates random pools in several program histories and logs them.
//   pools <history> <plan> <out>
// plan lines: index dim fmt lo hi lo2 hi2 seed spread bins sizes(comma)
// history: plain, mixed (reverse order, other generators and pools in between), threads
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <mutex>
#include <thread>
#include <atomic>
#include <unordered_set>
#include <unistd.h>
#include "vdtMath.h"
#include "vdtdiag_random.h"
template <class T> struct UOf; template <> struct UOf<double> { typedef uint64_t U; enum { N = 4 }; }; template <> struct UOf<float> { typedef uint32_t U; enum { N = 2 }; };
template <class T> static uint64_t B(T v) { typename UOf<T>::U u; memcpy(&u, &v, sizeof v); return u; }
template <class T> static T V(uint64_t b) { typename UOf<T>::U u = (typename UOf<T>::U)b; T v; memcpy(&v, &u, sizeof v); return v; }
struct Req { int idx, dim; char fmt; uint64_t lo[2], hi[2]; long seed; std::vector<int> sizes; };
static int spread, bins; static std::vector<int> prefixes;
static FILE *out; static std::mutex mu;

static uint64_t h1(uint64_t h, uint64_t v) { for (int i = 0; i < 8; ++i) { h = (h ^ (v & 255)) * 1099511628211ULL; v >>= 8; } return h; }
template <class T> static std::string lim(T v) { std::ostringstream o; uint64_t b = B<T>(v); o << "["; for (int i = UOf<T>::N - 1; i >= 0; --i) o << ((b >> (16 * i)) & 0xffff) << (i ? "," : "]"); return o.str(); }
template <class T> static uint64_t key(T v) { uint64_t b = B<T>(v), S = 1ULL << (sizeof(T) * 8 - 1); return (b & S) ? (S - 1) & ~b : b | S; }

template <class T> struct Col { std::string len, mn, mx, bin; std::vector<int> b; uint64_t h; };
template <class T> static int binOf(T x, T lo, T hi, int nb) {
  long double r = ((long double)x - lo) / ((long double)hi - lo); if (!(r >= 0)) return 0; if (r >= 1) return nb - 1; return (int)(r * nb); }
template <class T> static void column(const std::vector<T> &v, T lo, T hi, std::string &len, std::string &mn, std::string &mx, std::string &bin, uint64_t &h) {
  T a = 0, b = 0; std::vector<int> c(bins); h = 1469598103934665603ULL;
  for (size_t i = 0; i < v.size(); ++i) {
    if (!i || key(v[i]) < key(a)) a = v[i];
    if (!i || key(v[i]) > key(b)) b = v[i];
    h = h1(h, B<T>(v[i])); if (hi > lo) c[binOf(v[i], lo, hi, bins)]++;
  }
  len = std::to_string(v.size()); mn = lim(a); mx = lim(b); bin = "[";
  for (int i = 0; i < bins; ++i) bin += std::to_string(c[i]) + (i + 1 < bins ? "," : "]");
}
static std::string hx(uint64_t h) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
template <class T> static unsigned long repeats(const std::vector<T> &v) { std::unordered_set<uint64_t> s; for (T x : v) s.insert(B<T>(x)); return v.size() - s.size(); }
template <class T> static void make(const Req &r, int n, const char *hist) {
  std::vector<T> x, y; T lo[2] = {V<T>(r.lo[0]), V<T>(r.lo[1])}, hi[2] = {V<T>(r.hi[0]), V<T>(r.hi[1])};
  if (r.dim == 1) { randomPool1D<T> p(lo[0], hi[0], n, (int32_t)r.seed); x = p.getNumbers(); }
  else { randomPool2D<T> p(lo[0], lo[1], hi[0], hi[1], n, (int32_t)r.seed); x = p.getNumbersX(); y = p.getNumbersY(); }
  std::string l1, l2, a1, a2, b1, b2, c1, c2, pre, cells = "["; uint64_t hX, hY;
  column<T>(x, lo[0], hi[0], l1, a1, b1, c1, hX); column<T>(y, lo[1], hi[1], l2, a2, b2, c2, hY);
  uint64_t h = 1469598103934665603ULL; size_t k = 0;
  for (int p : prefixes) if ((size_t)p <= x.size()) { for (; k < (size_t)p; ++k) h = h1(h, B<T>(x[k])); pre += (pre.size() ? ",[" : "[") + std::to_string(p) + ",\"" + hx(h) + "\"]"; }
  std::vector<int> cell(16);
  if (r.dim == 2 && x.size() == y.size()) for (size_t i = 0; i < x.size(); ++i) if (hi[0] > lo[0] && hi[1] > lo[1]) cell[binOf(x[i], lo[0], hi[0], 4) * 4 + binOf(y[i], lo[1], hi[1], 4)]++;
  for (int i = 0; i < 16; ++i) cells += std::to_string(cell[i]) + (i < 15 ? "," : "]");
  uint64_t tl = 1469598103934665603ULL; for (size_t i = x.size() > 16 ? x.size() - 16 : 0; i < x.size(); ++i) tl = h1(tl, B<T>(x[i]));
  std::lock_guard<std::mutex> lock(mu);
  fprintf(out, "{\"req\":%d,\"tail\":\"%s\",\"h\":\"%s\",\"n\":%d,\"len\":[%s,%s],\"min\":[%s,%s],\"max\":[%s,%s],\"bins\":[%s,%s],\"cells\":%s,\"rep\":[%lu,%lu],\"pre\":[%s],\"sec\":\"%s\"}\n", r.idx, hx(tl).c_str(), hist, n,
          l1.c_str(), l2.c_str(), a1.c_str(), a2.c_str(), b1.c_str(), b2.c_str(), c1.c_str(), c2.c_str(), cells.c_str(), repeats(x), repeats(y), pre.c_str(), hx(hY).c_str());
}
static void one(const Req &r, int n, const char *h) { if (r.fmt == 'd') make<double>(r, n, h); else make<float>(r, n, h); }
int main(int argc, char **argv) {
  if (argc != 4) return 3;
  std::string h = argv[1], line; std::ifstream in(argv[2]); out = fopen(argv[3], "w"); if (!out) return 3;
  std::cout.rdbuf(0);
  std::vector<Req> rs;
  { std::getline(in, line); std::istringstream s(line); int p; s >> spread >> bins; while (s >> p) prefixes.push_back(p); }
  while (std::getline(in, line)) {
    std::istringstream s(line); Req r; std::string a, b, c, d, z, w; s >> r.idx >> r.dim >> r.fmt >> a >> b >> c >> d >> r.seed >> z;
    r.lo[0] = strtoull(a.c_str(), 0, 16); r.hi[0] = strtoull(b.c_str(), 0, 16); r.lo[1] = strtoull(c.c_str(), 0, 16); r.hi[1] = strtoull(d.c_str(), 0, 16);
    std::istringstream zs(z); while (std::getline(zs, w, ',')) r.sizes.push_back(atoi(w.c_str()));
    rs.push_back(r);
  }
  if (h == "plain") { for (auto &r : rs) for (int n : r.sizes) one(r, n, "plain"); }
  else if (h == "mixed") {
    srand(7); std::mt19937_64 g(99); std::vector<std::unique_ptr<randomPool1D<double>>> kept; long acc = 0;
    for (size_t i = rs.size(); i-- > 0;) for (size_t k = rs[i].sizes.size(); k-- > 0;) {
      if ((i + k) % 3 == 0) acc += rand();
      if ((i + k) % 5 == 0) acc += (long)(g() & 7);
      if (i % 50 == 0) usleep(1000);
      if ((i + k) % 7 == 0) kept.emplace_back(new randomPool1D<double>(-1, 2, (i * 13) % 50, (int)i));
      if ((i + k) % 11 == 0) { randomPool2D<float> p(0, 0, 1, 1, 7, (int)i); p.print(); acc += (long)p.getNumbersX().size(); }
      if ((i + k) % 40 == 0) kept.clear();
      one(rs[i], rs[i].sizes[k], "mixed");
    }
    if (acc == 42) return 3;
  } else if (h == "threads") {
    std::atomic<size_t> next(0); std::vector<std::thread> ts;
    for (int t = 0; t < 8; ++t) ts.emplace_back([&] { for (size_t i; (i = next++) < rs.size();) for (int n : rs[i].sizes) if (n <= 4096) one(rs[i], n, "threads"); });
    for (auto &t : ts) t.join();
  } else return 3;
  fclose(out);
  return 0;
}
