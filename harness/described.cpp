// Writes objects to files, and the files again through objects read from them.
//   described <cases>
// A case is one line: kind fmt steps dir n, then for pools min and max per
// coordinate, for others the name in hexadecimal and the bit patterns.
#include <sstream>
#include <cstdlib>
#include <cstring>
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"
template <class T> struct UOf; template <> struct UOf<double> { typedef uint64_t U; }; template <> struct UOf<float> { typedef uint32_t U; };
template <class T> static T V(const std::string &s) { typename UOf<T>::U u = (typename UOf<T>::U)strtoull(s.c_str(), 0, 16); T v; memcpy(&v, &u, sizeof v); return v; }
static std::string text(const std::string &h) { std::string s; for (size_t i = 1; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return s; }
template <class O> static void again(const std::string &dir, int steps) {
  for (int k = 1; k < steps; ++k) {
    O o(dir + "/" + std::to_string(k - 1) + ".txt");
    o.writeFile(dir + "/" + std::to_string(k) + ".txt");
  }
}
template <class O> static void write(O &o, const std::string &dir, int steps) { o.writeFile(dir + "/0.txt"); again<O>(dir, steps); }
template <class T> static void one(std::istream &in, const std::string &kind, int steps, const std::string &dir, int n) {
  if (kind == "pool1") { T a, b; in >> a >> b; randomPool1D<T> o(a, b, n); write(o, dir, steps); return; }
  if (kind == "pool2") { T a, b, c, d; in >> a >> b >> c >> d; randomPool2D<T> o(a, b, c, d, n); write(o, dir, steps); return; }
  std::string h, s; in >> h; const std::string name = text(h);
  std::vector<T> x, y, p, q;
  for (int i = 0; i < n; ++i) { in >> s; x.push_back(V<T>(s)); }
  for (int i = 0; i < n; ++i) { y.push_back(x[(i + 7) % n]); p.push_back(x[(i + 3) % n]); q.push_back(x[(i + 4) % n]); }
  if (!in) exit(3);
  if (kind == "resp1") { std::function<T(T)> f = [](T v) { return v; }; fcnResponse1D<T> o(name, x, f); write(o, dir, steps); }
  else if (kind == "resp2") { std::function<T(T, T)> f = [](T, T v) { return v; }; fcnResponse2D<T> o(name, x, y, f); write(o, dir, steps); }
  else if (kind == "comp1") { fcnComparison1D<T> o(name, x, p, q); write(o, dir, steps); }
  else if (kind == "comp2") { fcnComparison2D<T> o(name, x, y, p, q); write(o, dir, steps); }
  else exit(3);
}
int main(int, char **argv) {
  std::ifstream f(argv[1]); std::string l;
  while (std::getline(f, l)) {
    std::istringstream in(l); std::string kind, fmt, dir; int steps, n;
    in >> kind >> fmt >> steps >> dir >> n;
    if (!in) return 3;
    if (fmt == "d") one<double>(in, kind, steps, dir, n); else one<float>(in, kind, steps, dir, n);
  }
  return 0;
}
