// Everything that is shown on the screen, captured piece by piece.
// Usage: report PLAN DIRECTORY
// PLAN: lines "T fmt hex", "P fmt hex hex show", "R kind fmt n" followed by n
// lines of four decimals.  What piece k shows goes to DIRECTORY/k.txt, the
// patterns of the results to DIRECTORY/k.bits.
#include <iostream>
#include <fstream>
#include <sstream>
#include "vdtdiag_helper.h"
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"
#include "num.h"
#include <fcntl.h>
#include <unistd.h>

static std::string dir; static int piece = 0; static std::ios plain(nullptr);
static std::string name(const char *ext) { std::ostringstream o; o << dir << "/" << piece << ext; return o.str(); }
// the standard output of f, also if it does not go through std::cout
template <class F> static void capture(F f) {
  std::cout.flush(); fflush(stdout); const int keep = dup(1), to = open(name(".txt").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (keep < 0 || to < 0 || dup2(to, 1) < 0) _exit(4);
  close(to); std::cout.copyfmt(plain); f(); std::cout.flush(); fflush(stdout);
  if (dup2(keep, 1) < 0) _exit(4);
  close(keep);
}
template <class T> static T dec(const std::string &s);
template <> double dec<double>(const std::string &s) { return strtod(s.c_str(), 0); }
template <> float dec<float>(const std::string &s) { return strtof(s.c_str(), 0); }
template <class T> static T hex(const std::string &s) { return fromBits<T>((typename Fmt<T>::U)strtoull(s.c_str(), 0, 16)); }

template <class T> struct Table {
  std::vector<T> x, y, a, b;
  T one(const std::vector<T> &r, T v) const { for (size_t i = 0; i < x.size(); ++i) if (bits(x[i]) == bits(v)) return r[i]; return (T)NAN; }
  T two(const std::vector<T> &r, T v, T w) const { for (size_t i = 0; i < x.size(); ++i) if (bits(x[i]) == bits(v) && bits(y[i]) == bits(w)) return r[i]; return (T)NAN; }
};
template <class T> static void report(const std::string &kind, Table<T> t) {
  typedef std::function<T(T)> F1; typedef std::function<T(T, T)> F2; typedef vdth::genfpfunctionv<T> V1; typedef vdth::genfp2functionv<T> V2;
  const uint32_t n = (uint32_t)t.x.size();
  { std::ofstream o(name(".bits")); for (auto *c : {&t.a, &t.b}) { for (T v : *c) o << std::hex << (uint64_t)bits(v) << " "; o << "\n"; } }
  F1 f1 = [&](T v) { return t.one(t.a, v); }, g1 = [&](T v) { return t.one(t.b, v); };
  F2 f2 = [&](T v, T w) { return t.two(t.a, v, w); }, g2 = [&](T v, T w) { return t.two(t.b, v, w); };
  V1 fv = [&](uint32_t k, T *i, T *o) { for (uint32_t j = 0; j < k; ++j) o[j] = t.one(t.a, i[j]); }, gv = [&](uint32_t k, T *i, T *o) { for (uint32_t j = 0; j < k; ++j) o[j] = t.one(t.b, i[j]); };
  V2 fw = [&](uint32_t k, T *i, T *l, T *o) { for (uint32_t j = 0; j < k; ++j) o[j] = t.two(t.a, i[j], l[j]); }, gw = [&](uint32_t k, T *i, T *l, T *o) { for (uint32_t j = 0; j < k; ++j) o[j] = t.two(t.b, i[j], l[j]); };
  const std::vector<T> x = t.x, y = t.y; std::vector<T> x2 = x, y2 = y; const std::string nm = "Fcn";
  if (kind == "scalar1") capture([&]() { vdth::printFuncDiff<T>(nm, f1, g1, x[0]); });
  else if (kind == "scalar2") capture([&]() { vdth::printFuncDiff<T>(nm, f2, g2, x[0], y[0]); });
  else if (kind == "loop1") capture([&]() { vdth::printFuncDiff<T>(nm, f1, g1, x2.data(), n); });
  else if (kind == "loop2") capture([&]() { vdth::printFuncDiff<T>(nm, f2, g2, x2.data(), y2.data(), n); });
  else if (kind == "array1") capture([&]() { vdth::printFuncDiff<T>(nm, fv, gv, x2.data(), n); });
  else if (kind == "array2") capture([&]() { vdth::printFuncDiff<T>(nm, fw, gw, x2.data(), y2.data(), n); });
  else if (kind == "pool1" || kind == "pool2") {
    const std::string f = name(".pool");
    { std::ofstream o(f); o << "1\n2\n3\n4\n5\n"; for (uint32_t i = 0; i < n; ++i) { o << "0x" << std::hex << (uint64_t)bits(x[i]) << " "; if (kind == "pool2") o << "0x" << (uint64_t)bits(y[i]) << " "; } }
    if (kind == "pool1") { randomPool1D<T> p(f); capture([&]() { p.print(); }); } else { randomPool2D<T> p(f); capture([&]() { p.print(); }); }
  }
  else if (kind == "response1") { fcnResponse1D<T> r(nm, x, f1); capture([&]() { r.print(); }); }
  else if (kind == "response2") { fcnResponse2D<T> r(nm, x, y, f2); capture([&]() { r.print(); }); }
  else if (kind == "comparison1") { fcnComparison1D<T> c(nm, x, t.a, t.b); capture([&]() { c.print(); }); }
  else if (kind == "comparison2") { fcnComparison2D<T> c(nm, x, y, t.a, t.b); capture([&]() { c.print(); }); }
  else _exit(3);
}
template <class T> static void any(char what, std::istringstream &l, std::ifstream &in) {
  std::string a, b; int show, n;
  if (what == 'T') { l >> a; const T v = hex<T>(a); std::ofstream(name(".txt")) << vdth::getbsasstr(v) << "\n"; }
  else if (what == 'P') { l >> a >> b >> show; const T v = hex<T>(a), w = hex<T>(b); capture([&]() { vdth::print_different_bit(v, w, show != 0); }); }
  else {
    l >> a >> n; Table<T> t; std::string s;
    for (int i = 0; i < n; ++i) { std::getline(in, s); std::istringstream r(s); std::string c[4]; r >> c[0] >> c[1] >> c[2] >> c[3]; t.x.push_back(dec<T>(c[0])); t.y.push_back(dec<T>(c[1])); t.a.push_back(dec<T>(c[2])); t.b.push_back(dec<T>(c[3])); }
    report(a, t);
  }
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]); dir = argv[2]; std::string s;
  while (std::getline(in, s)) { std::istringstream l(s); char what; std::string fmt; l >> what >> fmt; if (fmt == "d") any<double>(what, l, in); else any<float>(what, l, in); ++piece; }
  return 0;
}
