// Calls every exported name of the preload and the fat library and records the
// result next to the result of the fast function itself.
// Usage: wrap ROWS OUT PRELOAD.so FAT.so PROGRAM
#include "vdtMath.h"
#include "sincos.h"
#include "stdwrap.h"
#include "identity.h"
#include "num.h"
#include <dlfcn.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
template <class T> struct Ref;
template <> struct Ref<double> {
  static bool f(const std::string &b, double x, double y, double z, double *r) {
#define R1(N) if (b == #N) { r[0] = vdt::fast_##N(x); return true; }
    R1(acos) R1(asin) R1(atan) R1(cos) R1(exp) R1(log) R1(sin) R1(tan) R1(tanh) R1(inv) R1(isqrt) R1(identity)
    if (b == "atan2") r[0] = vdt::fast_atan2(x, y); else if (b == "sqrt") r[0] = vdt::fast_sqrt(x); else if (b == "div") r[0] = vdt::fast_div(x, y);
    else if (b == "fma") r[0] = vdt::fast_fma(x, y, z); else if (b == "fmac") r[0] = vdt::fast_fmac(x, y, z); else if (b == "sincos") vdt::fast_sincos(x, r[0], r[1]); else return false; return true; } };
template <> struct Ref<float> {
  static bool f(const std::string &b, float x, float y, float z, float *r) {
#define Q1(N) if (b == #N) { r[0] = vdt::fast_##N##f(x); return true; }
    Q1(acos) Q1(asin) Q1(atan) Q1(cos) Q1(exp) Q1(log) Q1(sin) Q1(tan) Q1(tanh) Q1(inv) Q1(isqrt) Q1(identity)
    if (b == "atan2") r[0] = vdt::fast_atan2f(x, y); else if (b == "sqrt") r[0] = vdt::fast_sqrt(x); else if (b == "div") r[0] = vdt::fast_div(x, y);
    else if (b == "fma") r[0] = vdt::fast_fma(x, y, z); else if (b == "fmac") r[0] = vdt::fast_fmac(x, y, z); else if (b == "sincos") vdt::fast_sincosf(x, r[0], r[1]); else return false; return true; } };
struct Row { std::string lib, sym, base, fmt, shape; };
static std::string preload, program, dir;
template <class T> std::vector<T> inputs(uint64_t salt) {
  static const double s[] = {0.7, 0.2, -0.4, 0.95, 1.0, -1.0, 0.0, 2.5, 17.3, -6.1, 50.2, 1234.5, 1e-3, 3e-7, -88.2, 0.5, 1e10, 700.5, -0.0, HUGE_VAL, -HUGE_VAL, NAN, -3.7, 1e-310};
  std::vector<T> v; for (double d : s) v.push_back((T)d); Rng r(envSeed() * 77 + salt); while (v.size() < 64) v.push_back((T)((double)(r.next() >> 11) / 9007199254740992.0 * (r.next() & 1 ? 2 : 40) - (r.next() & 1 ? 1 : 0))); return v;
}
template <class T> bool row(const Row &w, void *h, std::ostream &o) {
  std::vector<T> a = inputs<T>(1), b = inputs<T>(2), c = inputs<T>(3); size_t n = a.size(); std::rotate(b.begin(), b.begin() + 5, b.end()); std::rotate(c.begin(), c.begin() + 11, c.end());
  std::vector<T> y(n), y2(n); int outs = w.shape[1] == 'j' ? 2 : 1; void *p = 0;
  if (w.lib == "program") {                          // through a process of its own
    std::string in = dir + "/prog.in", out = dir + "/prog.out"; { std::ofstream f(in); f << std::hex; for (size_t i = 0; i < n; ++i) f << w.sym << " " << (uint64_t)bits(a[i]) << " " << (uint64_t)bits(b[i]) << "\n"; }
    std::string cmd = "LD_PRELOAD='" + preload + "' '" + program + "' < '" + in + "' > '" + out + "'"; if (system(cmd.c_str())) exit(4);
    std::ifstream f(out); for (size_t i = 0; i < n; ++i) { std::string s; if (!(f >> s)) exit(5); y[i] = fromBits<T>((typename Fmt<T>::U)strtoull(s.c_str(), 0, 16)); }
  } else {
    p = dlsym(h, w.sym.c_str()); Dl_info inf; if (p && (!dladdr(p, &inf) || !strstr(inf.dli_fname, w.lib == "fat" ? "fat" : "preload"))) p = 0;   // the one of the C library does not count
    if (!p) { o << "0,\"obs\":[]}"; return true; }
    if (w.shape == "s1") for (size_t i = 0; i < n; ++i) y[i] = ((T(*)(T))p)(a[i]);
    else if (w.shape == "s2") for (size_t i = 0; i < n; ++i) y[i] = ((T(*)(T, T))p)(a[i], b[i]);
    else if (w.shape == "s3") for (size_t i = 0; i < n; ++i) y[i] = ((T(*)(T, T, T))p)(a[i], b[i], c[i]);
    else if (w.shape == "sj") for (size_t i = 0; i < n; ++i) ((void (*)(T, T *, T *))p)(a[i], &y[i], &y2[i]);
    else if (w.shape == "v1") ((void (*)(const T *, T *, long))p)(a.data(), y.data(), (long)n);
    else if (w.shape == "v2") ((void (*)(const T *, const T *, T *, long))p)(a.data(), b.data(), y.data(), (long)n);
    else if (w.shape == "v3") ((void (*)(const T *, const T *, const T *, T *, long))p)(a.data(), b.data(), c.data(), y.data(), (long)n);
    else if (w.shape == "vj") ((void (*)(const T *, T *, T *, long))p)(a.data(), y.data(), y2.data(), (long)n);
    else return false;
  }
  o << "1,\"obs\":[";
  for (size_t i = 0; i < n; ++i) { T r[2] = {0, 0}; if (!Ref<T>::f(w.base, a[i], b[i], c[i], r)) return false;
    o << (i ? "," : "") << "{\"a\":[" << L(a[i]) << "," << L(b[i]) << "," << L(c[i]) << "],\"y\":[" << L(y[i]); if (outs == 2) o << "," << L(y2[i]); o << "],\"w\":[" << L(r[0]); if (outs == 2) o << "," << L(r[1]); o << "]}"; }
  o << "]}"; return true;
}
int main(int argc, char **argv) {
  if (argc < 6) return 2; preload = argv[3]; program = argv[5]; dir = std::string(argv[2]).substr(0, std::string(argv[2]).rfind('/'));
  void *hp = dlopen(argv[3], RTLD_NOW | RTLD_LOCAL), *hf = dlopen(argv[4], RTLD_NOW | RTLD_LOCAL); if (!hp || !hf) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  std::ifstream p(argv[1]); std::ofstream o(argv[2]); Row w;
  while (p >> w.lib >> w.sym >> w.base >> w.fmt >> w.shape) {
    o << "{\"row\":{\"lib\":\"" << w.lib << "\",\"sym\":\"" << w.sym << "\",\"base\":\"" << w.base << "\",\"fmt\":\"" << w.fmt << "\",\"shape\":\"" << w.shape << "\"},\"found\":";
    if (!(w.fmt == "d" ? row<double>(w, w.lib == "fat" ? hf : hp, o) : row<float>(w, w.lib == "fat" ? hf : hp, o))) return 6; o << "\n";
  }
  o.close(); return o ? 0 : 2;
}
