// Tells for every entry of the function tables which of the pools given to
// the table it refers to, and whether its scalar function gives the values of
// the function that the entry is named after.      tables OUT
#include "num.h"
#include "vdtdiag_fcnTuples.h"
#include <iostream>
#include <map>
static FILE *out;
template <class T> static bool same(const std::vector<T> &a, const std::vector<T> &b) { return a.size() == b.size() && !memcmp(&a[0], &b[0], a.size() * sizeof(T)); }
template <class T> struct Pools {
  randomPool<T> s, p, u, e; randomPool2D<T> q;
  Pools() : s(-50, 60, 11), p(1, 70, 13), u(-1, 1, 17), e(-20, 30, 19), q(-1, -1, 1, 1, 23) {}
  const char *which(const std::vector<T> &v) {
    return same(v, s.getNumbers()) ? "symmetric" : same(v, p.getNumbers()) ? "positive" : same(v, u.getNumbers()) ? "unit" : same(v, e.getNumbers()) ? "exp" : same(v, q.getNumbersX()) ? "first" : same(v, q.getNumbersY()) ? "second" : "none";
  }
};
template <class T> struct Named { std::map<std::string, std::function<T(T)>> one; std::map<std::string, std::function<T(T, T)>> two; };
#define F1(N, f) m.one[N] = [](double x) { return f(x); }
#define F1f(N, f) m.one[N "f"] = [](float x) { return f(x); }
static void name(Named<double> &m) {
  F1("Identity", vdt::identity); F1("Isqrt", vdt::isqrt); F1("Inverse", vdt::inv);
  F1("Exp", ::exp); F1("Log", ::log); F1("Sin", ::sin); F1("Cos", ::cos); F1("Tan", ::tan); F1("Tanh", ::tanh); F1("Asin", ::asin); F1("Acos", ::acos); F1("Atan", ::atan);
  F1("Fast_Exp", vdt::fast_exp); F1("Fast_Log", vdt::fast_log); F1("Fast_Sin", vdt::fast_sin); F1("Fast_Cos", vdt::fast_cos); F1("Fast_Tan", vdt::fast_tan); F1("Fast_Tanh", vdt::fast_tanh);
  F1("Fast_Asin", vdt::fast_asin); F1("Fast_Acos", vdt::fast_acos); F1("Fast_Atan", vdt::fast_atan); F1("Fast_Isqrt", vdt::fast_isqrt); F1("Fast_Inv", vdt::fast_inv);
  F1("Fast_Apr_Isqrt", vdt::fast_approx_isqrt); F1("Fast_Apr_Inv", vdt::fast_approx_inv);
  m.two["Identity2D"] = [](double x, double y) { return vdt::identity2D(x, y); }; m.two["Atan2"] = [](double x, double y) { return ::atan2(x, y); }; m.two["Fast_Atan2"] = [](double x, double y) { return vdt::fast_atan2(x, y); };
}
static void name(Named<float> &m) {
  F1f("Identity", vdt::identityf); F1f("Isqrt", vdt::isqrtf); F1f("Inverse", vdt::invf);
  F1f("Exp", ::expf); F1f("Log", ::logf); F1f("Sin", ::sinf); F1f("Cos", ::cosf); F1f("Tan", ::tanf); F1f("Tanh", ::tanhf); F1f("Asin", ::asinf); F1f("Acos", ::acosf); F1f("Atan", ::atanf);
  F1f("Fast_Exp", vdt::fast_expf); F1f("Fast_Log", vdt::fast_logf); F1f("Fast_Sin", vdt::fast_sinf); F1f("Fast_Cos", vdt::fast_cosf); F1f("Fast_Tan", vdt::fast_tanf); F1f("Fast_Tanh", vdt::fast_tanhf);
  F1f("Fast_Asin", vdt::fast_asinf); F1f("Fast_Acos", vdt::fast_acosf); F1f("Fast_Atan", vdt::fast_atanf); F1f("Fast_Isqrt", vdt::fast_isqrtf); F1f("Fast_Inv", vdt::fast_invf);
  F1f("Fast_Apr_Isqrt", vdt::fast_approx_isqrtf); F1f("Fast_Apr_Inv", vdt::fast_approx_invf);
  m.two["Identity2Df"] = [](float x, float y) { return vdt::identity2Df(x, y); }; m.two["Atan2f"] = [](float x, float y) { return ::atan2f(x, y); }; m.two["Fast_Atan2f"] = [](float x, float y) { return vdt::fast_atan2f(x, y); };
}
// the number of values of the named function that the entry's function misses
template <class T> static bool off(T a, T b) { return a != a ? b == b : memcmp(&a, &b, sizeof a) != 0; }
template <class M, class T, class G> static int misses(const M &m, const std::string &n, const G &g, const std::vector<T> &x) {
  auto f = m.find(n); if (f == m.end()) return 0;
  int k = 0; for (T v : x) k += off<T>(f->second(v), g(v)); return k;
}
template <class M, class T, class G> static int misses(const M &m, const std::string &n, const G &g, const std::vector<T> &x, const std::vector<T> &y) {
  auto f = m.find(n); if (f == m.end()) return 0;
  int k = 0; for (size_t i = 0; i < x.size(); ++i) k += off<T>(f->second(x[i], y[i]), g(x[i], y[i])); return k;
}
template <class T> static void all() {
  Pools<T> p; Named<T> m; name(m);
  std::vector<genfpfcn_tuple<T>> a; getFunctionTuples(&a, p.s, p.p, p.u, p.e);
  for (auto &t : a) fprintf(out, "{\"name\":\"%s\",\"pools\":[\"%s\"],\"missed\":%d}\n", std::get<0>(t).c_str(), p.which(std::get<2>(t)), misses(m.one, std::get<0>(t), std::get<1>(t), std::get<2>(t)));
  std::vector<genfpfcnv_tuple<T>> b; getFunctionTuplesvect(&b, p.s, p.p, p.u, p.e);
  for (auto &t : b) fprintf(out, "{\"name\":\"%s\",\"pools\":[\"%s\"],\"missed\":0}\n", std::get<0>(t).c_str(), p.which(std::get<2>(t)));
  std::vector<genfpfcn2D_tuple<T>> c; getFunctionTuples(&c, p.q);
  for (auto &t : c) fprintf(out, "{\"name\":\"%s\",\"pools\":[\"%s\",\"%s\"],\"missed\":%d}\n", std::get<0>(t).c_str(), p.which(std::get<2>(t)), p.which(std::get<3>(t)), misses(m.two, std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t)));
  std::vector<genfpfcn2Dv_tuple<T>> d; getFunctionTuplesvect(&d, p.q);
  for (auto &t : d) fprintf(out, "{\"name\":\"%s\",\"pools\":[\"%s\",\"%s\"],\"missed\":0}\n", std::get<0>(t).c_str(), p.which(std::get<2>(t)), p.which(std::get<3>(t)));
}
int main(int argc, char **argv) {
  if (argc != 2 || !(out = fopen(argv[1], "w"))) return 3;
  all<double>(); all<float>();
  return fclose(out) ? 3 : 0;
}
