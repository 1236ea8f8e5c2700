// Reads response files, or evaluates the entries of the function tables, and
// records next to every output what the function of that name returns.
//   tools files LIST OUT     LIST: lines "<path>\t<function name>"
//   tools tables N OUT
#include "num.h"
#include "vdtdiag_fcnTuples.h"
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>

template <class T> struct Ref {
  std::map<std::string, std::function<T(T)>> one;
  std::map<std::string, std::function<T(T, T)>> two;
};
static Ref<double> rd;
static Ref<float> rf;
#define ONE(N, D, F) \
  rd.one[N] = rd.one[N "v"] = [](double x) -> double { return D; }; \
  rf.one[N "f"] = rf.one[N "fv"] = [](float x) -> float { return F; };
#define TWO(N, D, F) \
  rd.two[N] = rd.two[N "v"] = [](double x, double y) -> double { return D; }; \
  rf.two[N "f"] = rf.two[N "fv"] = [](float x, float y) -> float { return F; };
static void fill() {
  ONE("Identity", x, x)
  ONE("Exp", ::exp(x), ::expf(x)) ONE("Log", ::log(x), ::logf(x)) ONE("Sin", ::sin(x), ::sinf(x)) ONE("Cos", ::cos(x), ::cosf(x))
  ONE("Tan", ::tan(x), ::tanf(x)) ONE("Tanh", ::tanh(x), ::tanhf(x)) ONE("Asin", ::asin(x), ::asinf(x)) ONE("Acos", ::acos(x), ::acosf(x))
  ONE("Atan", ::atan(x), ::atanf(x)) ONE("Isqrt", vdt::isqrt(x), vdt::isqrtf(x)) ONE("Inverse", vdt::inv(x), vdt::invf(x))
  ONE("Fast_Exp", vdt::fast_exp(x), vdt::fast_expf(x)) ONE("Fast_Log", vdt::fast_log(x), vdt::fast_logf(x))
  ONE("Fast_Sin", vdt::fast_sin(x), vdt::fast_sinf(x)) ONE("Fast_Cos", vdt::fast_cos(x), vdt::fast_cosf(x))
  ONE("Fast_Tan", vdt::fast_tan(x), vdt::fast_tanf(x)) ONE("Fast_Tanh", vdt::fast_tanh(x), vdt::fast_tanhf(x))
  ONE("Fast_Asin", vdt::fast_asin(x), vdt::fast_asinf(x)) ONE("Fast_Acos", vdt::fast_acos(x), vdt::fast_acosf(x))
  ONE("Fast_Atan", vdt::fast_atan(x), vdt::fast_atanf(x)) ONE("Fast_Isqrt", vdt::fast_isqrt(x), vdt::fast_isqrtf(x))
  ONE("Fast_Inv", vdt::fast_inv(x), vdt::fast_invf(x)) ONE("Fast_Apr_Isqrt", vdt::fast_approx_isqrt(x), vdt::fast_approx_isqrtf(x))
  ONE("Fast_Apr_Inv", vdt::fast_approx_inv(x), vdt::fast_approx_invf(x))
  TWO("Atan2", ::atan2(x, y), ::atan2f(x, y)) TWO("Fast_Atan2", vdt::fast_atan2(x, y), vdt::fast_atan2f(x, y))
  TWO("Identity2D", vdt::identity2D(x, y), vdt::identity2Df(x, y))
}

template <class T> static bool want(const Ref<T> &r, const std::string &fn, const std::vector<T> &in, T &out) {
  if (in.size() == 1 && r.one.count(fn)) out = r.one.at(fn)(in[0]);
  else if (in.size() == 2 && r.two.count(fn)) out = r.two.at(fn)(in[0], in[1]);
  else return false;
  return true;
}

static std::string text(const std::string &s) {
  std::string o = "\"";
  for (char c : s) if (c >= 32 && c != '"' && c != '\\') o += c;
  return o + "\"";
}

template <class T> struct Rows {
  unsigned long n = 0, wrong = 0;
  std::string json;
  void row(const Ref<T> &r, const std::string &fn, const std::vector<typename Fmt<T>::U> &v) {
    std::string s;
    for (auto x : v) s += limbs(x, Fmt<T>::LIMBS) + ",";
    T w = 0;
    std::vector<T> in;
    for (size_t k = 0; k + 1 < v.size(); ++k) in.push_back(fromBits<T>(v[k]));
    bool known = !v.empty() && want(r, fn, in, w);
    if (!known || bits(w) != v.back()) ++wrong;
    if (known) s += limbs(bits(w), Fmt<T>::LIMBS); else s += "[]";
    if (n < 100) json += (n ? ",[" : "[") + s + "]";
    ++n;
  }
  void write(std::ostream &o, const std::string &label, const std::string &prec) {
    o << "{\"kind\":\"response\",\"label\":" << text(label) << ",\"prec\":\"" << prec << "\",\"n\":" << n << ",\"wrong\":" << wrong << ",\"rows\":[" << json << "]}\n";
  }
};

template <class T> static void rows(std::istream &in, std::ostream &o, const Ref<T> &r, const std::string &fn, const std::string &label, const std::string &prec) {
  Rows<T> R;
  std::string l;
  while (std::getline(in, l)) {
    std::vector<typename Fmt<T>::U> v;
    const char *p = l.c_str();
    char *e;
    for (;;) {
      unsigned long long x = strtoull(p, &e, 16);
      if (e == p) break;
      v.push_back((typename Fmt<T>::U)x);
      p = e;
    }
    if (!v.empty()) R.row(r, fn, v);
  }
  R.write(o, label, prec);
}

template <class T> static Rows<T> rowsOf(const Ref<T> &r, const std::string &fn, const std::vector<T> &x, const std::vector<T> *y, const std::vector<T> &out) {
  Rows<T> R;
  for (size_t k = 0; k < x.size(); ++k) {
    std::vector<typename Fmt<T>::U> v(1, bits(x[k]));
    if (y) v.push_back(bits((*y)[k]));
    v.push_back(bits(out[k]));
    R.row(r, fn, v);
  }
  return R;
}

template <class T> static void tables(unsigned n, std::ostream &o, const Ref<T> &r, T e) {
  const std::string prec = Fmt<T>::name();
  randomPool<T> s(-5000, 5000, n), p(T(.0001), 5000, n), m(-1, 1, n), x(-e, e, n);
  randomPool2D<T> q(-1, -1, 1, 1, n);
  std::vector<genfpfcn_tuple<T>> a;
  std::vector<genfpfcnv_tuple<T>> av;
  std::vector<genfpfcn2D_tuple<T>> b;
  std::vector<genfpfcn2Dv_tuple<T>> bv;
  getFunctionTuples(&a, s, p, m, x); getFunctionTuplesvect(&av, s, p, m, x);
  getFunctionTuples(&b, q); getFunctionTuplesvect(&bv, q);
  for (auto &t : a) {
    const std::vector<T> &i = std::get<2>(t); std::vector<T> out;
    for (T v : i) out.push_back(std::get<1>(t)(v));
    rowsOf<T>(r, std::get<0>(t), i, 0, out).write(o, std::get<0>(t), prec);
  }
  for (auto &t : av) {
    std::vector<T> i = std::get<2>(t), out(i.size());
    std::get<1>(t)(i.size(), i.data(), out.data());
    rowsOf<T>(r, std::get<0>(t), std::get<2>(t), 0, out).write(o, std::get<0>(t), prec);
  }
  for (auto &t : b) {
    const std::vector<T> &i = std::get<2>(t), &j = std::get<3>(t); std::vector<T> out;
    for (size_t k = 0; k < i.size(); ++k) out.push_back(std::get<1>(t)(i[k], j[k]));
    rowsOf<T>(r, std::get<0>(t), i, &j, out).write(o, std::get<0>(t), prec);
  }
  for (auto &t : bv) {
    std::vector<T> i = std::get<2>(t), j = std::get<3>(t), out(i.size());
    std::get<1>(t)(i.size(), i.data(), j.data(), out.data());
    rowsOf<T>(r, std::get<0>(t), std::get<2>(t), &std::get<3>(t), out).write(o, std::get<0>(t), prec);
  }
}

int main(int argc, char **argv) {
  if (argc != 4) return 3;
  fill();
  std::ofstream o(argv[3]);
  if (std::string(argv[1]) == "tables") {
    tables<double>(atoi(argv[2]), o, rd, 705);
    tables<float>(atoi(argv[2]), o, rf, 80);
    return 0;
  }
  std::ifstream list(argv[2]);
  std::string l;
  while (std::getline(list, l)) {
    size_t tab = l.find('\t');
    const std::string path = l.substr(0, tab), fn = l.substr(tab + 1);
    std::ifstream in(path);
    if (!in) return 4;
    std::string h[5], label;
    for (auto &x : h) std::getline(in, x);
    size_t eq = h[2].find("= ");
    if (eq != std::string::npos) label = h[2].substr(eq + 2);
    const std::string prec = h[1] == "Double Precision" ? "d" : h[1] == "Single Precision" ? "f" : "?";
    if (rf.one.count(fn) || rf.two.count(fn)) rows<float>(in, o, rf, fn, label, prec);
    else rows<double>(in, o, rd, fn, label, prec);
  }
  return 0;
}
