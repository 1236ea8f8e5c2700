// The entries of the function lists that stand for Vc wrappers: which pool they
// draw from and what they compute.                      vclist OUT
#include "num.h"
#include "vdtdiag_fcnTuples.h"
#include <map>
static FILE *out;
template <class T> static bool same(const std::vector<T> &a, const std::vector<T> &b) { return a.size() == b.size() && !memcmp(&a[0], &b[0], a.size() * sizeof(T)); }
template <class T> struct Pools {
  randomPool<T> s, p, u, e;
  Pools() : s(-50, 60, 11), p(1, 70, 13), u(-1, 1, 17), e(-20, 30, 19) {}
  const char *which(const std::vector<T> &v) { return same(v, s.getNumbers()) ? "symmetric" : same(v, p.getNumbers()) ? "positive" : same(v, u.getNumbers()) ? "unit" : same(v, e.getNumbers()) ? "exp" : "none"; }
};
template <class T> static long shown(T v) { return v == v && v >= -1e9 && v <= 1e9 && (T)(long)v == v ? (long)v : -1; }
template <class T> static void entry(bool &sep, const std::string &name, const char *pool, const std::vector<T> &x, const std::vector<T> &y) {
  fprintf(out, "%s{\"name\":\"%s\",\"pool\":\"%s\",\"inp\":[", sep ? "," : "", name.c_str(), pool); sep = true;
  for (size_t i = 0; i < x.size(); ++i) fprintf(out, "%s%ld", i ? "," : "", shown(x[i]));
  fprintf(out, "],\"out\":["); for (size_t i = 0; i < y.size(); ++i) fprintf(out, "%s%ld", i ? "," : "", shown(y[i]));
  fprintf(out, "]}");
}
template <class T> static void all() {
  Pools<T> p; bool sep = false; std::vector<T> x; for (int i = 0; i < 21; ++i) x.push_back((T)(i * 7 + 1 + (sizeof(T) == 8 ? 50331648 : 0)));   // not numbers of single precision
  fprintf(out, "{\"kind\":\"list\",\"fmt\":\"%s\",\"obs\":[", Fmt<T>::name());
  std::vector<genfpfcn_tuple<T>> a; getFunctionTuples(&a, p.s, p.p, p.u, p.e);
  for (auto &t : a) if (std::get<0>(t).compare(0, 3, "VC_") == 0) { std::vector<T> y; for (T v : x) y.push_back(std::get<1>(t)(v)); entry(sep, std::get<0>(t), p.which(std::get<2>(t)), x, y); }
  std::vector<genfpfcnv_tuple<T>> b; getFunctionTuplesvect(&b, p.s, p.p, p.u, p.e);
  for (auto &t : b) if (std::get<0>(t).compare(0, 3, "VC_") == 0) { std::vector<T> in(x), y(x.size(), (T)-1); std::get<1>(t)((uint32_t)in.size(), &in[0], &y[0]); entry(sep, std::get<0>(t), p.which(std::get<2>(t)), x, y); }
  fprintf(out, "]}\n");
}
int main(int argc, char **argv) {
  if (argc != 2 || !(out = fopen(argv[1], "w"))) return 3;
  all<double>(); all<float>();
  return fclose(out) ? 3 : 0;
}
