// Observes the bit-level helpers on given patterns and sweeps them over all
// floats and random doubles (one witness per cell, a disagreeing one if any).
//   helpers <patterns.d> <masks.d> <patterns.f> <masks.f> <out> <doubles>
#include "vdtcore_common.h"
#include "num.h"
#include <fstream>
using namespace vdt::details;
// a helper that the tree no longer has is left out (-DNO_<op>)
#ifndef NO_AND
static double AND(double x, uint64_t m) { return dpANDuint64(x, m); } static float AND(float x, uint32_t m) { return spANDuint32(x, m); }
#else
#define AND(x, m) (x)
#endif
#ifndef NO_OR
static double OR(double x, uint64_t m) { return dpORuint64(x, m); } static float OR(float x, uint32_t m) { return spORuint32(x, m); }
#else
#define OR(x, m) (x)
#endif
#ifndef NO_XOR
static double XOR(double x, uint64_t m) { return dpXORuint64(x, m); } static float XOR(float x, uint32_t m) { return spXORuint32(x, m); }
#else
#define XOR(x, m) (x)
#endif
#ifndef NO_BITS
static uint64_t U_(double x) { return dp2uint64(x); } static uint32_t U_(float x) { return sp2uint32(x); }
#else
#define U_(x) (bits(x))
#endif
#ifndef NO_BACK
static double B_(uint64_t u) { return uint642dp(u); } static float B_(uint32_t u) { return uint322sp(u); }
#else
#define B_(u) (fromBits<T>(u))
#endif
#ifdef NO_BITSO
#define fp2uint(x) (bits(x))
#endif
#ifdef NO_BACKO
#define int2fp(u) (fromBits<T>(u))
#endif
#ifdef NO_SIGN
#define getSignMask(x) (bits(x))
#endif
#ifndef NO_SPLIT
static double split(double x, double &e) { return getMantExponent(x, e); } static float split(float x, float &e) { return getMantExponentf(x, e); }
#else
#define split(x, e) (x)
#endif
#ifdef NO_FLOOR
#define fpfloor(x) (x)
#endif
#ifndef LEFT_OUT
#define LEFT_OUT 0
#endif
static bool use(int op) { return !(LEFT_OUT >> op & 1); }
static int small(double k) { return k == (double)(int)k ? (int)k : 2000000000; }
struct Out { FILE *f; bool first; };
template <class T> void put(Out &o, const char *op, typename Fmt<T>::U a, typename Fmt<T>::U m, typename Fmt<T>::U r, int k) {
  fprintf(o.f, "%s{\"op\":\"%s\",\"a\":%s,\"m\":%s,\"r\":%s,\"k\":%d}", o.first ? "" : ",", op, limbs(a, Fmt<T>::LIMBS).c_str(), limbs(m, Fmt<T>::LIMBS).c_str(), limbs(r, Fmt<T>::LIMBS).c_str(), k); o.first = false; }
template <class T> void one(Out &o, int op, typename Fmt<T>::U a, typename Fmt<T>::U m) {
  typedef typename Fmt<T>::U U; volatile U va = a; T x = fromBits<T>(va);
  switch (op) {
    case 0: put<T>(o, "bits", a, 0, U_(x), 0); break;
    case 1: put<T>(o, "back", a, 0, bits(B_(a)), 0); break;
    case 2: put<T>(o, "bits", a, 0, fp2uint(x), 0); break;
    case 3: put<T>(o, "back", a, 0, bits(int2fp(a)), 0); break;
    case 4: put<T>(o, "sign", a, 0, getSignMask(x), 0); break;
    case 5: { T e = 0; T r = split(x, e); put<T>(o, "split", a, 0, bits(r), small(e)); break; }
    case 6: { T r = std::fabs(x) < T(sizeof(T) == 8 ? 1073741824 : 8388608) ? fpfloor(x) : T(0); put<T>(o, "floor", a, 0, bits(r), small(r)); break; }
    case 7: put<T>(o, "and", a, m, bits(AND(x, m)), 0); break;
    case 8: put<T>(o, "or", a, m, bits(OR(x, m)), 0); break;
    case 9: put<T>(o, "xor", a, m, bits(XOR(x, m)), 0); break;
  }
}
// does this call look wrong?  only used to choose what is recorded
template <class T> bool odd(int op, typename Fmt<T>::U a, typename Fmt<T>::U m) {
  typedef typename Fmt<T>::U U; T x = fromBits<T>(a); const U S = U(1) << (sizeof(U) * 8 - 1);
  switch (op) {
    case 0: return U_(x) != a; case 1: return bits(B_(a)) != a; case 2: return fp2uint(x) != a; case 3: return bits(int2fp(a)) != a;
    case 4: return getSignMask(x) != (a & S);
    case 5: { if (!(x > 0) || !(x - x == 0) || x < std::numeric_limits<T>::min()) return false; T e = 0, r = split(x, e); int k; T q = std::frexp(x, &k); return r != q || e != k - 1; }
    case 6: { if (!(std::fabs(x) < T(sizeof(T) == 8 ? 1073741824 : 8388608))) return false; T r = fpfloor(x), w = std::floor(x); return r != w && !(std::signbit(x) && w == x && r == w - 1); }
    case 7: return bits(AND(x, m)) != (a & m); case 8: return bits(OR(x, m)) != (a | m); default: return bits(XOR(x, m)) != (a ^ m);
  }
}
template <class T> std::vector<typename Fmt<T>::U> load(const char *f) { std::vector<typename Fmt<T>::U> v; std::ifstream in(f); std::string s; while (in >> s) v.push_back((typename Fmt<T>::U)strtoull(s.c_str(), 0, 16)); return v; }
template <class T> void listed(FILE *f, const char *pats, const char *masks) {
  auto p = load<T>(pats), m = load<T>(masks); size_t k = 0;
  for (size_t at = 0; at < p.size(); at += 400) {
    Out o = {f, true}; fprintf(f, "{\"fmt\":\"%s\",\"what\":\"list\",\"obs\":[", sizeof(T) == 8 ? "d" : "f");
    for (size_t i = at; i < p.size() && i < at + 400; ++i) for (int op = 0; op < 10; ++op) if (use(op)) one<T>(o, op, p[i], m[(k += op > 6) % m.size()]);
    fprintf(f, "]}\n");
  }
}
template <class T> void swept(FILE *f, const char *masks, uint64_t doubles) {
  typedef typename Fmt<T>::U U; auto m = load<T>(masks); const int C = 256; std::vector<std::vector<std::pair<U, U>>> w(C, std::vector<std::pair<U, U>>(10));
  parallel(C, [&](size_t c) { Rng r(envSeed() * 77 + c); bool have[10] = {false};
    const uint64_t n = sizeof(T) == 4 ? 1ull << 24 : doubles;
    for (uint64_t i = 0; i < n; ++i) { U a = sizeof(T) == 4 ? (U)((uint64_t)c << 24 | i) : (U)((uint64_t)c << 56 | r.next() >> 8), k = i % 3 ? m[i % m.size()] : (U)r.next();
      if (sizeof(T) == 8 && i % 2) a = (a & 0x800fffffffffffffull) | (U)(1020 + r.below(34)) << 52;
      for (int op = 0; op < 10; ++op) if (use(op) && !have[op] && (i == 0 || i == 12345 || odd<T>(op, a, k))) { w[c][op] = {a, k}; have[op] = odd<T>(op, a, k); } } });
  Out o = {f, true}; fprintf(f, "{\"fmt\":\"%s\",\"what\":\"sweep\",\"obs\":[", sizeof(T) == 8 ? "d" : "f");
  for (int c = 0; c < C; ++c) for (int op = 0; op < 10; ++op) if (use(op)) one<T>(o, op, w[c][op].first, w[c][op].second);
  fprintf(f, "]}\n");
}
int main(int argc, char **argv) {
  if (argc != 7) return 3;
  FILE *f = fopen(argv[5], "w"); if (!f) return 3;
  listed<double>(f, argv[1], argv[2]); listed<float>(f, argv[3], argv[4]);
  swept<double>(f, argv[2], strtoull(argv[6], 0, 10)); swept<float>(f, argv[4], 0);
  return fclose(f) ? 3 : 0;
}
