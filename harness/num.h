// Shared numeric plumbing for the conformance drivers: ordered keys, cells of
// the input space, reference values and the trace writer.  Everything here
// only *records* what the library did; the verdicts are reached by TLC.
#ifndef VERIF_NUM_H
#define VERIF_NUM_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <atomic>
#include <thread>
#include <mutex>
#include <functional>

template <class T> struct Fmt;
template <> struct Fmt<double> {
  typedef uint64_t U; static const int MB = 52, EB = 11, BIAS = 1023, LIMBS = 4;
  typedef long double R; static const char *name() { return "d"; }
};
template <> struct Fmt<float> {
  typedef uint32_t U; static const int MB = 23, EB = 8, BIAS = 127, LIMBS = 2;
  typedef double R; static const char *name() { return "f"; }
};
template <class T> inline typename Fmt<T>::U bits(T v) { typename Fmt<T>::U u; memcpy(&u, &v, sizeof v); return u; }
template <class T> inline T fromBits(typename Fmt<T>::U u) { T v; memcpy(&v, &u, sizeof v); return v; }
// total order on bit patterns: -inf < ... < -0 < +0 < ... < +inf
template <class T> inline typename Fmt<T>::U keyOfBits(typename Fmt<T>::U b) {
  typedef typename Fmt<T>::U U; const U S = U(1) << (sizeof(T) * 8 - 1);
  return (b & S) ? U(~b) : U(b | S);
}
template <class T> inline typename Fmt<T>::U bitsOfKey(typename Fmt<T>::U k) {
  typedef typename Fmt<T>::U U; const U S = U(1) << (sizeof(T) * 8 - 1);
  return (k & S) ? U(k & ~S) : U(~k);
}
template <class T> inline typename Fmt<T>::U key(T v) { return keyOfBits<T>(bits(v)); }
template <class T> inline T ofKey(typename Fmt<T>::U k) { return fromBits<T>(bitsOfKey<T>(k)); }

// 16-bit limbs, most significant first
template <class U> inline std::string limbs(U v, int n) {
  std::string s = "["; char b[16];
  for (int i = n - 1; i >= 0; --i) { snprintf(b, sizeof b, "%u%s", unsigned((v >> (16 * i)) & 0xffff), i ? "," : ""); s += b; }
  return s + "]";
}
template <class T> inline std::string L(T v) { return limbs(bits(v), Fmt<T>::LIMBS); }
template <class T> inline std::string LK(typename Fmt<T>::U k) { return limbs(k, Fmt<T>::LIMBS); }

// sign / exponent / 64-bit significand of a reference value (value = m * 2^(e-63))
inline std::string refJson(long double r) {
  char b[200];
  if (r != r) return "{\"k\":\"nan\",\"s\":0,\"e\":0,\"m\":[0,0,0,0]}";
  int s = std::signbit(r) ? 1 : 0;
  if (std::isinf(r)) { snprintf(b, sizeof b, "{\"k\":\"inf\",\"s\":%d,\"e\":0,\"m\":[0,0,0,0]}", s); return b; }
  if (r == 0) { snprintf(b, sizeof b, "{\"k\":\"zero\",\"s\":%d,\"e\":0,\"m\":[0,0,0,0]}", s); return b; }
  int e; long double m = frexpl(fabsl(r), &e);           // m in [0.5,1)
  uint64_t M = (uint64_t)ldexpl(m, 64);                  // exact: 64-bit significand
  snprintf(b, sizeof b, "{\"k\":\"fin\",\"s\":%d,\"e\":%d,\"m\":", s, e - 1);
  return std::string(b) + limbs(M, 4) + "}";
}

struct Rng {                      // splitmix64
  uint64_t s; explicit Rng(uint64_t x) : s(x) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
};
inline uint64_t envSeed() { const char *s = getenv("VERIF_SEED"); return s && *s ? strtoull(s, 0, 10) : 1; }

// 2^e as R, exact, any e that R can hold
template <class R> inline R pow2(int e) { return std::ldexp((R)1, e); }
template <class T> inline int ilogbClamp(typename Fmt<T>::R a) {   // binade of |a|, clamped to the smallest normal
  int e = 1 - Fmt<T>::BIAS; if (a > 0) { int q = std::ilogb(a); if (q > e) e = q; } return e;
}

inline void parallel(size_t n, const std::function<void(size_t)> &f) {
  unsigned nt = std::thread::hardware_concurrency(); if (!nt) nt = 4; if (nt > n) nt = (unsigned)n; if (!nt) return;
  std::atomic<size_t> next(0); std::vector<std::thread> ts;
  for (unsigned t = 0; t < nt; ++t) ts.emplace_back([&] { size_t i; while ((i = next++) < n) f(i); });
  for (auto &t : ts) t.join();
}
#endif
