// Purity: the same calls in fresh processes, after every other call, in random
// histories and concurrently, with the control words around them.
// Usage: pure OUT ROUNDS
#include "vdtMath.h"
#include "identity.h"
#include "num.h"
#include <atomic>
#include <cerrno>
#include <cfenv>
#include <csignal>
#include <csetjmp>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>

typedef uint64_t R;
static const int BIG = 20000;
struct Key { std::string name; std::function<R()> f; std::string fam; bool inDomain; bool big; };
static std::vector<Key> keys;
static R canon(double v) { return v != v ? 0x7ff8000000000000ull : bits(v); }
static R canon(float v) { return v != v ? 0x7fc00000ull : bits(v); }
template <class T> R hashOf(const T *p, size_t n) { R h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) { h ^= canon(p[i]); h *= 1099511628211ull; h ^= h >> 29; } return h; }

template <class T> std::vector<T> args() {
  const double v[] = {0.3, 0.7, 1.3, 5.5, 100.7, 4321.0, -0.3, -0.9, 0.0, 1.0, 800.0, -800.0, 1e-310, HUGE_VAL, NAN, 0.5,
    -0.0, -5.5, -100.7, -1.0, 0.30001, 5.50001, 100.7 + 6.283185307179586, 1.3 + 1.5707963267948966, 2.6, 0.15};
  std::vector<T> a; for (double d : v) a.push_back((T)d); a.push_back((T)(float)0.7); a.push_back(fromBits<T>(bits((T)0.3) + 1)); a.push_back(fromBits<T>(bits((T)5.5) + 1)); return a;
}
static bool dom(const std::string &fam, double x) {
  if (!(x - x == 0)) return false; double a = std::fabs(x); if (a != 0 && a < 1e-37) return false;
  if (fam.find("asin") != std::string::npos || fam.find("acos") != std::string::npos) return a <= 1;
  if (fam.find("log") != std::string::npos || fam.find("sqrt") != std::string::npos) return x > 0;
  if (fam.find("inv") != std::string::npos) return x != 0;
  if (fam.find("exp") != std::string::npos) return a < 80;
  return a <= 5000;
}
template <class T, class F> void add(const char *fam, F f) {
  auto as = args<T>(); for (size_t i = 0; i < as.size(); ++i) { T x = as[i]; std::ostringstream o; o << fam << "(" << (double)x << (i >= 27 ? "+" : i == 26 ? "~" : "") << (x == 0 && std::signbit(x) ? "-" : "") << ")"; keys.push_back({o.str(), [=]() -> R { volatile T y = x; return f(y); }, fam, dom(fam, (double)x), false}); }
}
template <class T> void addA1(const char *fam, void (*v)(const uint32_t, T const *__restrict__, T *__restrict__)) {
  for (int n : {1, 7, 64, 1500, BIG}) for (int s = 0; s < 2; ++s) { std::ostringstream o; o << fam << "[" << n << (s ? "b" : "a") << "]";
    keys.push_back({o.str(), [=]() -> R { static thread_local T a[BIG], r[BIG]; for (int i = 0; i < n; ++i) a[i] = (T)(s ? 0.9 - i % 85 * 0.01 : 0.05 + i % 73 * 0.013); v(n, a, r); return hashOf(r, n); }, fam, true, n == BIG}); }
}
template <class T> void addA2(const char *fam, void (*v)(const uint32_t, T const *__restrict__, T const *__restrict__, T *__restrict__)) {
  for (int n : {1, 7, 64, 1500, BIG}) for (int s = 0; s < 2; ++s) { std::ostringstream o; o << fam << "[" << n << (s ? "b" : "a") << "]";
    keys.push_back({o.str(), [=]() -> R { static thread_local T a[BIG], b[BIG], r[BIG]; for (int i = 0; i < n; ++i) { a[i] = (T)(s ? 0.9 - i % 64 * 0.03 : 0.05 + i % 73 * 0.013); b[i] = (T)(s ? i % 64 * 0.05 - 1.02 : 1.5 - i % 61 * 0.07); } v(n, a, b, r); return hashOf(r, n); }, fam, true, n == BIG}); }
}
static void build() {
#define S(N) add<double>("fast_" #N, [](double x) { return canon(vdt::fast_##N(x)); }); add<float>("fast_" #N "f", [](float x) { return canon(vdt::fast_##N##f(x)); });
#define P(N) add<double>(#N, [](double x) { return canon(vdt::N(x)); }); add<float>(#N "f", [](float x) { return canon(vdt::N##f(x)); });
  S(exp) S(log) S(sin) S(cos) S(tan) S(tanh) S(asin) S(acos) S(atan) S(isqrt) S(approx_isqrt) S(inv) S(approx_inv) P(isqrt) P(inv)
  add<double>("fast_sincos", [](double x) { double r[2]; vdt::fast_sincos(x, r[0], r[1]); return hashOf(r, 2); });
  add<float>("fast_sincosf", [](float x) { float r[2]; vdt::fast_sincosf(x, r[0], r[1]); return hashOf(r, 2); });
  add<double>("fast_atan2", [](double x) { double r[3] = {vdt::fast_atan2(x, 1.7), vdt::fast_atan2(-1.7, x), vdt::fast_atan2(x, -0.2)}; return hashOf(r, 3); });
  add<float>("fast_atan2f", [](float x) { float r[3] = {vdt::fast_atan2f(x, 1.7f), vdt::fast_atan2f(-1.7f, x), vdt::fast_atan2f(x, -0.2f)}; return hashOf(r, 3); });
#define A(N) addA1<double>(#N "v", vdt::N##v); addA1<float>(#N "fv", vdt::N##fv);
#define B(N) addA2<double>(#N "v", vdt::N##v); addA2<float>(#N "fv", vdt::N##fv);
  A(acos) A(asin) A(atan) B(atan2) A(cos) A(exp) A(log) A(sin) A(tan) A(tanh) A(identity) B(identity2D) A(inv) A(isqrt)
  A(fast_acos) A(fast_asin) A(fast_atan) B(fast_atan2) A(fast_cos) A(fast_exp) A(fast_log) A(fast_sin) A(fast_tan) A(fast_tanh) A(fast_inv) A(fast_isqrt) A(fast_approx_inv) A(fast_approx_isqrt)
}
struct Env { unsigned mx, cw; };
static Env env() { Env e; e.mx = _mm_getcsr() & 0xffc0; unsigned short c; asm volatile("fnstcw %0" : "=m"(c)); e.cw = c; return e; }
struct Ev { const char *h; int key, prev; R y; Env a, b; };
static FILE *out;
static void put(const Ev &e) { fprintf(out, "{\"h\":\"%s\",\"key\":%d,\"prev\":%d,\"y\":%s,\"e0\":[%u,%u],\"e1\":[%u,%u]}\n", e.h, e.key + 1, e.prev + 1, limbs(e.y, 4).c_str(), e.a.mx, e.a.cw, e.b.mx, e.b.cw); }
static Ev observe(const char *h, int k, int prev) { Ev e; e.h = h; e.key = k; e.prev = prev; e.a = env(); e.y = keys[k].f(); e.b = env(); return e; }
static bool differs(const Ev &e, R want) { return e.y != want || e.a.mx != e.b.mx || e.a.cw != e.b.cw; }
static sigjmp_buf jb; static void onfpe(int) { siglongjmp(jb, 1); }

int main(int argc, char **argv) {
  if (argc < 3) return 2; int rounds = atoi(argv[2]); build(); int K = (int)keys.size(); out = fopen(argv[1], "w"); if (!out) return 2; Rng rng(envSeed() * 31 + 7);
  fprintf(out, "{\"keys\":%d,\"names\":[", K); for (int k = 0; k < K; ++k) fprintf(out, "%s\"%s\"", k ? "," : "", keys[k].name.c_str()); fprintf(out, "]}\n");
  // 1. each call as the first one of its process
  Ev *sh = (Ev *)mmap(0, sizeof(Ev) * K, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(0);
  for (int base = 0; base < K; base += 8) { int n = std::min(8, K - base); for (int j = 0; j < n; ++j) if (fork() == 0) { feclearexcept(FE_ALL_EXCEPT); errno = 0; sh[base + j] = observe("fresh", base + j, -1); _exit(0); } for (int j = 0; j < n; ++j) { int st; wait(&st); if (!WIFEXITED(st) || WEXITSTATUS(st)) return 5; } }
  std::vector<R> want(K); for (int k = 0; k < K; ++k) { sh[k].h = "fresh"; want[k] = sh[k].y; put(sh[k]); }
  // 2. each call after each other call (last of a pair, first disagreement is recorded)
  for (int k = 0; k < K; ++k) { Ev w = observe("pair", k, -1); for (int p = 0; p < K; ++p) { if ((keys[k].big || keys[p].big) && keys[k].fam != keys[p].fam && (k + p) % 16) continue; keys[p].f(); Ev e = observe("pair", k, p); bool d = differs(e, want[k]); if (d || p == (k * 37) % K) w = e; if (d) break; } put(w); }
  // 3. a random history, recorded call by call
  int prev = -1; for (int i = 0; i < 6000; ++i) { int k = (int)rng.below(K); put(observe("walk", k, prev)); prev = k; }
  // 4. all threads in the same function with different arguments, then everywhere
  std::vector<std::vector<int>> fam; for (int k = 0; k < K; ++k) { if (!k || keys[k].fam != keys[k - 1].fam) fam.push_back({}); fam.back().push_back(k); }
  unsigned nt = 8; std::vector<Ev> seen(K); std::vector<char> have(K, 0); std::mutex mu;
  auto thread = [&](unsigned t, const std::vector<int> &ks, int iters, uint64_t s) { Rng r(s); const Env start = env(); for (int i = 0; i < iters; ++i) { int k = ks[r.below(ks.size())]; if (keys[k].big && r.below(16)) continue; R y = keys[k].f(); if (y != want[k] || i < 64) { Ev e; e.h = "thread"; e.key = k; e.prev = -1; e.y = y; e.a = start; e.b = env(); std::lock_guard<std::mutex> l(mu); if (!have[k] || y != want[k]) { have[k] = 1; seen[k] = e; } if (y != want[k]) return; } } (void)t; };
  for (auto &ks : fam) { std::vector<std::thread> ts; for (unsigned t = 0; t < nt; ++t) ts.emplace_back(thread, t, std::cref(ks), rounds, rng.next()); for (auto &t : ts) t.join(); }
  std::vector<int> all(K); for (int k = 0; k < K; ++k) all[k] = k;
  { std::vector<std::thread> ts; for (unsigned t = 0; t < nt; ++t) ts.emplace_back(thread, t, std::cref(all), rounds * 10, rng.next()); for (auto &t : ts) t.join(); }
  for (int k = 0; k < K; ++k) if (have[k]) put(seen[k]);
  // 5. the status flags and errno as other code may have left them
  for (int k = 0; k < K; ++k) for (int set = 0; set < 2; ++set) {
    feclearexcept(FE_ALL_EXCEPT); errno = 0; if (set) { _mm_setcsr(_mm_getcsr() | 0x3f); feraiseexcept(FE_ALL_EXCEPT); errno = EDOM; }
    put(observe("flags", k, -1)); feclearexcept(FE_ALL_EXCEPT);
  }
  // 6. very many calls of one function; the first disagreement or the last call of each key is recorded
  { std::atomic<size_t> next(0); auto longer = [&]() { for (size_t f; (f = next++) < fam.size();) {
      std::vector<int> ks; for (int k : fam[f]) if (!keys[k].big && keys[k].name.find("[64") == std::string::npos && keys[k].name.find("[1500") == std::string::npos) ks.push_back(k);
      std::map<int, Ev> last; const Env start = env(); Rng r(f + 99); const uint64_t n = (uint64_t)rounds * 200 + 1000;
      for (uint64_t i = 0; i < n; ++i) { int k = ks[r.below(ks.size())]; R y = keys[k].f(); bool bad = y != want[k]; if (bad || i + 1000 > n) { Ev e; e.h = "long"; e.key = k; e.prev = -1; e.y = y; e.a = start; e.b = env(); last[k] = e; } if (bad) break; }
      std::lock_guard<std::mutex> l(mu); for (auto &e : last) put(e.second); } };
    std::vector<std::thread> ts; for (unsigned t = 0; t < nt; ++t) ts.emplace_back(longer); for (auto &t : ts) t.join(); }
  // 7. other control words: they have to survive, the results are not compared
  struct Cfg { const char *n; int round; unsigned mx; bool trap; } cfg[] = {{"up", FE_UPWARD, 0, false}, {"down", FE_DOWNWARD, 0, false}, {"zero", FE_TOWARDZERO, 0, false}, {"ftz", FE_TONEAREST, 0x8040, false}, {"trap", FE_TONEAREST, 0, true}};
  signal(SIGFPE, onfpe);
  for (auto &c : cfg) for (int k = 0; k < K; ++k) {
    if (c.trap && !keys[k].inDomain) continue;
    fenv_t save; fegetenv(&save); feclearexcept(FE_ALL_EXCEPT); fesetround(c.round); if (c.mx) _mm_setcsr(_mm_getcsr() | c.mx); if (c.trap) feenableexcept(FE_INVALID | FE_DIVBYZERO);
    Ev e; bool ok = true; if (sigsetjmp(jb, 1) == 0) e = observe("env", k, -1); else ok = false; fesetenv(&save);
    if (ok) { e.y = want[k]; put(e); }
  }
  return fclose(out) ? 2 : 0;
}
