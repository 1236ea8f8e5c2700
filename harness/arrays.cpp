// Array functions: element-wise equality with the scalar functions, and memory
// footprint.  One forked child per function; the parent notes if a child hangs
// or dies.
// Usage: arrays equal|foot PLAN OUTDIR     PLAN lines: n off:off,off:off,...  |  n place
#include "vdtMath.h"
#include "identity.h"
#include "num.h"
#include <csetjmp>
#include <csignal>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

template <class T> struct Fn { const char *name; int arity; void (*v1)(const uint32_t, T const *__restrict__, T *__restrict__); void (*v2)(const uint32_t, T const *__restrict__, T const *__restrict__, T *__restrict__); T (*s1)(T); T (*s2)(T, T); };
#define D1(N) {#N "v", 1, vdt::N##v, 0, [](double x) -> double { using namespace vdt; return N(x); }, 0}
#define D2(N) {#N "v", 2, 0, vdt::N##v, 0, [](double x, double y) -> double { using namespace vdt; return N(x, y); }}
#define F1(N) {#N "fv", 1, vdt::N##fv, 0, [](float x) -> float { using namespace vdt; return N##f(x); }, 0}
#define F2(N) {#N "fv", 2, 0, vdt::N##fv, 0, [](float x, float y) -> float { using namespace vdt; return N##f(x, y); }}
#define LIST(A, B) A(acos), A(asin), A(atan), B(atan2), A(cos), A(exp), A(log), A(sin), A(tan), A(tanh), A(identity), B(identity2D), A(inv), A(isqrt), \
  A(fast_acos), A(fast_asin), A(fast_atan), B(fast_atan2), A(fast_cos), A(fast_exp), A(fast_log), A(fast_sin), A(fast_tan), A(fast_tanh), A(fast_inv), A(fast_isqrt), A(fast_approx_inv), A(fast_approx_isqrt)
static const Fn<double> FD[] = {LIST(D1, D2)};
static const Fn<float> FF[] = {LIST(F1, F2)};
static const int NF = sizeof FD / sizeof FD[0];

struct Call { uint32_t n; std::vector<std::pair<int, int>> offs; std::string place; };
static std::vector<Call> plan; static std::string mode; static uint64_t seed;

template <class T> T value(uint64_t i, uint64_t salt) {          // deterministic mix of ordinary and unusual arguments
  Rng r((i + 1) * 0x9e3779b97f4a7c15ull ^ salt * 0xbf58476d1ce4e5b9ull ^ seed); uint64_t k = r.below(24);
  double u = (double)(r.next() >> 11) / 9007199254740992.0;
  switch (k) {
    case 0: return (T)(u * 10000 - 5000);
    case 1: return (T)(u * 1400 - 700);
    case 2: return fromBits<T>((typename Fmt<T>::U)r.next());
    case 3: { static const double s[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 0.625, 709.0, -709.0, 88.0, -88.0, 1e-310, 5000.0, HUGE_VAL, -HUGE_VAL, NAN, 0.70710678118654752, 1e300, 1e-300}; return (T)s[r.below(sizeof s / sizeof *s)]; }
    case 4: return (T)(u * 2e-3);
    case 5: case 6: case 7: return (T)(u * 100 - 50);
    case 8: case 9: return (T)(u * 20);
    default: return (T)(u * 2 - 1);
  }
}
template <class T> bool same(T a, T b) { return bits(a) == bits(b) || (a != a && b != b); }

static int *hung;      // shared: some call did not return
static sigjmp_buf env; static volatile sig_atomic_t armed; static volatile int sig; static char *volatile faddr;
static void onsig(int s, siginfo_t *si, void *) { sig = s; faddr = (char *)si->si_addr; if (armed) { armed = 0; siglongjmp(env, 1); } _exit(99); }
static void handlers() {
  static char alt[65536]; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) sigaction(s, &sa, 0);
}
template <class T> void call(const Fn<T> &f, uint32_t n, const T *a, const T *b, T *o) { if (f.arity == 1) f.v1(n, a, o); else f.v2(n, a, b, o); }
template <class T> bool guarded(const Fn<T> &f, uint32_t n, const T *a, const T *b, T *o, std::string &fault) {
  sig = 0; if (sigsetjmp(env, 1) == 0) { armed = 1; alarm(*hung ? 4 : 20); call(f, n, a, b, o); alarm(0); armed = 0; return true; }
  alarm(0); char m[64]; snprintf(m, sizeof m, sig == SIGALRM ? "no return" : "signal %d", (int)sig); if (sig == SIGALRM) *hung = 1; fault = m; return false;
}
static char *pages(size_t bytes) { char *p = (char *)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(98); } return p; }

template <class T> void equalCalls(const Fn<T> &f, int id, FILE *out) {
  uint32_t maxn = 0; for (auto &c : plan) maxn = std::max(maxn, c.n);
  size_t bytes = ((size_t)maxn + 64) * sizeof(T) + 4096;
  T *A = (T *)pages(bytes), *B = (T *)pages(bytes), *O = (T *)pages(bytes);
  const uint32_t P = 1u << 16; std::vector<T> pa(P), pb(P);            // inputs repeat with an odd period so that no power of two hides a mix-up
  const uint32_t per = 65521; for (uint32_t i = 0; i < per; ++i) { pa[i] = value<T>(i, id); pb[i] = value<T>(i, id + 1000); }
  std::vector<T> ps(per); for (uint32_t i = 0; i < per; ++i) ps[i] = f.arity == 1 ? f.s1(pa[i]) : f.s2(pa[i], pb[i]);
  size_t pick = 0;
  for (auto &c : plan) {
    uint32_t wi = 0; bool bad = false; T wx = 0, wy = 0, ws = 0; std::string fault = "none";
    uint32_t shift = c.n < 200000 ? (uint32_t)((pick * 1009) % per) : 0; ++pick;
    for (auto &of : c.offs) {
      T *a = A + of.first, *b = B + of.first, *o = O + of.second; uint32_t k = shift;
      for (uint32_t i = 0; i < c.n; ++i) { a[i] = pa[k]; if (f.arity == 2) b[i] = pb[k]; if (++k == per) k = 0; }
      typename Fmt<T>::U can = (typename Fmt<T>::U)0x5a5a5a5a5a5a5a5aull; for (uint32_t i = 0; i < c.n; ++i) o[i] = fromBits<T>(can);
      if (!guarded(f, c.n, a, b, o, fault)) break;
      k = shift; for (uint32_t i = 0; i < c.n; ++i) { if (!same(o[i], ps[k])) { wi = i; wx = pa[k]; wy = o[i]; ws = ps[k]; bad = true; break; } if (++k == per) k = 0; }
      if (bad) break;
      if (c.n) { wi = (uint32_t)((pick * 7919) % c.n); k = (uint32_t)(((uint64_t)shift + wi) % per); wx = pa[k]; wy = o[wi]; ws = ps[k]; }
    }
    fprintf(out, "{\"n\":%u,\"offs\":[", c.n); for (size_t q = 0; q < c.offs.size(); ++q) fprintf(out, "%s[%d,%d]", q ? "," : "", c.offs[q].first, c.offs[q].second);
    fprintf(out, "],\"i\":%ld,\"x\":%s,\"y\":%s,\"s\":%s,\"fault\":\"%s\"}\n", c.n ? (long)wi : -1L, L(wx).c_str(), L(wy).c_str(), L(ws).c_str(), fault.c_str()); fflush(out);
    if (fault != "none" || bad) return;
  }
}
template <class T> void footCalls(const Fn<T> &f, int id, FILE *out) {
  const size_t PG = 4096; uint32_t maxn = 0; for (auto &c : plan) maxn = std::max(maxn, c.n);
  size_t body = (((size_t)maxn * sizeof(T) + PG - 1) / PG + 1) * PG;
  // [guard][body][guard] for each array; the output gets a writable margin on the side that is not under test
  char *m[3]; for (int q = 0; q < 3; ++q) { m[q] = pages(body + 2 * PG); mprotect(m[q], PG, PROT_NONE); mprotect(m[q] + PG + body, PG, PROT_NONE); }
  const T c1 = fromBits<T>((typename Fmt<T>::U)0x7e7e7e7e7e7e7e7eull), c2 = fromBits<T>((typename Fmt<T>::U)0x3131313131313131ull);
  size_t cnt = body / sizeof(T); std::vector<T> first;
  for (auto &c : plan) {
    std::string fault = "none"; long inmod = 0, before = 0, after = 0, unw = 0;
    size_t at = c.place == "hi" ? cnt - c.n : 0; T *a = (T *)(m[0] + PG) + at, *b = (T *)(m[1] + PG) + at, *o = (T *)(m[2] + PG) + at, *ob = (T *)(m[2] + PG);
    if (c.n == 0) { char *g = c.place == "hi" ? m[0] + PG + body : m[0]; a = b = (T *)g; o = (T *)(c.place == "hi" ? m[2] + PG + body : m[2]); }   // nothing accessible at all
    for (uint32_t i = 0; i < c.n; ++i) { a[i] = value<T>(i + at, id); b[i] = value<T>(i + at, id + 1000); }
    mprotect(m[0] + PG, body, PROT_READ); mprotect(m[1] + PG, body, PROT_READ);
    std::vector<char> un(c.n, 1);
    for (int round = 0; round < 2 && fault == "none"; ++round) {
      T can = round ? c2 : c1; size_t lo = at > 600 ? at - 600 : 0, hi = std::min(cnt, at + c.n + 600);
      for (size_t i = lo; i < hi; ++i) ob[i] = can;
      if (!guarded(f, c.n, a, b, o, fault)) {
        for (int q = 0; q < 3; ++q) if (faddr >= m[q] && faddr < m[q] + body + 2 * PG) { char t[80]; snprintf(t, sizeof t, "access outside the %s array", q == 2 ? "output" : "input"); if (q < 2 && faddr >= (char *)a && faddr < (char *)(a + c.n)) strcpy(t, "write to the input array"); if (q == 1 && faddr >= (char *)b && faddr < (char *)(b + c.n)) strcpy(t, "write to the input array"); fault = t; }
        break;
      }
      for (size_t i = lo; i < hi; ++i) {
        bool can_ = bits(ob[i]) == bits(can);
        if (i < at) before += !can_; else if (i >= at + c.n) after += !can_; else if (!can_) un[i - at] = 0;
      }
    }
    mprotect(m[0] + PG, body, PROT_READ | PROT_WRITE); mprotect(m[1] + PG, body, PROT_READ | PROT_WRITE);
    if (fault == "none") for (uint32_t i = 0; i < c.n; ++i) { unw += un[i]; inmod += bits(a[i]) != bits(value<T>(i + at, id)) || bits(b[i]) != bits(value<T>(i + at, id + 1000)); }
    fprintf(out, "{\"n\":%u,\"place\":\"%s\",\"fault\":\"%s\",\"inmod\":%ld,\"before\":%ld,\"after\":%ld,\"unwritten\":%ld}\n", c.n, c.place.c_str(), fault.c_str(), inmod, before, after, unw); fflush(out);
    if (fault != "none" || inmod || before || after || unw) return;
  }
}
// lengths beyond 2^31: one block of inputs and outputs mapped over and over, the last block of the output on its own
template <class T> void giant(const Fn<T> &f, int id, FILE *out, uint32_t n) {
  const size_t BLK = 1 << 20; const size_t be = BLK / sizeof(T); int fa = memfd_create("a", 0), fb = memfd_create("b", 0), fo = memfd_create("o", 0);
  if (fa < 0 || ftruncate(fa, BLK) || ftruncate(fb, BLK) || ftruncate(fo, BLK)) { fprintf(out, "skip\n"); return; }
  size_t blocks = ((size_t)n + be - 1) / be; auto map = [&](int fd, bool lastOwn) -> char * {
    char *p = (char *)mmap(0, blocks * BLK, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0;
    for (size_t i = 0; i < blocks; ++i) { bool own = lastOwn && i + 1 == blocks; if (mmap(p + i * BLK, BLK, PROT_READ | PROT_WRITE, own ? MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS : MAP_FIXED | MAP_SHARED, own ? -1 : fd, 0) == MAP_FAILED) return 0; } return p; };
  T *a = (T *)map(fa, false), *b = f.arity == 2 ? (T *)map(fb, false) : a, *o = (T *)map(fo, true); if (!a || !b || !o) { fprintf(out, "skip\n"); return; }
  for (size_t i = 0; i < be; ++i) { a[i] = value<T>(i, id); if (!(std::fabs(a[i]) < 4 && std::fabs(a[i]) > 1e-6)) a[i] = (T)0.3; if (f.arity == 2) b[i] = value<T>(i, id + 1000); }
  std::vector<T> a0(a, a + be), b0(b, b + be);
  typename Fmt<T>::U can = (typename Fmt<T>::U)0x5a5a5a5a5a5a5a5aull; for (size_t i = 0; i < be; ++i) { o[i] = fromBits<T>(can); o[(blocks - 1) * be + i] = fromBits<T>(can); }
  std::string fault = "none"; alarm(0); size_t w = 0; bool bad = false; T wy = 0, ws = 0, wx = 0;
  if (sigsetjmp(env, 1) == 0) { armed = 1; alarm(400); call(f, n, a, b, o); alarm(0); armed = 0; } else { alarm(0); fault = sig == SIGALRM ? "no return in 400 s" : "signal"; }
  if (fault == "none") { auto chk = [&](size_t i) { if (bad) return; T s = f.arity == 1 ? f.s1(a[i]) : f.s2(a[i], b[i]); w = i; wx = a[i]; wy = o[i]; ws = s; if (!same(o[i], s)) bad = true; };
    for (size_t i = 0; i < be; ++i) chk(i); for (size_t i = (blocks - 1) * be; i < n; ++i) chk(i); }
  size_t unwritten = 0, after = 0, inmod = 0; for (size_t i = (blocks - 1) * be; i < blocks * be; ++i) { bool kept = bits(o[i]) == can; if (i < n && kept) ++unwritten; if (i >= n && !kept) ++after; }
  for (size_t i = 0; i < be; ++i) { if (bits(a[i]) != bits(a0[i])) ++inmod; if (f.arity == 2 && bits(b[i]) != bits(b0[i])) ++inmod; }
  fprintf(out, "{\"n\":[%u,%u],\"i\":[%u,%u],\"x\":%s,\"y\":%s,\"s\":%s,\"inmod\":%d,\"before\":0,\"after\":%d,\"unwritten\":%d,\"fault\":\"%s\"}\n", n >> 16, n & 65535, (unsigned)(w >> 16), (unsigned)(w & 65535), L(wx).c_str(), L(wy).c_str(), L(ws).c_str(), (int)inmod, (int)after, (int)unwritten, fault.c_str());
}
int main(int argc, char **argv) {
  if (argc < 4) return 2; mode = argv[1]; seed = envSeed(); hung = (int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); std::ifstream p(argv[2]); std::string line;
  while (std::getline(p, line)) { std::istringstream is(line); Call c; std::string t; is >> c.n >> t; if (mode == "foot") c.place = t; else { std::istringstream os(t); std::string q; while (std::getline(os, q, ',')) { int a, b; if (sscanf(q.c_str(), "%d:%d", &a, &b) == 2) c.offs.push_back({a, b}); } } plan.push_back(c); }
  std::string dir = argv[3]; int running = 0, status = 0;
  for (int id = 0; id < 2 * NF || running; ++id) {
    // with names on the command line, only those functions
    bool wanted = id < 2 * NF && argc == 4; for (int k = 4; id < 2 * NF && k < argc; ++k) wanted = wanted || !strcmp(argv[k], id < NF ? FD[id].name : FF[id - NF].name);
    if (id < 2 * NF && !wanted) continue;
    if (id < 2 * NF) {
      fflush(0); pid_t pid = fork();
      if (pid == 0) {
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); handlers();
        const char *nm = id < NF ? FD[id].name : FF[id - NF].name; FILE *out = fopen((dir + "/" + std::to_string(id) + "." + nm).c_str(), "w"); if (!out) _exit(97);
        if (mode == "giant") { uint32_t n = plan[0].n; if (id < NF) giant(FD[id], id, out, n); else giant(FF[id - NF], id, out, n); }
        else if (mode == "foot") { if (id < NF) footCalls(FD[id], id, out); else footCalls(FF[id - NF], id, out); }
        else { if (id < NF) equalCalls(FD[id], id, out); else equalCalls(FF[id - NF], id, out); }
        fclose(out); _exit(0);
      }
      if (pid < 0) return 3; ++running;
    }
    if (running >= 8 || id >= 2 * NF) { int st; if (wait(&st) > 0) { --running; if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFEXITED(st) && WEXITSTATUS(st) >= 97) status = 4; } } }
  }
  return status;
}
