// Calls the wrappers around the Vc stand-in and records what they did.
//   vcwrap LENGTHS-FILE OUT [giant NAME]
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#define WEAK __attribute__((weak))
#define ONE(b) double vc_##b(double) WEAK; float vc_##b##f(float) WEAK; \
  void vc_##b##v(const uint32_t, double *, double *) WEAK; void vc_##b##fv(const uint32_t, float *, float *) WEAK;
#define ALL(X) X(asin) X(atan) X(cos) X(identity) X(inv) X(isqrt) X(log) X(sin)
extern "C" { ALL(ONE) }
static sigjmp_buf env; static volatile sig_atomic_t sig;
static void caught(int s) { sig = s; siglongjmp(env, 1); }
template <class G> static const char *guarded(const G &g, unsigned sec) {
  static char m[40];
  if (sigsetjmp(env, 1) == 0) { alarm(sec); g(); alarm(0); return "returned"; }
  alarm(0); snprintf(m, sizeof m, sig == SIGALRM ? "no return" : "signal %d", (int)sig); return m;
}
static FILE *out; static std::vector<uint32_t> lens;
static const size_t PG = 4096;
// in double precision the numbers are such that single precision could not hold them
template <class T> static T wide(long v) { return (T)(sizeof(T) == 8 ? v + 50331648 : v); }
template <class T> static long shown(T v) { return v == v && v >= -1e9 && v <= 1e9 && (T)(long)v == v ? (long)v : -1; }
template <class T> static const char *fmt() { return sizeof(T) == 8 ? "d" : "f"; }
static char *pages(size_t n) { char *p = (char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) _exit(98); return p; }
template <class T> static void list(const T *p, uint32_t n) { for (uint32_t i = 0; i < n; ++i) fprintf(out, "%s%ld", i ? "," : "", shown(p[i])); }
template <class T> static void scalars(const char *base, T (*f)(T)) {
  fprintf(out, "{\"kind\":\"scalar\",\"base\":\"%s\",\"fmt\":\"%s\",\"w\":%d,\"obs\":[", base, fmt<T>(), VC_LANES);
  for (int k = 0; k < 40; ++k) {
    T x = wide<T>(k < 20 ? k : k * 101), y = -1; const char *e = guarded([&] { y = f(x); }, 10);
    fprintf(out, "%s{\"inp\":%ld,\"out\":%ld,\"end\":\"%s\"}", k ? "," : "", shown(x), shown(y), e);
    if (strcmp(e, "returned")) break;
  }
  fprintf(out, "]}\n");
}
template <class T> static void arrays(const char *base, void (*f)(const uint32_t, T *, T *)) {
  const size_t body = 8 * PG, cnt = body / sizeof(T); const T can = (T)-77;
  char *m[2]; for (int q = 0; q < 2; ++q) { m[q] = pages(body + 2 * PG); mprotect(m[q], PG, PROT_NONE); mprotect(m[q] + PG + body, PG, PROT_NONE); }
  T *in = (T *)(m[0] + PG), *res = (T *)(m[1] + PG); uint32_t shift = 0;
  fprintf(out, "{\"kind\":\"array\",\"base\":\"%s\",\"fmt\":\"%s\",\"w\":%d,\"obs\":[", base, fmt<T>(), VC_LANES);
  bool go = true, first = true;
  for (uint32_t n : lens) for (int hi = 1; hi >= 0 && go; --hi) {
    size_t at = hi ? cnt - n : 0; ++shift;
    for (size_t i = 0; i < cnt; ++i) { in[i] = can; res[i] = can; }
    std::vector<T> x(n); for (uint32_t i = 0; i < n; ++i) in[at + i] = x[i] = wide<T>((shift * 61 + i) % 4001 + 1);
    T *a = in + at, *b = res + at; if (!n) { a = (T *)(hi ? m[0] + PG + body : m[0]); b = (T *)(hi ? m[1] + PG + body : m[1]); }
    const char *e = guarded([&] { f(n, a, b); }, 10);
    long around = 0, moved = 0; for (size_t i = 0; i < cnt; ++i) { bool mine = i >= at && i < at + n; if (!mine) { around += res[i] != can; moved += in[i] != can; } else moved += in[i] != x[i - at]; }
    fprintf(out, "%s{\"n\":%u,\"place\":\"%s\",\"end\":\"%s\",\"around\":%ld,\"moved\":%ld,\"inp\":[", first ? "" : ",", n, hi ? "hi" : "lo", e, around, moved);
    list(&x[0], n); fprintf(out, "],\"out\":["); list(res + at, n); fprintf(out, "]}");
    first = false; go = !strcmp(e, "returned") && !around && !moved;
  }
  fprintf(out, "]}\n");
  for (int q = 0; q < 2; ++q) munmap(m[q], body + 2 * PG);
}
// more than 2^31 elements: one block of arguments and results mapped over and over, the last block of the results on its own
template <class T> static void giant(const char *base, void (*f)(const uint32_t, T *, T *), int number) {
  const uint32_t n = (1u << 31) + 1048581; const size_t BLK = 1 << 20, be = BLK / sizeof(T), blocks = ((size_t)n + be - 1) / be;
  int fd[2] = {memfd_create("a", 0), memfd_create("o", 0)}; T *p[2];
  for (int q = 0; q < 2; ++q) {
    char *c = (char *)mmap(0, blocks * BLK, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (fd[q] < 0 || ftruncate(fd[q], BLK) || c == MAP_FAILED) _exit(97);
    for (size_t i = 0; i < blocks; ++i) { bool own = q && i + 1 == blocks; if (mmap(c + i * BLK, BLK, PROT_READ | PROT_WRITE, own ? MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS : MAP_FIXED | MAP_SHARED, own ? -1 : fd[q], 0) == MAP_FAILED) _exit(97); }
    p[q] = (T *)c;
  }
  const T can = (T)-77; const size_t tail = (blocks - 1) * be;
  for (size_t i = 0; i < be; ++i) { p[0][i] = (T)(i % 4001 + 1); p[1][i] = can; p[1][tail + i] = can; }
  const char *e = guarded([&] { f(n, p[0], p[1]); }, 300);
  long wrong = 0, around = 0, moved = 0;
  auto at = [&](size_t i) { wrong += p[1][i] != (T)((i % be) % 4001 + 1 + 4096 * number); };
  for (size_t i = 0; i < be; ++i) { at(i); moved += p[0][i] != (T)(i % 4001 + 1); if (tail + i < n) at(tail + i); else around += p[1][tail + i] != can; }
  fprintf(out, "{\"kind\":\"giant\",\"base\":\"%s\",\"fmt\":\"%s\",\"w\":%d,\"obs\":[{\"wrong\":%ld,\"around\":%ld,\"moved\":%ld,\"end\":\"%s\"}]}\n", base, fmt<T>(), VC_LANES, wrong, around, moved, e);
}
int main(int argc, char **argv) {
  if (argc < 3 || !(out = fopen(argv[2], "w"))) return 3;
  std::ifstream f(argv[1]); uint32_t n; while (f >> n) lens.push_back(n);
  static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = caught; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, 0);
  if (argc == 5) {
    std::string w = argv[4];
    if (w == "sinv") giant<double>("sin", vc_sinv, 5); else if (w == "sinfv") giant<float>("sin", vc_sinfv, 5);
    else if (w == "identityv") giant<double>("identity", vc_identityv, 0); else if (w == "identityfv") giant<float>("identity", vc_identityfv, 0); else return 3;
    return fclose(out) ? 3 : 0;
  }
  fprintf(out, "{\"kind\":\"names\",\"obs\":[");
  bool sep = false;
#define NAME(s) fprintf(out, "%s{\"name\":\"" #s "\",\"there\":%d}", sep ? "," : "", s != nullptr); sep = true;
#define NAMES(b) NAME(vc_##b) NAME(vc_##b##f) NAME(vc_##b##v) NAME(vc_##b##fv)
  ALL(NAMES)
  fprintf(out, "]}\n");
#define RUN(b) if (vc_##b) scalars<double>(#b, vc_##b); if (vc_##b##f) scalars<float>(#b, vc_##b##f); \
  if (vc_##b##v) arrays<double>(#b, vc_##b##v); if (vc_##b##fv) arrays<float>(#b, vc_##b##fv);
  ALL(RUN)
  return fclose(out) ? 3 : 0;
}
