// Runs the timer and performance measurements against scripted clock readings.
//   timing <pairs> <runs> <out>
//   timing big <kind> <fmt> <n> <reps> <dt> <out>    clock advances dt per reading
// pairs: s1 n1 s2 n2 per line; runs: kind fmt n reps s:n s:n ... per line
#include <cmath>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <time.h>
#include "vdtdiag_helper.h"
#include "vdtdiag_fcnPerformance.h"
static std::vector<timespec> script; static size_t at = 0; static bool recording = false; static FILE *out; static bool firstEv = true;
static long tick = 0; static uint64_t *tickReadings = 0;
// the clock of the whole program
extern "C" int clock_gettime(clockid_t, struct timespec *ts) throw() {
  if (tick) { const uint64_t now = ++*tickReadings * (uint64_t)tick; ts->tv_sec = now / 1000000000; ts->tv_nsec = now % 1000000000; return 0; }
  if (at >= script.size()) { *ts = script.empty() ? timespec() : script.back(); if (recording) { ts->tv_sec += 1 + (at - script.size()); } }
  else *ts = script[at];
  ++at;
  if (recording) { fprintf(out, "%s{\"k\":\"c\",\"r\":{\"s\":%ld,\"n\":%ld}}", firstEv ? "" : ",", (long)ts->tv_sec, (long)ts->tv_nsec); firstEv = false; }
  return 0;
}
static void ev(const std::vector<int> &x) { fprintf(out, "%s{\"k\":\"f\",\"x\":[", firstEv ? "" : ","); firstEv = false; for (size_t i = 0; i < x.size(); ++i) fprintf(out, i ? ",%d" : "%d", x[i]); fprintf(out, "]}"); }
// the printed line, plain and with a scale
static std::string line1, line2; static const double SCALE = 250;
template <class P> static void shown(P &p) { std::ostringstream a, b; p.print(a); p.print(b, SCALE); line1 = a.str(); line2 = b.str(); for (auto *l : {&line1, &line2}) for (char &c : *l) if (c == '\n' || c == '"' || c == '\\' || c < ' ') c = ' '; }
template <class T> static void run(const std::string &kind, int n, int reps) {
  std::vector<T> a, b; const bool two = kind[1] == '2';
  for (int i = 0; i < n; ++i) { a.push_back(T(i / 2 + 1)); b.push_back(T(100 * (i + 1))); }
  auto code = [&](T x, T y) { return (int)x + (two ? (int)y : 0); };
  fprintf(out, "{\"kind\":\"run\",\"what\":\"%s\",\"fmt\":\"%s\",\"n\":%d,\"reps\":%d,\"inputs\":[", kind.c_str(), sizeof(T) == 8 ? "d" : "f", n, reps);
  for (int i = 0; i < n; ++i) fprintf(out, i ? ",%d" : "%d", code(a[i], b[i]));
  fprintf(out, "],\"ev\":["); firstEv = true;
  std::function<T(T)> s1 = [&](T x) { ev({code(x, 0)}); return x; };
  std::function<T(T, T)> s2 = [&](T x, T y) { ev({code(x, y)}); return x; };
  std::function<void(uint32_t, T *, T *)> a1 = [&](uint32_t m, T *x, T *o) { std::vector<int> v; for (uint32_t i = 0; i < m && i < (uint32_t)n; ++i) { v.push_back(code(x[i], 0)); o[i] = x[i]; } if (m != (uint32_t)n) v.push_back(-1); ev(v); };
  std::function<void(uint32_t, T *, T *, T *)> a2 = [&](uint32_t m, T *x, T *y, T *o) { std::vector<int> v; for (uint32_t i = 0; i < m && i < (uint32_t)n; ++i) { v.push_back(code(x[i], y[i])); o[i] = x[i]; } if (m != (uint32_t)n) v.push_back(-1); ev(v); };
  recording = true; double avg, err;
  if (kind == "s1") { fcnPerformance<T> p("fun_name", a, s1, reps); recording = false; avg = p.getAvg(); err = p.getAvgErr(); shown(p); }
  else if (kind == "s2") { fcnPerformance<T> p("fun_name", a, b, s2, reps); recording = false; avg = p.getAvg(); err = p.getAvgErr(); shown(p); }
  else if (kind == "a1") { fcnPerformance<T> p("fun_name", a, a1, reps); recording = false; avg = p.getAvg(); err = p.getAvgErr(); shown(p); }
  else if (kind == "a2") { fcnPerformance<T> p("fun_name", a, b, a2, reps); recording = false; avg = p.getAvg(); err = p.getAvgErr(); shown(p); }
  else exit(3);
  uint64_t bits, ebits; memcpy(&bits, &avg, 8); memcpy(&ebits, &err, 8);
  fprintf(out, "],\"mean\":\"%016llx\",\"error\":\"%016llx\",\"scale\":%d,\"lines\":[\"%s\",\"%s\"]}\n", (unsigned long long)bits, (unsigned long long)ebits, (int)SCALE, line1.c_str(), line2.c_str()); fflush(out);
}
template <class T> static int big(const std::string &kind, uint32_t n, uint32_t reps, long dt, const char *to) {
  // evaluations and readings are only counted here: [rep] must see n evaluations
  std::vector<T> a(n, T(1)), b(n, T(2)); uint64_t readings = 0, evals = 0 ; tick = dt; tickReadings = &readings;
  std::function<T(T)> s1 = [&](T x) { ++evals; return x; };
  std::function<T(T, T)> s2 = [&](T x, T) { ++evals; return x; };
  std::function<void(uint32_t, T *, T *)> a1 = [&](uint32_t m, T *, T *o) { evals += m; memset(o, 0, n * sizeof(T)); };
  std::function<void(uint32_t, T *, T *, T *)> a2 = [&](uint32_t m, T *, T *, T *o) { evals += m; memset(o, 0, n * sizeof(T)); };
  double avg, err;
  if (kind == "s1") { fcnPerformance<T> p("fun_name", a, s1, reps); avg = p.getAvg(); err = p.getAvgErr(); shown(p); }
  else if (kind == "s2") { fcnPerformance<T> p("fun_name", a, b, s2, reps); avg = p.getAvg(); err = p.getAvgErr(); shown(p); }
  else if (kind == "a1") { fcnPerformance<T> p("fun_name", a, a1, reps); avg = p.getAvg(); err = p.getAvgErr(); shown(p); }
  else if (kind == "a2") { fcnPerformance<T> p("fun_name", a, b, a2, reps); avg = p.getAvg(); err = p.getAvgErr(); shown(p); }
  else return 3;
  tick = 0; uint64_t bits, ebits; memcpy(&bits, &avg, 8); memcpy(&ebits, &err, 8);
  FILE *o = fopen(to, "w"); if (!o) return 3;
  fprintf(o, "{\"kind\":\"big\",\"what\":\"%s\",\"fmt\":\"%s\",\"n\":%u,\"reps\":%u,\"dt\":%ld,\"readings\":%llu,\"evals\":%llu,\"mean\":\"%016llx\",\"error\":\"%016llx\"}\n", kind.c_str(), sizeof(T) == 8 ? "d" : "f", n, reps, dt, (unsigned long long)readings, (unsigned long long)evals, (unsigned long long)bits, (unsigned long long)ebits);
  return fclose(o) ? 3 : 0;
}
int main(int argc, char **argv) {
  if (argc == 8 && !strcmp(argv[1], "big")) { std::cout.rdbuf(0); return argv[3][0] == 'd' ? big<double>(argv[2], atol(argv[4]), atol(argv[5]), atol(argv[6]), argv[7]) : big<float>(argv[2], atol(argv[4]), atol(argv[5]), atol(argv[6]), argv[7]); }
  if (argc != 4) return 3;
  out = fopen(argv[3], "w"); if (!out) return 3;
  std::cout.rdbuf(0);
  { std::ifstream in(argv[1]); long a, b, c, d; bool f = true; vdth::timer reused;
    fprintf(out, "{\"kind\":\"timer\",\"obs\":[");
    while (in >> a >> b >> c >> d) for (int again = 0; again < 2; ++again) {
      script.assign(2, timespec()); script[0].tv_sec = a; script[0].tv_nsec = b; script[1].tv_sec = c; script[1].tv_nsec = d; at = 0;
      vdth::timer fresh; vdth::timer &t = again ? reused : fresh;
      t.start(); t.stop(); unsigned long long e = (unsigned long long)t.get_elapsed_time();
      if (at != 2) return 4;
      fprintf(out, "%s{\"r1\":{\"s\":%ld,\"n\":%ld},\"r2\":{\"s\":%ld,\"n\":%ld},\"e\":[%llu,%llu,%llu,%llu]}", f ? "" : ",", a, b, c, d, e >> 48, (e >> 32) & 0xffff, (e >> 16) & 0xffff, e & 0xffff); f = false;
    }
    fprintf(out, "]}\n"); fflush(out); }
  std::ifstream in(argv[2]); std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line); std::string kind, fmt, r; int n, reps; ls >> kind >> fmt >> n >> reps;
    script.clear(); at = 0;
    while (ls >> r) { timespec ts; long s, ns; if (sscanf(r.c_str(), "%ld:%ld", &s, &ns) != 2) return 3; ts.tv_sec = s; ts.tv_nsec = ns; script.push_back(ts); }
    if (fmt == "d") run<double>(kind, n, reps); else run<float>(kind, n, reps);
  }
  fclose(out); return 0;
}
