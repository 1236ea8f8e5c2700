// Runs scripts of write / read / make operations over pools, responses and
// comparisons.  After every operation it logs, as tokens, what every object
// holds and what a fresh reader finds in every file.
//   persist <kind> <fmt> <scripts> <patterns> <out> <dir> <seed> <sizes of the long lists>...
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <random>
#include "vdtMath.h"
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"

template <class T> struct UOf; template <> struct UOf<double> { typedef uint64_t U; }; template <> struct UOf<float> { typedef uint32_t U; };
template <class T> static uint64_t B(T v) { typename UOf<T>::U u; memcpy(&u, &v, sizeof v); return u; }
template <class T> static T V(uint64_t b) { typename UOf<T>::U u = (typename UOf<T>::U)b; T v; memcpy(&v, &u, sizeof v); return v; }

typedef std::vector<uint64_t> Words;
static std::map<std::string, int> tokens;
static int token(const std::string &s) { auto i = tokens.find(s); if (i != tokens.end()) return i->second; int n = (int)tokens.size() + 1; tokens[s] = n; return n; }
static std::string pack(const Words &w) { return std::string((const char *)w.data(), w.size() * 8) + "#"; }
template <class T> static Words words(const std::vector<T> &v) { Words w; for (auto x : v) w.push_back(B<T>(x)); return w; }

#ifdef DEEP
// read-only access to the numbers a comparison holds
template <class Tag, typename Tag::type M> struct Expose { friend typename Tag::type member(Tag) { return M; } };
#define EXPOSE(C, m, M, T) struct m##T##C { typedef M C<T>::*type; friend type member(m##T##C); }; template struct Expose<m##T##C, &C<T>::m>;
#define EXPOSEALL(T) \
  typedef std::vector<T> v##T; \
  EXPOSE(fcnComparison1D, m_input, v##T, T) EXPOSE(fcnComparison2D, m_input1, v##T, T) EXPOSE(fcnComparison2D, m_input2, v##T, T)
EXPOSEALL(double) EXPOSEALL(float)
template <class T> struct M1; template <> struct M1<double> { typedef m_inputdoublefcnComparison1D t; }; template <> struct M1<float> { typedef m_inputfloatfcnComparison1D t; };
template <class T> struct M2; template <> struct M2<double> { typedef m_input1doublefcnComparison2D t; typedef m_input2doublefcnComparison2D u; };
template <> struct M2<float> { typedef m_input1floatfcnComparison2D t; typedef m_input2floatfcnComparison2D u; };
template <class C, class T> struct Peek : C { static std::string stats(C &c) {
  Peek &p = static_cast<Peek &>(c); Words w; for (auto d : p.m_diff_bitv) w.push_back(d);
  return pack(w) + pack(words(p.m_out1)) + pack(words(p.m_out2)) + pack({B<double>(p.m_mean), B<double>(p.m_RMS), p.m_max, p.m_min}); } };
#endif
// rows as printed, without the name of the object
template <class C> static std::string printed(C &c) {
  std::ostringstream o; auto *old = std::cout.rdbuf(o.rdbuf()); c.print(); std::cout.rdbuf(old);
  std::istringstream in(o.str()); std::string l, r;
  while (std::getline(in, l)) { if (l.compare(0, 9, "Stats for") == 0) continue; size_t p = l.find("( "); r += (p == std::string::npos ? l : l.substr(p)) + "\n"; }
  return r + (c.hasDifference() ? "D" : "-");
}

struct Data { Words a, b, c, d; uint64_t n() const { return a.size(); } };
template <class T> static std::vector<T> vals(const Words &w) { std::vector<T> v; for (auto x : w) v.push_back(V<T>(x)); return v; }

struct Obj { virtual ~Obj() {} virtual void write(const std::string &) = 0; virtual std::string holds() = 0; };
template <class T> struct K {
  struct P1 : Obj { std::unique_ptr<randomPool1D<T>> p;
    P1(const Data &d) : p(new randomPool1D<T>(T(-3), T(1e3), d.n(), (int)(d.n() ? d.a[0] % 1000 : 1))) {}
    P1(const std::string &f) : p(new randomPool1D<T>(f)) {}
    std::string want(const Data &) { return holds(); }
    static std::string planted(const Data &d) { return pack(d.a); }
    void write(const std::string &f) { p->writeFile(f); }
    std::string holds() { return pack(words(p->getNumbers())); } };
  struct P2 : Obj { std::unique_ptr<randomPool2D<T>> p;
    P2(const Data &d) : p(new randomPool2D<T>(T(-3), T(0), T(1e3), T(1e-3), d.n(), (int)(d.n() ? d.a[0] % 1000 : 1))) {}
    P2(const std::string &f) : p(new randomPool2D<T>(f)) {}
    std::string want(const Data &) { return holds(); }
    static std::string planted(const Data &d) { return pack(d.a) + pack(d.b); }
    void write(const std::string &f) { p->writeFile(f); }
    std::string holds() { return pack(words(p->getNumbersX())) + pack(words(p->getNumbersY())); } };
  struct R1 : Obj { std::unique_ptr<fcnResponse1D<T>> p; uint64_t k;
    R1(const Data &d) : k(0) {
      if (d.n() % 2) { std::function<T(T)> f = [&](T) { return V<T>(d.c[k++]); }; p.reset(new fcnResponse1D<T>("name one", vals<T>(d.a), f)); }
      else { std::function<void(uint32_t, T *, T *)> f = [&](uint32_t n, T *, T *o) { for (uint32_t i = 0; i < n; ++i) o[i] = V<T>(d.c[i]); }; p.reset(new fcnResponse1D<T>("vec", vals<T>(d.a), f)); } }
    R1(const std::string &f) : p(new fcnResponse1D<T>(f)) {}
    std::string want(const Data &d) { return pack(d.a) + pack(d.c); }
    static std::string planted(const Data &) { return ""; }
    void write(const std::string &f) { p->writeFile(f); }
    std::string holds() { return pack(words(p->getInput())) + pack(words(p->getOutput())); } };
  struct R2 : Obj { std::unique_ptr<fcnResponse2D<T>> p; uint64_t k;
    R2(const Data &d) : k(0) {
      if (d.n() % 2) { std::function<T(T, T)> f = [&](T, T) { return V<T>(d.c[k++]); }; p.reset(new fcnResponse2D<T>("two", vals<T>(d.a), vals<T>(d.b), f)); }
      else { std::function<void(uint32_t, T *, T *, T *)> f = [&](uint32_t n, T *, T *, T *o) { for (uint32_t i = 0; i < n; ++i) o[i] = V<T>(d.c[i]); }; p.reset(new fcnResponse2D<T>("vec2", vals<T>(d.a), vals<T>(d.b), f)); } }
    R2(const std::string &f) : p(new fcnResponse2D<T>(f)) {}
    std::string want(const Data &d) { return pack(d.a) + pack(d.b) + pack(d.c); }
    static std::string planted(const Data &) { return ""; }
    void write(const std::string &f) { p->writeFile(f); }
    std::string holds() { return pack(words(p->getInput1())) + pack(words(p->getInput2())) + pack(words(p->getOutput())); } };
  struct C1 : Obj { std::unique_ptr<fcnComparison1D<T>> p;
    C1(const Data &d) : p(new fcnComparison1D<T>("cmp", vals<T>(d.a), vals<T>(d.c), vals<T>(d.d))) {}
    C1(const std::string &f) : p(new fcnComparison1D<T>(f)) {}
    static std::string planted(const Data &) { return ""; }
    void write(const std::string &f) { p->writeFile(f); }
#ifdef DEEP
    std::string rest() { return Peek<fcnComparison1D<T>, T>::stats(*p) + printed(*p); }
    std::string want(const Data &d) { return pack(d.a) + rest(); }
    std::string holds() { return pack(words((*p).*member(typename M1<T>::t()))) + rest(); }
#else
    std::string want(const Data &) { return holds(); }
    std::string holds() { return printed(*p); }
#endif
  };
  struct C2 : Obj { std::unique_ptr<fcnComparison2D<T>> p;
    C2(const Data &d) : p(new fcnComparison2D<T>("cmp 2", vals<T>(d.a), vals<T>(d.b), vals<T>(d.c), vals<T>(d.d))) {}
    C2(const std::string &f) : p(new fcnComparison2D<T>(f)) {}
    static std::string planted(const Data &) { return ""; }
    void write(const std::string &f) { p->writeFile(f); }
#ifdef DEEP
    std::string rest() { return Peek<fcnComparison2D<T>, T>::stats(*p) + printed(*p); }
    std::string want(const Data &d) { return pack(d.a) + pack(d.b) + rest(); }
    std::string holds() { return pack(words((*p).*member(typename M2<T>::t()))) + pack(words((*p).*member(typename M2<T>::u()))) + rest(); }
#else
    std::string want(const Data &) { return holds(); }
    std::string holds() { return printed(*p); }
#endif
  };
};

static const int NO = 3, NF = 3;
static std::string dir;
static std::string fname(int f) { return dir + "/file" + char('0' + f); }
static int rawToken(int f) {
  FILE *h = fopen(fname(f).c_str(), "rb"); if (!h) return 0;
  std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h);
  return token("raw" + s);
}
template <class O> static int fileToken(int f) {
  FILE *h = fopen(fname(f).c_str(), "rb"); if (!h) return 0; fclose(h);
  O o(fname(f)); return token(o.holds());
}
template <class O> static void plant(int f, const Data &d, bool two) {
  std::ofstream o(fname(f)); o << "VDT Random numbers file (the first 5 lines are the header)\nhand made\n--\n--\n--\n";
  char b[40];
  for (size_t i = 0; i < d.n(); ++i) { snprintf(b, sizeof b, "0x%llx ", (unsigned long long)d.a[i]); o << b; if (two) { snprintf(b, sizeof b, "0x%llx ", (unsigned long long)d.b[i]); o << b; } }
}

template <class O> static void runAll(const char *kind, const char *fmt, const char *scripts, const std::vector<Data> &data, const std::vector<Data> &big, const char *out, int seed) {
  std::ifstream in(scripts); FILE *o = fopen(out, "w"); if (!o) exit(3);
  std::string line; int no = 0;
  const bool pool = kind[0] == 'p', two = kind[1] == '2';
  while (std::getline(in, line)) {
    std::istringstream ls(line); std::string mode, w; ls >> mode;
    if ((mode == "planted" || mode == "longplanted") && !pool) continue;
    const bool lg = mode == "long" || mode == "longplanted";
    ++no;
    std::unique_ptr<O> obj[NO + 1];
    for (int f = 1; f <= NF; ++f) remove(fname(f).c_str());
    fprintf(o, "{\"kind\":\"%s\",\"fmt\":\"%s\",\"no\":%d,\"steps\":[", kind, fmt, no);
    bool first = true;
    while (ls >> w) {
      char op[16]; int a, f, d; if (sscanf(w.c_str(), "%15[a-z]:%d:%d:%d", op, &a, &f, &d) != 4) exit(3);
      const Data &D = lg && d ? big[d - 1] : data[(no * 5 + d * 3 + seed) % data.size()];
      int dt = 0;
      fflush(o);
      if (!strcmp(op, "make")) { obj[a].reset(); obj[a].reset(new O(D)); dt = token(obj[a]->want(D)); }
      else if (!strcmp(op, "read")) { obj[a].reset(); obj[a].reset(new O(fname(f))); }
      else if (!strcmp(op, "write")) obj[a]->write(fname(f));
      else if (!strcmp(op, "plant")) { plant<O>(f, D, two); dt = token(O::planted(D)); }
      else exit(3);
      int raw[NF + 1], ft[NF + 1], ot[NO + 1], raw2[NF + 1];
      for (int k = 1; k <= NF; ++k) raw[k] = rawToken(k);
      for (int k = 1; k <= NF; ++k) ft[k] = fileToken<O>(k);
      for (int k = 1; k <= NO; ++k) ot[k] = obj[k] ? token(obj[k]->holds()) : 0;
      for (int k = 1; k <= NF; ++k) raw2[k] = rawToken(k);
      fprintf(o, "%s{\"op\":\"%s\",\"o\":%d,\"f\":%d,\"d\":%d,\"objs\":[%d,%d,%d],\"files\":[%d,%d,%d],\"raw\":[%d,%d,%d],\"raw2\":[%d,%d,%d]}",
              first ? "" : ",", op, a, f, dt, ot[1], ot[2], ot[3], ft[1], ft[2], ft[3], raw[1], raw[2], raw[3], raw2[1], raw2[2], raw2[3]);
      first = false;
    }
    fprintf(o, "]}\n");
  }
  for (int f = 1; f <= NF; ++f) remove(fname(f).c_str());
  fclose(o);
}

template <class T> static void run(int argc, char **argv) {
  const int seed = atoi(argv[7]);
  Words pat; { std::ifstream p(argv[4]); std::string h; while (p >> h) pat.push_back(strtoull(h.c_str(), 0, 16)); }
  if (pat.size() < 50) exit(3);
  std::mt19937_64 g(seed * 77 + 5);
  auto rnd = [&] { return sizeof(T) == 8 ? (uint64_t)g() : (uint64_t)(uint32_t)g(); };
  std::vector<Data> data;
  const int sizes[] = {(int)pat.size(), 2, 0, 17, 1, 300, 5, 3, (int)pat.size()};
  for (int z : sizes) {
    Data d;
    for (int i = 0; i < z; ++i) {
      bool r = z == 17 || z == 300;
      size_t s = data.size() * 11;
      d.a.push_back(r ? rnd() : pat[(i + s) % pat.size()]); d.b.push_back(r ? rnd() : pat[(i * 5 + s + 1) % pat.size()]);
      d.c.push_back(r ? rnd() : pat[(i * 7 + s + 3) % pat.size()]);
      d.d.push_back(r ? (i % 3 ? d.c[i] + (rnd() >> (i % 40)) % 100000 : rnd()) : pat[(i * 7 + s + 3 + (i % 4)) % pat.size()]);
      if (sizeof(T) == 4) d.d[i] = (uint32_t)d.d[i];
    }
    data.push_back(d);
  }
  std::vector<Data> big;
  for (int q = 8; q < argc; ++q) {
    Data d; for (int i = 0; i < atoi(argv[q]); ++i) { d.a.push_back(rnd()); d.b.push_back(rnd()); d.c.push_back(rnd()); d.d.push_back(i % 3 ? d.c[i] : rnd()); }
    big.push_back(d);
  }
  const std::string k = argv[1]; const char *fm = argv[2];
  if (k == "p1") runAll<typename K<T>::P1>("p1", fm, argv[3], data, big, argv[5], seed);
  else if (k == "p2") runAll<typename K<T>::P2>("p2", fm, argv[3], data, big, argv[5], seed);
  else if (k == "r1") runAll<typename K<T>::R1>("r1", fm, argv[3], data, big, argv[5], seed);
  else if (k == "r2") runAll<typename K<T>::R2>("r2", fm, argv[3], data, big, argv[5], seed);
  else if (k == "c1") runAll<typename K<T>::C1>("c1", fm, argv[3], data, big, argv[5], seed);
  else if (k == "c2") runAll<typename K<T>::C2>("c2", fm, argv[3], data, big, argv[5], seed);
  else exit(3);
}

int main(int argc, char **argv) {
  if (argc < 8) return 3;
  dir = argv[6];
  std::cout.rdbuf(0);
  if (argv[2][0] == 'd') run<double>(argc, argv); else run<float>(argc, argv);
  return 0;
}
