/* Stand-in for the fat library: function number k turns numbers a, b, c into 131072 k + a + 50 b + 2500 c (spec/Ufunc.tla).
   When counting, no memory is touched: the elements handed over are counted, and whether they follow one another. */
long np_counting, np_total, np_bad;
char *np_next[4];
static int counted(long size, int n, const void *a, const void *b, const void *c, const void *d, int item)
{
  const void *p[4] = {a, b, c, d};
  if (!np_counting)
    return 0;
  for (int i = 0; i < n; ++i) {
    if (p[i] != np_next[i])
      np_bad++;
    np_next[i] = (char *)p[i] + size * item;
  }
  np_total += size;
  return 1;
}
#define V(k, a, b, c) (131072 * (k) + (a) + 50 * (b) + 2500 * (c))
#define ONE(name, k, T, s) \
  T vdt_##name##s(T x) { return V(k, x, 0, 0); } \
  void vdt_##name##s##v(const T *x, T *y, long n) \
  { if (counted(n, 2, x, y, 0, 0, sizeof(T))) return; for (long i = 0; i < n; ++i) y[i] = V(k, x[i], 0, 0); }
#define TWO(name, k, T, s) \
  T vdt_##name##s(T x, T y) { return V(k, x, y, 0); } \
  void vdt_##name##s##v(const T *x, const T *y, T *r, long n) \
  { if (counted(n, 3, x, y, r, 0, sizeof(T))) return; for (long i = 0; i < n; ++i) r[i] = V(k, x[i], y[i], 0); }
#define THREE(name, k, T, s) \
  T vdt_##name##s(T x, T y, T z) { return V(k, x, y, z); } \
  void vdt_##name##s##v(const T *x, const T *y, const T *z, T *r, long n) \
  { if (counted(n, 4, x, y, z, r, sizeof(T))) return; for (long i = 0; i < n; ++i) r[i] = V(k, x[i], y[i], z[i]); }
#define BOTH(name, k, T, s) \
  void vdt_##name##s(T x, T *p, T *q) { *p = V(k, x, 0, 0); *q = V((k) + 1, x, 0, 0); } \
  void vdt_##name##s##v(const T *x, T *p, T *q, long n) \
  { if (counted(n, 3, x, p, q, 0, sizeof(T))) return; \
    for (long i = 0; i < n; ++i) { T a = x[i]; p[i] = V(k, a, 0, 0); q[i] = V((k) + 1, a, 0, 0); } }
#define ALL(T, s, o) \
  ONE(asin, 1 + o, T, s) ONE(atan, 2 + o, T, s) ONE(cos, 3 + o, T, s) ONE(exp, 4 + o, T, s) ONE(inv, 5 + o, T, s) \
  ONE(log, 6 + o, T, s) ONE(sin, 7 + o, T, s) ONE(isqrt, 8 + o, T, s) ONE(identity, 9 + o, T, s) ONE(sqrt, 10 + o, T, s) \
  TWO(atan2, 11 + o, T, s) TWO(div, 12 + o, T, s) THREE(fma, 13 + o, T, s) THREE(fmac, 14 + o, T, s) BOTH(sincos, 15 + o, T, s)
ALL(double, , 0)
ALL(float, f, 32)
