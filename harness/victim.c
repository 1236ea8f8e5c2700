/* A program that knows nothing of the library: reads "name bits [bits]" and
   prints the bits of the result. */
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#define D1(N) if (!strcmp(n, #N)) { double x, r; memcpy(&x, &a, 8); r = N(x); memcpy(&o, &r, 8); }
#define F1(N) if (!strcmp(n, #N)) { float x, r; uint32_t u = a, v; memcpy(&x, &u, 4); r = N(x); memcpy(&v, &r, 4); o = v; }
int main(void) {
  char n[32]; unsigned long long a, b, o;
  while (scanf("%31s %llx %llx", n, &a, &b) == 3) {
    o = 0;
    D1(acos) D1(asin) D1(atan) D1(cos) D1(exp) D1(log) D1(sin) D1(tan) D1(tanh)
    F1(acosf) F1(asinf) F1(atanf) F1(cosf) F1(expf) F1(logf) F1(sinf) F1(tanf) F1(tanhf)
    if (!strcmp(n, "atan2")) { double x, y, r; memcpy(&x, &a, 8); memcpy(&y, &b, 8); r = atan2(x, y); memcpy(&o, &r, 8); }
    if (!strcmp(n, "atan2f")) { float x, y, r; uint32_t u = a, v = b, w; memcpy(&x, &u, 4); memcpy(&y, &v, 4); r = atan2f(x, y); memcpy(&w, &r, 4); o = w; }
    printf("%llx\n", o);
  }
  return 0;
}
