/* contracts of the number conversions, over the C standard's strtol/strtoul/strtod:
   the conversion consumes vp_off characters of s, whose mathematical value is (vp_neg ? -1 : 1) * vp_mag,
   or leaves the range of the result type (vp_range) */
#include "vp.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <stdint.h>
static size_t vp_n;            /* strlen of the string */
static size_t vp_off; static int vp_neg, vp_range, vp_calls; static unsigned long vp_mag; static double vp_d;
static char *vp_s;
static void vp_scan(const char *s, char **end){
  CLAIM(s == vp_s, "the string given is converted");
  if (vp_off == 0) { vp_mag = 0; vp_range = 0; vp_neg = 0; }
  *end = (char *)s + vp_off;
  int e = nondet_int(); ASSUME(e > 0);
  if (vp_range) errno = ERANGE; else if (vp_off == 0 && nondet_bool()) errno = e;
  vp_calls++;
}
static long vp_strtol(const char *s, char **end, int base){
  CLAIM(base == 10, "decimal");
  vp_scan(s, end);
  ASSUME(vp_range || vp_mag <= (unsigned long)LONG_MAX + (vp_neg ? 1 : 0));
  if (vp_range) return vp_neg ? LONG_MIN : LONG_MAX;
  return vp_neg ? (long)(0 - vp_mag) : (long)vp_mag;
}
static unsigned long vp_strtoul(const char *s, char **end, int base){
  CLAIM(base == 10, "decimal");
  vp_scan(s, end);
  if (vp_range) return ULONG_MAX;
  return vp_neg ? 0 - vp_mag : vp_mag;
}
static double vp_strtod(const char *s, char **end){ vp_scan(s, end); if (vp_off == 0) vp_d = 0; return vp_d; }
/* the string has a minus sign: known exactly when the conversion consumed all of it (a sign can only lead) */
static char *vp_strchr(const char *s, int c){
  CLAIM(s == vp_s, "search in the string given");
  if (c == '-' && vp_calls > 0 && vp_off > 0 && vp_off == vp_n) return vp_neg ? (char *)s : NULL;
  return nondet_bool() ? (char *)s : NULL;
}
#define strtol vp_strtol
#define strtoul vp_strtoul
#define strtod vp_strtod
#define strchr vp_strchr
static void vp_setup(void){
  vp_n = nondet_size(); ASSUME(vp_n <= MAXLEN); vp_s = malloc(vp_n + 1); ASSUME(vp_s != NULL); vp_s[vp_n] = 0;
  vp_off = nondet_size(); ASSUME(vp_off <= vp_n && (vp_off == vp_n || vp_s[vp_off] != 0));
  vp_neg = nondet_bool(); vp_range = nondet_bool(); vp_calls = 0; vp_mag = (unsigned long)nondet_long();
  errno = nondet_int();
}
/* exactly the numbers of the type, the whole string, and nothing else changes */
#define H(fn, T, maxp, maxn) void h_##fn(void){ vp_setup(); T v, v0 = v; int e0 = errno; int r = fn(vp_s, &v); \
  _Bool good = vp_off > 0 && vp_off == vp_n && !vp_range && (vp_neg ? vp_mag <= (maxn) : vp_mag <= (maxp)); \
  CLAIM(r == 0 || r == 1, "status"); CLAIM((r == 0) == good, "accepted exactly when the whole string is a number of the type"); \
  CLAIM(IMP(r == 0, v == (T)(vp_neg ? 0 - vp_mag : vp_mag)), "value of the string"); CLAIM(IMP(r != 0, v == v0), "destination unchanged on error"); \
  CLAIM(errno == e0, "error indicator unchanged"); COVER(r == 0, "accepted"); COVER(r == 0 && vp_neg && (maxn) > 0 && v != 0, "negative"); COVER(r == 1, "refused"); REACH(); }
#define HU(fn, T, maxp) void h_##fn(void){ vp_setup(); T v, v0 = v; int e0 = errno; int r = fn(vp_s, &v); \
  _Bool good = vp_off > 0 && vp_off == vp_n && !vp_range && (vp_neg ? vp_mag == 0 : vp_mag <= (maxp)); \
  CLAIM(r == 0 || r == 1, "status"); CLAIM((r == 0) == good, "accepted exactly when the whole string is a number of the type"); \
  CLAIM(IMP(r == 0, v == (T)vp_mag), "value of the string"); CLAIM(IMP(r != 0, v == v0), "destination unchanged on error"); \
  CLAIM(errno == e0, "error indicator unchanged"); COVER(r == 0, "accepted"); COVER(r == 1, "refused"); REACH(); }
