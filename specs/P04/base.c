//@ target src/file.c
//@ unit base harness=h_base plain about=findbasename solver=default
//@ assume strrchr finds the last occurrence
#include "vp.h"
#include <string.h>
static char *B; static size_t L, K; static int has;     /* a string of length L; K = place of its last slash, if any */
static char *vp_rchr(const char *s, int c){ CLAIM(s == B && c == '/', "the last slash of the path"); return has ? (char *)s + K : NULL; }
#undef strrchr
#define strrchr vp_rchr
#include VP_TARGET
void h_base(void){ L = nondet_size(); ASSUME(L < 100000); K = nondet_size(); has = nondet_bool(); B = malloc(L + 1); ASSUME(B != NULL); ASSUME(B[L] == 0); size_t z = nondet_size(); ASSUME(IMP(z < L, B[z] != 0)); ASSUME(IMP(L > 0, B[0] != 0)); ASSUME(IMP(has, K < L && B[K] == '/' && IMP(K + 1 < L, B[K + 1] != 0)));
  char *r = findbasename(nondet_bool() ? B : NULL); int nul = r == NULL;
  if (r != NULL) CLAIM(L > 0 && r >= B && r < B + L && r == (has ? B + K + 1 : B), "the name after the last slash");
  r = findbasename(B); CLAIM((r == NULL) == (L == 0 || (has && K + 1 == L)), "no name only for an empty one"); CLAIM(findbasename(NULL) == NULL, "no path"); COVER(r != NULL && has, "with directory"); COVER(nul, "none"); REACH(); }
