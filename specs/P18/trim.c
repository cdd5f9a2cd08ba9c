//@ target src/util.c
//@ unit trimleft harness=h_left loops about=trimleft fbunwind=9 fbdefs=VPFB
//@ unit trimright harness=h_right loops about=trimright fbunwind=9 fbdefs=VPFB
//@ cut trimleft 1 vp_left(&p)
//@ loop trimleft 1 __CPROVER_assigns(p, vp_k) LEFTINV __CPROVER_decreases(L - vp_k)
//@ cut trimleft 2 vp_left(&p)
//@ loop trimleft 2 __CPROVER_assigns(p, vp_k) LEFTINV __CPROVER_decreases(L - vp_k)
//@ cut trimright 1 vp_right(&q)
//@ loop trimright 1 __CPROVER_assigns(q, vp_k, __CPROVER_object_whole(S)) RIGHTINV __CPROVER_decreases(vp_k)
//@ cut trimright 2 vp_right(&q)
//@ loop trimright 2 __CPROVER_assigns(q, vp_k, __CPROVER_object_whole(S)) RIGHTINV __CPROVER_decreases(vp_k)
#include <stdlib.h>
#include "trim_h.h"
#include VP_TARGET
#undef strlen
#undef strchr
void h_left(void){ vp_init(); char *r = trimleft(S, vp_delim);
  size_t k = 0;
#ifdef VPFB
  while (k < L && DEL(S0[k])) k++; if (k == L) k = 0; CLAIM(r == S + k, "leading separators");
#else
  k = r - S;
  CLAIM(r >= S && k <= L, "inside"); CLAIM(IMP(vp_k < L, k == vp_k && !DEL(S0[k]) && IMP(GK < k, DEL(S0[GK]))), "exactly the leading separators are skipped");
  CLAIM(IMP(vp_k == L, r == S && IMP(GK < L, DEL(S0[GK]))), "a string of separators is left alone");
#endif
  CLAIM(IMP(GI <= L, S[GI] == S0[GI]), "the string is not changed");
  COVER(k == 2, "two"); COVER(k == 0 && L > 2 && vp_delim == NULL, "none"); REACH(); }
void h_right(void){ vp_init(); if (L > 0) { vp_k = L - 1; INST(L - 1); }
  char *r = trimright(S, vp_delim);
  CLAIM(r == S, "returns the string");
#ifdef VPFB
  size_t e = L; while (e > 1 && DEL(S0[e - 1])) e--;
#else
  size_t e = L == 0 ? 0 : vp_k + 1;
  CLAIM(IMP(L > 0, e <= 1 || !DEL(S0[e - 1])) && IMP(GK >= e && GK < L, DEL(S0[GK])), "exactly the trailing separators, except the first character");
#endif
  CLAIM(IMP(GI <= L, S[GI] == (GI < e ? S0[GI] : 0)), "cut at the trailing separators");
  COVER(L > 3 && e == 2, "some"); COVER(L == 0, "empty"); REACH(); }
