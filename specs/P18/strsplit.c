//@ target src/strsplit.c
//@ unit strsplit harness=h_split loops about=strsplit timeout=300 fbunwind=8 fbdefs=VPFB
//@ unit strsep_lemma harness=h_lemma loops defs=E_REC
//@ unit recreate harness=h_recreate loops replace=strsplit about=strsplit_create,strsplit_recreate,strsplit_init,strsplit_delete timeout=300 fbunwind=8 fbdefs=VPFB defs=E_REC
//@ cut strsplit_recreate 1 vp_ax(&p)
//@ loop strsplit_recreate 1 __CPROVER_assigns(p, n, b, vp_k) __CPROVER_loop_invariant(vp_k <= L && p == S + vp_k && n == N[vp_k] && b == B[vp_k] && 0 <= n && 0 <= b && b <= (int)vp_k && n <= (int)vp_k && n + (b != 0) <= (int)vp_k) __CPROVER_decreases(L - vp_k)
//@ loop strsplit 1 __CPROVER_assigns(p, n, nextp, vp_f, vp_done, __CPROVER_object_whole(strp->sp), __CPROVER_object_whole(strp->argv)) __CPROVER_loop_invariant(vp_done == 0 && vp_f <= L && nextp == vp_sp + vp_f && B[vp_f] == 0 && n == N[vp_f] && 0 <= n && n <= NF && IMP(GI <= L, vp_sp[GI] == (GI < vp_f && DEL(GI) ? 0 : S[GI])) && IMP(GK < vp_f && KEPT(GK), N[GK] < n && 0 <= N[GK] && strp->argv[N[GK]] == vp_sp + GK)) __CPROVER_decreases(L + 1 - vp_f + (nextp != NULL))
//@ assume strchr, strlen, strncpy, strcpy, memcpy behave as the C standard says, strsep as its manual says (reference implementation with its own proved loop contract)
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#ifdef VPFB
#define LMAX 5
#else
#define LMAX MAXLEN
#endif
static char *S; static size_t L;        /* the string and its length */
static unsigned char VD[256];           /* the separators */
static char *vp_delim;
static const int *N, *B;                /* before position i: fields closed and counted; characters in the open field */
static int NF, INC;
static size_t vp_k, vp_f;
static int vp_done;
static size_t GI, GK;
static char *vp_sp;
static char *vp_oldsp; static size_t vp_oldlen, vp_oldcap;
#define DEL(i) ((i) < L && VD[(unsigned char)S[i]])
#define START(i) ((i) == 0 || DEL((i) - 1))
#define KEPT(i) ((i) <= L && START(i) && (INC || ((i) < L && !DEL(i))))
static void vp_axi(size_t i){
  ASSUME((S[i] == 0) == (i == L));
  ASSUME(0 <= N[i] && N[i] <= (int)i && 0 <= B[i] && B[i] <= (int)i);   /* by the recurrence */
  if (i < L) { if (VD[(unsigned char)S[i]]) ASSUME(N[i + 1] == N[i] + (B[i] != 0 || INC) && B[i + 1] == 0);
    else ASSUME(N[i + 1] == N[i] && B[i + 1] == B[i] + 1); }
  else ASSUME(NF == N[L] + (B[L] != 0 || INC)); }
static int vp_ax(char **p){ VP_REBASE(*p, S + vp_k); vp_axi(vp_k); if (vp_k < L) vp_k++; return 1; }
static size_t vp_strlen(const char *x){ if (x == S) return L; CLAIM(x == vp_oldsp, "modelled strlen"); return vp_oldlen; }
static void *vp_copy(char *d, const char *s, size_t n){ CLAIM(s == S && n == L + 1, "the whole string is copied"); CLAIM(__CPROVER_w_ok(d, n), "copy fits");
  vp_sp = d; vp_f = 0; vp_done = 0;
#ifdef VPFB
  for (size_t i = 0; i <= L; i++) d[i] = S[i];
#else
  __CPROVER_havoc_slice(d, n); if (GI <= L) ASSUME(d[GI] == S[GI]);
#endif
  return d; }
static char *vp_strchr(const char *d, int c){ CLAIM(d == vp_delim, "searched string is the separator list"); return VD[(unsigned char)c] ? vp_delim : NULL; }
static int vp_inst(size_t j){ vp_axi(j); ASSUME(vp_sp[j] == S[j]); return 1; }
#define SEP_FACTS(k, j) (B[j] == (int)((j) - (k)) && N[j] == N[k] && IMP((k) <= GI && GI < (j), !DEL(GI)) && IMP((k) <= GK && GK < (j), !DEL(GK)) && IMP((k) < GK && GK <= (j), !DEL(GK - 1)))
static char *vp_strsep(char **np, const char *d){
  CLAIM(d == vp_delim, "separators passed on"); CLAIM(!vp_done, "strsep is not called after the last field");
  VP_REBASE(*np, vp_sp + vp_f);
  size_t k = vp_f, j = k;
  vp_axi(GI <= L ? GI : 0); vp_axi(GK <= L ? GK : 0);
#ifdef VPFB
  while (j < L && !VD[(unsigned char)vp_sp[j]]) j++;
#else
  j = nondet_size(); ASSUME(k <= j && j <= L); vp_inst(j); vp_inst(k); ASSUME((j == L || VD[(unsigned char)vp_sp[j]]) && SEP_FACTS(k, j));  /* unit strsep_lemma */
#endif
  if (j == L) { *np = NULL; vp_done = 1; }
  else { vp_sp[j] = 0; *np = vp_sp + j + 1; vp_f = j + 1; ASSUME(N[j + 1] <= N[L] && N[L] <= NF); /* partial sums of non negative terms */ }
  return vp_sp + k; }
static int vp_called;
struct strsplit_st;
#ifdef E_REC
#include "strsplit.h"
static void strsplit(struct strsplit_st *strp, char *delim, int flags)
  REQ(__CPROVER_rw_ok(strp, sizeof(struct strsplit_st)) && strp->argc == NF && strp->sp == vp_sp && vp_sp != NULL && __CPROVER_w_ok(strp->argv, (size_t)NF * sizeof(char *)) && delim == vp_delim && (flags == STRSPLIT_FLAG_INCEMPTY) == (INC != 0))
  ASG(vp_called) ENS(vp_called == 1);
#endif
#define strlen vp_strlen
#define strncpy(d,s,n) vp_copy(d,s,n)
#define strcpy(d,s) vp_copy(d,s,L+1)
#define memcpy(d,s,n) vp_copy(d,s,n)
#define strchr vp_strchr
#define strsep vp_strsep
#include VP_TARGET
#undef memcpy
static void vp_init(void){
  L = nondet_size(); ASSUME(0 < L && L <= LMAX); S = malloc(L + 1); int *n = malloc((L + 2) * sizeof(int)), *b = malloc((L + 2) * sizeof(int)); vp_delim = malloc(1);
  ASSUME(S != NULL && n != NULL && b != NULL && vp_delim != NULL); ASSUME(n[0] == 0 && b[0] == 0); N = n; B = b;
  GI = nondet_size(); GK = nondet_size(); NF = nondet_int(); INC = nondet_bool();
  __CPROVER_havoc_object(VD); ASSUME(VD[0] == 1);
  vp_k = 0; vp_f = 0; vp_sp = NULL; vp_done = 0;
#ifdef VPFB
  for (size_t i = 0; i <= L; i++) vp_axi(i);
#endif
  vp_axi(0); }
#ifndef E_REC
void h_split(void){ vp_init(); static struct strsplit_st st; struct strsplit_st *r = &st;
  ASSUME(NF >= 0 && (size_t)NF <= LMAX + 2);
  st.argc = NF; st.argv = malloc((size_t)NF * sizeof(char *)); st.sp = malloc(L + 1); ASSUME(st.argv != NULL && st.sp != NULL); 
  vp_copy(st.sp, S, L + 1);
  strsplit(&st, vp_delim, INC ? STRSPLIT_FLAG_INCEMPTY : STRSPLIT_FLAG_IGNEMPTY);
  CLAIM(r->argc == NF && r->sp == vp_sp && vp_done, "splits the copy, to its end");
  CLAIM(IMP(GI <= L, vp_sp[GI] == (DEL(GI) ? 0 : S[GI])), "field contents");
  CLAIM(IMP(KEPT(GK), 0 <= N[GK] && N[GK] < r->argc && r->argv[N[GK]] == vp_sp + GK), "each field in order");
  COVER(L > 1 && !INC && r->argc == 0, "no field"); COVER(r->argc == 2 && INC, "two fields"); REACH(); }
#else
/* what the table says about a field that starts at k and ends at the next separator or the end */
void h_lemma(void){ vp_init(); size_t k = nondet_size(), j = k; ASSUME(k <= L && B[k] == 0); vp_axi(k); vp_axi(GI <= L ? GI : 0); vp_axi(GK <= L ? GK : 0);
  while ((vp_axi(j), 1) && j < L && !VD[(unsigned char)S[j]])
    __CPROVER_assigns(j) __CPROVER_loop_invariant(k <= j && j <= L && SEP_FACTS(k, j)) __CPROVER_decreases(L - j)
    j++;
  CLAIM((j == L || VD[(unsigned char)S[j]]) && SEP_FACTS(k, j), "field"); REACH(); }
void h_recreate(void){ vp_init();
  struct strsplit_st *old = NULL; vp_called = 0;
  if (nondet_bool()) {
    old = malloc(sizeof *old); ASSUME(old != NULL); vp_oldcap = nondet_size(); vp_oldlen = nondet_size(); ASSUME(vp_oldlen < vp_oldcap && vp_oldcap <= LMAX + 2);
    size_t ac = nondet_size(); ASSUME(ac <= LMAX + 2); old->argc = nondet_int(); ASSUME(0 <= old->argc && (size_t)old->argc <= ac);
    old->sp = malloc(vp_oldcap); old->argv = malloc(ac * sizeof(char *)); ASSUME(old->sp != NULL && old->argv != NULL); vp_oldsp = old->sp; }
  struct strsplit_st *r = strsplit_recreate(S, vp_delim, INC ? STRSPLIT_FLAG_INCEMPTY : STRSPLIT_FLAG_IGNEMPTY, old);
  if (r != NULL) {
    CLAIM(r->argc == NF && vp_called, "number of fields");
    CLAIM(r->sp == vp_sp && IMP(GI <= L, vp_sp[GI] == S[GI]), "splits a copy");
    COVER(r == old && r->argc == 1 && INC, "reused"); COVER(r != old, "new"); }
  COVER(r == NULL, "no memory"); REACH(); }
#endif
