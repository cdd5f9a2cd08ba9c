#include "vp.h"
#include "vpctype.h"
#include <string.h>
#ifdef VPFB
#define LMAX 6
#else
#define LMAX MAXLEN
#endif
static char *S, *S0; static size_t L;    /* the string, its original contents and length */
static unsigned char VD[256];
static char *vp_delim;
static size_t GK, GI, vp_k;
#define DEL(c) (vp_delim == NULL ? VP_SP(c) : VD[(unsigned char)(c)] != 0)
static void vp_inst(size_t i){ if (i <= L) ASSUME((S0[i] == 0) == (i == L)); }
static size_t vp_strlen(const char *x){ CLAIM(x == S, "modelled strlen"); return L; }
static char *vp_strchr(const char *d, int c){ CLAIM(d == vp_delim, "searched string is the separator list"); return VD[(unsigned char)c] ? vp_delim : NULL; }
#define strlen vp_strlen
#define strchr vp_strchr
static void vp_init(void){
  L = nondet_size(); ASSUME(L <= LMAX); S = malloc(L + 1); S0 = malloc(L + 1); ASSUME(S != NULL && S0 != NULL);
  __CPROVER_havoc_object(VD); ASSUME(VD[0] == 1);
  vp_delim = NULL; if (nondet_bool()) { vp_delim = malloc(1); ASSUME(vp_delim != NULL); }
  GI = nondet_size(); GK = nondet_size(); vp_k = 0; vp_inst(GI); vp_inst(GK); vp_inst(L); vp_inst(0); if (GI <= L) ASSUME(S[GI] == S0[GI]); if (GK <= L) ASSUME(S[GK] == S0[GK]); ASSUME(S[0] == S0[0]); ASSUME(S[L] == S0[L]);
#ifdef VPFB
  for (size_t i = 0; i <= L; i++) { vp_inst(i); ASSUME(S[i] == S0[i]); }
#endif
}
#define INST(i) (vp_inst(i), ((i) <= L ? ASSUME(S[i] == S0[i]) : (void)0))
static int vp_left(char **p){ VP_REBASE(*p, S + vp_k); INST(vp_k); if (vp_k < L && DEL(S0[vp_k])) vp_k++; return 1; }
static int vp_right(char **q){ VP_REBASE(*q, S + vp_k); INST(vp_k); if (vp_k > 0 && DEL(S0[vp_k])) vp_k--; return 1; }
#define LEFTINV __CPROVER_loop_invariant(vp_k <= L && p == S + vp_k && IMP(GK < vp_k, DEL(S0[GK])))
#define RIGHTINV __CPROVER_loop_invariant(vp_k < L && q == S + vp_k && S[L] == 0 && IMP(GK > vp_k && GK < L, DEL(S0[GK])) && IMP(GI <= L, S[GI] == (GI > vp_k ? 0 : S0[GI])))
