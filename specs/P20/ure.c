//@ target src/ure.c
//@ unit match harness=h_match defs=U1 about=uwildregex_match,uwildregex_error loops fbunwind=5 fbdefs=VPFB
//@ unit init harness=h_init defs=U2 about=uwildregex_create,uwildregex_init,uwildregex_free,uwildregex_error loops fbunwind=5 fbdefs=VPFB
//@ loop uwildregex_match 1 __CPROVER_assigns(i, status, r->errcode, vp_n, vp_err) __CPROVER_loop_invariant(0 <= i && i <= r->nre && vp_n == i && !vp_err && IMP(HAS && LAST < i, status == r->negate_flag[LAST]) && IMP(!HAS, status == 1)) __CPROVER_decreases(r->nre - i)
//@ loop uwildregex_free 1 __CPROVER_assigns(i, vp_nf) __CPROVER_loop_invariant(0 <= i && vp_nf == i && (i <= r->nre)) __CPROVER_decreases(r->nre - i)
//@ cut uwildregex_init 1 vp_arg(i)
//@ loop uwildregex_init 1 __CPROVER_assigns(i, p, status, r->errcode, r->flag, vp_n, vp_off, __CPROVER_object_whole(vp_argv), __CPROVER_object_whole(r->negate_flag)) __CPROVER_loop_invariant(0 <= i && i <= vp_argc && vp_n == i && status == 0 && IMP(K < i, r->negate_flag[K] == (vp_pool[KO] == '!'))) __CPROVER_decreases(vp_argc - i)
//@ assume regcomp, regexec, regerror and regfree behave as POSIX says (a pattern either matches a name or not); strsplit_create behaves as P18 proves
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <regex.h>
#include "ure.h"
#include "strsplit.h"
#ifdef VPFB
#define NMAX 3
#else
#define NMAX 10000000
#endif
static struct uwildregex_st *R; static char *NAME; static int HAS, LAST, vp_n, vp_err, vp_nf, vp_live;
/* the last rule that matches the name, if any, is LAST; what the rules before it do is arbitrary */
static int vp_exec(const regex_t *re, const char *s, size_t n, regmatch_t *m, int fl){ CLAIM(s == NAME && fl == 0 && n == 0, "the rules are applied to the name"); CLAIM(re == R->re + vp_n && vp_n < R->nre, "each rule in order"); int i = vp_n; vp_n++; int k = nondet_int(); ASSUME(IMP(HAS && i == LAST, k == 0) && IMP(!HAS || i > LAST, k != 0)); if (k != 0 && k != REG_NOMATCH) vp_err = 1; return k; }
static size_t vp_rerr(int c, const regex_t *re, char *b, size_t n){ CLAIM(__CPROVER_w_ok(b, n), "room for the message"); size_t k = nondet_size(); ASSUME(k < 100000); return k; }
static char *vp_s, *vp_pool; static size_t vp_poolsz, KO; static char **vp_argv; static int vp_argc, K, vp_del, vp_badi; static size_t vp_off;
static struct strsplit_st vp_ss;
static struct strsplit_st *vp_create(char *s, char *d, int fl){ CLAIM(s == vp_s && d[0] == ',' && d[1] == 0 && fl == STRSPLIT_FLAG_IGNEMPTY, "the list is separated by commas, empty rules are left out"); if (nondet_bool()) return NULL; vp_ss.argc = vp_argc; vp_ss.argv = vp_argv; return &vp_ss; }
static void vp_delete(struct strsplit_st *p){ CLAIM(p == &vp_ss && !vp_del, "released once"); vp_del = 1; }
static size_t vp_offs[4];
static int vp_comp(regex_t *re, const char *p, int fl){
#ifdef VPFB
  vp_off = vp_offs[vp_n];
#endif
  CLAIM(__CPROVER_w_ok(re, sizeof *re) && re == R->re + vp_n, "each rule has its place"); CLAIM(fl == (REG_EXTENDED | REG_NOSUB), "extended expressions"); CLAIM(p == vp_pool + vp_off + (vp_pool[vp_off] == '!'), "the expression is the rule without its negation mark"); if (vp_n == vp_badi) return 1 + (nondet_uint() & 15); vp_n++; return 0; }
static int vp_arg(int i){ if (i >= vp_argc) return 1;  vp_off = nondet_size(); ASSUME(vp_off < vp_poolsz); if (i == K) vp_off = KO; vp_argv[i] = vp_pool + vp_off; return 1; }
static void vp_rfree(regex_t *re){ CLAIM(re == R->re + vp_nf && vp_nf < vp_live, "each compiled rule is released once"); vp_nf++; }
#define regexec vp_exec
#define regerror vp_rerr
#define regcomp vp_comp
#define regfree vp_rfree
#define strsplit_create vp_create
#define strsplit_delete vp_delete
#include VP_TARGET
#ifdef U1
void h_match(void){ struct uwildregex_st r; R = &r; NAME = malloc(20); ASSUME(NAME != NULL); r.flag = nondet_int(); ASSUME(r.flag == UWILDREGEX_FLAG_VALID || r.flag == UWILDREGEX_FLAG_NULL || r.flag == UWILDREGEX_FLAG_EMPTY || r.flag == UWILDREGEX_FLAG_INVALID); r.nre = nondet_int(); ASSUME(r.nre >= 0 && r.nre <= NMAX); r.re = malloc(sizeof(regex_t) * r.nre); r.negate_flag = malloc(sizeof(int) * r.nre); r.errbuffer_size = 128; r.errbuffer = malloc(128); ASSUME(r.re != NULL && r.negate_flag != NULL && r.errbuffer != NULL); r.errcode = 0; HAS = nondet_bool(); LAST = nondet_int(); ASSUME(IMP(HAS, LAST >= 0 && LAST < r.nre)); if (HAS) ASSUME(r.negate_flag[LAST] == 0 || r.negate_flag[LAST] == 1); 
  size_t g = nondet_size(); int *nf = r.negate_flag; regex_t *re0 = r.re; vp_n = vp_err = 0;
  int f = r.flag, n = r.nre, st = uwildregex_match(&r, NAME);
  if (f == UWILDREGEX_FLAG_NULL || f == UWILDREGEX_FLAG_INVALID) CLAIM(st == 0, "without rules everything is accepted"); else if (f == UWILDREGEX_FLAG_EMPTY) CLAIM(st == 1, "an empty list accepts nothing"); else if (vp_err) CLAIM(st == -1, "an error is reported"); else CLAIM(vp_n == n && st == (HAS ? nf[LAST] : 1), "the right-most rule that matches decides, no match rejects");
  CLAIM(r.re == re0 && r.negate_flag == nf && r.nre == n && r.flag == f, "the rules stay"); COVER(st == 0, "accepted"); COVER(st == 1, "rejected"); COVER(st == -1, "error"); REACH(); }
#endif
#ifdef U2
void h_init(void){ struct uwildregex_st *r = uwildregex_create(); if (r == NULL) { REACH(); return; } R = r; CLAIM(r->flag == UWILDREGEX_FLAG_NULL && r->nre == 0 && r->re == NULL && r->negate_flag == NULL && __CPROVER_w_ok(r->errbuffer, r->errbuffer_size), "starts without rules");
  vp_poolsz = nondet_size(); ASSUME(vp_poolsz >= 1 && vp_poolsz <= MAXLEN); vp_pool = malloc(vp_poolsz + 1); ASSUME(vp_pool != NULL); vp_argc = nondet_int(); ASSUME(vp_argc >= 0 && vp_argc <= NMAX); vp_argv = malloc(sizeof(char *) * vp_argc); ASSUME(vp_argv != NULL); KO = nondet_size(); ASSUME(KO < vp_poolsz); K = nondet_int(); ASSUME(K >= 0 && K <= vp_argc); vp_badi = nondet_int(); vp_n = vp_nf = vp_del = 0; vp_live = 0;
#ifdef VPFB
  for (int i = 0; i < 3; i++) if (i < vp_argc) { vp_arg(i); vp_offs[i] = vp_off; }
#endif
 
  vp_s = nondet_bool() ? malloc(2) : NULL; int st = uwildregex_init(r, vp_s);
  if (vp_s == NULL) CLAIM(st == 0 && r->flag == UWILDREGEX_FLAG_NULL, "no list"); else if (vp_s[0] == 0) CLAIM(st == 0 && r->flag == UWILDREGEX_FLAG_EMPTY, "an empty list");
  else if (st == 0) { CLAIM(r->flag == UWILDREGEX_FLAG_VALID && r->nre == vp_argc && vp_n == vp_argc, "every rule is compiled"); CLAIM(IMP(K < vp_argc, r->negate_flag[K] == (vp_pool[KO] == '!')), "each rule keeps its negation"); CLAIM(vp_del, "released"); vp_live = vp_argc; } else CLAIM(IMP(st == 1, vp_badi == vp_n && r->flag == UWILDREGEX_FLAG_INVALID) && (st == 1 || st == -1), "a bad rule is reported");
  COVER(st == 0 && vp_n > 1, "rules"); COVER(st == 1, "bad rule"); COVER(st == -1, "no memory"); int q = st == 0 && r->flag == UWILDREGEX_FLAG_VALID; uwildregex_free(r); CLAIM(IMP(q, vp_nf == vp_argc), "all are released"); REACH(); }
#endif
