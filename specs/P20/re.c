//@ target src/nbspre.c
//@ target src/slavefp/framep.c
//@ target src/slavein/framep.c
//@ target src/pfilter.c
//@ unit lists harness=h_lists defs=U1 plain about=init_nbsp_regex,nbsp_regex_create,free_nbsp_regex,np_regex_match,filterq_regex_match,serverq_regex_match,nbs1_regex_match,nbs2_regex_match,emwin_regex_match,savez_regex_match,rtxdb_regex_match unwind=9
//@ unit queuefp harness=h_queue defs=U2 plain about=slavefpproc
//@ unit queuein harness=h_queue defs=U3 plain about=slaveinproc
//@ unit pread harness=h_pread defs=U4 plain about=pfilter_read
//@ assume the queues behave as P15 proves, readn_fifo as P11 proves
#include "vp.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include "ure.h"
#define SFILTER_H
#include "globals.h"
#include "packfpc.h"
#include "err.h"
struct nbsp_globals g;
void log_err(char *s){} void log_errx(char *f, ...){}
#ifdef U1
static struct uwildregex_st W[8]; static char *PT[8]; static int vp_made, vp_ini, vp_res[8], vp_fr; static char *vp_nm; static int vp_bad, vp_oom, vp_ret;
struct uwildregex_st *uwildregex_create(void){ if (vp_made == vp_oom) return NULL; CLAIM(vp_made < 8, "one list each"); return &W[vp_made++]; }
int uwildregex_init(struct uwildregex_st *r, char *p){ CLAIM(r == &W[vp_made - 1], "the list just made"); r->nre = 0; for (int i = 0; i < 8; i++) if (p == PT[i]) r->nre = i + 1; CLAIM(r->nre != 0, "one of the settings"); return vp_made == vp_bad ? vp_ret : 0; }
void uwildregex_free(struct uwildregex_st *r){ vp_fr++; CLAIM(__CPROVER_same_object(r, W), "a list"); }
int uwildregex_match(struct uwildregex_st *r, char *s){ CLAIM(s == vp_nm, "the name asked"); for (int i = 0; i < 8; i++) if (r == &W[i]) return vp_res[i]; CLAIM(0, "a list"); return 0; }
#include VP_TARGET
#define CHK(fn, p) do { int r = fn(vp_nm); int k = -1; for (int i = 0; i < 8; i++) if (W[i].nre > 0 && PT[W[i].nre - 1] == g.p) k = i; CLAIM(k >= 0 && r == vp_res[k], #fn " decides by " #p); } while (0)
void h_lists(void){ for (int i = 0; i < 8; i++) { PT[i] = malloc(1); ASSUME(PT[i] != NULL); vp_res[i] = nondet_int(); } vp_nm = malloc(1); ASSUME(vp_nm != NULL); g.patt_accept = PT[0]; g.filterq_patt_accept = PT[1]; g.serverq_patt_accept = PT[2]; g.nbs1_patt_accept = PT[3]; g.nbs2_patt_accept = PT[4]; g.emwin_patt_accept = PT[5]; g.savez_patt_accept = PT[6]; g.rtxdb_patt_accept = PT[7]; vp_oom = nondet_int(); vp_bad = nondet_int(); vp_ret = nondet_int(); ASSUME(vp_ret != 0); vp_made = vp_fr = 0;
  g.np_regex = g.filterq_regex = g.serverq_regex = g.nbs1_regex = g.nbs2_regex = g.emwin_regex = g.savez_regex = g.rtxdb_regex = NULL;
  int st = init_nbsp_regex(); int ok = (vp_oom < 0 || vp_oom >= 8) && (vp_bad < 1 || vp_bad > 8); CLAIM(IFF(st == 0, ok), "every list must be right"); if (st == 0) { CLAIM(vp_made == 8, "all lists"); CHK(np_regex_match, patt_accept); CHK(filterq_regex_match, filterq_patt_accept); CHK(serverq_regex_match, serverq_patt_accept); CHK(nbs1_regex_match, nbs1_patt_accept); CHK(nbs2_regex_match, nbs2_patt_accept); CHK(emwin_regex_match, emwin_patt_accept); CHK(savez_regex_match, savez_patt_accept); CHK(rtxdb_regex_match, rtxdb_patt_accept); }
  COVER(st == 0, "all right"); COVER(st != 0, "error"); free_nbsp_regex(); REACH(); }
#endif
#if defined(U2) || defined(U3)
static struct packet_info_st PI; static int vp_f, vp_s, vp_sf, vp_ss, vp_rf, vp_rs, vp_rep;
int filterq_regex_match(char *n){ CLAIM(n == PI.fname, "by the name of the product"); return vp_f; } int serverq_regex_match(char *n){ CLAIM(n == PI.fname, "by the name of the product"); return vp_s; }
int e_nbspq_snd_filter(void *p, uint32_t n){ CLAIM(p == PI.packet && n == (uint32_t)PI.packet_size, "the whole description"); vp_sf++; return vp_rf; } int e_nbspq_snd_server(void *p, uint32_t n){ CLAIM(p == PI.packet && n == (uint32_t)PI.packet_size, "the whole description"); vp_ss++; return vp_rs; } void e_report_qstate(void){ vp_rep++; } void log_verbose(int l, char *f, ...){}
#ifdef U2
#include VP_TARGET2
#define PROC slavefpproc
#else
#include VP_TARGET3
#define PROC slaveinproc
#endif
void h_queue(void){ PI.fname = malloc(1); PI.packet = malloc(1); PI.packet_size = nondet_uint(); ASSUME(PI.fname != NULL && PI.packet != NULL); vp_f = nondet_int(); vp_s = nondet_int(); vp_rf = nondet_int(); vp_rs = nondet_int(); vp_sf = vp_ss = 0; int r = PROC(&PI); CLAIM(vp_sf == (vp_f == 0), "sent to the filters exactly when accepted for them"); CLAIM(vp_ss == (vp_s == 0), "sent to the server exactly when accepted for it"); CLAIM(IFF(r != 0, (vp_f == 0 && vp_rf != 0) || (vp_s == 0 && vp_rs != 0)), "a queue that fails is reported"); COVER(r == 0, "done"); REACH(); }
#endif
#ifdef U4
static int vp_fd; static unsigned vp_t; static long vp_n; static void *vp_b; static size_t vp_z;
ssize_t readn_fifo(int fd, void *b, size_t n, unsigned int s){ CLAIM(fd == vp_fd && b == vp_b && n == vp_z && s == vp_t, "the answer is read"); vp_n = nondet_long(); ASSUME(vp_n >= -2 && (vp_n < 0 || (size_t)vp_n <= n)); return vp_n; }
#include VP_TARGET4
void h_pread(void){ struct pfilter_st f; vp_fd = f.fifofd = nondet_int(); vp_t = f.secs = nondet_uint(); vp_z = nondet_size(); ASSUME(vp_z <= MAXLEN); vp_b = malloc(vp_z); ASSUME(vp_b != NULL); int r = pfilter_read(&f, vp_b, vp_z); CLAIM(IFF(r == 0, vp_n >= 0 && (size_t)vp_n == vp_z), "success only with the whole answer"); CLAIM(IMP(vp_n == -1, r == -1), "an error is reported"); COVER(r == 1 && vp_n == -2, "timed out"); REACH(); }
#endif
