//@ target src/serverm.c
//@ unit emwin harness=h_emwin defs=U1 plain about=exec_emwin_filter,e_emwin_pfilter_read unwind=6
//@ unit fanout harness=h_fan defs=U2 solver=default replace=exec_emwin_filter about=server_send_client_queues loops fbunwind=5 fbdefs=VPFB
//@ loop server_send_client_queues 1 __CPROVER_assigns(i, emwinclients, protocol) __CPROVER_loop_invariant(0 <= i && i <= numentries && 0 <= emwinclients && emwinclients <= i && IMP(vp_k < i && vp_run && vp_proto == PROTOCOL_EMWIN, emwinclients > 0)) __CPROVER_decreases(numentries - i)
//@ loop server_send_client_queues 2 __CPROVER_assigns(i, protocol, f_thread_created, nameorip, status, dberror, now, last, vp_q, vp_qe, vp_qn) __CPROVER_loop_invariant(0 <= i && i <= numentries && IMP(vp_k < i, vp_q == vp_want(vp_st1)) && IMP(vp_k >= i, vp_q == 0) && IMP(vp_q, vp_qe == (vp_proto == PROTOCOL_EMWIN))) __CPROVER_decreases(numentries - i)
//@ assume the client queues behave as P15 proves, the connection table as P21 proves, pfilter_read as the other units prove
#include "vp.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#define SFILTER_H
struct sfilterp_st;
#include "libconnth/libconn.h"
#include "globals.h"
#include "err.h"
#include "packfpc.h"
#include "pfilter.h"
#include "emwin.h"
#include "appdata.h"
#include "server.h"
#include "server_priv.h"
struct nbsp_globals g;
void log_err(char *s){} void log_errx(char *f, ...){} void log_info(char *f, ...){} void log_verbose(int l, char *f, ...){} void log_warnx(char *f, ...){} void log_err2_db(char *a, char *b, int c){} void log_err2(char *a, char *b){}
static struct packet_info_st PI;
static int vp_printed, vp_flst, vp_pn; static int vp_fprintf(FILE *f, const char *s, ...){ if (s[0] == '%') { CLAIM(!vp_printed, "one question"); vp_printed = 1; int r = nondet_int(); vp_pn = r < 0; return r; } return 0; }
#undef fprintf
#define fprintf vp_fprintf
int pfilter_flush(struct pfilter_st *p){ int r = nondet_int(); if (vp_printed && r != 0 && vp_flst == 0) vp_flst = r; return r; }
static int vp_match; int emwin_regex_match(char *n){ CLAIM(n == PI.fname, "by the name of the product"); return vp_match; }
static struct pfilter_st PF; static int vp_open, vp_closed, vp_opened; struct pfilter_st *pfilter_open_wr(char *s, char *f, unsigned t){ if (nondet_bool()) return NULL; vp_opened++; return &PF; } void pfilter_close(struct pfilter_st *p){ CLAIM(p == &PF, "the filter"); vp_closed++; }
static int vp_rd, vp_rst[4]; static unsigned char vp_b0, vp_b[4]; static void *vp_rb[4]; static size_t vp_rn[4];
int pfilter_read(struct pfilter_st *p, void *b, size_t n){ CLAIM(p == &PF && vp_printed && !vp_closed, "the answer follows the question"); CLAIM(vp_rd < 4 && __CPROVER_w_ok(b, n), "room for the answer"); vp_rb[vp_rd] = b; vp_rn[vp_rd] = n; if (vp_rd == 0 && n == 1) ((unsigned char *)b)[0] = vp_b0; if (vp_rd == 1 && n == 4) for (int i = 0; i < 4; i++) ((unsigned char *)b)[i] = vp_b[i]; return vp_rst[vp_rd++]; }
/* the table: any number of entries; entry vp_k is an arbitrary one */
static int vp_k, vp_proto, vp_run, vp_cli, vp_allow, vp_q, vp_qe, vp_n, vp_filt, vp_fst; static size_t vp_qn; static connqueue_t *vp_cq;
#define vp_want(st1) (vp_cli && vp_run && !(g.netfilter_enable == 1 && !vp_allow) && (vp_proto == PROTOCOL_EMWIN ? st1 == 0 : vp_proto == PROTOCOL_NBS1 || vp_proto == PROTOCOL_NBS2))
static struct conn_table_st CT; static struct conn_element_st CE[100];
int conn_table_get_netclients(struct conn_table_st *c){ return vp_cli || nondet_bool(); } int conn_table_get_numentries(struct conn_table_st *c){ return vp_n; }
int conn_table_element_isnetclient(struct conn_table_st *c, int i){ CLAIM(c == &CT && i >= 0 && i < vp_n, "an entry of the table"); ASSUME(i == vp_k || CE[i].cq != vp_cq); /* each entry has its own queue */ return i == vp_k ? vp_cli : nondet_bool(); } int conn_table_element_isnetclient_running(struct conn_table_st *c, int i){ CLAIM(c == &CT && i >= 0 && i < vp_n, "an entry of the table"); return i == vp_k ? vp_run : nondet_bool(); } int conn_table_element_isnetclient_stoped(struct conn_table_st *c, int i){ return nondet_bool(); }
int get_client_protocol(struct conn_table_st *c, int i){ CLAIM(i >= 0 && i < vp_n, "an entry of the table"); return i == vp_k ? vp_proto : nondet_int(); } int conn_table_get_element_fthread_created(struct conn_table_st *c, int i){ return nondet_bool(); } char *conn_element_get_nameorip(struct conn_element_st *e){ return "x"; } int allow_filter_get_flag(struct conn_element_st *e){ return e == &CE[vp_k] ? vp_allow : nondet_bool(); }
int emwin_queue_info_get_size(void){ return sizeof(struct emwin_queue_info_st); }
static int vp_snd(struct conn_element_st *e, void *p, size_t n){ if (e == &CE[vp_k]) { vp_q++; vp_qe = p != PI.packet; vp_qn = n; CLAIM(vp_qe == (vp_proto == PROTOCOL_EMWIN), "each client gets what its protocol needs"); CLAIM(n == (vp_qe ? sizeof(struct emwin_queue_info_st) : PI.packet_size), "all of it"); } return nondet_int(); }
int connqueue_snd(connqueue_t *q, void *p, uint32_t n, int *e){ struct conn_element_st *c = NULL; if (q == vp_cq) c = &CE[vp_k]; *e = 0; return c ? vp_snd(c, p, n) : nondet_int(); }
time_t get_client_qlimit_log_last(struct conn_element_st *e){ return nondet_long() & 0xffffffff; } int set_client_qlimit_log_last(struct conn_element_st *e, time_t t){ return 0; } int exec_net_filter(struct sfilterp_st *s, struct conn_table_st *c){ CLAIM(c == &CT, "the table"); vp_filt++; return vp_fst; }
static int vp_st1, vp_emw;
#ifdef U2
static int exec_emwin_filter(struct packet_info_st *p, char *f, size_t fn, char *e, size_t en) __CPROVER_requires(p == &PI && __CPROVER_w_ok(f, fn) && __CPROVER_w_ok(e, en) && vp_emw == 0) __CPROVER_assigns(vp_emw, vp_st1) __CPROVER_ensures(vp_emw == 1 && RET == vp_st1);
#endif
static time_t vp_time(time_t *t){ return nondet_long() & 0xffffffff; }
#define time vp_time
#include VP_TARGET
#ifdef U1
void h_emwin(void){ g.f_emwinserver_enabled = 1; PI.fname = malloc(1); PI.fpath = malloc(1); ASSUME(PI.fname != NULL && PI.fpath != NULL); vp_match = nondet_int(); ASSUME(vp_match >= -1 && vp_match <= 1); vp_printed = vp_flst = vp_closed = vp_rd = vp_opened = 0; vp_pn = 0; gemwinfilterp = nondet_bool() ? &PF : NULL; for (int i = 0; i < 4; i++) { vp_rst[i] = nondet_int(); ASSUME(vp_rst[i] >= -1 && vp_rst[i] <= 1); vp_b[i] = nondet_uchar(); } vp_b0 = nondet_uchar();
  size_t fn = nondet_size(), en = nondet_size(); ASSUME(fn >= 1 && fn <= 70000 && en >= 1 && en <= 70000); char *f = malloc(fn), *e = malloc(en); ASSUME(f != NULL && e != NULL); size_t fz = vp_b[0] * 256u + vp_b[1], ez = vp_b[2] * 256u + vp_b[3];
  int r = exec_emwin_filter(&PI, f, fn, e, en); int good = vp_printed && !vp_pn && vp_flst == 0;
  if (vp_match != 0) CLAIM(r == vp_match && !vp_printed, "a product that the list rejects is not sent"); else { if (r == 0) CLAIM(good && vp_rd == 4 && vp_rst[0] == 0 && vp_b0 == 0 && vp_rst[1] == 0 && vp_rst[2] == 0 && vp_rst[3] == 0, "sent only on a complete positive answer"), CLAIM(vp_rb[2] == f && vp_rn[2] == fz && fz < fn && f[fz] == 0 && vp_rb[3] == e && vp_rn[3] == ez && ez < en && e[ez] == 0, "with the two names of the answer");
    else CLAIM(!(good && vp_rst[0] == 0 && vp_b0 == 0 && vp_rst[1] == 0 && vp_rst[2] == 0 && vp_rst[3] == 0 && fz < fn && ez < en), "a positive answer is obeyed"); if (good && vp_rst[0] == 0 && vp_b0 != 0) CLAIM(r == vp_b0 && vp_rd == 1 && !vp_closed, "a negative answer is obeyed"); else if (r != 0) CLAIM(r == -1 && vp_closed <= 1, "an error is reported"); if (r == -1 && vp_printed) CLAIM(gemwinfilterp == NULL && vp_closed == 1, "after an error the filter is started again, no later product gets an old answer"); }
  COVER(r == 0, "send"); COVER(r == 1, "do not send"); COVER(r == -1 && vp_rd == 4, "error at the end"); REACH(); }
#endif
#ifdef U2

void h_fan(void){ vp_n = nondet_int(); ASSUME(vp_n >= 1 && vp_n <= 100); 
#ifdef VPFB
  ASSUME(vp_n <= 3); for (int i = 0; i < 3; i++) CE[i].cq = malloc(1);
#endif
  CT.ce = CE; g.ct = &CT; vp_k = nondet_int(); ASSUME(vp_k >= 0 && vp_k < vp_n); vp_cq = CE[vp_k].cq; vp_proto = nondet_int(); vp_run = nondet_bool(); vp_cli = nondet_bool(); ASSUME(IMP(vp_run, vp_cli)); vp_allow = nondet_bool(); g.netfilter_enable = nondet_int(); g.f_emwinserver_enabled = 0; g.emwinfilter_always = nondet_int(); gnetfilterp = nondet_bool() ? NULL : (void *)&PF; vp_fst = nondet_int(); vp_q = vp_qe = vp_filt = vp_st1 = vp_emw = 0; vp_qn = 0; PI.fname = malloc(1); PI.packet = malloc(1); PI.packet_size = nondet_uint(); ASSUME(PI.fname != NULL && PI.packet != NULL);
  int r = server_send_client_queues(&PI); CLAIM(r == 0, "never stops the server"); if (vp_filt && vp_fst != 0) CLAIM(vp_q == 0, "nothing is sent when the policy cannot be told"); else CLAIM(vp_q == vp_want(vp_st1), "every admitted client gets the product once, no other client does"); CLAIM(IMP(vp_q && vp_qe, vp_emw), "after the emwin filter"); COVER(vp_q == 1 && vp_qe, "sent to an emwin client"); COVER(vp_q == 1 && !vp_qe, "sent to another client"); COVER(vp_q == 0, "not sent"); REACH(); }
#endif
