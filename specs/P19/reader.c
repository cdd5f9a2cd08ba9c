//@ target src/slavein/reader.c
//@ unit recv harness=h_recv defs=U1 plain about=recv_in_packet,slavein_init,slavein_info_create,slavein_cleanup,slavein_info_destroy
//@ unit loop harness=h_loop defs=U2 plain about=slavein_loop,recv_in_packet
//@ assume sscanf reads up to five numbers from the text it is given, strrchr, strlen and strncpy have their C meaning
//@ assume readn behaves as P11 proves, findbasename as P04 proves, nbsfp_pack_fpath as P08 proves
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#include <pthread.h>
#include "slave.h"
#include "err.h"
#include "pctl.h"
#include "packfp.h"
/* a record of any size and content: L = its first NUL (or its end), S1 = the last blank before that, S2 = the last blank before S1 */
static int vp_fd, vp_reads, vp_fail, vp_noh; static uint32_t FS; static long vp_n1, vp_n2; static char *RB; static size_t L, S1, S2, GI; static int H1, H2, vp_nl, vp_stage; static char vp_gc;
static unsigned vp_t; static int vp_k; static unsigned vp_v0; static int vp_v[4]; static const char *vp_bn; static int vp_bo, vp_hb; static size_t J; static int vp_packs, vp_packst; static struct pctl_element_st *PCE; static struct packet_info_st *PI; static size_t vp_mx;
int const_fpath_maxsize(void){ return (int)vp_mx; }
int const_pce_size(void){ return (int)(sizeof(struct pctl_element_st) + vp_mx + 1); }
uint32_t unpack_uint32(void *p, size_t s){ unsigned char *q = (unsigned char *)p + s; CLAIM(__CPROVER_r_ok(q, 4), "the size is read inside its four bytes"); return (uint32_t)q[0] << 24 | (uint32_t)q[1] << 16 | (uint32_t)q[2] << 8 | q[3]; }
ssize_t readn(int fd, void *b, size_t n, unsigned int t, int r){ CLAIM(fd == vp_fd && __CPROVER_w_ok(b, n), "the reader writes only in its buffer"); vp_reads++; long k = nondet_long(); ASSUME(k == -1 || k == -2 || (k >= 0 && (size_t)k <= n)); CLAIM(t == vp_t, "the time limit configured");
  if (vp_reads == 1) { CLAIM(n == 4, "four bytes with the size are read first"); unsigned char *q = b; q[0] = FS >> 24; q[1] = FS >> 16; q[2] = FS >> 8; q[3] = FS; vp_n1 = k; return k; }
  CLAIM(vp_reads == 2 && vp_n1 == 4 && n == (size_t)FS + 1, "then exactly the record announced and its end"); vp_n2 = k; RB = b; ASSUME(L <= FS); RB[FS] = vp_nl ? '\n' : vp_gc;
  if (L < FS) RB[L] = 0; ASSUME(IMP(GI < L, RB[GI] != 0)); ASSUME(IMP(H1, S1 < L && RB[S1] == ' ')); ASSUME(IMP(GI < L && (!H1 || GI > S1), RB[GI] != ' ')); ASSUME(IMP(H2, H1 && S2 < S1 && RB[S2] == ' ')); ASSUME(IMP(H1 && GI < S1 && (!H2 || GI > S2), RB[GI] != ' ')); return k; }
static int vp_scan(const char *s, const char *f, void *a, void *b, void *c, void *d, void *e){ CLAIM(s == RB && vp_n2 == (long)FS + 1 && RB[FS] == 0, "a complete terminated record is parsed"); for (int i = 0; i < 15; i++) CLAIM(f[i] == "%u %d %d %d %d"[i], "five numbers");
  if (vp_k > 0) *(unsigned *)a = vp_v0; if (vp_k > 1) *(int *)b = vp_v[0]; if (vp_k > 2) *(int *)c = vp_v[1]; if (vp_k > 3) *(int *)d = vp_v[2]; if (vp_k > 4) *(int *)e = vp_v[3]; return vp_k; }
static char *vp_rchr(const char *s, int c){ CLAIM(s == RB && c == ' ', "the blanks of the record"); if (!H1) return NULL; if (RB[S1] == ' ') return RB + S1; CLAIM(RB[S1] == 0, "the record is cut at the last blank"); return H2 ? RB + S2 : NULL; }
static size_t vp_len(const char *s){ if (PCE != NULL && __CPROVER_same_object(s, PCE)) { if (s == PCE->fpath) return L - S1 - 1; CLAIM(s == vp_bn, "the base name"); return L - S1 - 1 - vp_bo; } CLAIM(__CPROVER_same_object(s, RB), "a part of the record"); size_t o = (size_t)(s - RB); if (H1 && o == S1 + 1) return L - o; CLAIM(H1 && H2 && o == S2 + 1 && RB[S1] == 0, "a name of the record"); return S1 - o; }
/* copies are recorded: the record itself does not change after them (RB is written by the reader only before) */
static struct { const char *s; size_t n; } vp_c[3];
static char *vp_ncpy(char *d, const char *s, size_t n){ CLAIM(__CPROVER_w_ok(d, n), "room for the copy"); int k = d == PCE->fpath ? 0 : d == PCE->fname ? 1 : 2; CLAIM(k < 2 || d == PCE->fbasename, "the copies go to the three fields"); CLAIM(n <= (k == 0 ? (size_t)vp_mx + 1 : k == 1 ? FNAME_SIZE + 1 : FBASENAME_SIZE + 1), "the copy stays in its field"); vp_c[k].s = s; vp_c[k].n = n; return d; }
char *findbasename(char *p){ CLAIM(p == PCE->fpath, "the path"); if (!vp_hb) return NULL; vp_bn = p + vp_bo; return p + vp_bo; }
int nbsfp_pack_fpath(struct packet_info_st *pi, struct pctl_element_st *p);
int nbsfp_packetinfo_create(struct packet_info_st **p){ if (nondet_bool()) return -1; PI = malloc(sizeof *PI); if (PI == NULL) return -1; *p = PI; return 0; } static int vp_pd; void nbsfp_packetinfo_destroy(struct packet_info_st *p){ CLAIM(p == PI, "the packet"); vp_pd++; free(p); }
void log_err(char *s){} void log_errx(char *s,...){} void log_info(char *s,...){} void log_verbose(int l, char *s,...){} void log_warnx(char *s,...){} void log_err2(char *s, char *o){}
static int vp_proc, vp_procst, vp_pk, vp_ce, vp_er; static size_t vp_psz;
int slaveinproc(struct packet_info_st *p){ CLAIM(p == PI && vp_packs == 1 && vp_packst == 0, "only an accepted record is processed"); vp_proc++; return vp_procst; }
void slave_stats_update_packets(struct slave_element_st *s, size_t b){ vp_pk++; } void slave_stats_update_connect_errors(struct slave_element_st *s){ vp_ce++; } void slave_stats_update_errors(struct slave_element_st *s){ vp_er++; } void slave_stats_report(struct slave_element_st *s){}
static int vp_setc(int a, int *b){ return 0; }
#undef strncpy
#undef strlen
#undef strrchr
#undef sscanf
#define strncpy vp_ncpy
#define strlen(s) vp_len(s)
#define strrchr vp_rchr
#define sscanf(s, f, a, b, c, d, e) vp_scan(s, f, a, b, c, d, e)
static unsigned char vp_pceb[sizeof(struct pctl_element_st) + 5001]; static int vp_pcef;
static void *vp_malloc(size_t n){ if (n == sizeof(struct pctl_element_st) + vp_mx + 1 && !vp_pcef) { vp_pcef = 1; return nondet_bool() ? vp_pceb : NULL; } return malloc(n); }
static void vp_free(void *p){ if (p == vp_pceb) { CLAIM(vp_pcef == 1, "released once"); vp_pcef = 2; } else free(p); }
#define malloc vp_malloc
#define free vp_free
#define pthread_setcancelstate vp_setc
#define pthread_testcancel() ((void)0)
#include VP_TARGET
#undef strlen
#define FSP ((size_t)(L - S1 - 1))
#define FNM ((size_t)(S1 - S2 - 1))
#define OKREC (FS < INT_MAX && vp_nl && vp_k == 5 && H1 && H2 && FSP <= vp_mx && vp_hb && FSP - vp_bo <= FBASENAME_SIZE && FNM <= FNAME_SIZE)
int nbsfp_pack_fpath(struct packet_info_st *pi, struct pctl_element_st *p){ vp_packs++; CLAIM(pi == PI && p == PCE, "the record is handed over"); CLAIM(OKREC && vp_n1 == 4 && vp_n2 == (long)FS + 1, "only a complete well formed record is handed over");
  CLAIM(p->seq_number == vp_v0 && p->psh_product_type == vp_v[0] && p->psh_product_category == vp_v[1] && p->psh_product_code == vp_v[2] && p->np_channel_index == vp_v[3], "the numbers of the record");
  CLAIM(vp_c[0].s == RB + S1 + 1 && vp_c[0].n > FSP, "the path of the record"); CLAIM(vp_c[1].s == RB + S2 + 1 && RB[S1] == 0 && vp_c[1].n > FNM, "the name of the record"); CLAIM((vp_c[2].s == PCE->fpath + vp_bo || vp_c[2].s == RB + S1 + 1 + vp_bo) && vp_c[2].n > FSP - vp_bo, "the base name is that of the path"); return vp_packst; }
static struct slave_element_st SE; static char *OB; static int OBS;
static int vp_setup(void){ vp_mx = nondet_size(); ASSUME(vp_mx <= 5000); PCE = NULL; PI = NULL; vp_pcef = vp_pd = 0; SE.slave_fd = nondet_int(); vp_fd = SE.slave_fd; SE.options.slave_read_timeout_secs = nondet_uint(); vp_t = (unsigned)SE.options.slave_read_timeout_secs; SE.info = NULL;
  int r = slavein_init(&SE); if (r != 0) { CLAIM(r == -1 && SE.info == NULL, "nothing is left after a failure"); return 1; } struct slavein_info_st *q = SE.info; CLAIM(q != NULL && q->packetinfo == PI && q->buffer == NULL && q->buffer_size == 0, "the state starts empty"); PCE = q->pce; CLAIM((unsigned char *)PCE == vp_pceb && (size_t)PCE->fpath_size == vp_mx + 1, "room for every path");
  if (nondet_bool()) { OBS = nondet_int(); ASSUME(OBS >= 1); OB = malloc(OBS); ASSUME(OB != NULL); q->buffer = OB; q->buffer_size = OBS; }   /* the buffer of an earlier record */
  FS = nondet_uint(); L = nondet_size(); S1 = nondet_size(); S2 = nondet_size(); GI = nondet_size(); J = nondet_size(); H1 = nondet_bool(); H2 = nondet_bool(); vp_nl = nondet_bool(); vp_gc = (char)nondet_uchar(); ASSUME(vp_gc != '\n'); vp_k = nondet_int(); ASSUME(vp_k >= -1 && vp_k <= 5); vp_v0 = nondet_uint(); for (int i = 0; i < 4; i++) vp_v[i] = nondet_int(); vp_hb = nondet_bool(); vp_bo = nondet_int(); ASSUME(vp_bo >= 0 && IMP(vp_hb && H1, IMP(L > S1, (size_t)vp_bo < L - S1 - 1 || (L - S1 == 1 && 0)))); ASSUME(IMP(!H1, !H2)); ASSUME(IMP(H1, S1 < L)); ASSUME(IMP(H2, S2 < S1)); vp_packst = nondet_int(); vp_reads = vp_packs = vp_proc = vp_pk = vp_ce = vp_er = 0; vp_procst = nondet_int(); vp_n1 = vp_n2 = -3; RB = NULL; vp_bn = NULL; vp_c[0].s = vp_c[1].s = vp_c[2].s = NULL; return 0; }
#ifdef U1
void h_recv(void){ if (vp_setup()) { REACH(); return; } struct slavein_info_st *q = SE.info; int r = recv_in_packet(&SE); int full = vp_n1 == 4 && vp_reads == 2 && vp_n2 == (long)FS + 1;
  CLAIM(SE.info == q && q->pce == PCE && q->packetinfo == PI, "the state stays"); CLAIM(q->buffer == NULL ? q->buffer_size == 0 : q->buffer_size > 0 && __CPROVER_w_ok(q->buffer, q->buffer_size), "the buffer has the size recorded");
  if (vp_packs) CLAIM(r == vp_packst, "the result is that of packing"); else { CLAIM(r != 0, "what is not accepted is reported"); CLAIM(!(full && OKREC), "a complete well formed record is accepted"); if (full) CLAIM(r > 0, "a bad record is told from a reading error"); }
  CLAIM(IMP(vp_n1 == -1, r == -1) && IMP(vp_n1 == -2, r == -2) && IMP(vp_n1 == 0, r == -3) && IMP(vp_n1 > 0 && vp_n1 < 4, r == 1), "time out, end and errors are told apart"); CLAIM(IMP(vp_reads == 2 && vp_n2 == -1, r == -1) && IMP(vp_reads == 2 && vp_n2 != -1 && !full, r == 1), "an incomplete record is told apart");
  COVER(vp_packs == 1, "accepted"); COVER(r == 2, "no end"); COVER(r == 9, "name too long"); COVER(r == 6, "path too long"); COVER(r == -2, "nothing there");
  slavein_cleanup(&SE); CLAIM(SE.info == NULL && vp_pd == 1, "all is released"); slavein_cleanup(&SE); REACH(); }
#endif
#ifdef U2
void h_loop(void){ if (vp_setup()) return; PI->packet_size = nondet_size(); int r = slavein_loop(&SE); CLAIM(IMP(vp_proc, vp_packs == 1 && vp_packst == 0), "processed only if accepted"); CLAIM(IFF(vp_packs == 1 && vp_packst == 0, vp_proc == 1), "an accepted record is processed once"); CLAIM(r == (vp_proc ? (vp_procst == 0 ? 0 : 2) : vp_n1 == -2 || (vp_packs && vp_packst == -2) ? 0 : 1), "after a bad record the pipe is closed and opened again");
  CLAIM(vp_pk == (r == 0 && vp_proc) && vp_er == (r == 2) && vp_ce == (r == 1), "the counters"); COVER(r == 0, "done"); COVER(r == 1, "refused"); COVER(r == 2, "processing failed"); REACH(); }
#endif
