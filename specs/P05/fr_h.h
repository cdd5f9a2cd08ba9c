/* one frame handled from an arbitrary state of two channels; the memory files and the queue are ghosts */
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <assert.h>
#include <pthread.h>
#include "vpdb.h"
#define pthread_mutex_t int
#define pthread_cond_t int
#define NBSP_GLOBALS_DEF
#include "globals.h"
#include "oscompat.h"
#include "err.h"
#include "sbn.h"
#include "nbspre.h"
static void vp_log(int l, ...){ }
#define log_info(...) vp_log(0, __VA_ARGS__)
#define log_warnx(...) vp_log(0, __VA_ARGS__)
#define log_errx(...) vp_log(0, __VA_ARGS__)
#define log_err(...) vp_log(0, __VA_ARGS__)
#define log_err2u(...) vp_log(0, __VA_ARGS__)
#define log_verbose(...) vp_log(__VA_ARGS__)
#define log_debug(...) vp_log(0, __VA_ARGS__)
#define db_strerror(e) ((char *)"")
void update_stats_frames_received(unsigned n){ } void update_stats_frames(int s){ } void update_stats_frames_jumps(void){ } void update_stats_products_transmitted(void){ } void update_stats_products_retransmitted(void){ }
void update_stats_products_completed(void){ } void update_stats_products_missed(void){ } void update_stats_products_aborted(void){ } void update_stats_products_rejected(void){ }
static int C, O;                                         /* the channel of the frame, another one */
static struct pctl_element_st *PC, *PO; static struct memfile_st *MC, *MO; static struct pctl_st vpp; static struct pctl_element_st *vp_arr[NPCAST_NUM_CHANNELS];
static int GN, GHDR, GWE; static int vp_ann; static unsigned GSEQ; static int GOPEN;     /* fragments stored, control header stored, a failed write; announced count and number of the opener */
static int vp_sends, vp_completes, vp_sent_recv, vp_rej, vp_senderr;
static unsigned FSEQ; static int FBLK, FANN; static void *FDATA; static int FSIZE, FZ; static void *FCH; static int FCHN;    /* the frame */
int open_memfile(struct memfile_st *m){ CLAIM(m == MC, "only the memory file of the channel is used"); int r = (GN || GHDR || GWE); if (r == 0) { GOPEN = 1; GSEQ = FSEQ; vp_ann = FANN; } return r; }
void close_memfile(struct memfile_st *m){ CLAIM(m == MC, "only the memory file of the channel is used"); GN = GHDR = GWE = GOPEN = 0; }
int adjust_memfile_size(struct memfile_st *m, size_t n){ CLAIM(m == MC, "only the memory file of the channel is used"); return nondet_int(); }
static int vp_frag(struct memfile_st *m, void *d, int n){ CLAIM(m == MC && GOPEN && GSEQ == FSEQ, "a fragment is stored only in the product that its number belongs to"); int f = nondet_bool();
#ifndef SLAVE
  if (d == FCH && d != FDATA) { CLAIM(GN == 0 && GHDR == 0 && FBLK == 0 && n == FCHN, "the control header precedes the first fragment"); if (f) GHDR = 1; else GWE = 1; return f ? n : -1; }
  CLAIM(IMP(FBLK == 0 && FCH != NULL && !PC->saveunz_flag, GHDR), "the control header precedes the first fragment");
#endif
  CLAIM(d == FDATA && n == FSIZE, "the fragment stored is the one received"); CLAIM(FBLK == GN, "fragments are stored in order"); CLAIM(!GWE, "nothing is stored after a failed write"); if (f) GN++; else GWE = 1; return f ? n : -1; }
int write_memfile(struct memfile_st *m, void *d, int n){ CLAIM(!PC->saveunz_flag, "stored as it is"); return vp_frag(m, d, n); }
int write_memframe(struct memfile_st *m, char *d, int n, int z){ CLAIM(PC->saveunz_flag && z == FZ, "stored with its compression flag"); return vp_frag(m, d, n); }
static struct memfile_st *vp_mk; struct memfile_st *create_memfile(size_t n){ return vp_mk; } void destroy_memfile(struct memfile_st *m){ }
int pctldb_open(struct pctldb_st **p, struct pctldb_param_st *q, int *e){ return -1; } int pctldb_close(struct pctldb_st *p, int *e){ return 0; } int pctldb_rcv_pce(struct pctldb_st *p, struct pctl_element_st *q, int t, int *e){ return 1; } int pctldb_sync(struct pctldb_st *p, int *e){ return 0; }
int pctldb_send_pce(struct pctldb_st *p, struct pctl_element_st *q, int *e){ CLAIM(q == PC && q->mf == MC, "the product of the channel is queued"); vp_sends++; *e = nondet_int(); int r = nondet_int(); ASSUME(r >= -1 && r <= 2); if (r == 2 || r == -1) vp_senderr = 1;
  if (q->f_complete) { vp_completes++; CLAIM(q->f_complete == 1 && GOPEN && !GWE && q->num_fragments == vp_ann && GN == q->recv_fragments && GN >= vp_ann && GN >= 1 && q->seq_number == GSEQ && GSEQ == FSEQ, "a complete product has all the fragments its opener announced, in order, and nothing else"); }
  else CLAIM(GOPEN && q->seq_number == GSEQ, "an incomplete product is queued as such"); return r; }
struct nbsp_globals g;
static int vp_reg1, vp_reg2; int np_regex_match(char *f){ return vp_reg1; } int savez_regex_match(char *f){ return vp_reg2; }
int oscompat_clock_gettime(struct timespec *t){ t->tv_sec = nondet_long(); t->tv_nsec = nondet_long(); return 0; }
#ifndef VP_NAMES
static int vp_long; static int vp_snp(char *d, size_t n, const char *f, ...){ int r = nondet_int(); ASSUME(r >= 0 && r <= 200); if (d == PC->fbasename) ASSUME((size_t)r < n); if ((size_t)r >= n) vp_long = 1; if (n > 0) d[0] = 0; return r; }
#endif
static char vp_dir[] = "s";
#define INVC (PC->mf == MC && PC->num_fragments >= 0 && (PC->num_fragments == 0 ? (!GOPEN && GN == 0 && !GHDR && !GWE) : (GOPEN && !GWE && PC->f_complete == 0 && PC->num_fragments == vp_ann && PC->seq_number == GSEQ && GN == PC->recv_fragments && GN >= 0 && GN <= 65536 && IMP(GN == 0, !GHDR))))
static struct pctl_element_st vp_o0, vp_c0; static int vp_act0;
static void vp_init(void){ PC = malloc(sizeof *PC + 16); PO = malloc(sizeof *PO + 16); MC = malloc(sizeof *MC); MO = malloc(sizeof *MO); ASSUME(PC != NULL && PO != NULL && MC != NULL && MO != NULL);
  C = nondet_int(); O = nondet_int(); ASSUME(C >= 0 && C < NPCAST_NUM_CHANNELS && O >= 0 && O < NPCAST_NUM_CHANNELS && C != O); for (int i = 0; i < NPCAST_NUM_CHANNELS; i++) vp_arr[i] = NULL; vp_arr[C] = PC; vp_arr[O] = PO;
  PC->mf = MC; PO->mf = MO; PC->fpath_size = PO->fpath_size = 17; vpp.activepce = vp_arr; vpp.num_activechannels = NPCAST_NUM_CHANNELS; vpp.pctldb = NULL; g.pctl = &vpp; g.spooldir = vp_dir; g.memfile_blocksize = nondet_int(); g.memfile_minsize = nondet_int(); ASSUME(g.memfile_blocksize > 0 && g.memfile_blocksize < 32767 && g.memfile_minsize > 0); g.f_loadave_max_rtx = nondet_int(); g.spoolsavefmt = nondet_int(); g.slave_reject_duplicates = nondet_int();
  vp_sends = vp_completes = vp_long = vp_senderr = 0; vp_reg1 = nondet_int(); vp_reg2 = nondet_int(); ASSUME(vp_reg1 >= -1 && vp_reg1 <= 1 && vp_reg2 >= -1 && vp_reg2 <= 1);
  GN = nondet_int(); GHDR = nondet_bool(); GWE = 0; GOPEN = nondet_bool(); GSEQ = nondet_uint(); vp_ann = nondet_int(); ASSUME(vp_ann >= 1 && vp_ann <= 65535); ASSUME(INVC); ASSUME(IMP(PC->num_fragments != 0 && PC->saveunz_flag, !GHDR)); vp_act0 = PC->num_fragments != 0; vp_o0 = *PO; vp_c0 = *PC; }
static void vp_frames(void){ CLAIM(vp_arr[O] == PO && PO->f_complete == vp_o0.f_complete && PO->num_fragments == vp_o0.num_fragments && PO->recv_fragments == vp_o0.recv_fragments && PO->seq_number == vp_o0.seq_number && PO->mf == MO && PO->saveunz_flag == vp_o0.saveunz_flag && PO->np_channel_index == vp_o0.np_channel_index, "the product of another channel is untouched"); CLAIM(vp_arr[C] == PC, "the channel keeps its product"); }
#define snprintf vp_snp
#ifndef VP_NAMES
/* the names are the subject of P04 */
#define strncpy(d, s, n) ((void)(s), (void)(n), (d)[0] = 0, (d))
#define strncat(d, s, n) ((void)(s), (void)(n), (d)[0] = 0, (d))
#define strlen(s) ((void)(s), (size_t)0)
#endif
