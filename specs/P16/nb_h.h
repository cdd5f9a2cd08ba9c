/* the processor: memory files, storage, queues and retransmission records are ghosts */
#include "../P05/pn_h.h"
#include "unz.h"
#include "file.h"
#include "efile.h"
#include "stats.h"
#include "qstate.h"
#include "filters.h"
#include "packfp.h"
#include "rtxdb.h"
#include "nbspq.h"
#include "spooldb.h"
#include "nbspmspoolbdb.h"
#include "spooltype.h"
#include "slave.h"
static struct pctl_element_st *PC; static struct memfile_st *PM, *OM; static struct pctl_st vpp;
static int GF, GW, vp_csz, vp_cz, vp_unzd, vp_usz, vp_werr, vp_uerr; static char *vp_cur; static char vp_frames[2];  /* frames read, frames written to the output */
static int vp_opn, vp_cls, vp_saved, vp_mdb, vp_cdb, vp_fail, vp_exp, vp_sp, vp_ok, vp_bad, vp_src; static size_t vp_skip;
struct memfile_st *reopen_pctl_outputmf(struct pctl_st *p){ CLAIM(p == &vpp, "output file"); GW = 0; if (nondet_bool()) { vp_fail = 1; return NULL; } return OM; }
int get_memframe(struct memfile_st *m, char **d, int *z){ CLAIM(m == PM, "frames come from the product"); if (GF >= PC->recv_fragments) return 0; GF++; vp_cur = vp_frames; vp_csz = nondet_int(); ASSUME(vp_csz >= 0 && vp_csz <= 100000); vp_cz = nondet_bool(); vp_unzd = 0; if (vp_csz == 0) { vp_uerr = 1; return 0; } *d = vp_cur; *z = vp_cz; return vp_csz; }
int unz(char *o, int *on, char *in, int n){ CLAIM(in == vp_cur && n == vp_csz && vp_cz && !vp_unzd && *on == MAX_FRDATA_SIZE && __CPROVER_w_ok(o, MAX_FRDATA_SIZE), "the compressed frame is expanded into a buffer that is large enough"); if (nondet_bool()) { vp_uerr = 1; return -3; } *on = vp_usz = nondet_int(); ASSUME(vp_usz >= 0 && vp_usz <= MAX_FRDATA_SIZE); vp_unzd = 1; return 0; }
int write_memfile(struct memfile_st *m, void *d, int n){ CLAIM(m == OM && GW == GF - 1, "every frame is written once, in order"); if (vp_cz) CLAIM(vp_unzd && d != vp_cur && n == vp_usz, "compressed frames are written expanded"); else CLAIM(d == vp_cur && n == vp_csz, "frames are written as stored"); if (nondet_bool()) { vp_werr = 1; return -1; } GW++; return n; }
static void vp_source(struct memfile_st *m){ CLAIM(m == (PC->saveunz_flag ? OM : PM), "the right file is saved"); if (PC->saveunz_flag) CLAIM(GW == PC->recv_fragments && !vp_werr && !vp_uerr, "all the fragments are saved"); }
int save_memfile_skip(int fd, struct memfile_st *m, size_t s){ CLAIM(fd == 7 && vp_opn && !vp_cls, "saved in the open file"); vp_source(m); vp_saved++; vp_skip = s; int r = nondet_int(); ASSUME(r >= -1 && r <= 1); if (r) vp_fail = 1; return r; }
int save_memfile(int fd, struct memfile_st *m){ return save_memfile_skip(fd, m, 0); }
int e_open_product_file(struct pctl_element_st *p){ CLAIM(p == PC && !vp_opn, "the file of the product"); if (nondet_bool()) { vp_fail = 1; return -1; } vp_opn = 1; return 7; }
static int vp_close(int fd){ CLAIM(fd == 7 && vp_opn && !vp_cls, "closed once"); vp_cls = 1; return 0; }
#define close(f) vp_close(f)
static struct memfile_st *vp_m(void){ return PC->saveunz_flag ? OM : PM; }
static int vp_bdb(char *f, void *d, size_t n){ struct memfile_st *m = vp_m(); vp_source(m); CLAIM(f == PC->fpath, "stored under its path"); size_t sk = PC->save_format == SAVEFORMAT_NO_CCB && PC->f_has_ccb == 1 ? CCB_SIZE : 0; CLAIM(d == (void *)(m->p + sk) && n == m->size - sk, "the memory spool receives exactly the product"); int r = nondet_bool() ? 0 : -1; if (r) vp_fail = 1; return r; }
int nbsp_mspoolbdb_insert(char *f, void *d, size_t n){ vp_mdb++; return vp_bdb(f, d, n); }
int nbsp_cspoolbdb_insert(char *f, void *d, size_t n){ vp_cdb++; return vp_bdb(f, d, n); }
static int vp_dbf; int spooldb_insert(struct spooldb_st *s, char *f){ CLAIM(f == PC->fpath, "recorded under its path"); vp_sp++; return nondet_bool() ? 0 : -1; }
static struct packet_info_st vp_pi; int nbsfp_pack_fpath(struct packet_info_st *p, struct pctl_element_st *q){ CLAIM(q == PC, "packet of the product"); return nondet_bool() ? 0 : 1; }
int filterq_regex_match(char *f){ return nondet_bool(); } int serverq_regex_match(char *f){ return nondet_bool(); } static int vp_rtxm; int rtxdb_regex_match(char *f){ return vp_rtxm; }
int e_nbspq_snd_filter(void *d, uint32_t n){ vp_exp |= 1; return 0; } int e_nbspq_snd_server(void *d, uint32_t n){ vp_exp |= 2; return 0; }
static int vp_orig, vp_get; static unsigned vp_okseq, vp_badseq, vp_getseq;
int e_nbsp_rtxdb_put_ok(unsigned s){ vp_ok++; vp_okseq = s; return nondet_int(); } int e_nbsp_rtxdb_put_fail(unsigned s){ vp_bad++; vp_badseq = s; return nondet_int(); } int e_nbsp_rtxdb_get_fstatus(unsigned s){ vp_get++; vp_getseq = s; return vp_orig; }
static int vp_rcv; struct pctl_element_st *eopen_pctl_outputpce(struct pctl_st *p, int t, int *s){ *s = vp_rcv; return vp_rcv == 0 ? PC : NULL; } static int vp_pclosed; void close_pctl_outputpce(struct pctl_st *p){ vp_pclosed++; }
static int vp_stat; void update_stats_products(int s){ vp_stat = s; } void update_stats_products_retransmitted_c(void){ } void update_stats_products_retransmitted_pi(int s){ } void update_stats_products_recovered(void){ }
#define fopen(f, m) NULL
#include VP_TARGET
#include VP_TARGET2
static void vp_mkmf(struct memfile_st *m){ m->allocsize = nondet_size(); ASSUME(m->allocsize >= 8192 && m->allocsize <= MAXLEN); m->p = malloc(m->allocsize); ASSUME(m->p != NULL); m->size = nondet_size(); ASSUME(m->size <= m->allocsize); m->nread = 0; }
static void vp_init(void){ PC = malloc(sizeof *PC + 16); PM = malloc(sizeof *PM); OM = malloc(sizeof *OM); ASSUME(PC != NULL && PM != NULL && OM != NULL); vp_mkmf(PM); vp_mkmf(OM); PC->mf = PM; g.pctl = &vpp; vpp.outputmf = OM; g.spooltype = nondet_int(); ASSUME(g.spooltype >= SPOOLTYPE_FS && g.spooltype <= SPOOLTYPE_MCBDB);
  ASSUME(PC->recv_fragments >= 0 && PC->recv_fragments <= 65536); ASSUME(PC->f_complete == 0 || (PC->f_complete == 1 && PC->recv_fragments >= PC->num_fragments && PC->num_fragments >= 1)); ASSUME(PC->f_has_ccb == 0 || PC->f_has_ccb == 1); ASSUME(PC->save_format == SAVEFORMAT_NO_CCB || PC->save_format == SAVEFORMAT_WITH_CCB);
  ASSUME(PC->saveunz_flag == 0 || PC->saveunz_flag == 1);
#ifdef VPFB
  ASSUME(PC->recv_fragments <= 3);
#endif
  GF = GW = vp_csz = vp_cz = vp_unzd = vp_usz = vp_werr = vp_uerr = 0; vp_cur = NULL; vp_opn = vp_cls = vp_saved = vp_mdb = vp_cdb = vp_fail = vp_exp = vp_sp = vp_ok = vp_bad = vp_get = vp_pclosed = 0; vp_skip = 0; vp_okseq = vp_badseq = vp_getseq = 0; vp_orig = nondet_int(); ASSUME(vp_orig >= -2 && vp_orig <= 1); vp_rcv = nondet_int(); ASSUME(vp_rcv >= -1 && vp_rcv <= 1); vp_stat = 99; vp_rtxm = nondet_int(); ASSUME(vp_rtxm >= -1 && vp_rtxm <= 1);
  g.rtxdb_default_process = nondet_int(); static struct spooldb_st *sd; g.spooldb = nondet_bool() ? NULL : (void *)&sd; g.rtxdb = nondet_bool() ? NULL : (void *)&sd; g.missinglogfile = g.rtxlogfile = NULL; }
#define FSP (g.spooltype == SPOOLTYPE_FS)
#define MSP (g.spooltype == SPOOLTYPE_MBDB || g.spooltype == SPOOLTYPE_FMBDB)
#define CSP (g.spooltype == SPOOLTYPE_CBDB || g.spooltype == SPOOLTYPE_MCBDB)
static void vp_where(int r){ size_t sk = PC->save_format == SAVEFORMAT_NO_CCB && PC->f_has_ccb == 1 ? CCB_SIZE : 0;
  CLAIM(vp_saved <= 1 && vp_mdb <= 1 && vp_cdb <= 1, "saved once"); CLAIM(IMP(MSP, !vp_saved && !vp_cdb && !vp_opn) && IMP(FSP, !vp_mdb && !vp_cdb) && IMP(CSP, !vp_mdb), "saved where configured"); CLAIM(IMP(vp_saved, vp_skip == sk), "with or without the control block as configured"); CLAIM(vp_opn == vp_cls, "the file is closed");
  CLAIM(IMP(r == 0, !vp_fail && !vp_werr && !vp_uerr && IMP(FSP || CSP, vp_saved) && IMP(MSP, vp_mdb) && IMP(CSP, vp_cdb)), "success only when it was saved completely"); CLAIM(IMP(r != 0 && !vp_fail && !vp_werr && !vp_uerr, sk && vp_m()->size <= sk), "a product that was saved is not reported as failed"); }
