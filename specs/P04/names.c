//@ target src/framep.c
//@ target src/pctl.c
//@ unit names harness=h_names plain about=make_product_fname,make_product_fbasename,make_product_fpath,cvt_to_lc,const_fpath_maxsize,start_activepce unwind=65 solver=default
//@ assume snprintf formats %s, %c and %u as C requires; the spool directory name has at most 4096 characters
//@ assume the header parts are those P03 proves: a six character identifier, a four letter station, six digits, codes of at most six alphanumeric characters
#include "nm_h.h"
static struct sbn_frame *SF; int sbn_unpack_frame(struct sbn_frame *f){ return 0; }
static char HI[7], HS[5], HT[7], HA[7], HN[7]; static int LA, LN;
static void vp_part(char *o, const char *h, int n){ for (int i = 0; i <= n; i++) o[i] = h[i]; }
int split_wmo_header(struct sbn_frame *f, char *a, char *b, char *c, char *d, char *e){ vp_part(a, HI, 6); vp_part(b, HS, 4); vp_part(c, HT, 6); vp_part(d, HA, 6); vp_part(e, HN, 6); return 0; }
int copy_ctrlheader(char *c, int *n, struct sbn_frame *f){ return 1; }
#include VP_TARGET
#include VP_TARGET2
void h_names(void){ vp_pce(); SF = malloc(sizeof *SF); ASSUME(SF != NULL); static char d1[2];
  for (int i = 0; i < 6; i++) { HI[i] = (char)nondet_uchar(); HT[i] = (char)nondet_uchar(); ASSUME(VP_AN(HI[i]) && VP_DG(HT[i])); } for (int i = 0; i < 4; i++) { HS[i] = (char)nondet_uchar(); ASSUME(VP_AL(HS[i])); } HI[6] = HT[6] = HS[4] = 0; LA = nondet_int(); LN = nondet_int(); ASSUME(LA >= 0 && LA <= 6 && LN >= 0 && LN <= 6); for (int i = 0; i < 7; i++) { HA[i] = (char)nondet_uchar(); HN[i] = (char)nondet_uchar(); if (i < LA) ASSUME(VP_AN(HA[i])); else HA[i] = 0; if (i < LN) ASSUME(VP_AN(HN[i])); else HN[i] = 0; }
  ASSUME(PC->num_fragments == 0); ASSUME(vp_reg1 == 0); SF->np_channel_index = C; SF->frdata = d1; SF->frdata_size = 1; SF->ctrlhdr = NULL; SF->ccb = NULL; SF->pdata = d1; SF->f_frdata_compressed = 0; SF->fh.sbn_command = SBN_COMMAND_DATA_TRANSFER; SF->pdh.transfer_type = PDH_TRANSFERTYPE_START; SF->pdh.block_number = 0; SF->psh.num_fragments = 2; SF->psh.transfer_status_flag = 0;
  FSEQ = SF->pdh.product_seq_number; FBLK = 0; FANN = 2; FDATA = d1; FSIZE = 1; FZ = 0; FCH = NULL;
  char e[64]; int n = 0, nf; for (int i = 0; i < 4; i++) e[n++] = HS[i]; e[n++] = '_'; for (int i = 0; i < 6; i++) e[n++] = HI[i]; if (LA > 0) { e[n++] = '-'; for (int i = 0; i < 6; i++) if (i < LA) e[n++] = HA[i]; } else if (LN > 0) { e[n++] = '+'; for (int i = 0; i < 6; i++) if (i < LN) e[n++] = HN[i]; } nf = n; for (int i = 0; i < 18; i++) if (i < n) e[i] = VP_LOWER(e[i]);
  e[n++] = '.'; for (int i = 0; i < 6; i++) e[n++] = HT[i]; e[n++] = '_'; for (int i = 0; i < 10; i++) if (i < vp_nd) e[n++] = vp_dig[i]; e[n] = 0;
  int r = sbnframeproc(SF);
  CLAIM(r == 0 && PC->num_fragments == 2, "every valid header gives a name, never too long"); CLAIM(!vp_long && vp_rooted && (size_t)vp_tot < vp_room && vp_room == (size_t)PC->fpath_size && vp_dst == PC->fpath, "the path is complete and starts at the spool directory");
  unsigned k = nondet_uint(); if (k < (unsigned)nf) CLAIM(PC->fname[k] == e[k], "the name is station, identifier and code in lower case"); CLAIM(PC->fname[nf] == 0, "the name ends there"); if (k <= (unsigned)n) CLAIM(PC->fbasename[k] == e[k], "the file name adds time and sequence number");
  CLAIM(vp_nt == 1 + 4 + 1 + n, "the path has the directory, the station and the file name"); if (k < 4) CLAIM(vp_tail[1 + k] == VP_LOWER(HS[k]), "station directory in lower case"); CLAIM(vp_tail[0] == '/' && vp_tail[5] == '/', "path separators"); if (k < (unsigned)n) CLAIM(vp_tail[6 + k] == e[k], "the file name in the path");
  COVER(LA == 6 && vp_nd == 10, "longest"); COVER(LA == 0 && LN == 0, "shortest"); REACH(); }
