//@ target src/slavenbs/framep.c
//@ target src/pctl.c
//@ unit split harness=h_split plain about=split_fbasename,estart_activepce,cvt_to_uc unwind=65 solver=default nocheck=signed-overflow-check
//@ assume snprintf formats %s as C requires; the spool directory name has at most 4096 characters
#define SLAVE
#include "nm_h.h"
#include "file.h"
#include "nbs1.h"
int file_exists(char *f){ return 1; }
int const_fpath_maxsize(void){ return SL + WMO_STATION_SIZE + FBASENAME_SIZE + 2; }   /* src/framep.c: unit names */
#include VP_TARGET
#include VP_TARGET2
#define UPC(c) (VP_LO(c) ? (c) - 32 : (c))
static int vp_up(const char *p, int k, const char *e, int a, int b){ return k > b - a ? 1 : k == b - a ? p[k] == 0 : p[k] == UPC(e[a + k]); }
void h_split(void){ vp_pce(); struct nbs1_packet_st *N = malloc(sizeof *N); ASSUME(N != NULL); static char d1[2]; N->slavenbs_reader_index = C; N->block = d1; N->block_size = 1; N->block_number = 1; N->num_blocks = 2; N->f_zip = 0; ASSUME(PC->num_fragments == 0 && vp_reg1 == 0); g.slave_reject_duplicates = 0;
  FSEQ = N->seq_number; FBLK = 0; FANN = 2; FDATA = d1; FSIZE = 1; FZ = 0; FCH = NULL;
  char e[38]; int n = 0, dot = -1, us = -1, da = -1, pl = -1, sl = 0; for (int i = 0; i < 37; i++) e[i] = i < 36 ? N->fbasename[i] : 0; e[37] = 0; while (n < 36 && e[n] != 0) n++; for (int i = 35; i >= 0; i--) if (i < n) { if (e[i] == '/') sl = 1; if (e[i] == '.') dot = i; } for (int i = 35; i >= 0; i--) if (i < dot) { if (e[i] == '_') us = i; } for (int i = 35; i >= 0; i--) if (i < dot && i > us) { if (e[i] == '-') da = i; if (e[i] == '+') pl = i; }
  int sep = da >= 0 ? da : pl, ide = sep >= 0 ? sep : dot; int ok = !sl && dot >= 0 && dot <= FNAME_SIZE && us >= 0 && us <= WMO_STATION_SIZE && ide - us - 1 <= WMO_ID_SIZE && (sep < 0 || dot - sep - 1 <= 6);
  int r = slavenbsproc(N); int acc = PC->num_fragments != 0;
  if (vp_rooted) { int in = 1; for (int i = 0; i < 63; i++) if (i < vp_nt && vp_tail[i] == '/' && !(i == 0 || i == us + 1)) in = 0; CLAIM(IMP(acc, in), "the path stays in a directory of the spool directory"); }
  CLAIM(IMP(acc, !sl && vp_tail[0] == '/' && !(vp_tail[1] == '.' && vp_tail[2] == '.' && us == 2)), "no name leaves the spool directory"); CLAIM(IMP(ok, vp_rooted && !vp_long && vp_nt == 1 + us + 1 + n && r <= 0), "a well formed name gives a complete path"); CLAIM(IMP(acc, ok), "only well formed names are accepted");
  int k = nondet_int(); ASSUME(k >= 0 && k < 37); if (acc) { int kf = k;
    CLAIM(IMP(kf < dot, PC->fname[kf < 18 ? kf : 18] == e[kf]) && PC->fname[dot] == 0, "the name without time and number"); CLAIM(IMP(k <= n, PC->fbasename[k] == e[k]), "the name is kept");
    CLAIM(IMP(k < 5, vp_up(PC->wmo_station, k, e, 0, us)), "the station"); CLAIM(IMP(k < 7, vp_up(PC->wmo_id, k, e, us + 1, ide)), "the identifier"); CLAIM(IMP(k < 7, vp_up(PC->wmo_awips, k, e, da >= 0 ? da + 1 : 0, da >= 0 ? dot : 0)), "the AWIPS identifier"); CLAIM(IMP(k < 7, vp_up(PC->wmo_notawips, k, e, da < 0 && pl >= 0 ? pl + 1 : 0, da < 0 && pl >= 0 ? dot : 0)), "the alternative code");
    CLAIM(IMP(k < us, vp_tail[1 + k] == e[k]) && vp_tail[1 + us] == '/' && IMP(k < n, vp_tail[us + 2 + k] == e[k]), "the path"); }
  COVER(acc && da >= 0, "AWIPS"); COVER(acc && pl >= 0, "alternative"); COVER(!acc, "refused"); REACH(); }
