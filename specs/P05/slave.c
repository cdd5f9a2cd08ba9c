//@ target src/slavenbs/framep.c
//@ target src/pctl.c
//@ unit slave harness=h_slave plain about=slavenbsproc,estart_activepce,eupdate_activepce,eend_activepce,msave_nbs_block,open_pctl_activepce,close_pctl_activepce,get_pctl_activepce,update_activepce_framecounter,complete_activepce unwind=12 solver=default nocheck=signed-overflow-check
//@ assume the packet decoder delivers 16 bit block numbers and a terminated name (P19); the name is split as P04 proves
#define SLAVE
#include "fr_h.h"
#include "file.h"
#include "nbs1.h"
static int vp_ex1, vp_ex2, vp_nex; int file_exists(char *f){ vp_nex++; return nondet_bool() ? 0 : 1; }
#undef strncpy
static char *vp_cpy(char *d){ d[0] = 'x'; d[1] = nondet_bool() ? '_' : 0; d[2] = nondet_bool() ? '.' : 0; d[3] = 0; return d; }
#define strncpy(d, s, n) ((void)(s), (void)(n), vp_cpy(d))
static char *vp_chr(char *s, int c){ return nondet_bool() ? NULL : s + 1; }
#define strchr(s, c) vp_chr(s, c)
#include VP_TARGET
#include VP_TARGET2
void h_slave(void){ vp_init(); struct nbs1_packet_st *N = malloc(sizeof *N); ASSUME(N != NULL); static char d1[2]; int live = vp_act0;
  N->slavenbs_reader_index = C; N->block = d1; ASSUME(N->block_size <= NBS1_PACKET_MAXSIZE && N->block_number >= 0 && N->block_number <= 65535 && N->num_blocks >= 0 && N->num_blocks <= 65535); ASSUME(N->f_zip == 0 || N->f_zip == 1); ASSUME(N->np_channel_index >= -128 && N->np_channel_index < 256);
  FSEQ = N->seq_number; FBLK = N->block_number - 1; FANN = N->num_blocks < 1 ? 1 : N->num_blocks; FDATA = d1; FSIZE = N->block_size; FZ = N->f_zip; FCH = NULL; int st = N->block_number == 1, last = N->block_number == N->num_blocks;
  int n0 = GN, a0 = vp_ann, mine = vp_act0 && vp_c0.seq_number == FSEQ;
  int r = slavenbsproc(N);
  vp_frames(); CLAIM(INVC, "the reader describes exactly the blocks stored");
  if (!st && !mine) CLAIM(vp_sends == 0 && GN == n0 && PC->num_fragments == vp_c0.num_fragments && PC->recv_fragments == vp_c0.recv_fragments && PC->seq_number == vp_c0.seq_number && r == 1, "a block of another product changes nothing");
  else { int own = vp_sends - (st && vp_act0 ? 1 : 0); int nn = st ? 0 : n0, an = st ? FANN : a0;
    CLAIM(own >= 0 && own <= 1 && own == vp_completes, "only complete products are queued when they end");
    CLAIM(IMP(vp_completes, last && FBLK == nn && nn + 1 >= an), "complete only with all the blocks"); if (!st && FBLK != n0) CLAIM(PC->num_fragments == 0 && !vp_completes, "a gap ends the product");
    CLAIM(IMP(PC->num_fragments != 0, GN == nn + 1 && vp_ann == an && GSEQ == FSEQ && !last && r == 0), "the product goes on"); CLAIM(IMP(last && r == 0 && vp_nex == (st && g.slave_reject_duplicates == 1) , vp_completes), "complete with all the blocks"); }
  COVER(vp_completes == 1 && st, "single"); COVER(vp_completes == 1 && !st, "several"); COVER(PC->num_fragments > 0 && !vp_act0, "started"); REACH(); }
