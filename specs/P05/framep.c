//@ target src/framep.c
//@ target src/pctl.c
//@ unit frame harness=h_frame defs=U1 plain about=sbnframeproc,e_start_activepce,start_activepce,e_update_activepce,update_activepce,e_end_activepce,msave_frame,abort_activepce,open_pctl_activepce,close_pctl_activepce,get_pctl_activepce,update_activepce_framecounter,complete_activepce,open_pce,close_pce,esend_pctl_activepce,epctl_send unwind=12 solver=default
//@ unit create harness=h_create defs=U2 plain about=create_pce,destroy_pce unwind=12 solver=default
//@ assume the decoder delivers fields in the ranges of the protocol (P01) and header parts of at most their sizes (P03)
//@ assume the memory file operations append, empty and report as P06 proves; the queue operation is that of P15
//@ assume each channel is read by one thread
#include "fr_h.h"
static int vp_unst; static struct sbn_frame *SF;
int sbn_unpack_frame(struct sbn_frame *f){ return vp_unst; }
static int vp_split; static void vp_str(char *s, int n){ s[0] = nondet_bool() ? 'A' : 0; s[1] = 0; }
int split_wmo_header(struct sbn_frame *f, char *a, char *b, char *c, char *d, char *e){ vp_str(a, WMO_ID_SIZE); vp_str(b, WMO_STATION_SIZE); vp_str(c, WMO_TIME_SIZE); vp_str(d, WMO_AWIPS_SIZE); vp_str(e, WMO_NOTAWIPS_SIZE); return vp_split; }
int copy_ctrlheader(char *c, int *n, struct sbn_frame *f){ if (f->ctrlhdr == NULL) return 1; *n = f->ctrlhdr_size; return 0; }
#include VP_TARGET
#include VP_TARGET2
#ifdef U1
void h_frame(void){ vp_init(); SF = malloc(sizeof *SF); ASSUME(SF != NULL); static char d1[2], d2[2];
  vp_unst = nondet_int(); ASSUME(vp_unst >= 0 && vp_unst <= 3); vp_split = nondet_int(); ASSUME(vp_split >= 0 && vp_split <= 2);
  SF->np_channel_index = C; SF->frdata = d1; ASSUME(SF->frdata_size >= 0 && SF->frdata_size <= MAX_FRDATA_SIZE); SF->ctrlhdr = nondet_bool() ? d2 : NULL; ASSUME(SF->ctrlhdr_size >= 0 && SF->ctrlhdr_size <= MAX_CTRLHDR_SIZE); SF->ccb = nondet_bool() ? d1 : NULL; SF->pdata = d1; SF->f_frdata_compressed = nondet_bool();
  ASSUME(SF->pdh.block_number >= 0 && SF->pdh.block_number <= 65535 && SF->psh.num_fragments >= 0 && SF->psh.num_fragments <= 65535 && SF->pdh.transfer_type >= 0 && SF->pdh.transfer_type <= 255);
  FSEQ = SF->pdh.product_seq_number; FBLK = SF->pdh.block_number; FANN = SF->psh.num_fragments == 0 ? 1 : SF->psh.num_fragments; FDATA = d1; FSIZE = SF->frdata_size; FZ = SF->f_frdata_compressed; FCH = SF->ctrlhdr; FCHN = SF->ctrlhdr_size; int tt = SF->pdh.transfer_type;
  int data = vp_unst == 0 && SF->fh.sbn_command == SBN_COMMAND_DATA_TRANSFER, bad = tt & (PDH_TRANSFERTYPE_ERROR | PDH_TRANSFERTYPE_ABORT), st = tt & PDH_TRANSFERTYPE_START, pr = tt & PDH_TRANSFERTYPE_PROGRESS, en = tt & PDH_TRANSFERTYPE_END; int rtx = (SF->psh.transfer_status_flag & PSH_STATUSFLAG_RETRANSMIT) && SF->psh.orig_seq_number != 0;
  int n0 = GN, a0 = vp_ann, mine = vp_act0 && vp_c0.seq_number == FSEQ, hdr0 = GHDR;
  int r = sbnframeproc(SF);
  vp_frames(); CLAIM(INVC, "the channel describes exactly the fragments stored"); if (data && !bad && st && FBLK == 0) CLAIM(IMP(vp_act0, vp_sends >= 1), "an unfinished product is queued as incomplete when another starts");
  int acc = vp_split == 0 && !vp_long && vp_reg1 != 1 && !(rtx && g.f_loadave_max_rtx == 1);
  int werr = 0, had; /* what the frame does to the product of its number */
  if (!data) CLAIM(vp_sends == 0 && PC->num_fragments == vp_c0.num_fragments && GN == n0 && PC->recv_fragments == vp_c0.recv_fragments && PC->seq_number == vp_c0.seq_number, "a frame that does not carry data changes nothing");
  else if (bad) CLAIM(vp_sends == 0 && PC->num_fragments == 0, "an aborted product is dropped");
  else if (st && FBLK != 0) CLAIM(vp_sends == 0 && GN == n0 && PC->num_fragments == vp_c0.num_fragments && PC->seq_number == vp_c0.seq_number, "a misplaced start changes nothing");
  else if (!st && !mine) CLAIM(vp_sends == 0 && GN == n0 && PC->num_fragments == vp_c0.num_fragments && PC->recv_fragments == vp_c0.recv_fragments && PC->seq_number == vp_c0.seq_number, "a frame of another product changes nothing");
  else { int own = vp_sends - (st && vp_act0 ? 1 : 0); int nn = st ? 0 : n0, an = st ? FANN : a0; int live = st ? acc : 1; int hit = live && pr && (st || FBLK == n0);
    CLAIM(own >= 0 && own <= 1, "queued once");
    if (!live) CLAIM(own == 0 && PC->num_fragments == 0, "a refused product is dropped");
    else if (pr && !hit) CLAIM(own == 1 && vp_completes == 0 && PC->num_fragments == 0, "a gap ends the product as incomplete");
    else if (PC->num_fragments != 0) CLAIM(own == 0 && !en && GN == nn + (pr ? 1 : 0) && vp_ann == an && GSEQ == FSEQ && IMP(hdr0 && !st, GHDR), "the product goes on");
    else { CLAIM(own == 1, "a finished product is queued"); int ok = en && nn + (pr ? 1 : 0) >= an; CLAIM(IMP(vp_completes, ok), "complete only with all the fragments"); CLAIM(IMP(ok && !pr, vp_completes == 1), "complete with all the fragments"); CLAIM(IMP(!en, pr && r != 0), "only a failed write ends a product early"); if (ok && r == 0) CLAIM(vp_completes == 1, "complete with all the fragments"); } }
  COVER(vp_completes == 1 && st, "single"); COVER(vp_completes == 1 && !st, "several"); COVER(vp_sends == 2, "two"); COVER(PC->num_fragments > 0 && !vp_act0, "started"); COVER(FSEQ == 0 && vp_completes, "number 0"); REACH(); }
#endif
#ifdef U2
void h_create(void){ vp_init(); GN = GHDR = GOPEN = 0; vp_mk = nondet_bool() ? MC : NULL; struct pctl_element_st *p = create_pce(nondet_size()); CLAIM(IMP(vp_mk == NULL, p == NULL), "failure is reported"); if (p != NULL) { PC = p; CLAIM(INVC && PC->num_fragments == 0, "a new channel assembles nothing"); } COVER(p != NULL, "created"); REACH(); }
#endif
