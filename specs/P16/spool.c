//@ target src/nbsp.c
//@ target src/spooltype.c
//@ unit spool harness=h_spool about=pce_spool_product,pce_savefs_memfile,pce_savembdb_memfile,pce_savecbdb_memfile,pce_mcat_frames,reopen_nbspproc_memfile loops unwind=4 solver=default fbunwind=5 fbdefs=VPFB
//@ unit element harness=h_element about=process_pctl_element,process_pctl,nbsp_spooldb_insert,rtxdb_flag_filter loops unwind=4 solver=default fbunwind=5 fbdefs=VPFB
//@ loop pce_mcat_frames 1 __CPROVER_assigns(status, unz_status, i, n, pdata, pdata_size, f_compressed, GF, GW, vp_cur, vp_csz, vp_cz, vp_unzd, vp_usz, vp_werr, vp_uerr, __CPROVER_object_whole(frdata)) __CPROVER_loop_invariant(0 <= i && status == 0 && i <= PC->recv_fragments && GF == i && GW == i && !vp_werr && !vp_uerr && unz_status == 0)
//@ assume the memory file operations behave as P06 proves; unz is the decompression of zlib (P02)
//@ assume the product was queued by the readers: its memory file holds recv_fragments frames when it is to be saved uncompressed (P05)
#include "../P16/nb_h.h"
void h_spool(void){ vp_init(); int r = pce_spool_product(PC); vp_where(r); COVER(r == 0 && vp_saved && PC->saveunz_flag && GW > 1, "expanded"); COVER(r == 0 && vp_mdb && PC->f_has_ccb && PC->save_format == SAVEFORMAT_NO_CCB, "memory spool without block"); COVER(r == 0 && vp_cdb, "both"); COVER(r != 0, "failure"); REACH(); }
void h_element(void){ vp_init(); int st = vp_rcv; int rtx = vp_rtxm == 0 && g.rtxdb != NULL; int r = process_pctl();
  CLAIM(IMP(st == 1, r == 1), "nothing to do is reported"); if (st == 0) { int saved = vp_saved || vp_mdb || vp_cdb; if (saved) vp_where(r);
   CLAIM(IMP(!PC->f_complete, !saved && !vp_exp && !vp_sp && !vp_ok && r == 0), "an incomplete product is never saved, exported or recorded as received"); CLAIM(IMP(vp_exp || vp_sp, saved && !vp_fail && !vp_werr && !vp_uerr), "only a product that was saved is announced"); CLAIM(IMP(vp_fail || vp_werr || vp_uerr, r != 0 && vp_stat == r && !vp_ok), "a failed save is reported"); CLAIM(vp_pclosed == 1, "the working product is closed");
   CLAIM(IMP(PC->f_complete && PC->orig_seq_number == 0 && !vp_fail && !vp_werr && !vp_uerr && r == 0, saved), "a complete product is saved");
   COVER(vp_exp == 3 && vp_sp, "announced"); COVER(r != 0, "failed"); COVER(!PC->f_complete, "incomplete"); } REACH(); }
