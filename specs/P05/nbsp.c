//@ target src/nbsp.c
//@ target src/spooltype.c
//@ unit incomplete harness=h_element about=process_pctl_element,process_pctl loops unwind=4 solver=default fbunwind=5 fbdefs=VPFB
//@ loop pce_mcat_frames 1 __CPROVER_assigns(status, unz_status, i, n, pdata, pdata_size, f_compressed, GF, GW, vp_cur, vp_csz, vp_cz, vp_unzd, vp_usz, vp_werr, vp_uerr, __CPROVER_object_whole(frdata)) __CPROVER_loop_invariant(0 <= i && status == 0 && i <= PC->recv_fragments && GF == i && GW == i && !vp_werr && !vp_uerr && unz_status == 0)
#include "../P16/nb_h.h"
void h_element(void){ vp_init(); int st = vp_rcv; int r = process_pctl(); int saved = vp_saved || vp_mdb || vp_cdb;
  if (st == 0) CLAIM(IMP(!PC->f_complete, !saved && !vp_exp && !vp_sp && !vp_ok), "an incomplete product is never saved, announced or recorded as received"); else CLAIM(!saved && !vp_exp, "nothing without a product"); CLAIM(IMP(vp_exp, saved), "only a saved product is announced"); COVER(vp_exp == 3 && vp_sp, "announced"); COVER(!PC->f_complete, "incomplete"); REACH(); }
