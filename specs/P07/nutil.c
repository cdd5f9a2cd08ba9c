//@ target tools/nbspinsert/nutil.c
//@ unit nu_unpack_uint32 enforce=unpack_uint32 harness=h_unpack_uint32
//@ unit nu_pack_uint32 enforce=pack_uint32 harness=h_pack_uint32
//@ unit nu_unpack_uint16 enforce=unpack_uint16 harness=h_unpack_uint16
//@ unit nu_pack_uint16 enforce=pack_uint16 harness=h_pack_uint16
//@ unit nu_calc_checksum enforce=calc_checksum loops harness=h_calc_checksum fbunwind=8 fbdefs=VPFB
//@ cond calc_checksum 1 vp_sum_ax(p, i)
//@ loop calc_checksum 1 __CPROVER_assigns(i, cs) __CPROVER_loop_invariant(i <= size && cs == VP_SUM(i)) __CPROVER_decreases(size - i)
#include "p07.h"
#include VP_TARGET
#include "p07_h.h"
