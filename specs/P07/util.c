//@ target src/util.c
//@ unit unpack_uint32 enforce=unpack_uint32
//@ unit pack_uint32 enforce=pack_uint32
//@ unit unpack_uint16 enforce=unpack_uint16
//@ unit pack_uint16 enforce=pack_uint16
//@ unit roundtrip replace=unpack_uint32,pack_uint32,unpack_uint16,pack_uint16
//@ unit calc_checksum enforce=calc_checksum loops fbunwind=8 fbdefs=VPFB
//@ cond calc_checksum 1 vp_sum_ax(p, i)
//@ loop calc_checksum 1 __CPROVER_assigns(i, cs) __CPROVER_loop_invariant(i <= size && cs == VP_SUM(i)) __CPROVER_decreases(size - i)
#include "p07.h"
#include VP_TARGET
#include "p07_h.h"
