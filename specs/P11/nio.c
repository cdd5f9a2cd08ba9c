//@ target tools/nbspinsert/io.c
//@ unit writef harness=h_writef about=writef loops fbunwind=7 fbdefs=VPFB
//@ loop writef 1 __CPROVER_assigns(i, n, WGHOSTS) __CPROVER_loop_invariant(i <= size && GPOS == i && (GK < i ? vp_cnt == 1 && vp_byte == vp_b[GK] : vp_cnt == 0)) __CPROVER_decreases(size - i)
#include "io_h.h"
#include VP_TARGET
#undef read
#undef write
void h_writef(void){ vp_init(); ssize_t r = writef(VFD, vp_b, vp_n);
  CLAIM(-1 <= r && r <= (ssize_t)vp_n, "count"); CLAIM(IMP(r >= 0, GPOS == (size_t)r), "exactly the reported bytes were accepted"); CLAIM(IMP(r == -1, vp_err), "-1 means error");
  CLAIM(IMP(r >= 0, GK < (size_t)r ? vp_cnt == 1 && vp_byte == vp_b[GK] : vp_cnt == 0), "each byte once, in order"); COVER(r == 3 && vp_n == 3, "full"); COVER(r == -1, "error"); REACH(); }
