//@ target src/sbn.c
//@ defs __NO_CTYPE
//@ unit unpack_fl_header enforce=unpack_fl_header unwind=16
//@ unit unpack_pd_header enforce=unpack_pd_header
//@ unit unpack_ps_header enforce=unpack_ps_header
//@ unit unpack_sbn_headers enforce=unpack_sbn_headers replace=unpack_fl_header,unpack_pd_header,unpack_ps_header
//@ unit sbn_unpack_frame enforce=sbn_unpack_frame replace=unpack_sbn_headers,unz
//@ unit whole_frame replace=unz unwind=16
//@ assume the receive size stored in the frame is between 0 and the frame buffer size (the readers never store more)
//@ assume zlib uncompress writes at most the given output size and reports the size it wrote
#include "vp.h"
#include "spec_sbn.h"
#include VP_TARGET
#include "spec_sbn_h.h"
