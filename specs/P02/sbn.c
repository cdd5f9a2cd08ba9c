//@ target src/sbn.c
//@ defs __NO_CTYPE
//@ unit sbn_unpack_frame enforce=sbn_unpack_frame replace=unpack_sbn_headers,unz
//@ unit unpack_sbn_headers enforce=unpack_sbn_headers unwind=16
//@ unit whole_frame replace=unz unwind=16
//@ unit copy_ctrlheader enforce=copy_ctrlheader
//@ assume the receive size stored in the frame is between 0 and the frame buffer size (the readers never store more)
#include "vp.h"
#include "../P01/spec_sbn.h"
size_t GK;
int copy_ctrlheader(char *dst, int *size, struct sbn_frame *f)
  REQ(FRESH(size, sizeof(int)) && *size >= 1 && *size <= 65536 && FRESH(dst, *size) && FRESH(f, sizeof(*f)))
  REQ(f->ctrlhdr_size >= 0 && f->ctrlhdr_size <= 65535)
  REQ(f->ctrlhdr == NULL || FRESH(f->ctrlhdr, f->ctrlhdr_size))
  ASG(*size, __CPROVER_object_whole(dst))
  ENS(RET == (f->ctrlhdr != NULL && f->ctrlhdr_size <= OLD(*size) ? 0 : 1))
  ENS(IMP(RET == 1, *size == 0 && dst[0] == 0))
  ENS(IMP(RET == 0, *size == f->ctrlhdr_size && IMP(GK < (size_t)*size, dst[GK] == f->ctrlhdr[GK])));
#include VP_TARGET
#include "../P01/spec_sbn_h.h"
void h_copy_ctrlheader(void){ char *d; int *n; struct sbn_frame *f; int r = copy_ctrlheader(d, n, f); COVER(r == 0, "copied"); COVER(r == 1, "absent or too large"); REACH(); }
