//@ native inc=filters/filterlib/c
#define VPT "filters/filterlib/c/mfile.c"

#define NOPS 4
#define NEWMF open_memfile(rr(1,5),rr(1,600))
#define DELMF close_memfile
#define SIZEOF(mf) ((mf)->maxsize)
#include "mfhist.h"
vpn_case vpn_cases[]={{"fmfile",hist,5},{0}};
