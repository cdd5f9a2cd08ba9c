//@ native inc=src
#define VPT "src/mfile.c"
#define DAEMON
#define NOPS 9
#define NEWMF create_memfile(rn(3)?0:rn(20000))
#define DELMF destroy_memfile
#define SIZEOF(mf) ((mf)->allocsize)
#include "mfhist.h"
vpn_case vpn_cases[]={{"mfile",hist,5},{0}};
