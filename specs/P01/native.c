//@ native inc=src srcs=src/unz.c flags=-lz
#include "../P01/nsbn.h"
static void wellformed(unsigned idx){ check_frame(idx,0); }
vpn_case vpn_cases[]={{"frame",wellformed,10},{0}};
