//@ native inc=filters/filterlib/c
#define VPT "filters/filterlib/c/util.c"
#include "nstoi.h"
