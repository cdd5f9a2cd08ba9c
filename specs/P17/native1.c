//@ native inc=src
#define VPT "src/stoi.c"
#include "nstoi.h"
