//@ target filters/filterlib/c/dcgoesr/dcgoesr_shp.c
//@ inc filters/filterlib/c
//@ unit dcgoesr_big enforce=dcgoesr_shp_insert_uint32_big harness=h_big
//@ unit dcgoesr_little enforce=dcgoesr_shp_insert_uint32_little harness=h_little
#define F(x) dcgoesr_shp_##x
#define NODOUBLE
#include "shp.h"
