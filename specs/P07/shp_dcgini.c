//@ target filters/filterlib/c/dcgini/dcgini_shp.c
//@ inc filters/filterlib/c
//@ unit dcgini_big enforce=dcgini_shp_insert_uint32_big harness=h_big
//@ unit dcgini_little enforce=dcgini_shp_insert_uint32_little harness=h_little
//@ unit dcgini_double enforce=dcgini_shp_insert_double_little harness=h_double unwind=9
#define F(x) dcgini_shp_##x
#include "shp.h"
