//@ target filters/filterlib/c/dcnids/dcnids_shp.c
//@ inc filters/filterlib/c
//@ unit dcnids_big enforce=dcnids_shp_insert_uint32_big harness=h_big
//@ unit dcnids_little enforce=dcnids_shp_insert_uint32_little harness=h_little
//@ unit dcnids_double enforce=dcnids_shp_insert_double_little harness=h_double unwind=9
#define F(x) dcnids_shp_##x
#include "shp.h"
