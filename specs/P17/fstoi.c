//@ target filters/filterlib/c/util.c
//@ unit strto_int_f harness=h_strto_int about=strto_int
//@ unit strto_uint_f harness=h_strto_uint about=strto_uint
//@ unit strto_u16_f harness=h_strto_u16 about=strto_u16
//@ unit strto_u32_f harness=h_strto_u32 about=strto_u32
//@ unit strto_double_f harness=h_strto_double about=strto_double
//@ assume strtol, strtoul, strtod and strchr behave as the C standard says
#include "stoi_h.h"
#include VP_TARGET
H(strto_int, int, (unsigned long)INT_MAX, (unsigned long)INT_MAX + 1)
HU(strto_uint, unsigned int, (unsigned long)UINT_MAX)
HU(strto_u16, uint16_t, 0xfffful)
HU(strto_u32, uint32_t, 0xfffffffful)
void h_strto_double(void){ vp_setup(); double v, v0 = v; int e0 = errno; vp_d = v; int r = strto_double(vp_s, &v);
  CLAIM((r == 0) == (vp_off > 0 && vp_off == vp_n), "accepted exactly when the whole string is a number");
  CLAIM(IMP(r == 0, v == vp_d || (v != v && vp_d != vp_d)), "value of the string"); CLAIM(IMP(r != 0, v == v0 || (v != v && v0 != v0)), "destination unchanged on error");
  CLAIM(r == 0 || r == 1, "status"); CLAIM(errno == e0, "error indicator unchanged"); COVER(r == 0, "accepted"); COVER(r == 1, "refused"); REACH(); }
