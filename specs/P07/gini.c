//@ target filters/filterlib/c/dcgini/dcgini_util.c
//@ unit gini_unpack_uint16 enforce=dcgini_unpack_uint16 harness=h_dcgini_unpack_uint16
//@ unit gini_unpack_uint24 enforce=dcgini_unpack_uint24 harness=h_dcgini_unpack_uint24
//@ unit gini_unpack_uint32 enforce=dcgini_unpack_uint32 harness=h_dcgini_unpack_uint32
//@ unit gini_unpack_int24 enforce=dcgini_unpack_int24 harness=h_dcgini_unpack_int24
#include "codec.h"
#define RG(n) REQ(start <= MAXLEN && FRESH(p, start + (n)))
/* sign-magnitude 24 bit integer: first bit set for West and South */
#define SM24(q) ((BYTE(q,0) & 0x80) ? -(int)(BE24(q) & 0x7fffff) : (int)(BE24(q) & 0x7fffff))
unsigned int dcgini_unpack_uint16(void *p, size_t start) RG(2) ENS(RET == BE16(AT(p,start))) ASG();
unsigned int dcgini_unpack_uint24(void *p, size_t start) RG(3) ENS(RET == BE24(AT(p,start))) ASG();
unsigned int dcgini_unpack_uint32(void *p, size_t start) RG(4) ENS(RET == BE32(AT(p,start))) ASG();
int dcgini_unpack_int24(void *p, size_t start) RG(3) ENS(RET == SM24(AT(p,start))) ASG();
#include VP_TARGET
#define H(f) void h_##f(void){ void *p; size_t s; f(p, s); REACH(); }
H(dcgini_unpack_uint16) H(dcgini_unpack_uint24) H(dcgini_unpack_uint32) H(dcgini_unpack_int24)
