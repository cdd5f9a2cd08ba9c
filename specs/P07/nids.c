//@ target filters/filterlib/c/dcnids/dcnids_extract.c
//@ unit extract_uint8 enforce=extract_uint8
//@ unit extract_uint16 enforce=extract_uint16
//@ unit extract_int16 enforce=extract_int16
//@ unit extract_uint32 enforce=extract_uint32
//@ unit extract_int32 enforce=extract_int32
#include "codec.h"
/* halfwordid is the 1-based index of a 2-byte big endian halfword */
#define HW(n)  REQ(halfwordid >= 1 && halfwordid <= (1 << 20) && FRESH(p, (size_t)(halfwordid - 1) * 2 + (n)))
#define HP(p)  AT(p, (size_t)(halfwordid - 1) * 2)
int extract_uint8(unsigned char *p, int halfwordid) HW(1) ENS(RET == (int)*HP(p)) ASG();
int extract_uint16(unsigned char *p, int halfwordid) HW(2) ENS(RET == (int)BE16(HP(p))) ASG();
int extract_int16(unsigned char *p, int halfwordid) HW(2) ENS(RET == (int)(int16_t)BE16(HP(p))) ASG();
uint32_t extract_uint32(unsigned char *p, int halfwordid) HW(4) ENS(RET == BE32(HP(p))) ASG();
int extract_int32(unsigned char *p, int halfwordid) HW(4) ENS((uint32_t)RET == BE32(HP(p))) ASG();
#include VP_TARGET
#define H(f) void h_##f(void){ unsigned char *p; int h; f(p, h); REACH(); }
H(extract_uint8) H(extract_uint16) H(extract_int16) H(extract_uint32) H(extract_int32)
