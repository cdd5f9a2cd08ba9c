//@ target filters/filterlib/c/dcnids/dcnids_dbf.c
//@ inc filters/filterlib/c
//@ unit dcnids_dbf16 enforce=dcnids_dbf_insert_uint16_little harness=h_16
#include "codec.h"
static void dcnids_dbf_insert_uint16_little(unsigned char *p, int pos, uint16_t u)
  REQ(pos >= 0 && pos <= (1 << 28) && FRESH(p, (size_t)pos + 2))
  ENS(LE16(AT(p, pos)) == u) ASG(__CPROVER_object_upto(AT(p, pos), 2));
#include VP_TARGET
void h_16(void){ unsigned char *p; int pos; uint16_t u; dcnids_dbf_insert_uint16_little(p, pos, u); REACH(); }
