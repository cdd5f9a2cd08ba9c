#include "codec.h"
#define RGI(n) REQ(pos >= 0 && pos <= (1 << 28) && FRESH(p, (size_t)pos + (n)))
void F(insert_uint32_big)(unsigned char *p, int pos, uint32_t u) RGI(4)
  ENS(BE32(AT(p, pos)) == u) ASG(__CPROVER_object_upto(AT(p, pos), 4));
void F(insert_uint32_little)(unsigned char *p, int pos, uint32_t u) RGI(4)
  ENS(LE32(AT(p, pos)) == u) ASG(__CPROVER_object_upto(AT(p, pos), 4));
/* the image of a double is its 8 bytes in memory order (little endian machine) */
unsigned GK; double GD;
void F(insert_double_little)(unsigned char *p, int pos, double r)
  REQ(pos >= 0 && pos <= 92 && FRESH(p, 100) && GK < 8)
  ENS(AT(p,pos)[GK] == ((unsigned char *)&GD)[GK])
  ASG(__CPROVER_object_upto(AT(p, pos), 8));
#include VP_TARGET
void h_big(void){ unsigned char *p; int pos; uint32_t u; F(insert_uint32_big)(p, pos, u); REACH(); }
void h_little(void){ unsigned char *p; int pos; uint32_t u; F(insert_uint32_little)(p, pos, u); REACH(); }
void h_double(void){ unsigned char *p; int pos; double u; GD = u; F(insert_double_little)(p, pos, u); REACH(); }
