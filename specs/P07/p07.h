/* contracts of the network byte order codecs and of the byte-sum checksum */
#include "vp.h"
#ifdef VPFB
#define VPMAX 6
#else
#define VPMAX MAXLEN
#endif
/* VP_SUM(n) is the spec function: sum of the first n bytes of the data, modulo 2^32,
   introduced by its defining equations: a ghost table whose n-th entry is assumed to satisfy
   SUM(0) = 0, SUM(i+1) = SUM(i) + data[i] (such a table exists for every data). */
const uint32_t *VPS;
#define VP_SUM(n) VPS[n]
static int vp_sum_ax(const unsigned char *p, size_t i){
  __CPROVER_assume(VPS[i + 1] == (uint32_t)(VPS[i] + (uint32_t)p[i]));
  return 1;
}
#define T6(d,n,k) ((n) > (k) ? (uint32_t)BYTE(d,k) : 0u)
#define SUM6(d,n) (T6(d,n,0)+T6(d,n,1)+T6(d,n,2)+T6(d,n,3)+T6(d,n,4)+T6(d,n,5))

#define BE32(q) (((uint32_t)BYTE(q,0) << 24) | ((uint32_t)BYTE(q,1) << 16) | ((uint32_t)BYTE(q,2) << 8) | (uint32_t)BYTE(q,3))
#define BE16(q) (uint16_t)(((uint32_t)BYTE(q,0) << 8) | (uint32_t)BYTE(q,1))
#define AT(p,s) ((const unsigned char *)(p) + (s))

uint32_t unpack_uint32(void *p, size_t start)
  REQ(start <= MAXLEN && FRESH(p, start + 4))
  ENS(RET == BE32(AT(p, start)))
  ASG();
void pack_uint32(void *p, uint32_t u, size_t start)
  REQ(start <= MAXLEN && FRESH(p, start + 4))
  ENS(BE32(AT(p, start)) == u)
  ASG(__CPROVER_object_upto((unsigned char *)p + start, 4));
uint16_t unpack_uint16(void *p, size_t start)
  REQ(start <= MAXLEN && FRESH(p, start + 2))
  ENS(RET == BE16(AT(p, start)))
  ASG();
void pack_uint16(void *p, uint16_t u, size_t start)
  REQ(start <= MAXLEN && FRESH(p, start + 2))
  ENS(BE16(AT(p, start)) == u)
  ASG(__CPROVER_object_upto((unsigned char *)p + start, 2));
uint32_t calc_checksum(void *data, size_t size)
  REQ(size <= VPMAX && FRESH(data, size))
#ifdef VPFB
  ENS(RET == SUM6(data, size))
#else
  REQ(FRESH(VPS, (size + 1) * sizeof(uint32_t)) && VP_SUM((size_t)0) == 0)
  ENS(RET == VP_SUM(size))
#endif
  ASG();
