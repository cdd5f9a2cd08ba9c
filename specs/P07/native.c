//@ native inc=filters/filterlib/c,filters/filterlib/c/dcnids,filters/filterlib/c/dcgini,tools/nbspinsert
#include "vpn.h"
#include <ctype.h>
#include "src/util.c"
#define unpack_uint32 nu_unpack_uint32
#define pack_uint32 nu_pack_uint32
#define unpack_uint16 nu_unpack_uint16
#define pack_uint16 nu_pack_uint16
#define calc_checksum nu_calc_checksum
#define valid_str nu_valid_str
#define trimleft nu_trimleft
#define trimright nu_trimright
#define UTIL_H
#include "tools/nbspinsert/nutil.c"
#include "filters/filterlib/c/dcnids/dcnids_extract.c"
#include "filters/filterlib/c/dcgini/dcgini_util.c"
void dcnids_shp_insert_uint32_big(unsigned char *p, int pos, uint32_t u);
void dcnids_shp_insert_uint32_little(unsigned char *p, int pos, uint32_t u);
static uint32_t sum(unsigned char *p, size_t n){ uint32_t s=0; while(n--) s+=*p++; return s; }
static void util(unsigned idx){
  size_t n=8+rn(40); unsigned char *p=malloc(n); rbytes(p,n); unsigned char *q=malloc(n); memcpy(q,p,n);
  size_t s=rn(n-3); uint32_t u=redge32(); uint16_t w=(uint16_t)redge32();
#define V32(x,o) (((uint32_t)x[o]<<24)|((uint32_t)x[(o)+1]<<16)|((uint32_t)x[(o)+2]<<8)|x[(o)+3])
#define V16(x,o) (((uint32_t)x[o]<<8)|x[(o)+1])
#define T(PK4,UN4,PK2,UN2) do{ INFO(#PK4 " u=%u w=%u at=%zu of %zu",u,w,s,n); \
  CHECK(UN4(p,s)==V32(p,s),"%u",UN4(p,s)); CHECK(UN2(p,s)==V16(p,s)," "); \
  PK4(p,u,s); CHECK(V32(p,s)==u," "); for(size_t i=0;i<n;i++) CHECK((i>=s&&i<s+4)||p[i]==q[i],"frame %zu",i); CHECK(UN4(p,s)==u," "); memcpy(q,p,n); \
  PK2(p,w,s); CHECK(V16(p,s)==w," "); for(size_t i=0;i<n;i++) CHECK((i>=s&&i<s+2)||p[i]==q[i],"frame %zu",i); memcpy(q,p,n); }while(0)
  T(nu_pack_uint32,nu_unpack_uint32,nu_pack_uint16,nu_unpack_uint16);
#undef unpack_uint32
#undef pack_uint32
#undef unpack_uint16
#undef pack_uint16
#undef calc_checksum
  T(pack_uint32,unpack_uint32,pack_uint16,unpack_uint16);
  size_t m=rn(8)==0?rn(200000):rn(300); unsigned char *d=malloc(m?m:1); if(rn(3)==0) memset(d,0xff,m); else rbytes(d,m);
  INFO("checksum of %zu bytes",m);
  CHECK(calc_checksum(d,m)==sum(d,m)," "); CHECK(nu_calc_checksum(d,m)==sum(d,m)," ");
  free(d); free(p); free(q);
}
static void nids(unsigned idx){
  int n=2*rr(2,40); unsigned char *p=malloc(n); rbytes(p,n); int h=rr(1,n/2-1); int o=(h-1)*2;
  INFO("halfword %d bytes %02x%02x%02x%02x",h,p[o],p[o+1],p[o+2],p[o+3]);
  CHECK(extract_uint8(p,h)==p[o]," "); CHECK(extract_uint16(p,h)==(int)V16(p,o)," "); CHECK(extract_int16(p,h)==(int16_t)V16(p,o)," ");
  CHECK(extract_uint32(p,h)==V32(p,o)," "); CHECK(extract_int32(p,h)==(int32_t)V32(p,o)," ");
  uint32_t u=redge32(); free(p);
}
static void gini(unsigned idx){
  int n=rr(4,40); unsigned char *p=malloc(n); rbytes(p,n); int o=rn(n-3); uint32_t u24=((uint32_t)p[o]<<16)|V16(p,o+1);
  INFO("at %d bytes %02x%02x%02x%02x",o,p[o],p[o+1],p[o+2],p[o+3]);
  CHECK(dcgini_unpack_uint16(p,o)==V16(p,o)," "); CHECK(dcgini_unpack_uint24(p,o)==u24," "); CHECK(dcgini_unpack_uint32(p,o)==V32(p,o)," ");
  int e=(int)(u24&0x7fffff); if(u24&0x800000) e=-e; CHECK(dcgini_unpack_int24(p,o)==e," "); free(p);
}
vpn_case vpn_cases[]={{"util",util,20},{"nids",nids,5},{"gini",gini,5},{0}};
