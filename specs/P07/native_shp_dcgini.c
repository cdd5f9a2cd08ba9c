//@ native inc=filters/filterlib/c,filters/filterlib/c/dcgini srcs=filters/filterlib/c/err.c flags=-Wl,--unresolved-symbols=ignore-all
#include "vpn.h"
#include "filters/filterlib/c/dcgini/dcgini_shp.c"
#include "filters/filterlib/c/dcgini/dcgini_dbf.c"
#define F(x) dcgini_shp_##x
static void shp(unsigned idx){
  int n=rr(8,120); unsigned char *p=malloc(n),*q=malloc(n); rbytes(p,n); memcpy(q,p,n); int o=rn(n-7); uint32_t u=redge32(); double r; rbytes(&r,8);
  INFO("u=%u at=%d of %d",u,o,n);
  F(insert_uint32_big)(p,o,u); CHECK(p[o]==(u>>24&255)&&p[o+1]==(u>>16&255)&&p[o+2]==(u>>8&255)&&p[o+3]==(u&255)," "); for(int i=0;i<n;i++) CHECK((i>=o&&i<o+4)||p[i]==q[i]," ");
  F(insert_uint32_little)(p,o,u); CHECK(p[o+3]==(u>>24&255)&&p[o+2]==(u>>16&255)&&p[o+1]==(u>>8&255)&&p[o]==(u&255)," "); for(int i=0;i<n;i++) CHECK((i>=o&&i<o+4)||p[i]==q[i]," ");
  dcgini_dbf_insert_uint16_little(p,o,(uint16_t)u); CHECK(p[o]==(u&255)&&p[o+1]==(u>>8&255)," "); for(int i=0;i<n;i++) CHECK((i>=o&&i<o+4)||p[i]==q[i]," ");
   F(insert_double_little)(p,o,r); CHECK(!memcmp(p+o,&r,8)," "); for(int i=0;i<n;i++) CHECK((i>=o&&i<o+8)||p[i]==q[i]," ");
  free(p); free(q);
}
vpn_case vpn_cases[]={{"shp_dcgini",shp,5},{0}};
