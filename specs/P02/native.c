//@ native inc=src srcs=src/unz.c flags=-lz
#include "../P01/nsbn.h"
static void malformed(unsigned idx){ check_frame(idx,1); }
/* the decompression never writes more than it was given */
#include "src/unz.h"
static void decompress(unsigned idx){
  int n=(int)rn(300); unsigned char *p=malloc(n?n:1); for(int i=0;i<n;i++) p[i]=rn(3)?65:rn(256); uLong cl=compressBound(n); unsigned char *c=malloc(cl); compress(c,&cl,p,n);
  if(rn(3)==0&&cl) c[rn(cl)]^=1<<rn(8); int m=(int)cl; if(rn(4)==0) m=(int)rn(cl+1); int cap=rn(3)?n+(int)rn(10):(int)rn(n+1); char *o=malloc(cap?cap:1); int ol=cap; char *in=malloc(m?m:1); memcpy(in,c,m);
  INFO("compressed %d of %lu bytes of %d into %d",m,cl,n,cap); int e=unz(o,&ol,in,m);
  uLong rl=cap; unsigned char *ro=malloc(cap?cap:1); int re=uncompress(ro,&rl,(unsigned char*)in,m);
  CHECK(e==re,"status %d instead of %d",e,re); if(e==0) CHECK(ol==(int)rl&&!memcmp(o,ro,rl),"output");
  free(p);free(c);free(o);free(in);free(ro);
}
vpn_case vpn_cases[]={{"malformed",malformed,10},{"decompress",decompress,3},{0}};
