#include "vpn.h"
#include <errno.h>
#include <ctype.h>
#include <limits.h>
#include <time.h>
#include VPT
static void gens(char *b){
  int n=0; int k=rn(12); static const char *ed[]={"2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","65535","65536","9223372036854775807","9223372036854775808","18446744073709551615","18446744073709551616","-18446744073709551615","-1","0","-0","+5","4294967297","8589934592","-4294967295","99999999999999999999999","0x10","1e3","010"};
  if(rn(6)==0) n+=sprintf(b+n,"%s",rn(2)?" ":"\t ");
  if(k<5) n+=sprintf(b+n,"%s",ed[rn(sizeof ed/sizeof*ed)]); else if(k<8){ if(rn(3)==0) b[n++]=rn(2)?'-':'+'; int l=1+rn(20); while(l--) b[n++]='0'+rn(10); } else if(k<10) n+=sprintf(b+n,"%d",(int)redge32()); else { int l=rn(6); while(l--) b[n++]=" -+0a.9,xZ"[rn(10)]; }
  if(rn(8)==0) b[n++]=" a.-9\n"[rn(6)]; b[n]=0;
}
/* 1: number, magnitude and sign (saturated) */
static int ref(const char *s,int *neg,unsigned __int128 *m){ while(isspace((unsigned char)*s)) s++; *neg=0; if(*s=='-'||*s=='+') *neg=*s++=='-'; if(!isdigit((unsigned char)*s)) return 0; *m=0; while(isdigit((unsigned char)*s)) { if(*m<((unsigned __int128)1<<100)) *m=*m*10+(*s-'0'); s++; } return *s==0; }
#define T(fn,T_,lo,hi) static void t_##fn(unsigned i){ char b[80]; gens(b); INFO(#fn "(\"%s\")",b); int neg; unsigned __int128 m; int ok=ref(b,&neg,&m); \
  __int128 v=ok?(neg?-(__int128)m:(__int128)m):0; if(v<(__int128)(lo)||v>(__int128)(hi)) ok=0; T_ x0=(T_)rnd(),x=x0; int e0=rn(3)?0:(int)rn(50); errno=e0; \
  int r=fn(b,&x); CHECK(errno==e0,"errno %d",errno); CHECK(r==(ok?0:1),"status %d",r); if(ok) CHECK((__int128)x==v,"value %lld",(long long)x); else CHECK(x==x0,"destination changed"); }
T(strto_int,int,INT_MIN,INT_MAX)
T(strto_uint,unsigned int,0,UINT_MAX)
T(strto_u16,uint16_t,0,65535)
T(strto_u32,uint32_t,0,UINT_MAX)
static void t_dbl(unsigned i){ char b[80]; if(rn(2)) sprintf(b,"%.*g%s",(int)rn(17),(double)(int64_t)rnd()/(1+rn(100000)),rn(5)?"":"x"); else gens(b); INFO("strto_double(\"%s\")",b); char *e; errno=0; double v=strtod(b,&e); int ok=e!=b&&!*e; int e0=rn(50); errno=e0; double x0=1.5,x=x0; int r=strto_double(b,&x); CHECK(errno==e0,"errno"); CHECK(r==(ok?0:1),"status %d",r); CHECK(x==(ok?v:x0),"value %g",x); }
vpn_case vpn_cases[]={{"strto_int",t_strto_int,5},{"strto_uint",t_strto_uint,5},{"strto_u16",t_strto_u16,3},{"strto_u32",t_strto_u32,3},{"strto_double",t_dbl,3},{0}};
