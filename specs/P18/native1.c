//@ native inc=src
#include "vpn.h"
#include <ctype.h>
#include <string.h>
#include "src/strsplit.c"
#include "src/util.c"
static int gen(char *b,const char *d,int max){ int n=rr(0,max); for(int i=0;i<n;i++) b[i]= rn(3)==0 ? d[rn(strlen(d))] : (rn(10)==0?(char)(128+rn(128)):(char)("abc0 .:,|"[rn(9)])); b[n]=0; return n; }
static void chk(struct strsplit_st *r,const char *s,const char *d,int inc){
  if(!*s){ CHECK(r==NULL,"empty"); return; }
  CHECK(r!=NULL,"NULL"); int n=0; const char *p=s;
  for(;;){ size_t l=strcspn(p,d); if(l||inc){ CHECK(n<r->argc,"too few fields: %d",r->argc); CHECK(strlen(r->argv[n])==l&&!memcmp(r->argv[n],p,l),"field %d is \"%s\"",n,r->argv[n]); n++; } if(!p[l]) break; p+=l+1; }
  CHECK(n==r->argc,"%d fields, got %d",n,r->argc);
}
static void t_split(unsigned i){ static const char *ds[]={",",",:","| \t\n"," ","a","\n,"}; struct strsplit_st *r=NULL; int k=rr(1,5);
  while(k--){ const char *d=ds[rn(6)]; char b[200]; gen(b,d,rn(4)?12:150); int inc=rn(2); INFO("strsplit(\"%s\", \"%s\", %s) %s",b,d,inc?"INCEMPTY":"IGNEMPTY",r?"reusing":"new");
    char *h=strdup(b), *hd=strdup(d); struct strsplit_st *o=r; r= (r||rn(2)) ? strsplit_recreate(h,hd,inc?STRSPLIT_FLAG_INCEMPTY:STRSPLIT_FLAG_IGNEMPTY,r) : strsplit_create(h,hd,inc?STRSPLIT_FLAG_INCEMPTY:STRSPLIT_FLAG_IGNEMPTY);
    CHECK(!strcmp(h,b),"argument changed"); free(h); free(hd); chk(r,b,d,inc); if(!*b&&o) r=o; }
  if(r) strsplit_delete(r); }
static void t_trim(unsigned i){ static const char *ds[]={",",": ","\t \n"," "}; char *t=rn(2)?NULL:strdup(ds[rn(4)]); char b[64]; gen(b,t?t:" \t\n\r\v\f",12); for(char*p=b;*p;p++) *p&=127; for(char*p=b;*p;p++) if(*p==0) *p='x';
  INFO("trim(\"%s\",\"%s\")",b,t?t:"NULL"); char *h=strdup(b); size_t n=strlen(b);
#define D(c) (t?strchr(t,c)!=NULL:isspace((unsigned char)(c)))
  size_t l=0; while(l<n&&D(b[l])) l++; if(l==n) l=0; char *r=trimleft(h,t); CHECK(r==h+l,"trimleft: offset %d expected %d",(int)(r-h),(int)l); CHECK(!strcmp(h,b),"trimleft changed it");
  size_t e=n; while(e>1&&D(b[e-1])) e--; r=trimright(h,t); CHECK(r==h&&strlen(h)==e&&!memcmp(h,b,e),"trimright: \"%s\"",h); free(h); free(t); }
vpn_case vpn_cases[]={{"strsplit",t_split,5},{"trim",t_trim,4},{0}};
