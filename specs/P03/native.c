//@ native inc=src srcs=src/unz.c flags=-lz
#include "vpn.h"
#include <ctype.h>
#include "src/const.h"
#include "src/sbn.c"
#define AL(c) (((c)>='A'&&(c)<='Z')||((c)>='a'&&(c)<='z'))
#define DG(c) ((c)>='0'&&(c)<='9')
#define AN(c) (AL(c)||DG(c))
#define SP(c) ((c)==' '||((c)>=9&&(c)<=13))
struct ref { int st; char id[7], stn[5], tm[7], aw[7], na[7]; };
static int tok(const char *s,int n,int *at,int w,char *o){ while(*at<n&&SP(s[*at])) ++*at; if(*at>=n||s[*at]==0) return 0; int l=0; while(l<w&&*at<n&&s[*at]&&!SP(s[*at])) o[l++]=s[(*at)++]; o[l]=0; return 1; }
static void reference(const char *d,int n,struct ref *r){
  memset(r,0,sizeof *r); r->st=1; char bbb[7]=""; int e=0,sp=0; while(e<n&&d[e]!='\n'&&d[e]) sp+=d[e++]==' '; int nl=0; while(nl<n&&d[nl]!='\n') nl++;
  if(sp!=2&&sp!=3) return; int at=0; if(!tok(d,e,&at,6,r->id)||!tok(d,e,&at,4,r->stn)||!tok(d,e,&at,6,r->tm)) return; if(sp==3&&!tok(d,e,&at,6,bbb)) return;
  if(strlen(r->id)!=6||strlen(r->stn)!=4||strlen(r->tm)!=6) return;
  for(int i=0;i<6;i++) if(!AN(r->id[i])||!DG(r->tm[i])) return; for(int i=0;i<4;i++) if(!AL(r->stn[i])) return; for(char*p=bbb;*p;p++) if(!AN(*p)) return;
  r->st=0; const char *q=d+nl+1; int m=n-nl-1; if(m<=0) return; 
  if(!AL(q[0])){ strcpy(r->na,bbb); return; }
  if(m>=9&&q[8]=='\n'){ int l=0,ok=1; while(l<6&&q[l]&&!SP(q[l])){ if(!AN(q[l])) ok=0; l++; } if(ok){ memcpy(r->aw,q,l); return; } }
  for(int l=0;l<6&&l<m&&AN(q[l]);l++) r->na[l]=q[l];
}
static char ch(void){ static const char s[]=" \n\r\t/.-+_A0z\0\x80\xff"; return s[rn(sizeof s-1)]; }
static int gen(char *b){ /* header text */
  int n=0; const char *A="ABCDEFGHIJKLMNOPQRSTUVWXYZ";
  for(int i=0;i<4;i++) b[n++]=A[rn(26)]; b[n++]='0'+rn(10); b[n++]='0'+rn(10); b[n++]=' '; for(int i=0;i<4;i++) b[n++]=A[rn(26)]; b[n++]=' '; for(int i=0;i<6;i++) b[n++]='0'+rn(10);
  if(rn(3)==0){ b[n++]=' '; int l=1+rn(6); while(l--) b[n++]=A[rn(26)]; }
  if(rn(8)==0) b[n++]=' ';
  int r=rn(3); while(r--) b[n++]='\r'; if(rn(12)) b[n++]='\n';
  switch(rn(6)){ case 0: case 1: for(int i=0;i<6;i++) b[n++]=rn(9)?A[rn(26)]:(rn(2)?' ':ch()); b[n++]='\r'; b[n++]='\r'; b[n++]='\n'; break; case 2: n+=sprintf(b+n,"GRIB%c%c%c\n",ch(),ch(),ch()); break; case 3: n+=sprintf(b+n,"%.*s",(int)rn(12),"METAR KSEA 01"); break; case 4: break; default: { int l=rn(12); while(l--) b[n++]=(char)rnd(); } }
  if(rn(3)==0){ int l=rn(30); while(l--) b[n++]=A[rn(26)]; }
  if(rn(3)==0) b[rn(n)]=ch();
  if(rn(12)==0){ int k=rn(n); b[k]='\n'; }
  if(rn(4)==0) n=rn(n+1);
  if(rn(200)==0){ int m=rn(5000); if(m>n){ memset(b+n,'x',m-n); n=m; } }
  return n;
}
static void hdr(unsigned idx){
  static char b[6000]; int n=gen(b); struct sbn_frame *f=malloc(sizeof *f); memset(f,rn(256),sizeof *f);
  int mode=rn(3), ccb=mode==2?24:0; char *d=malloc(n+ccb?n+ccb:1); memcpy(d+ccb,b,n); if(ccb){ for(int i=0;i<24;i++) d[i]=(char)rnd(); d[0]=64; }
  if(mode==0){ f->ctrlhdr=NULL; f->pdata=d; f->pdata_size=n; } else { f->ctrlhdr=d; f->ctrlhdr_size=n+ccb; f->pdata=NULL; f->pdata_size=0; if(n+ccb<21||(mode==1&&!AL(d[0]))) { free(d); free(f); return; } }
  char *id=malloc(7),*st=malloc(5),*tm=malloc(7),*aw=malloc(7),*na=malloc(7); struct ref r; reference(b,n,&r); if(mode&&n<21) r.st=1;
  char t[200]; int k=0; for(int i=0;i<n&&k<150;i++) k+=b[i]>=32&&b[i]<127?sprintf(t+k,"%c",b[i]):sprintf(t+k,"\\x%02x",(unsigned char)b[i]); INFO("%d bytes mode %d: %s",n,mode,t);
  int s=split_wmo_header(f,id,st,tm,aw,na);
  CHECK(s==r.st,"status %d instead of %d",s,r.st);
  if(s==0){ CHECK(!strcmp(id,r.id)&&!strcmp(st,r.stn)&&!strcmp(tm,r.tm),"%s %s %s instead of %s %s %s",id,st,tm,r.id,r.stn,r.tm); CHECK(!strcmp(aw,r.aw),"awips %s instead of %s",aw,r.aw); CHECK(!strcmp(na,r.na),"other code %s instead of %s",na,r.na); }
  free(id);free(st);free(tm);free(aw);free(na);free(d);free(f);
}
vpn_case vpn_cases[]={{"header",hdr,20},{0}};
