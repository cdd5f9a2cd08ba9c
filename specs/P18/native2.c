//@ native inc=src
#include "vpn.h"
#include <string.h>
#include <sys/types.h>
#include <time.h>
static long live, cnt, failat=-1;
static void *ptrs[4096];
static void *reg(void *p){ if(p){ for(int i=0;i<4096;i++) if(!ptrs[i]){ ptrs[i]=p; break; } live++; } return p; }
static void *vmalloc(size_t n){ if(failat>=0&&cnt++==failat) return NULL; return reg(malloc(n)); }
static void *vcalloc(size_t n,size_t m){ if(failat>=0&&cnt++==failat) return NULL; return reg(calloc(n,m)); }
static void vfree(void *p){ if(p) for(int i=0;i<4096;i++) if(ptrs[i]==p){ ptrs[i]=NULL; live--; break; } free(p); }
#define malloc vmalloc
#define calloc vcalloc
#define free vfree
#include "src/strsplit.c"
#include "src/stoi.c"
#include "src/slavet.c"
#undef malloc
#undef calloc
#undef free
static char lb[4096];
void log_errx(char *f,...){ va_list a; va_start(a,f); vsnprintf(lb,sizeof lb,f,a); va_end(a); }
void log_err(char *s){ snprintf(lb,sizeof lb,"%s",s); }
void log_err_open(char *s){ snprintf(lb,sizeof lb,"%s",s); }
int valid_str(char *s){ return s&&*s; }
static int np; int feedmode_noaaport_enabled(void){ return np; }
static void word(char *b){ int n=rr(1,8); for(int i=0;i<n;i++) b[i]="abcxyz019.-/"[rn(12)]; b[n]=0; }
struct ent { int ok, type, idx, hasopt[5], opt[5]; char a[2][32]; };
static void t_table(unsigned i){
  struct slave_options_st d; char grp[16],st[16],port[16]; word(grp); word(st); word(port); memset(&d,0,sizeof d); d.infifo_mode=0660; d.infifo_grp=grp; d.slavestatsfile=st; d.slave_masterport=rn(8)?port:NULL;
  d.slave_read_timeout_secs=rn(100); d.slave_read_timeout_retry=rn(100); d.slave_reopen_timeout_secs=rn(100); d.slave_so_rcvbuf=rn(100); d.slave_stats_logperiod_secs=rn(100); np=rn(2);
  int n=rr(0,5); static struct ent e[6]; memset(e,0,sizeof e); char s[2000]; int l=0; int allok=1; if(rn(4)==0) l+=sprintf(s+l,"| ");
  for(int k=0;k<n;k++){ struct ent *x=&e[k]; int t=rn(12)==0?(int)rn(6):1+(int)rn(3); int bad=rn(25)==0; x->type=t; l+=sprintf(s+l,bad?"x%d":"%d",t);
    int max=t==3?7:8, req=t==3?2:2; int nf=rn(12)==0? rr(1,10): rr(req,max); x->ok=!bad&&t>=1&&t<=3&&nf>=2&&nf<=max;
    for(int f=1;f<nf;f++){ l+=sprintf(s+l,"%c",",:"[rn(2)]); char w[16]; word(w); int em=rn(t!=3&&f==2?3:12)==0; if(em) *w=0;
      int o=f-(t==3?2:3); if(o>=0){ if(rn(3)==0) { *w=0; } else if(rn(8)) { int v=rr(-5,500); sprintf(w,"%d",v); if(o<5){ x->hasopt[o]=1; x->opt[o]=v; } } else strcpy(w,"zz"); }
      else if(f<=2){ strcpy(x->a[f-1],w); }
      l+=sprintf(s+l,"%s",w); }
    if(!x->a[0][0]) x->ok=0; if(t!=3){ if(nf==2||(nf>3&&!x->a[1][0])){ if(!d.slave_masterport) x->ok=0; else strcpy(x->a[1],port); } else if(!x->a[1][0]) x->ok=0; }
    if(!x->ok) allok=0; int m=rr(1,3); while(m--) if(k<n-1||rn(3)==0) l+=sprintf(s+l,"%c","| \t\n"[rn(4)]); if(k<n-1&&l&&!strchr("| \t\n",s[l-1])) l+=sprintf(s+l,"|"); }
  s[l]=0; failat=rn(3)==0?(long)rn(30):-1; cnt=0; live=0; memset(ptrs,0,sizeof ptrs);
  INFO("slave_table_create(\"%s\") default port %s, allocation failing: %ld",s,d.slave_masterport?port:"none",failat);
  char *h=strdup(s); struct slave_table_st *t=NULL; int r=slave_table_create(&t,h,&d); CHECK(!strcmp(h,s),"argument changed"); free(h);
  int mem=failat>=0&&cnt>failat;
  if(!mem) CHECK((r==0)==(allok&&n>0),"status %d expected %d",r,!(allok&&n>0)); else if(!allok||n==0) CHECK(r!=0,"accepted");
  if(r!=0){ CHECK(live==0,"%ld blocks leaked",live); CHECK(t==NULL," "); return; }
  CHECK(t->numslaves==n,"%d entries expected %d",t->numslaves,n); int nb=0;
  for(int k=0;k<n;k++){ struct slave_element_st *z=&t->slave[k]; struct ent *x=&e[k]; CHECK(z->slavetype==x->type,"type of %d",k);
    if(x->type==3) CHECK(z->infifo&&!strcmp(z->infifo,x->a[0])&&!z->mastername,"fifo of %d",k); else CHECK(z->mastername&&!strcmp(z->mastername,x->a[0])&&!strcmp(z->masterport,x->a[1])&&!z->infifo,"host/port of %d: %s %s",k,z->mastername,z->masterport);
    CHECK(!strcmp(z->options.infifo_grp,grp)&&!strcmp(z->options.slavestatsfile,st)&&z->options.infifo_mode==0660,"defaults of %d",k);
    int def[5]={d.slave_read_timeout_secs,d.slave_read_timeout_retry,d.slave_reopen_timeout_secs,d.slave_so_rcvbuf,d.slave_stats_logperiod_secs};
    int got[5]={z->options.slave_read_timeout_secs,z->options.slave_read_timeout_retry,z->options.slave_reopen_timeout_secs,z->options.slave_so_rcvbuf,z->options.slave_stats_logperiod_secs};
    for(int o=0;o<5;o++) CHECK(got[o]==(x->hasopt[o]?x->opt[o]:def[o]),"option %d of %d is %d",o,k,got[o]);
    CHECK(z->slavenbs_reader_index==(x->type==1?nb+(np?NPCAST_NUM_CHANNELS:0):-1),"reader index of %d",k); if(x->type==1) nb++; }
  CHECK(t->num_slavenbs_readers==nb,"readers"); slave_table_destroy(t); CHECK(live==0,"%ld blocks leaked",live); }
vpn_case vpn_cases[]={{"slave_table",t_table,3},{0}};
