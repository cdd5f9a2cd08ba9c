//@ native inc=src
#include "vpn.h"
#include <errno.h>
#include <assert.h>
#include <ctype.h>
#include <stdarg.h>
#include <db.h>
#define NBSP_GLOBALS_DEF
#include "src/globals.h"
#include "src/err.h"
#include "src/sbn.h"
#include "src/nbspre.h"
#include "src/nbs1.h"
#include "src/file.h"
void log_info(char*f,...){} void log_warnx(char*f,...){} void log_errx(char*f,...){} void log_err(char*f){} void log_err2u(char*f,unsigned u){} void log_verbose(int l,char*f,...){} void log_debug(char*f,...){}
void update_stats_frames_received(unsigned n){} void update_stats_frames(int s){} void update_stats_frames_jumps(void){} void update_stats_products_transmitted(void){} void update_stats_products_retransmitted(void){} void update_stats_products_completed(void){} void update_stats_products_missed(void){} void update_stats_products_aborted(void){} void update_stats_products_rejected(void){}
int np_regex_match(char*f){ return 0; } int savez_regex_match(char*f){ return 0; } int file_exists(char*f){ return 1; }
int const_fpath_maxsize(void){ return strlen(g.spooldir)+WMO_STATION_SIZE+FBASENAME_SIZE+2; }
int oscompat_clock_gettime(struct timespec*t){ return clock_gettime(CLOCK_REALTIME,t); } char *db_strerror(int e){ return ""; }
static int sends; static struct pctl_element_st gp; static char gfp[512];
int pctldb_send_pce(struct pctldb_st*p,struct pctl_element_st*q,int*e){ sends++; gp=*q; snprintf(gfp,512,"%s",q->fpath); return 0; }
int pctldb_open(struct pctldb_st**p,struct pctldb_param_st*q,int*e){ *p=calloc(1,sizeof**p); return 0; } int pctldb_close(struct pctldb_st*p,int*e){ free(p); return 0; } int pctldb_rcv_pce(struct pctldb_st*p,struct pctl_element_st*q,int t,int*e){ return 1; } int pctldb_sync(struct pctldb_st*p,int*e){ return 0; }
#include "src/mfile.c"
#include "src/pctl.c"
#include "src/slavenbs/framep.c"
static void up(char*o,const char*a,const char*b){ while(a<b) *o++=toupper(*a++); *o=0; }
static void part(char*o,int n){ for(int i=0;i<n;i++) o[i]="abcxyzABCXYZ0189"[rn(16)]; o[n]=0; }
static void t_split(unsigned idx){ char dir[64]; int dl=rn(63); for(int i=0;i<dl;i++) dir[i]="ab/._ "[rn(6)]; dir[dl]=0; g.spooldir=dir; g.memfile_blocksize=100; g.memfile_minsize=100;
 struct pctldb_param_st pm; memset(&pm,0,sizeof pm); pm.memfile_minsize=100; struct pctl_st *p=epctl_open(1,&pm); CHECK(p!=NULL," "); g.pctl=p;
 for(int k=0;k<20;k++){ struct nbs1_packet_st *f=calloc(1,sizeof*f); char d[4]="abc", nm[200]; f->slavenbs_reader_index=0; f->block=d; f->block_size=3; f->block_number=1; f->num_blocks=1; f->seq_number=redge32();
  if(rn(4)==0){ int l=rn(37); for(int i=0;i<l;i++) nm[i]="a1K_-+./ "[rn(9)]; nm[l]=0; } else { char a[9],b[9],c[9],t[9]; part(a,rn(8)?4:rn(6)); part(b,rn(8)?6:rn(8)); part(c,rn(8)?rn(7):7); part(t,6); static const char*sp[]={"","-","+"}; int s=rn(3); snprintf(nm,200,"%s_%s%s%s.%s_%u",a,b,sp[s],s?c:"",t,f->seq_number); if(rn(10)==0) nm[rn(strlen(nm))]="/.-+_"[rn(5)]; nm[36]=0; }
  strcpy(f->fbasename,nm); INFO("spool [%s] name [%s]",dir,nm); sends=0;
  char *dot=strchr(nm,'.'), *us=dot?memchr(nm,'_',dot-nm):NULL, *s=NULL; if(us){ s=memchr(us,'-',dot-us); if(!s) s=memchr(us,'+',dot-us); } char *ie=s?s:dot; int ok=dot&&us&&!strchr(nm,'/')&&dot-nm<=18&&us-nm<=4&&ie-us-1<=6&&(!s||dot-s-1<=6);
  slavenbsproc(f); CHECK((sends==1)==ok,"%s",ok?"refused":"accepted");
  if(ok){ char x[512]; snprintf(x,512,"%s/%.*s/%s",dir,(int)(us-nm),nm,nm); CHECK(!strcmp(gfp,x),"path %s expected %s",gfp,x); CHECK(!strcmp(gp.fbasename,nm)," "); CHECK(strlen(gp.fname)==(size_t)(dot-nm)&&!memcmp(gp.fname,nm,dot-nm),"name %s",gp.fname); char w[64]; up(w,nm,us); CHECK(!strcmp(gp.wmo_station,w),"station %s",gp.wmo_station); up(w,us+1,ie); CHECK(!strcmp(gp.wmo_id,w),"identifier %s",gp.wmo_id); up(w,s&&*s=='-'?s+1:dot,dot); CHECK(!strcmp(gp.wmo_awips,w),"AWIPS %s",gp.wmo_awips); up(w,s&&*s=='+'?s+1:dot,dot); CHECK(!strcmp(gp.wmo_notawips,w),"other %s",gp.wmo_notawips); }
  else if(p->activepce[0]->num_fragments) ; free(f); }
 destroy_pce(p->activepce[0]); free(p->activepce); destroy_memfile(p->outputmf); destroy_pce(p->pce); free(p->pctldb); free(p); }
vpn_case vpn_cases[]={{"received name",t_split,1},{0}};
