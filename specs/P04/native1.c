//@ native inc=src
#include "vpn.h"
#include <errno.h>
#include <assert.h>
#include <ctype.h>
#include <stdarg.h>
#include <db.h>
#define NBSP_GLOBALS_DEF
#include "src/globals.h"
#include "src/err.h"
#include "src/sbn.h"
#include "src/nbspre.h"
void log_info(char*f,...){} void log_warnx(char*f,...){} void log_errx(char*f,...){} void log_err(char*f){} void log_err2u(char*f,unsigned u){} void log_verbose(int l,char*f,...){} void log_debug(char*f,...){}
void update_stats_frames_received(unsigned n){} void update_stats_frames(int s){} void update_stats_frames_jumps(void){} void update_stats_products_transmitted(void){} void update_stats_products_retransmitted(void){} void update_stats_products_completed(void){} void update_stats_products_missed(void){} void update_stats_products_aborted(void){} void update_stats_products_rejected(void){}
int sbn_unpack_frame(struct sbn_frame*f){ return 0; } int np_regex_match(char*f){ return 0; } int savez_regex_match(char*f){ return 0; }
static char hi[7],hs[5],ht[7],ha[7],hn[7];
int split_wmo_header(struct sbn_frame*f,char*a,char*b,char*c,char*d,char*e){ strcpy(a,hi); strcpy(b,hs); strcpy(c,ht); strcpy(d,ha); strcpy(e,hn); return 0; }
int copy_ctrlheader(char*c,int*n,struct sbn_frame*f){ return 1; }
int oscompat_clock_gettime(struct timespec*t){ return clock_gettime(CLOCK_REALTIME,t); } char *db_strerror(int e){ return ""; }
static int sends; static char gfn[64],gfb[64],gfp[512];
int pctldb_send_pce(struct pctldb_st*p,struct pctl_element_st*q,int*e){ sends++; snprintf(gfn,64,"%s",q->fname); snprintf(gfb,64,"%s",q->fbasename); snprintf(gfp,512,"%s",q->fpath); return 0; }
int pctldb_open(struct pctldb_st**p,struct pctldb_param_st*q,int*e){ *p=calloc(1,sizeof**p); return 0; } int pctldb_close(struct pctldb_st*p,int*e){ free(p); return 0; } int pctldb_rcv_pce(struct pctldb_st*p,struct pctl_element_st*q,int t,int*e){ return 1; } int pctldb_sync(struct pctldb_st*p,int*e){ return 0; }
#include "src/mfile.c"
#include "src/pctl.c"
#include "src/framep.c"
static void part(char*o,int n,const char*set){ int l=strlen(set); for(int i=0;i<n;i++) o[i]=set[rn(l)]; o[n]=0; }
static void t_name(unsigned idx){ static const char AN[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"; char dir[200]; int dl=rn(199); for(int i=0;i<dl;i++) dir[i]="ab/._ "[rn(6)]; dir[dl]=0; g.spooldir=dir; g.memfile_blocksize=100; g.memfile_minsize=100;
 struct pctldb_param_st pm; memset(&pm,0,sizeof pm); pm.memfile_minsize=100; struct pctl_st *p=epctl_open(1,&pm); CHECK(p!=NULL," "); g.pctl=p;
 for(int k=0;k<20;k++){ part(hi,6,AN); char t[64]; strcpy(t,AN); t[52]=0; part(hs,4,t); part(ht,6,"0123456789"); part(ha,rn(2)?rn(7):0,AN); part(hn,rn(2)?rn(7):0,AN); struct sbn_frame*f=calloc(1,sizeof*f); char d[4]="abc"; f->np_channel_index=0; f->fh.sbn_command=SBN_COMMAND_DATA_TRANSFER; f->pdh.transfer_type=7; f->psh.num_fragments=1; f->frdata=f->pdata=d; f->frdata_size=3; f->pdh.product_seq_number=redge32(); sends=0;
  INFO("spool [%s] header %s %s %s awips [%s] other [%s] number %u",dir,hi,hs,ht,ha,hn,f->pdh.product_seq_number);
  sbnframeproc(f); CHECK(sends==1," "); char e[64],l[64]; snprintf(e,64,"%s_%s%s%s",hs,hi,ha[0]?"-":hn[0]?"+":"",ha[0]?ha:hn); for(char*c=e;*c;c++) *c=tolower(*c); CHECK(!strcmp(gfn,e),"name %s expected %s",gfn,e); snprintf(l,64,"%s.%s_%u",e,ht,f->pdh.product_seq_number); CHECK(!strcmp(gfb,l),"file name %s expected %s",gfb,l);
  char x[512]; e[4]=0; snprintf(x,512,"%s/%s/%s",dir,e,l); CHECK(!strcmp(gfp,x),"path %s expected %s",gfp,x); free(f); }
 destroy_pce(p->activepce[0]); free(p->activepce); destroy_memfile(p->outputmf); destroy_pce(p->pce); free(p->pctldb); free(p); }
vpn_case vpn_cases[]={{"name",t_name,1},{0}};
