//@ native inc=src
#include "vpn.h"
#include <errno.h>
#include <assert.h>
#include <stdarg.h>
#include <db.h>
#define NBSP_GLOBALS_DEF
#include "src/globals.h"
#include "src/err.h"
#include "src/sbn.h"
#include "src/nbspre.h"
void log_info(char*f,...){} void log_warnx(char*f,...){} void log_errx(char*f,...){} void log_err(char*f){} void log_err2u(char*f,unsigned u){} void log_verbose(int l,char*f,...){} void log_debug(char*f,...){}
void update_stats_frames_received(unsigned n){} void update_stats_frames(int s){} void update_stats_frames_jumps(void){} void update_stats_products_transmitted(void){} void update_stats_products_retransmitted(void){} void update_stats_products_completed(void){} void update_stats_products_missed(void){} void update_stats_products_aborted(void){} void update_stats_products_rejected(void){}
int sbn_unpack_frame(struct sbn_frame*f){ return 0; }
static int vunz; int np_regex_match(char*f){ return 0; } int savez_regex_match(char*f){ return vunz; }
int split_wmo_header(struct sbn_frame*f,char*a,char*b,char*c,char*d,char*e){ strcpy(a,"SAUS70"); strcpy(b,"KWBC"); strcpy(c,"010203"); strcpy(d,""); strcpy(e,""); return 0; }
int copy_ctrlheader(char*c,int*n,struct sbn_frame*f){ if(!f->ctrlhdr) return 1; *n=f->ctrlhdr_size; memcpy(c,f->ctrlhdr,*n); return 0; }
int oscompat_clock_gettime(struct timespec*t){ return clock_gettime(CLOCK_REALTIME,t); }
char *db_strerror(int e){ return ""; }
#define NCH 3
static struct pctl_element_st *last; static int sends, comps; static unsigned char sbuf[1<<16]; static size_t slen; static unsigned sseq; static int sch, slast;
int pctldb_send_pce(struct pctldb_st*p,struct pctl_element_st*q,int*e){ sends++; if(q->f_complete){ comps++; slen=q->mf->size; CHECK(slen<=sizeof sbuf," "); memcpy(sbuf,q->mf->p,slen); sseq=q->seq_number; sch=q->np_channel_index; } return 0; }
int pctldb_open(struct pctldb_st**p,struct pctldb_param_st*q,int*e){ *p=calloc(1,sizeof**p); return 0; } int pctldb_close(struct pctldb_st*p,int*e){ free(p); return 0; } int pctldb_rcv_pce(struct pctldb_st*p,struct pctl_element_st*q,int t,int*e){ return 1; } int pctldb_sync(struct pctldb_st*p,int*e){ return 0; }
#include "src/mfile.c"
#include "src/pctl.c"
#include "src/framep.c"
static struct { int act, num, recv, z; unsigned seq; unsigned char d[1<<15]; size_t n; } M[NCH];
static void put(int c,const void*p,size_t n){ memcpy(M[c].d+M[c].n,p,n); M[c].n+=n; }
static void t_hist(unsigned idx){ static char dir[]="/s"; g.spooldir=dir; g.memfile_blocksize=100; g.memfile_minsize=100; struct pctldb_param_st pm; memset(&pm,0,sizeof pm); pm.memfile_minsize=100; memset(&gframep,0,sizeof gframep); vunz=rn(2);
 struct pctl_st *p=epctl_open(NCH,&pm); CHECK(p!=NULL," "); g.pctl=p; for(int i=0;i<NCH;i++) M[i].act=0; struct sbn_frame*f=calloc(1,sizeof*f); unsigned cur[NCH]={0}; int blk[NCH]={0}, tot[NCH]={1,1,1};
 for(int k=0;k<60;k++){ int c=rn(NCH); f->np_channel_index=c; f->fh.sbn_command=rn(20)?SBN_COMMAND_DATA_TRANSFER:SBN_COMMAND_SYNC_TIMING; f->fh.sbn_seq_number=k;
  /* mostly a well formed stream, with frames lost, repeated and foreign */
  int kind=rn(10); if(blk[c]>=tot[c]||kind==0){ cur[c]=rn(3)?rn(4):(unsigned)rnd(); tot[c]=1+rn(4); blk[c]=0; }
  f->pdh.product_seq_number=cur[c]; f->pdh.block_number=blk[c]; int tt=PDH_TRANSFERTYPE_PROGRESS; if(blk[c]==0) tt|=PDH_TRANSFERTYPE_START; if(blk[c]==tot[c]-1) tt|=PDH_TRANSFERTYPE_END; f->psh.num_fragments=tot[c]==1&&rn(2)?0:tot[c]; blk[c]++; 
  if(kind==1) continue; /* lost */ if(kind==2) f->pdh.product_seq_number=rn(2)?0:rn(4); if(kind==3) f->pdh.block_number=rn(4); if(kind==4) tt=rn(128); if(kind==5&&f->psh.num_fragments) f->psh.num_fragments+=rn(3);
  f->pdh.transfer_type=tt; f->psh.transfer_status_flag=0; char dat[64], ch[32]; f->frdata=dat; f->frdata_size=1+rn(63); rbytes(dat,64); f->ctrlhdr=NULL; f->ccb=NULL; f->f_frdata_compressed=0; if(rn(2)){ f->f_frdata_compressed=1; if(f->pdh.block_number==0){ f->ctrlhdr=ch; f->ctrlhdr_size=1+rn(31); rbytes(ch,32); } } f->pdata=dat;
  INFO("frame %d: channel %d number %u block %d of %d type %d",k,c,f->pdh.product_seq_number,f->pdh.block_number,f->psh.num_fragments,tt);
  sends=comps=0; int xs=0,xc=0; unsigned char exp[1<<15]; size_t en=0; unsigned seq=f->pdh.product_seq_number; int b=f->pdh.block_number;
  if(f->fh.sbn_command==SBN_COMMAND_DATA_TRANSFER){ if(tt&(PDH_TRANSFERTYPE_ERROR|PDH_TRANSFERTYPE_ABORT)) M[c].act=0; else { int go=1;
   if(tt&PDH_TRANSFERTYPE_START){ if(b!=0) go=0; else { if(M[c].act) xs++; M[c].act=1; M[c].num=f->psh.num_fragments?f->psh.num_fragments:1; M[c].recv=0; M[c].seq=seq; M[c].n=0; M[c].z=f->f_frdata_compressed&&vunz==1&&f->ctrlhdr; } }
   int mine=go&&M[c].act&&M[c].seq==seq;
   if(mine&&(tt&PDH_TRANSFERTYPE_PROGRESS)){ if(b!=M[c].recv){ xs++; M[c].act=0; mine=0; } else { M[c].recv++; if(M[c].z){ struct memframe_info_st mi; memset(&mi,0,sizeof mi); mi.f_compressed=f->f_frdata_compressed; mi.size=f->frdata_size; M[c].n+=0; size_t at=M[c].n; put(c,&mi,sizeof mi); put(c,f->frdata,f->frdata_size); (void)at; } else { if(b==0&&f->ctrlhdr) put(c,f->ctrlhdr,f->ctrlhdr_size); put(c,f->frdata,f->frdata_size); } } }
   if(mine&&(tt&PDH_TRANSFERTYPE_END)){ xs++; if(M[c].recv>=M[c].num){ xc=1; en=M[c].n; memcpy(exp,M[c].d,en); } M[c].act=0; } } }
  int z=M[c].z; sbnframeproc(f); CHECK(sends==xs&&comps==xc,"queued %d (%d complete), expected %d (%d)",sends,comps,xs,xc);
  if(xc){ CHECK(sch==c&&sseq==seq&&slen==en,"channel %d number %u size %zu (expected %zu)",sch,sseq,slen,en); if(!z) CHECK(!memcmp(sbuf,exp,en),"data"); } }
 for(int i=0;i<NCH;i++) destroy_pce(p->activepce[i]); free(p->activepce); destroy_memfile(p->outputmf); destroy_pce(p->pce); free(p->pctldb); free(p); free(f); }
vpn_case vpn_cases[]={{"frame history",t_hist,1},{0}};
