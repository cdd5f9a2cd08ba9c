//@ native inc=src flags=-Wl,--unresolved-symbols=ignore-all,-lz,-no-pie
#include "vpn.h"
#include <errno.h>
#include <fcntl.h>
#include <zlib.h>
#include <db.h>
#define NBSP_GLOBALS_DEF
#include "src/globals.h"
#include "src/err.h"
void log_info(char*f,...){} void log_warnx(char*f,...){} void log_errx(char*f,...){} void log_err(char*f){} void log_err2(char*f,char*s){} void log_err2u(char*f,unsigned u){} void log_verbose(int l,char*f,...){} void log_debug(char*f,...){}
static int wmode; static ssize_t vwrite(int fd,const void*p,size_t n){ if(wmode==1){ errno=ENOSPC; return -1; } if(wmode==2) return write(fd,p,n/2); return write(fd,p,n); }
#define write vwrite
#include "src/mfile.c"
#undef write
#include "src/spooltype.c"
#include "src/unz.c"
#include "src/nbsp.c"
static char path[]="vpXXXXXX"; static unsigned char *got; static size_t gotn; static int isgot, dbfail;
static int ins(void*d,size_t n){ if(dbfail) return -1; got=realloc(got,n+1); memcpy(got,d,n); gotn=n; isgot++; return 0; }
int nbsp_mspoolbdb_insert(char*f,void*d,size_t n){ return ins(d,n); } int nbsp_cspoolbdb_insert(char*f,void*d,size_t n){ return ins(d,n); }
static int fdm; int e_open_product_file(struct pctl_element_st*p){ int f=open(path,O_RDWR|O_CREAT|O_TRUNC,0600); return f; }
struct memfile_st *reopen_pctl_outputmf(struct pctl_st*p){ close_memfile(p->outputmf); return open_memfile(p->outputmf)?NULL:p->outputmf; }
static int deflate1(const unsigned char*s,int n,unsigned char*d,int m){ uLongf l=m; return compress(d,&l,s,n)==Z_OK?(int)l:-1; }
static void t_save(unsigned idx){ static struct pctl_st ps; g.pctl=&ps; ps.outputmf=create_memfile(0); struct pctl_element_st*e=calloc(1,sizeof*e+64); e->mf=create_memfile(0); strcpy(e->fpath,"s/k/x"); g.spooltype=1+rn(5); wmode=rn(4)?0:1+rn(2); dbfail=rn(6)==0; isgot=0; e->f_complete=1;
 e->f_has_ccb=rn(2); e->save_format=rn(2)?SAVEFORMAT_NO_CCB:SAVEFORMAT_WITH_CCB; e->saveunz_flag=rn(2); int nf=1+rn(4); unsigned char exp[40000]; int en=0; e->num_fragments=nf; if(rn(6)==0&&nf>1) e->num_fragments=1+rn(nf); e->recv_fragments=nf;
 for(int i=0;i<nf;i++){ unsigned char b[5000], z[6000]; int n= rn(4)?1+rn(4000):1+rn(40); for(int j=0;j<n;j++) b[j]=rn(3)?'A':rnd(); if(e->saveunz_flag){ int c=rn(2); if(c){ int m=deflate1(b,n,z,sizeof z); write_memframe(e->mf,(char*)z,m,1); } else write_memframe(e->mf,(char*)b,n,0); } else write_memfile(e->mf,b,n); memcpy(exp+en,b,n); en+=n; }
 int sk=e->f_has_ccb&&e->save_format==SAVEFORMAT_NO_CCB?CCB_SIZE:0; INFO("spool type %d, %d fragments, %d bytes, control block %d, format %d, expanded %d, write failure %d",g.spooltype,nf,en,e->f_has_ccb,e->save_format,e->saveunz_flag,wmode);
 int r=pce_spool_product(e); int fs=g.spooltype==1||g.spooltype>=4, db=g.spooltype>=2;
 int bad=en<=sk||(fs&&wmode)||(db&&dbfail); CHECK((r!=0)==(bad!=0),"returned %d",r);
 if(!r){ if(db) CHECK(isgot==1&&gotn==(size_t)(en-sk)&&!memcmp(got,exp+sk,gotn),"memory spool has %zu bytes, expected %d",gotn,en-sk); if(fs){ int f=open(path,O_RDONLY); unsigned char o[40001]; ssize_t n=read(f,o,sizeof o); close(f); CHECK(n==en-sk&&!memcmp(o,exp+sk,n),"file has %zd bytes, expected %d",n,en-sk); } }
 unlink(path); destroy_memfile(ps.outputmf); destroy_memfile(e->mf); free(e); free(got); got=NULL; }
vpn_case vpn_cases[]={{"save",t_save,1},{0}};
