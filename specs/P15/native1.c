//@ native inc=src,src/libqdb
#include "vpn.h"
#include <errno.h>
#include <assert.h>
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <db.h>
/* an in-memory storage that can fail, a clock that jumps, a lock that counts */
#define MAXQ 64
static unsigned char *qe[MAXQ]; static int qn; static struct { unsigned char *k, *v; uint32_t ks, vs; } me[MAXQ]; static int mn; static uint32_t RECLEN; static int pfail, lastfail, lock, waits, wres, wms; static DB *qd, *md; static long CS, CN; static int stepc; static int refill;
static int bad(void){ if(rn(100)<(unsigned)pfail){ lastfail=rn(2)?EIO:-30973; return lastfail; } return 0; }
static int f_put(DB*d,DB_TXN*t,DBT*k,DBT*v,u_int32_t f){ CHECK(lock==1,"put without the lock"); if(bad()) return lastfail; if(d==qd){ if(v->size>RECLEN) return lastfail=EINVAL; CHECK(qn<MAXQ," "); qe[qn]=calloc(1,RECLEN); memcpy(qe[qn++],v->data,v->size); } else { int i; for(i=0;i<mn;i++) CHECK(!(me[i].ks==k->size&&!memcmp(me[i].k,k->data,k->size)),"the data of a queued product is overwritten"); CHECK(mn<MAXQ," "); me[mn].k=malloc(k->size); memcpy(me[mn].k,k->data,me[mn].ks=k->size); me[mn].v=malloc(v->size+1); memcpy(me[mn].v,v->data,me[mn].vs=v->size); mn++; } return 0; }
static int f_find(DBT*k){ for(int i=0;i<mn;i++) if(!memcmp(me[i].k,k->data,me[i].ks)) return i; return -1; }
static int f_get(DB*d,DB_TXN*t,DBT*k,DBT*v,u_int32_t f){ CHECK(lock==1,"get without the lock"); if(bad()) return lastfail; if(d==qd){ CHECK(f==DB_CONSUME," "); if(!qn) return lastfail=DB_NOTFOUND; if(v->ulen<RECLEN) return lastfail=DB_BUFFER_SMALL; memcpy(v->data,qe[0],RECLEN); v->size=RECLEN; free(qe[0]); memmove(qe,qe+1,--qn*sizeof*qe); return 0; }
 int i=f_find(k); if(i<0) return lastfail=DB_NOTFOUND; v->size=me[i].vs; if(v->ulen<me[i].vs) return DB_BUFFER_SMALL; memcpy(v->data,me[i].v,me[i].vs); return 0; }
static int f_del(DB*d,DB_TXN*t,DBT*k,u_int32_t f){ CHECK(lock==1," "); if(bad()) return lastfail; int i=f_find(k); if(i<0) return lastfail=DB_NOTFOUND; free(me[i].k); free(me[i].v); me[i]=me[--mn]; return 0; }
static int f_relen(DB*d,u_int32_t*l){ if(bad()) return lastfail; *l=RECLEN; return 0; }
static int f_trunc(DB*d,DB_TXN*t,u_int32_t*c,u_int32_t f){ CHECK(qn==0,"dropped queued elements"); return bad(); }
static int v_lock(void*m){ CHECK(lock==0,"locked twice"); lock=1; return 0; }
static int v_unlock(void*m){ CHECK(lock==1,"not locked"); lock=0; return 0; }
static void (*wake)(void);
static int v_wait(void*c,void*m){ CHECK(lock==1&&wms<0," "); waits++; if(refill||waits>2){ wake(); return 0; } return wres= rn(3)?0:EINVAL; }
static int v_twait(void*c,void*m,const struct timespec*t){ CHECK(lock==1&&wms>=0," "); CHECK(t->tv_nsec>=0&&t->tv_nsec<1000000000,"deadline %ld.%09ld is not a time (time-out %d ms, now %ld.%09ld)",(long)t->tv_sec,t->tv_nsec,wms,CS,CN); CHECK((t->tv_sec-CS)*1000000000L+t->tv_nsec-CN==wms*1000000L,"deadline %ld.%09ld, time-out %d ms, now %ld.%09ld",(long)t->tv_sec,t->tv_nsec,wms,CS,CN); waits++; if(refill){ wake(); return 0; } return wres= waits>3||rn(2)?ETIMEDOUT:rn(8)==0?EINVAL:0; }
static int v_gtod(struct timeval*t,void*z){ t->tv_sec=CS; t->tv_usec=CN/1000; return 0; }
static int v_cgt(clockid_t c,struct timespec*t){ t->tv_sec=CS; t->tv_nsec=CN; return 0; }
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
#define pthread_cond_signal(c) 0
#define pthread_cond_wait v_wait
#define pthread_cond_timedwait v_twait
#define gettimeofday v_gtod
#define clock_gettime v_cgt
static int nomem; static void *vrealloc(void*p,size_t n){ if(nomem){ errno=ENOMEM; return NULL; } return realloc(p,n); }
int const_fpath_maxsize(void){ return 100; }
#define realloc vrealloc
#define db_create(...) 1
#include "src/libqdb/qdb.c"
#define timespec_cmp ts_cmp
#include "src/oscompat.c"
#undef HAS_CLOCK
#include "src/mfile.c"
#include "src/pctlmfdb.c"
#undef PCTLDB_FLAGS
#include "src/pctldb.c"
#undef realloc
static void clk(void){ if(stepc&&rn(2)) return; if(rn(3)){ CN+=rn(3)*1000; if(CN>=1000000000){ CN-=1000000000; CS++; } } else { CS=1000+rn(3); CN=rn(2)?999999000:rn(1000000)*1000L; } }
static DB *mk(void){ DB*d=calloc(1,sizeof*d); d->put=f_put; d->get=f_get; d->del=f_del; d->get_re_len=f_relen; d->truncate=f_trunc; return d; }
static void reset(void){ qn=mn=lock=0; pfail=rn(2)?0:rn(40); stepc=rn(2); CS=1000; CN=999000000; qd=mk(); md=mk(); }
static void done(void){ while(qn) free(qe[--qn]); while(mn){ mn--; free(me[mn].k); free(me[mn].v); } free(qd); free(md); }
static struct nbspq_st nq; static nbspqtable_t qt; static struct nbspq_st *qa[1]; static unsigned char model[MAXQ][32]; static int mq;
static void wake_q(void){ unsigned char *e=calloc(1,RECLEN); rbytes(e,RECLEN); memcpy(model[mq++],e,RECLEN); qe[qn++]=e; nq.n++; }
static void t_qdb(unsigned idx){ reset(); RECLEN=4+rn(28); memset(&nq,0,sizeof nq); nq.dbp=qd; nq.f_memory_based=rn(2); qa[0]=&nq; qt.n=1; qt.nbspq=qa; qt.softlimit=rn(3)?(int)rn(10):-1; qt.hardlimit=rn(3)?(int)rn(12):0; mq=0; wake=wake_q; int ops=40;
 for(int o=0;o<ops&&mq<MAXQ-2;o++){ int e=12345; clk(); INFO("operation %d: %d queued, soft %d hard %d, failures %d%%",o,mq,qt.softlimit,qt.hardlimit,pfail); lastfail=0; waits=0; wres=0;
  if(rn(2)){ unsigned char d[32]={0}; int sz=1+rn(RECLEN+(rn(8)==0)); rbytes(d,sz); int r=nbspqt_snd(&qt,0,d,sz,&e); int hard=qt.hardlimit>0&&mq>=qt.hardlimit; CHECK((r==2)==hard,"returned %d",r); if(r==0||r==1){ memcpy(model[mq++],d,32); CHECK((r==1)==(qt.softlimit>0&&mq>=qt.softlimit),"returned %d",r); } if(r==-1) CHECK(e==lastfail&&lastfail,"error %d",e); }
  else { void*b=NULL; uint32_t sz=0; int own=rn(2); if(own){ sz=rn(4)?RECLEN+rn(3):rn(RECLEN); b=malloc(sz+1); } void*b0=b; uint32_t s0=sz; wms=rn(3)?(int)redge32()&0x7fffffff:-1; refill=rn(3)==0; int n0; int r=nbspqt_rcv(&qt,0,&b,&sz,wms,&e); if(r==0){ CHECK(mq>0&&!memcmp(b,model[0],RECLEN)&&sz==RECLEN,"content"); memmove(model,model+1,--mq*sizeof*model); free(b); } else { if(r==1) CHECK(mq==0&&wres==ETIMEDOUT,"time-out"); if(r==-1){ CHECK(e==12345?0:1,"no error code"); if(wres&&!lastfail) CHECK(e==wres,"error %d of the wait (%d)",e,wres); } CHECK(b==b0," "); free(b0); } }
  CHECK(lock==0,"the lock is kept"); CHECK((int)nq.n==mq&&qn==mq,"count %u, queued %d, stored %d",nq.n,mq,qn); for(int i=0;i<mq;i++) CHECK(!memcmp(qe[i],model[i],RECLEN),"order"); }
 done(); }
static struct pctldb_st pq; static struct { int id; uint32_t sz; unsigned char *d; } pm[MAXQ]; static int pn; static size_t PSZ;
static void wake_p(void){}
static void t_pctl(unsigned idx){ reset(); PSZ=sizeof(struct pctl_element_st)+101; RECLEN=PSZ; memset(&pq,0,sizeof pq); pq.dbp=qd; pq.mfdbp=md; pq.pce_size=pq.pce_data_size=PSZ; pq.softlimit=rn(8); pq.hardlimit=rn(2)?rn(12):0; pq.mf_hardlimit_mb=rn(3)==0; pq.mf_softlimit_mb=rn(3)==0; pn=0; wake=wake_p; refill=0; size_t tot=0; int unk=0; struct pctl_element_st *in=malloc(PSZ),*out=malloc(PSZ); memset(in,0,PSZ); memset(out,0,PSZ); struct memfile_st *imf=in->mf=create_memfile(0),*omf=out->mf=create_memfile(0);
 for(int o=0;o<40&&pn<MAXQ-2;o++){ int e=12345; clk(); INFO("operation %d: %d products, %zu bytes queued, soft %u hard %u, failures %d%%, clock %ld.%09ld",o,pn,tot,pq.softlimit,pq.hardlimit,pfail,CS,CN); lastfail=0; waits=wres=0; nomem=0;
  if(rn(2)){ uint32_t sz=rn(3)?1+rn(500):1+rn(400000); unsigned char*d=malloc(sz); rbytes(d,sz); close_memfile(imf); write_memfile(imf,d,sz); in->sbn_datstream=o; int mn0=mn; int r=pctldb_send_pce(&pq,in,&e); int hard=(pq.hardlimit&&(unsigned)pn>=pq.hardlimit)||(pq.mf_hardlimit_mb&&tot+sz>1048576); if(!unk) CHECK((r==2)==hard,"returned %d",r); if(r==0||r==1){ pm[pn].id=o; pm[pn].sz=sz; pm[pn++].d=d; tot+=sz; if(!unk) CHECK((r==1)==((pq.softlimit&&(unsigned)pn>=pq.softlimit)||(pq.mf_softlimit_mb&&tot>1048576)),"returned %d",r); } else { free(d); if(r==-1) CHECK(e==lastfail||lastfail,"error %d",e); if(mn!=mn0) unk=1; } }
  else { close_memfile(omf); omf->nread=0; nomem=rn(10)==0; wms=(int)redge32()&0x7fffffff; int p0=pn,q0=qn,m0=mn; int r=pctldb_rcv_pce(&pq,out,wms,&e); nomem=0; CHECK(out->mf==omf,"memory file"); if(r==0){ CHECK(pn>0&&out->sbn_datstream==pm[0].id&&omf->size==pm[0].sz&&!memcmp(omf->p,pm[0].d,pm[0].sz),"product"); } if(r==1) CHECK(pn==0,"time-out"); if(qn<q0){ if(mn==m0) unk=1; tot-=pm[0].sz; free(pm[0].d); memmove(pm,pm+1,--pn*sizeof*pm); if(r!=0&&pfail) unk=1; } else CHECK(r!=0," "); }
  CHECK(lock==0,"the lock is kept"); CHECK((int)pq.n==pn&&qn==pn,"count %u, queued %d stored %d",pq.n,pn,qn); if(!unk) CHECK(pq.mf_total_size==tot&&mn==pn,"bytes %zu, queued %zu",pq.mf_total_size,tot); }
 while(pn) free(pm[--pn].d); destroy_memfile(imf); destroy_memfile(omf); free(in); free(out); done(); }
vpn_case vpn_cases[]={{"qdb",t_qdb,3},{"pctldb",t_pctl,3},{0}};
