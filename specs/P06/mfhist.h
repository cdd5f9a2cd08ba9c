#include "vpn.h"
#include <errno.h>
/* allocation failure injection */
static int failat=-1, nalloc;
static void *vrealloc(void*p,size_t n){ if(failat>=0 && nalloc++==failat) return NULL; return realloc(p,n?n:1); }
static void *vmalloc(size_t n){ if(failat>=0 && nalloc++==failat) return NULL; return malloc(n); }
#define realloc vrealloc
#define malloc vmalloc
#include VPT
#undef realloc
#undef malloc
static void hist(unsigned idx){
  char log[2000]; int ll=0; log[0]=0;
#define LG(...) do{ if(ll<1900) ll+=snprintf(log+ll,100,__VA_ARGS__); INFO("%s",log);}while(0)
  failat=-1; nalloc=0;
  struct memfile_st *mf=NEWMF; CHECK(mf!=NULL," ");
  size_t cap=1<<20, n=0, rd=0; unsigned char *m=malloc(cap);
  int ops=rr(1,30);
  for(int o=0;o<ops;o++){
    failat = rn(12)==0 ? (int)rn(3) : -1; nalloc=0;
    switch(rn(NOPS)){
    case 0: case 1: { int k= rn(3)==0? rr(0,20000): rr(0,300); if(n+k>cap-100) break; if(rn(6)==0){ long room=(long)SIZEOF(mf)-(long)n; k=(int)room+rr(-1,1); if(k<0||n+k>cap-100)k=0; } unsigned char *d=malloc(k?k:1); rbytes(d,k); LG("write %d%s; ",k,failat>=0?"(alloc fails)":""); int r=write_memfile(mf,d,k); CHECK(r==0||(r==-1&&failat>=0),"r=%d",r); if(r==0){ memcpy(m+n,d,k); n+=k; } free(d); break; }
    case 2: { int k=rr(0,5000); void *p=NULL; LG("read %d; ",k); int r=read_memfile(mf,&p,k); int e= n-rd<(size_t)k?(int)(n-rd):k; CHECK(r==e,"r=%d expected %d",r,e); if(r>0) CHECK(!memcmp(p,m+rd,r)," "); rd+=r; break; }
    case 3: if(rd==n){ int k=rr(1,400), c=rn(2); char *d=malloc(k); rbytes(d,k); LG("frame %d; ",k); failat=-1; int r=write_memframe(mf,d,k,c); CHECK(r==0," "); char *f=NULL; int fc=-1; r=get_memframe(mf,&f,&fc); CHECK(r==k&&fc==c&&!memcmp(f,d,k),"r=%d fc=%d",r,fc); CHECK(get_memframe(mf,&f,&fc)==0," "); size_t h=sizeof(struct memframe_info_st); if(n+h+k>cap-100){free(d);o=ops;break;} memcpy(m+n,f-h,h); memcpy(m+n+h,d,k); n+=h+k; rd=n; free(d);} break;
#ifdef DAEMON
    case 4: { size_t k=n+rr(1,20000); LG("realloc %zu; ",k); int r=realloc_memfile(mf,k); CHECK(r==0||(r==-1&&failat>=0)," "); if(r==0) CHECK(mf->allocsize==k," "); break; }
    case 5: { LG("adjust; "); size_t e=n+rr(1,30000); int r=adjust_memfile_size(mf,e); CHECK(r==0||failat>=0," "); if(r==0) CHECK(mf->allocsize>=e," "); break; }
    case 6: { int k=rr(0,9000); if(n+k>cap-100) break; unsigned char *d=malloc(k?k:1); rbytes(d,k); LG("fixed %d; ",k); failat=-1; size_t al=mf->allocsize; int r=write_memfile_fixed(mf,d,k); CHECK(r==(n+k>al)," "); CHECK(mf->allocsize==al," "); if(r==0){ memcpy(m+n,d,k); n+=k;} free(d); break; }
    case 7: if(rn(4)==0){ LG("close; "); CHECK((open_memfile(mf)==0)==(n==0&&rd==0)," "); close_memfile(mf); n=rd=0; CHECK(open_memfile(mf)==0," "); } break;
    case 8: { if(n==0) break; size_t k=rr(1,(int)n+10); failat=-1; LG("shrink %zu; ",k); CHECK(realloc_memfile(mf,k)==0," "); if(n>=k) n=k-1; if(rd>=k) rd=k-1; break; }
#endif
    }
    CHECK((size_t)mf->size==n && (size_t)mf->nread==rd && (size_t)SIZEOF(mf)>=n,"size %zu expected %zu nread %zu expected %zu",(size_t)mf->size,n,(size_t)mf->nread,rd);
    CHECK(!memcmp(mf->p,m,n),"content");
  }
  free(m); DELMF(mf);
}
