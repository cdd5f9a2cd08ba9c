//@ native inc=src,filters/filterlib/c
#include "vpn.h"
#include <errno.h>
#include <poll.h>
#include <unistd.h>
#include <sys/types.h>
/* scripted peer */
static unsigned char strm[4096], got[4096]; static size_t sn, pos, wpos; static int last, npoll, pto, ptot; static unsigned p_tmo, p_err, p_eof, p_hup, p_eint;
enum { DATA, TMO, EOFX, ERR, HUP, INTR };
static int vpoll(struct pollfd *p, nfds_t n, int ms){ CHECK(n==1&&p->fd==7," "); npoll++; ptot=ms; p->revents=0; if(rn(100)<p_tmo){ last=TMO; return 0; } if(rn(100)<p_err){ last=ERR; errno=EIO; return -1; } if(rn(100)<p_hup){ last=EOFX; p->revents=POLLHUP; return 1; } last=DATA; p->revents=p->events|(rn(4)?0:POLLHUP); return 1; }
static ssize_t vread(int fd, void *b, size_t n){ CHECK(fd==7," "); if(rn(100)<p_err){ last=ERR; errno=EAGAIN; return -1; } if(pos==sn||rn(100)<p_eof){ last=EOFX; return 0; } size_t k=1+rn(rn(2)?5:n); if(k>n)k=n; if(k>sn-pos)k=sn-pos; memcpy(b,strm+pos,k); pos+=k; last=DATA; return k; }
static ssize_t vwrite(int fd, const void *b, size_t n){ CHECK(fd==7," "); if(rn(100)<p_err){ last=ERR; return -1; } size_t k=rn(8)==0?0:1+rn(rn(2)?5:n); if(k>n)k=n; memcpy(got+wpos,b,k); wpos+=k; last=k?DATA:TMO; return k; }
#define poll vpoll
#define read vread
#define write vwrite
#include "src/nreadn.c"
#undef poll
static int intr; static int fintr(void){ return intr && rn(3)==0; }
static void setup(void){ sn=rn(600); rbytes(strm,sizeof strm); if(rn(2)) for(int i=0;i<600;i++) if(rn(20)==0) strm[i]='\n'; pos=wpos=0; p_tmo=rn(3)?0:rn(60); p_err=rn(4)?0:rn(20); p_eof=rn(4)?0:rn(10); p_hup=rn(6)?0:rn(10); intr=rn(4)==0; init_readn(rn(2)?fintr:NULL); npoll=0; last=-1; }
static void t_read(unsigned idx){ setup(); size_t n=rn(300); unsigned char *b=malloc(n?n:1); int retry=rr(-1,3), e=-5, k=rn(7); unsigned s=rn(100); ssize_t r; size_t p0=pos; int fifo=0, to=1000*s;
  static const char *nm[]={"sreadm","readm","sreadn","readn","readn_fifo","readm_fifo","read1"}; INFO("%s size %zu retry %d stream of %zu, time-outs %u%% errors %u%% ends %u%% hang-ups %u%%",nm[k],n,retry,sn,p_tmo,p_err,p_eof,p_hup);
  switch(k){ case 0: r=sreadm(7,b,n,1000*s,retry,&e); break; case 1: r=readm(7,b,n,1000*s,retry); break; case 2: r=sreadn(7,b,n,s,retry,&e); break; case 3: r=readn(7,b,n,s,retry); break; case 4: r=readn_fifo(7,b,n,s); fifo=1; break; case 5: r=readm_fifo(7,b,n,s); to=s; fifo=1; break; default: if(!n){ free(b); return; } r=read1(7,b,n,1000*s,retry); }
  CHECK(r>=-2&&r<=(ssize_t)n,"returned %zd",r); if(npoll) CHECK(ptot==to,"time-out %d",ptot);
  if(r>=0){ CHECK(pos==(size_t)r,"took %zu bytes, reported %zd",pos,r); CHECK(!memcmp(b,strm,r),"content"); if((size_t)r<n&&k<4) CHECK(last==EOFX||last==TMO||intr,"short"); }
  if(r==-1) CHECK(last==ERR,"-1 after %d",last); if(r==-2) CHECK(pos==0&&(last==TMO||intr||fifo),"-2 with %zu bytes taken",pos);
  if((k==0||k==2)&&r>=0) CHECK(e==((size_t)r<n&&last==EOFX),"end flag %d (short %d, last %d)",e,(size_t)r<n,last);
  free(b); }
static void t_write(unsigned idx){ setup(); size_t n=rn(300); unsigned char *b=malloc(n?n:1); rbytes(b,n); int k=rn(3),retry=rr(-1,3); unsigned s=rn(100); INFO("%s size %zu retry %d",k==2?"write1":k?"writem":"writen",n,retry);
  ssize_t r= k==0?writen(7,b,n,s,retry):k==1?writem(7,b,n,1000*s,retry):write1(7,b,n,1000*s,retry); CHECK(r>=-1&&r<=(ssize_t)n,"%zd",r); if(r>=0) CHECK(wpos==(size_t)r&&!memcmp(got,b,r),"reported %zd accepted %zu",r,wpos); else CHECK(last==ERR,"error"); CHECK(!memcmp(got,b,wpos),"order"); free(b); }
static void t_dpgets(unsigned idx){ setup(); p_eof=0; size_t n=1+rn(rn(2)?20:200); char *b=malloc(n); INFO("dpgets size %zu",n); size_t l=0; while(l+1<n&&l<sn){ l++; if(strm[l-1]=='\n') break; } ssize_t r=dpgets(7,b,n); if(r<0) CHECK(last==ERR,"error"); else { CHECK((size_t)r==l&&pos==l,"%zd expected %zu",r,l); CHECK(!memcmp(b,strm,l)&&b[l]==0,"content"); } free(b); }
vpn_case vpn_cases[]={{"read",t_read,5},{"write",t_write,3},{"dpgets",t_dpgets,2},{0}};
