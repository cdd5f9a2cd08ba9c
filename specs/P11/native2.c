//@ native inc=filters/filterlib/c
#include "vpn.h"
#include <sys/types.h>
#include <unistd.h>
#include <fcntl.h>
static unsigned char strm[4096], got[4096]; static size_t sn, pos, wpos; static int last, perr;
static ssize_t vread(int fd, void *b, size_t n){ if(rn(100)<perr){ last=1; return -1; } size_t k=1+rn(rn(2)?5:n); if(k>n)k=n; if(k>sn-pos)k=sn-pos; memcpy(b,strm+pos,k); pos+=k; last=k?0:2; return k; }
static ssize_t vwrite(int fd, const void *b, size_t n){ if(rn(100)<perr){ last=1; return -1; } size_t k=rn(20)==0?0:1+rn(rn(2)?5:n); if(k>n)k=n; memcpy(got+wpos,b,k); wpos+=k; last=0; return k; }
#define read vread
#define write vwrite
#include "filters/filterlib/c/io.c"
#undef IO_H
#include "tools/nbspinsert/io.c"
#undef read
#undef write
void log_errx(int e,char*f,...){} void log_err(int e,char*f,...){} void log_err_open(char*s){} void log_err_read(char*s){} void log_err_write(char*s){}
static void t_f(unsigned i){ sn=rn(500); pos=wpos=0; rbytes(strm,sn); perr=rn(3)?0:rn(10); size_t n=rn(600); unsigned char *b=malloc(n?n:1);
  INFO("readf %zu of %zu",n,sn); ssize_t r=readf(3,b,n); if(r==-1) CHECK(last==1," "); else { CHECK((size_t)r==(n<sn?n:sn)&&pos==(size_t)r,"%zd",r); CHECK(!memcmp(b,strm,r)," "); }
  rbytes(b,n); INFO("writef %zu",n); r=writef(3,b,n); if(r==-1) CHECK(last==1," "); else CHECK((size_t)r==wpos&&!memcmp(got,b,wpos),"%zd of %zu",r,wpos); free(b); }
static void t_p(unsigned i){ char nm[]="pageXXXXXX"; int fd=mkstemp(nm); unlink(nm); size_t n=rn(5000), p=1+rn(2000); unsigned char *d=malloc(n+1), *b=malloc(p); rbytes(d,n); if(write(fd,d,n)!=(ssize_t)n) { } lseek(fd,0,0); FILE *f=fdopen(fd,"r"); size_t at=0; INFO("read_page %zu of %zu",p,n);
  for(;;){ int r=read_page(f,b,p); size_t e=n-at<p?n-at:p; CHECK(r==(int)e,"%d expected %zu at %zu",r,e,at); CHECK(!memcmp(b,d+at,e)," "); at+=e; if(e<p) break; } fclose(f);
  int w=open(rn(4)?"/dev/null":"/dev/full",O_WRONLY); f=fdopen(w,"w"); setvbuf(f,NULL,_IONBF,0); int full=write(w,"x",1)!=1; int r=write_page(f,b,p); CHECK(r==(full?-1:(int)p),"write_page %d",r); fclose(f);
  f=fopen("/","r"); if(f){ CHECK(read_page(f,b,p)==-1,"a read error is not reported"); fclose(f); } free(b); free(d); }
vpn_case vpn_cases[]={{"f",t_f,5},{"page",t_p,1},{0}};
