/* Native side: concrete search for / replay of failing inputs on the real code.
   A native file defines cases with VPN_CASE(name) and lists them in vpn_cases[].
   usage: prog SEED SECS [CASE INDEX] */
#ifndef VPN_H
#define VPN_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <time.h>
static uint64_t vpn_s;
static char vpn_cur[256];
static char vpn_info[4096];
static uint64_t rnd(void){ uint64_t z=(vpn_s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);} 
static uint32_t rn(uint32_t n){ return n ? (uint32_t)(rnd()%n) : 0; }
static int rr(int a,int b){ return a+(int)(rnd()%(uint64_t)((int64_t)b-a+1)); }
static void rbytes(void *p,size_t n){ unsigned char *q=p; for(size_t i=0;i<n;i++) q[i]=(unsigned char)rnd(); }
/* integers biased to boundaries */
static uint32_t redge32(void){ static const uint32_t e[]={0,1,2,3,4,7,8,9,15,16,17,31,32,127,128,255,256,257,1023,1024,32767,32768,65535,65536,0x7ffffffe,0x7fffffff,0x80000000u,0xfffffffeu,0xffffffffu};
 switch(rn(4)){case 0:return e[rn(sizeof(e)/4)]; case 1:return rn(300); case 2: return (uint32_t)rnd()>>rn(32); default:return (uint32_t)rnd();} }
static void vpn_report(void){ char b[4600]; int n=snprintf(b,sizeof b,"\nVPCASE %s %s\n",vpn_cur,vpn_info); if(n>0) { ssize_t k=write(1,b,n<(int)sizeof b?n:(int)sizeof b-1); (void)k; } }
static void vpn_hang(int s){ (void)s; static const char m[]="\nVPFAIL: does not terminate (cpu limit of the case)\n"; ssize_t k=write(1,m,sizeof m-1);(void)k; vpn_report(); _exit(78); }
static void vpn_abort(int s){ (void)s; static const char m[]="\nVPFAIL: aborted\n"; ssize_t k=write(1,m,sizeof m-1);(void)k; vpn_report(); _exit(77); }
#define INFO(...) snprintf(vpn_info,sizeof vpn_info,__VA_ARGS__)
#define CHECK(c,...) do{ if(!(c)){ printf("VPFAIL: %s:%d: %s : ",__FILE__,__LINE__,#c); printf(__VA_ARGS__); printf("\n"); fflush(stdout); vpn_report(); _exit(76);} }while(0)
typedef struct { const char *name; void (*fn)(unsigned idx); unsigned weight; } vpn_case;
extern vpn_case vpn_cases[];
void __sanitizer_set_death_callback(void (*)(void));
static void vpn_one(uint64_t seed, vpn_case *c, unsigned idx){
  uint64_t h=1469598103934665603ull; for(const char*p=c->name;*p;p++) h=(h^(unsigned char)*p)*1099511628211ull;
  vpn_s=seed*0x9E3779B97F4A7C15ull ^ h ^ ((uint64_t)idx<<32) ^ idx; rnd();
  snprintf(vpn_cur,sizeof vpn_cur,"%s %u",c->name,idx); vpn_info[0]=0;
  struct itimerval it={{0,0},{12,0}}; setitimer(ITIMER_PROF,&it,NULL);
  c->fn(idx);
}
int main(int argc,char**argv){
  uint64_t seed=argc>1?strtoull(argv[1],0,10):1; int secs=argc>2?atoi(argv[2]):5;
  setvbuf(stdout,NULL,_IOLBF,0);
  __sanitizer_set_death_callback(vpn_report);
  signal(SIGPROF,vpn_hang); signal(SIGABRT,vpn_abort);
  signal(SIGPIPE,SIG_IGN);
  if(argc>4){ for(vpn_case*c=vpn_cases;c->name;c++) if(!strcmp(c->name,argv[3])){ vpn_one(seed,c,(unsigned)strtoul(argv[4],0,10)); printf("case passed\n"); return 0;} printf("no such case\n"); return 2; }
  struct timespec a,b; clock_gettime(CLOCK_MONOTONIC,&a);
  unsigned long long n=0; unsigned idx=0; 
  for(;;idx++){
    for(vpn_case*c=vpn_cases;c->name;c++) for(unsigned w=0;w<c->weight;w++){ vpn_one(seed,c,idx*c->weight+w); n++; }
    clock_gettime(CLOCK_MONOTONIC,&b);
    if(b.tv_sec-a.tv_sec>=secs) break;
  }
  printf("no failing input in %llu cases\n",n);
  return 0;
}
#endif
