//@ native inc=src
#include "vpn.h"
int __lsan_is_turned_off(void){ return 1; }
#include <regex.h>
#include "src/strsplit.c"
#include "src/ure.c"
#include "globals.h"
struct nbsp_globals g; void log_err(char *s){} void log_errx(char *f, ...){}
#include "src/nbspre.c"
static const char *pats[]={"^kwbc","sdus5.-tjua","^knes","tjua$","!tiff","!^kwbc","sd.*","![0-9]","x+y","(a|b)","!(ad|er)$","[0-9]{2}",".","!.","^$"};
static const char *names[]={"kwbc_sdus54-tjua","knes_tigf01","","sdus53-tiff","xxy","ad","er12","9","kwbc","tjua"};
static int ref(const char *rule,const char *s){ if(!rule) return 0; if(!*rule) return 1; char b[512]; strcpy(b,rule); int st=1,any=0; for(char *t=strtok(b,UWILDREGEX_DELIM);t;t=strtok(NULL,UWILDREGEX_DELIM)){ int n=*t=='!'; if(n) t++; regex_t r; any=1; if(regcomp(&r,t,REG_EXTENDED|REG_NOSUB)) return 0; if(!regexec(&r,s,0,NULL,0)) st=n; regfree(&r);} return st; }
static char *rule(char *b){ if(rn(8)==0) return NULL; *b=0; if(rn(8)==0) return b; int n=rr(1,5); for(int i=0;i<n;i++){ for(int k=rr(i?1:0,2);k--;) strcat(b,(char[2]){UWILDREGEX_DELIM[rn(strlen(UWILDREGEX_DELIM))],0}); strcat(b,rn(30)?pats[rn(15)]:"("); } return b; }
static void t_rule(unsigned i){ char b[512]; char *p=rule(b); struct uwildregex_st *r=uwildregex_create(); CHECK(r,"create"); char *q=p?strdup(p):NULL; int st=uwildregex_init(r,q);
  for(int k=0;k<4;k++){ const char *s=names[rn(10)]; INFO("rule \"%s\" name \"%s\"",p?p:"NULL",s); int e=ref(p,s); if(p&&*p&&strspn(p,UWILDREGEX_DELIM)==strlen(p)) continue; CHECK(st>=0,"init"); int g=uwildregex_match(r,(char*)s); CHECK(g==e,"%d expected %d",g,e); } uwildregex_free(r); free(q); }
static void t_each(unsigned i){ char *old[8]; char **f[8]={&g.patt_accept,&g.filterq_patt_accept,&g.serverq_patt_accept,&g.nbs1_patt_accept,&g.nbs2_patt_accept,&g.emwin_patt_accept,&g.savez_patt_accept,&g.rtxdb_patt_accept}; int (*m[8])(char*)={np_regex_match,filterq_regex_match,serverq_regex_match,nbs1_regex_match,nbs2_regex_match,emwin_regex_match,savez_regex_match,rtxdb_regex_match}; char b[8][512];
  for(int k=0;k<8;k++){ do { *f[k]=rule(b[k]); } while(*f[k]&&strchr(b[k],'(')&&(strstr(b[k],"(:")||strstr(b[k],"(,")||1)&&({regex_t r;int bad=0;char c[512];strcpy(c,b[k]);for(char*t=strtok(c,UWILDREGEX_DELIM);t;t=strtok(NULL,UWILDREGEX_DELIM)){ if(*t=='!')t++; if(regcomp(&r,t,REG_EXTENDED|REG_NOSUB)) bad=1; else regfree(&r);} bad;})); old[k]=*f[k]; }
  INFO("the eight rules of the configuration"); if(init_nbsp_regex()!=0){ free_nbsp_regex(); return; }
  for(int k=0;k<8;k++){ const char *s=names[rn(10)]; INFO("rule %d \"%s\" name \"%s\"",k,old[k]?old[k]:"NULL",s); int e=ref(old[k],s); CHECK(m[k]((char*)s)==e,"expected %d",e); } if(g.serverq_regex) {} free_nbsp_regex(); }
vpn_case vpn_cases[]={{"rule",t_rule,8},{"each",t_each,2},{0}};
