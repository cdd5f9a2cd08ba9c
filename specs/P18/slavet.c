//@ target src/slavet.c
//@ unit configure harness=h_configure about=slave_element_configure,slave_element_configure2,slave_element_configure_options,slave_element_override_options,slave_element_release,slave_element_release_options unwind=14
//@ unit table_alloc harness=h_alloc about=slave_table_alloc,slave_table_free
//@ assume strsplit_create and strto_int behave as the other units of P18 and P17 show (stubs: any fields, any numbers)
//@ assume log functions have no effect (a native run checks their arguments)
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include "err.h"
#undef log_err
#undef log_errx
#undef log_err_open
#define log_err(...) ((void)0)
#define log_errx(...) ((void)0)
#define log_err_open(x) ((void)0)
/* strings are modelled by identity and length; copies are recorded */
#define NF 12
static char *vp_argv[NF], *vp_defport, *vp_grp, *vp_stats, *vp_s; static int vp_argc;
static size_t vp_len(const char *x){ return __CPROVER_OBJECT_SIZE(x) - 1; }
static char *vp_str(void){ size_t l = nondet_size(); ASSUME(l <= MAXLEN); char *p = malloc(l + 1); ASSUME(p != NULL); ASSUME(IFF(l == 0, p[0] == 0)); return p; }
static struct { char *d; const char *s; } vp_cp[8]; static int vp_ncp;
static char *vp_copy(char *d, const char *s, size_t n){ CLAIM(n == vp_len(s) + 1 && __CPROVER_w_ok(d, n), "the copy fits"); vp_cp[vp_ncp].d = d; vp_cp[vp_ncp].s = s; vp_ncp++; return d; }
static const char *vp_from(const char *d){ for (int i = 7; i >= 0; i--) if (i < vp_ncp && vp_cp[i].d == d) return vp_cp[i].s; return NULL; }
static int vp_bad[NF], vp_val[NF];
static int vp_strto_int(char *s, int *v){ for (int i = 0; i < NF; i++) if (i < vp_argc && vp_argv[i] == s) { if (vp_bad[i]) return 1; *v = vp_val[i]; return 0; } CLAIM(0, "a field is converted"); return 1; }
#include "strsplit.h"
static struct strsplit_st vp_ss; static int vp_ssnull, vp_freed;
static struct strsplit_st *vp_create(char *s, char *delim, int flags){ CLAIM(s == vp_s && flags == STRSPLIT_FLAG_INCEMPTY && delim[0] == ',' && delim[1] == ':' && delim[2] == 0, "split at the separators, empty fields kept"); if (vp_ssnull) return NULL; vp_ss.argc = vp_argc; vp_ss.argv = vp_argv; return &vp_ss; }
static void vp_delete(struct strsplit_st *p){ CLAIM(p == &vp_ss && !vp_freed, "released once"); vp_freed = 1; }
#define strlen vp_len
#define strncpy(d,s,n) vp_copy(d,s,n)
#define strcpy(d,s) vp_copy(d,s,vp_len(s)+1)
#define memcpy(d,s,n) vp_copy(d,s,n)
#define strto_int vp_strto_int
#define strsplit_create vp_create
#define strsplit_delete vp_delete
int feedmode_noaaport_enabled(void);
#include VP_TARGET
#undef memcpy
int valid_str(char *s){ return s != NULL && s[0] != 0; }
void h_configure(void){
  static struct slave_element_st e; static struct slave_options_st d;
  vp_s = vp_str(); vp_argc = nondet_int(); ASSUME(1 <= vp_argc && vp_argc <= NF); vp_ssnull = nondet_bool(); vp_freed = 0; vp_ncp = 0;
  for (int i = 0; i < NF; i++) { vp_argv[i] = vp_str(); vp_bad[i] = nondet_bool(); vp_val[i] = nondet_int(); }
  d.infifo_grp = vp_grp = vp_str(); d.slavestatsfile = vp_stats = vp_str(); d.slave_masterport = vp_defport = nondet_bool() ? vp_str() : NULL;
  d.infifo_mode = nondet_uint(); d.slave_read_timeout_secs = nondet_int(); d.slave_read_timeout_retry = nondet_int(); d.slave_reopen_timeout_secs = nondet_int(); d.slave_so_rcvbuf = nondet_int(); d.slave_stats_logperiod_secs = nondet_int();
  memset(&e, 0, sizeof e); slave_element_init(&e);
  int r = slave_element_configure(&e, vp_s, &d);
  int t = vp_val[0], a = vp_argc, in = t == SLAVETYPE_INFIFO;
  char *port = a >= 3 && (a == 3 || vp_argv[2][0] != 0) ? vp_argv[2] : vp_defport;
  int wf = !vp_ssnull && !vp_bad[0] && (in ? a >= 2 && a <= SLAVE_IN_STRING_FIELDS && vp_argv[1][0] != 0
     : a >= 2 && a <= SLAVE_NET_STRING_FIELDS && vp_argv[1][0] != 0 && port != NULL && port[0] != 0 && (t == SLAVETYPE_NBS1 || t == SLAVETYPE_NBS2));
  CLAIM(IMP(!wf, r != 0), "a malformed entry is refused"); CLAIM(IMP(wf, r == 0 || r == -1), "a well formed entry is refused only for want of memory");
  CLAIM(vp_ssnull || vp_freed, "the fields are released");
  if (r == 0) {
    CLAIM(e.slavetype == t, "type");
    if (in) CLAIM(vp_from(e.infifo) == vp_argv[1] && e.mastername == NULL && e.masterport == NULL, "fifo");
    else CLAIM(vp_from(e.mastername) == vp_argv[1] && vp_from(e.masterport) == port && e.infifo == NULL, "host and port");
    CLAIM(vp_from(e.options.infifo_grp) == vp_grp && vp_from(e.options.slavestatsfile) == vp_stats && e.options.infifo_mode == d.infifo_mode, "defaults");
    int o = in ? 2 : 3;
#define OPT(k, f) (e.options.f == (o + (k) < a && !vp_bad[o + (k)] ? vp_val[o + (k)] : d.f))
    CLAIM(OPT(0, slave_read_timeout_secs) && OPT(1, slave_read_timeout_retry) && OPT(2, slave_reopen_timeout_secs) && OPT(3, slave_so_rcvbuf) && OPT(4, slave_stats_logperiod_secs), "options");
    char *x1 = e.mastername, *x2 = e.masterport, *x3 = e.infifo, *x4 = e.options.infifo_grp;
    COVER(in && a == 7, "fifo with all options"); COVER(!in && a == 8 && port == vp_defport, "default port"); }
  slave_element_release(&e); slave_element_release(&e);   /* pointers are valid or NULL afterwards: destroying the table is safe */
  CLAIM(e.mastername == NULL && e.masterport == NULL && e.infifo == NULL && e.options.infifo_grp == NULL && e.options.slavestatsfile == NULL, "nothing left to release twice");
  COVER(r == -1, "no memory"); COVER(r == 1, "refused"); REACH(); }
void h_alloc(void){ struct slave_table_st *t = NULL; int n = nondet_int(); ASSUME(n > 0); size_t k = nondet_size();
  int r = slave_table_alloc(&t, n);
  if (r == 0) { CLAIM(t->numslaves == n && t->num_slavenbs_readers == 0 && __CPROVER_rw_ok(t->slave, (size_t)n * sizeof(struct slave_element_st)), "one element per entry");
    if (k < (size_t)n) CLAIM(t->slave[k].mastername == NULL && t->slave[k].masterport == NULL && t->slave[k].infifo == NULL && t->slave[k].options.infifo_grp == NULL && t->slave[k].options.slavestatsfile == NULL, "elements empty"); slave_table_free(t); }
  else CLAIM(t == NULL, "nothing on error"); COVER(r == 0, "ok"); COVER(r == -1, "no memory"); REACH(); }
