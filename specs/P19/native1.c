//@ native inc=src
#include "vpn.h"
#include <errno.h>
#include <assert.h>
#include <limits.h>
#include <sys/types.h>
#include "src/const.h"
#include "src/slavet.h"
#include "src/err.h"
#include "src/pctl.h"
#include "src/packfp.h"
static int mx; int const_fpath_maxsize(void){ return mx; } int const_pce_size(void){ return sizeof(struct pctl_element_st) + mx + 1; }
static unsigned char *ib; static size_t il, ip; static int eof;
ssize_t readn(int fd, void *b, size_t n, unsigned int t, int r){ if (n > 200000) { return -1; } size_t k = il - ip < n ? il - ip : n; memcpy(b, ib + ip, k); ip += k; if (k == 0 && n > 0) return eof; return k; }
int slaveinproc(struct packet_info_st *p){ return 0; } void slave_stats_update_packets(struct slave_element_st *s, size_t b){} void slave_stats_update_connect_errors(struct slave_element_st *s){} void slave_stats_update_errors(struct slave_element_st *s){} void slave_stats_report(struct slave_element_st *s){}
void log_err(char *s){} void log_errx(char *s,...){} void log_info(char *s,...){} void log_verbose(int l, char *s,...){} void log_warnx(char *s,...){} void log_err2(char *s, char *o){} 
#include "src/util.c"
#include "src/file.c"
#include "src/packfp.c"
#include "src/pack.c"
#include "src/packfpu.c"
#include "src/slavein/reader.c"
static struct slave_element_st se;
static void one(char *rec, size_t n, uint32_t sz, int ok, unsigned q, int *v, char *fn, char *fp){ il = n + 4; ib = malloc(il); ib[0] = sz >> 24; ib[1] = sz >> 16; ib[2] = sz >> 8; ib[3] = sz; memcpy(ib + 4, rec, n); ip = 0; eof = rn(2) ? 0 : -1; int r = recv_in_packet(&se); CHECK((r == 0) == ok, "result %d, expected %s", r, ok ? "acceptance" : "refusal"); if (ok) { struct packet_info_st *p = ((struct slavein_info_st *)se.info)->packetinfo; CHECK(p->seq_number == q && p->psh_product_type == v[0] && p->psh_product_category == v[1] && p->psh_product_code == v[2] && p->np_channel_index == v[3] && !strcmp(p->fname, fn) && !strcmp(p->fpath, fp), "fields %u %d %d %d %d %s %s", p->seq_number, p->psh_product_type, p->psh_product_category, p->psh_product_code, p->np_channel_index, p->fname, p->fpath); } free(ib); ib = NULL; }
static void t_rec(unsigned idx){ mx = 1 + rn(300); CHECK(slavein_init(&se) == 0, " "); for (int k = 0; k < 6; k++) { char fn[80], fp[700], rec[1200]; int nl = rn(12) ? 1 + rn(19) : 17 + rn(10), pl = rn(5) ? 1 + rn(mx + 3) : mx - 1 + rn(4); if (pl < 1) pl = 1; for (int i = 0; i < nl; i++) fn[i] = 33 + rn(90); fn[nl] = 0; int lastsl = -1; for (int i = 0; i < pl; i++) { fp[i] = rn(9) ? 33 + rn(90) : '/'; if (i > 20 && rn(25) == 0) fp[i] = '/'; } fp[pl] = 0; for (int i = 0; i < pl; i++) if (fp[i] == '/') lastsl = i; unsigned q = redge32(); int v[4]; for (int i = 0; i < 4; i++) v[i] = rn(256); int n = sprintf(rec, "%u %d %d %d %d %s %s\n", q, v[0], v[1], v[2], v[3], fn, fp); uint32_t sz = n - 1; int ok = nl <= 18 && pl <= mx && lastsl != pl - 1 && pl - lastsl - 1 <= 36; int w = rn(12); size_t m = n;
   if (w == 0) { rec[n - 1] = 'x'; ok = 0; } else if (w == 1) { sz += 1 + rn(50); ok = 0; } else if (w == 2) { sz = 0u - rn(3); ok = 0; } else if (w == 3) { sz = 0x7fffffffu - rn(2); ok = 0; } else if (w == 4) { m = rn(n); ok = 0; } else if (w == 5) { rec[0] = 'z'; ok = 0; } else if (w == 6) { n = sprintf(rec, "%u %d %d %d %d", q, v[0], v[1], v[2], v[3]) ; rec[n] = '\n'; m = n + 1; sz = n; for (char *c = rec; *c && rn(2); c++) ; INFO("record without names"); int r; (void)r; il = 0; ok = 0; char *x = strrchr(rec, ' '); (void)x; continue; } else if (w == 7) { rec[0] = 0; ok = 0; } else if (w == 8) { sz = rn(10) ; ok = 0; }
   INFO("record size field %u, text \"%.*s\", room for paths %d", sz, (int)(m < 400 ? m : 400), rec, mx); one(rec, m, sz, ok, q, v, fn, fp); } slavein_cleanup(&se); }
vpn_case vpn_cases[]={{"inserted record",t_rec,3},{0}};
