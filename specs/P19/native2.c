//@ native inc=filters/filterlib/c
#include "vpn.h"
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
static unsigned char *wb; static size_t wn; static int wfail;
ssize_t writef(int fd, void *p, size_t n){ wb = realloc(wb, n); memcpy(wb, p, n); wn = n; return wfail ? -1 : (ssize_t)n; }
void log_errx(int c, char *f, ...){ if (c) exit(1); } void log_err(int c, char *f, ...){} int check_fifo(char *f){ return 0; } void set_progname(char *p){} void set_usesyslog(void){}
int strto_u32(char *s, uint32_t *u){ return 0; } int strto_uint(char *s, unsigned *u){ *u = 0; return 0; }
void pack_uint32(void *p, uint32_t u, size_t s){ unsigned char *q = (unsigned char *)p + s; q[0] = u >> 24; q[1] = u >> 16; q[2] = u >> 8; q[3] = u; }
#define main nbspinsert_main
#include "tools/nbspinsert/nbspinsert.c"
#undef main
static void t_fin(unsigned idx){ char *a[7]; size_t t = 6; int big = rn(4); for (int i = 0; i < 7; i++) { size_t l = big == 0 ? rn(400) : big == 1 ? 140 + rn(10) : rn(20); t += l; a[i] = malloc(l + 1); for (size_t j = 0; j < l; j++) a[i][j] = 33 + rn(90); a[i][l] = 0; } g.seq = a[0]; g.type = a[1]; g.cat = a[2]; g.code = a[3]; g.npchidx = a[4]; g.fname = a[5]; g.fpath = a[6]; g.opt_i = 0; wfail = rn(10) == 0; wn = 0; INFO("seven fields of %zu characters together", t);
 int r = process_file(); CHECK((r != 0) == wfail, "result %d", r); CHECK(wn == t + 5, "%zu bytes written", wn); CHECK(wb[0] == 0 && wb[1] == 0 && (unsigned)(wb[2] << 8 | wb[3]) == t, "size field %u", wb[2] << 8 | wb[3]); char *e = malloc(t + 2); sprintf(e, "%s %s %s %s %s %s %s\n", a[0], a[1], a[2], a[3], a[4], a[5], a[6]); CHECK(!memcmp(e, wb + 4, t + 1), "text %.*s", (int)t, wb + 4); free(e); for (int i = 0; i < 7; i++) free(a[i]); }
vpn_case vpn_cases[]={{"record written",t_fin,1},{0}};
