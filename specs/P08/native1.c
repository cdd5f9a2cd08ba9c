//@ native inc=src
#include "vpn.h"
#include <errno.h>
#include <assert.h>
#include <sys/types.h>
#include "src/const.h"
#include "src/pctl.h"
static int mx; int const_fpath_maxsize(void){ return mx; }
static unsigned char *ib; static size_t il, ip; 
ssize_t readn(int fd, void *b, size_t n, unsigned int t, int r){ size_t k = il - ip < n ? il - ip : n; memcpy(b, ib + ip, k); ip += k; if (k == 0 && n > 0) return rn(2) ? 0 : rn(2) ? -2 : -1; return k; }
#include "src/util.c"
#include "src/pack.c"
#include "src/packfpu.c"
#include "src/packfp.c"
static uint32_t be(unsigned char *p){ return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; } static void pbe(unsigned char *p, uint32_t v){ p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static void t_pack(unsigned idx){ int fs = 1 + rn(300); mx = fs - 1; struct packet_info_st *pi; CHECK(nbsfp_packetinfo_create(&pi) == 0, " "); struct pctl_element_st *p = calloc(1, sizeof *p + fs); p->fpath_size = fs; p->seq_number = redge32(); p->psh_product_type = rn(256); p->psh_product_category = rn(256); p->psh_product_code = rn(256); p->np_channel_index = rn(256); int l = rn(19), k = rn(fs); for (int i = 0; i < l; i++) p->fname[i] = 33 + rn(90); for (int i = 0; i < k; i++) p->fpath[i] = 1 + rn(255);
 INFO("type %d category %d code %d channel %d path size %d name %s", p->psh_product_type, p->psh_product_category, p->psh_product_code, p->np_channel_index, fs, p->fname);
 CHECK(nbsfp_pack_fpath(pi, p) == 0, " "); CHECK(pi->packet_size == (size_t)12 + 27 + fs, " "); CHECK(!strcmp(pi->fname, p->fname) && !strcmp(pi->fpath, p->fpath), "names"); unsigned char *b = pi->packet; CHECK(be(b) == 2 && be(b + 4) == 27u + fs, "envelope"); uint32_t s = 0; for (int i = 0; i < 27 + fs; i++) s += b[12 + i]; CHECK(be(b + 8) == s, "checksum"); CHECK(be(b + 12) == p->seq_number && b[16] == p->psh_product_type && b[19] == p->np_channel_index, "fields");
 ib = malloc(pi->packet_size); il = pi->packet_size; ip = 0; memcpy(ib, b, il); struct packet_info_st *q; CHECK(nbsfp_packetinfo_create(&q) == 0, " "); CHECK(recv_fp_packet(0, q, 1, 1) == 0, "refused"); CHECK(q->seq_number == p->seq_number && q->psh_product_type == p->psh_product_type && q->psh_product_category == p->psh_product_category && q->psh_product_code == p->psh_product_code && q->np_channel_index == p->np_channel_index, "fields %d %d %d", q->psh_product_type, q->psh_product_category, q->psh_product_code); CHECK(!strcmp(q->fname, p->fname) && !strcmp(q->fpath, p->fpath), "names");
 free(ib); free(p); nbsfp_packetinfo_destroy(pi); nbsfp_packetinfo_destroy(q); }
static void t_recv(unsigned idx){ int fs = 1 + rn(100); mx = fs - 1; struct packet_info_st *q; CHECK(nbsfp_packetinfo_create(&q) == 0, " "); uint32_t ds = rn(3) ? 28 + rn(fs) : rn(2) ? (uint32_t)rn(200) : (uint32_t)0 - rn(300); il = 12 + (ds < 1000 ? ds : 1000); ib = malloc(il); for (size_t i = 0; i < il; i++) ib[i] = rn(4) ? 1 + rn(255) : 0; pbe(ib, rn(20) ? 2 : rn(4)); pbe(ib + 4, ds); if (ds < 1000 && ds > 27) { if (rn(8)) ib[12 + 8 + rn(19)] = 0; if (rn(8)) ib[12 + 27 + rn(ds - 27)] = 0; } uint32_t s = 0; for (size_t i = 12; i < il; i++) s += ib[i]; pbe(ib + 8, s + (rn(10) == 0)); if (rn(10) == 0) il = rn(il); ip = 0;
 INFO("packet announcing %u bytes, room for %d, received %zu", ds, 27 + fs, il); int ok = il >= 12 && be(ib) == 2 && ds <= 27u + fs && ds > 27 && il == 12 + ds && be(ib + 8) == s && memchr(ib + 20, 0, 19) && memchr(ib + 39, 0, ds - 27);
 int r = recv_fp_packet(0, q, 1, 1); CHECK((r == 0) == ok, "result %d", r); if (ok) { CHECK(q->seq_number == be(ib + 12) && q->psh_product_type == ib[16] && q->psh_product_category == ib[17] && q->psh_product_code == ib[18] && q->np_channel_index == ib[19] && !strcmp(q->fname, (char *)ib + 20) && !strcmp(q->fpath, (char *)ib + 39), "fields"); }
 free(ib); nbsfp_packetinfo_destroy(q); }
vpn_case vpn_cases[]={{"pack and receive",t_pack,1},{"receive",t_recv,3},{0}};
