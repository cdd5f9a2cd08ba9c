//@ native inc=src
#include "vpn.h"
#include <errno.h>
#include <assert.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#define NBSP_GLOBALS_DEF
#include "src/globals.h"
struct nbsp_globals g;
static int kind; static unsigned char *D; static size_t DL; static off_t DP; static int flt; static int memfd = -1;
int spooltype_fsspool(void){ return kind == 0; } int spooltype_mspool(void){ return kind == 1; } int spooltype_cspool(void){ return kind == 2; }
int nbsp_mspoolbdb_open(char *f){ DP = 0; return 5; } int nbsp_cspoolbdb_open(char *f){ DP = 0; return 6; } int nbsp_mspoolbdb_close(int f){ return 0; } int nbsp_cspoolbdb_close(int f){ return 0; } size_t nbsp_mspoolbdb_datasize(int f){ return DL; } size_t nbsp_cspoolbdb_datasize(int f){ return DL; }
static size_t mrd(void *b, size_t n){ size_t k = DL - DP < n ? DL - DP : n; memcpy(b, D + DP, k); DP += k; return k; } size_t nbsp_mspoolbdb_read(int f, void *b, size_t n){ return mrd(b, n); } size_t nbsp_cspoolbdb_read(int f, void *b, size_t n){ return mrd(b, n); }
int get_file_size(char *f, off_t *s){ *s = DL; return 0; } static int vopen(const char *f, int fl, ...){ DP = 0; return 4; } static ssize_t vread(int f, void *b, size_t n){ if (flt && rn(3) == 0) { flt = 2; return rn(2) ? -1 : (ssize_t)rn(n); } return mrd(b, n); } static int vclose(int f){ return 0; }
char *findbasename(char *p){ char *q = strrchr(p, '/'); return q ? q + 1 : p; }
static unsigned char W[200000]; static size_t WL, WP;
ssize_t writem(int fd, void *b, size_t n, unsigned t, int r){ memcpy(W, b, n); WL = n; WP = 0; return n; }
ssize_t readn(int fd, void *b, size_t n, unsigned t, int r){ size_t k = WL - WP < n ? WL - WP : n; if (k) memcpy(b, W + WP, k); WP += k; return k ? (ssize_t)k : n == 0 ? 0 : rn(2) ? 0 : -2; }
#include "src/util.c"
#include "src/pack.c"
#include "src/nbs1r.c"
#define open vopen
#define read vread
#define close vclose
#include "src/nbs1s.c"
#undef open
#undef read
#undef close
static uint32_t be(unsigned char *p){ return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; } static void pbe(unsigned char *p, uint32_t v){ p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static void t_product(unsigned idx){ kind = rn(3); flt = rn(10) == 0 && kind == 0; DL = rn(3) ? 1 + rn(200000) : (1 + rn(3)) * 65536; D = malloc(DL); rbytes(D, DL); struct nbs1_packet_st *n = malloc(sizeof *n), *m = malloc(sizeof *m); memset(n, 0xa5, sizeof *n); char path[60]; int l = 1 + rn(36); strcpy(path, "/s/kwbc/"); for (int i = 0; i < l; i++) path[8 + i] = "abz_-.+09"[rn(9)]; path[8 + l] = 0; uint32_t q = redge32(); int a = rn(256), b = rn(256), c = rn(256), d = rn(256);
 INFO("product of %zu bytes, %s, number %u type %d %d %d channel %d", DL, path, q, a, b, c, d);
 CHECK(init_nbs_packet_st(n, path, q, a, b, c, d, path) == 0, " "); size_t got = 0; int nb = (DL + 65535) / 65536; CHECK(n->num_blocks == nb, "%d blocks", n->num_blocks);
 for (int i = 1; i <= nb; i++) { int r = build_nbs_packet(n); if (flt == 2) { CHECK(r != 0, "a short read was sent"); break; } CHECK(r == 0, " "); CHECK(send_nbs_packet(3, n, 1, 1) == 0, " "); uint32_t s = 0; for (size_t k = 12; k < WL; k++) s += W[k]; CHECK(be(W + 8) == s, "checksum"); memset(m, 0x5a, sizeof *m); CHECK(recv_nbs_packet(3, m, 1, 1) == 0, "refused"); CHECK(m->seq_number == q && m->psh_product_type == a && m->psh_product_category == b && m->psh_product_code == c && m->np_channel_index == d && m->num_blocks == nb && m->block_number == i && !strcmp(m->fbasename, path + 8), "fields"); CHECK(got + m->block_size <= DL && !memcmp(m->block, D + got, m->block_size), "block %d", i); got += m->block_size; }
 if (flt != 2) CHECK(got == DL, "%zu bytes received", got); free_nbs_packet_st(n); free(n); free(m); free(D); }
static void t_recv(unsigned idx){ uint32_t ds = rn(2) ? 54 + rn(300) : rn(2) ? rn(70000) : (uint32_t)0 - rn(100); WL = 12 + (ds < 100000 ? ds : 100000); WP = 0; rbytes(W, WL < 400 ? WL : 400); pbe(W, rn(20) ? 1 : rn(4)); pbe(W + 4, ds); uint32_t bs = rn(4) ? ds - 54 : redge32(); pbe(W + 62, bs); for (int i = 20; i < 57; i++) if (!W[i]) W[i] = 'a'; if (rn(6)) W[20 + rn(37)] = 0; if (rn(8) == 0) WL = rn(WL); size_t full = WL; INFO("packet announcing %u bytes, block of %u, received %zu", ds, bs, WL);
 int ok = WL >= 12 && be(W) == 1 && ds <= 65536 + 54 && ds >= 54 && WL == 12 + (size_t)ds && be(W + 62) == ds - 54 && memchr(W + 20, 0, 37); struct nbs1_packet_st *m = malloc(sizeof *m); memset(m, 0xa5, sizeof *m); int r = recv_nbs_packet(3, m, 1, 1); CHECK((r == 0) == ok, "result %d of %zu", r, full); if (ok) { CHECK(m->seq_number == be(W + 12) && m->psh_product_type == W[16] && m->np_channel_index == W[19] && !strcmp(m->fbasename, (char *)W + 20) && m->f_zip == W[57] && m->num_blocks == W[58] * 256 + W[59] && m->block_number == W[60] * 256 + W[61] && m->block_size == be(W + 62) && !memcmp(m->block, W + 66, m->block_size), "fields"); } free(m); }
vpn_case vpn_cases[]={{"product",t_product,1},{"receive",t_recv,20},{0}};
