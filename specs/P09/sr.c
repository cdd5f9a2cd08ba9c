//@ target src/nbs1s.c
//@ target src/nbs1r.c
//@ target src/pack.c
//@ unit init harness=h_init defs=U1 plain about=init_nbs_packet_st,free_nbs_packet_st,get_num_blocks,get_last_block_size unwind=42
//@ unit build harness=h_build defs=U2 plain about=build_nbs_packet,build_nbs1_header,nbs_pack_envelope,unpack_nbs1_header unwind=42
//@ unit send harness=h_send defs=U3 plain about=send_nbs_packet unwind=42
//@ unit recv harness=h_recv defs=U4 plain about=recv_nbs_packet,unpack_nbs1_header unwind=42
//@ assume the byte encoders and the checksum are those P07 proves; memchr and strncpy have their C meaning
//@ assume readn and writem behave as P11 proves; read and the memory spool reads return a prefix of what is left
//@ assume a product has at most 65535 blocks (4 GB) and a base name of at most 36 characters (P04)
#include "../P08/pk_h.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#define NBSP_GLOBALS_DEF
#include "globals.h"
#include "nbs1.h"
#include "file.h"
#include "nreadn.h"
#include "spooltype.h"
#include "nbspmspoolbdb.h"
static int vp_sp, vp_fd, vp_openr, vp_szr, vp_closed; static off_t S; static char *vp_fp, *vp_bn;      /* spool kind, handle, product size, its path and base name */
int spooltype_fsspool(void){ return vp_sp == 0; } int spooltype_mspool(void){ return vp_sp == 1; } int spooltype_cspool(void){ return vp_sp == 2; }
int get_file_size(char *f, off_t *s){ CLAIM(f == vp_fp, "the product's file"); if (vp_szr == 0) *s = S; return vp_szr; }
int vp_open(const char *f, int fl, ...){ CLAIM(f == vp_fp && vp_sp == 0, "the product's file"); return vp_openr; }
int nbsp_mspoolbdb_open(char *f){ CLAIM(f == vp_fp && vp_sp == 1, "the product's file"); return vp_openr; } int nbsp_cspoolbdb_open(char *f){ CLAIM(f == vp_fp && vp_sp == 2, "the product's file"); return vp_openr; }
size_t nbsp_mspoolbdb_datasize(int fd){ CLAIM(fd == vp_openr, "handle"); return S; } size_t nbsp_cspoolbdb_datasize(int fd){ CLAIM(fd == vp_openr, "handle"); return S; }
static int vp_cl(int k, int fd){ CLAIM(k == vp_sp && fd == vp_openr && !vp_closed, "closed once, where it was opened"); vp_closed = 1; return 0; }
int vp_close(int fd){ return vp_cl(0, fd); } int nbsp_mspoolbdb_close(int fd){ return vp_cl(1, fd); } int nbsp_cspoolbdb_close(int fd){ return vp_cl(2, fd); }
char *findbasename(char *p){ CLAIM(p == vp_fp, "the product's name"); return vp_bn; }
static off_t FP, vp_at; static unsigned char vp_bJ; static long vp_k;     /* reading position, that of the last read, the byte it put at place J of the packet */
static long vp_rd(int k, int fd, void *b, size_t n){ CLAIM(k == vp_sp && fd == vp_openr && __CPROVER_w_ok(b, n), "the product is read into the packet"); vp_k = nondet_long(); ASSUME(vp_k >= -1 && vp_k <= (long)n && vp_k <= S - FP); CLAIM((unsigned char *)b == PK + 66, "after the header"); vp_at = FP; vp_bJ = PK[J]; if (vp_k > 0) FP += vp_k; return vp_k; }
ssize_t vp_read(int fd, void *b, size_t n){ return vp_rd(0, fd, b, n); } size_t nbsp_mspoolbdb_read(int fd, void *b, size_t n){ return vp_rd(1, fd, b, n); } size_t nbsp_cspoolbdb_read(int fd, void *b, size_t n){ return vp_rd(2, fd, b, n); }
#define open vp_open
#define close vp_close
#define read vp_read
static int vp_sock, vp_reads; static size_t vp_tot, vp_ds; static unsigned vp_t; static int vp_rt; static long vp_n1, vp_n2;
ssize_t writem(int fd, void *b, size_t n, unsigned int t, int r){ CLAIM(fd == vp_sock && b == PK && n == vp_tot && t == vp_t && r == vp_rt && vp_reads == 0, "the packet is written once, entirely"); vp_reads++; vp_n1 = nondet_long(); ASSUME(vp_n1 >= -1 && vp_n1 <= (long)n); return vp_n1; }
ssize_t readn(int fd, void *b, size_t n, unsigned int t, int r){ CLAIM(fd == vp_sock && t == vp_t && r == vp_rt && __CPROVER_w_ok(b, n), "the receiver writes only in its buffer"); vp_reads++; long k = nondet_long(); ASSUME(k == -1 || k == -2 || (k >= 0 && (size_t)k <= n));
  if (vp_reads == 1) { CLAIM(b == PK && n == 12, "the envelope is read first"); vp_n1 = k; } else { CLAIM(vp_reads == 2 && vp_n1 == 12 && b == PK + 12 && n == vp_ds && (unsigned char *)b + n <= PK + NBS1_PACKET_MAXSIZE, "then exactly the data announced, in the packet buffer"); vp_n2 = k; } return k; }
static size_t Z; static int H; static void *vp_mchr(const void *p, int c, size_t n){ CLAIM(c == 0 && p == PK + 20 && n <= 37, "the name field"); return H && Z < n ? (void *)((unsigned char *)p + Z) : NULL; }
#undef memchr
#define memchr vp_mchr
static size_t vp_nlen(const char *p){ CLAIM(p == vp_bn, "the base name"); return Z; }
#undef strlen
#define strlen vp_nlen
#include VP_TARGET
#include VP_TARGET2
#include VP_TARGET3
#undef open
#undef close
#undef read
static struct nbs1_packet_st *N; static char vp_nm[37];
static void vp_init(void){  PK = (unsigned char *)N->packet; PKS = NBS1_PACKET_MAXSIZE; J = nondet_size(); ASSUME(J < PKS); S = nondet_long(); ASSUME(S >= 0 && S <= (off_t)65535 * 65536); vp_sp = nondet_int(); ASSUME(vp_sp >= 0 && vp_sp <= 2); vp_openr = nondet_int(); vp_closed = 0; vp_sum = nondet_uint(); vp_sums = 0; vp_reads = 0; vp_sock = nondet_int(); vp_t = nondet_uint(); vp_rt = nondet_int(); vp_n1 = vp_n2 = -3;
  for (int i = 0; i < 37; i++) vp_nm[i] = (char)nondet_uchar(); vp_nm[36] = 0; vp_bn = vp_nm; Z = nondet_size(); ASSUME(Z <= 36); for (int i = 36; i >= 0; i--) ASSUME(IMP((size_t)i < Z, vp_nm[i] != 0) && IMP((size_t)i == Z, vp_nm[i] == 0)); H = 1; }
#define NB ((int)((S + 65535) / 65536))
#define NAMEOK(f) (__CPROVER_forall { int zz; (0 <= zz && zz < 37) ==> ((size_t)zz <= Z ==> (f)[zz] == vp_nm[zz]) })
#ifdef U1
void h_init(void){ unsigned char vp_buf[sizeof(struct nbs1_packet_st)]; N = (struct nbs1_packet_st *)vp_buf; vp_init(); static char f[2]; vp_fp = f; vp_szr = nondet_int(); ASSUME(vp_szr == 0 || vp_szr == -1); ASSUME(vp_openr >= -2); ASSUME(IMP(vp_sp == 0, vp_openr >= -1)); int bad = nondet_bool(); if (bad) vp_sp = 3; unsigned q = nondet_uint(); int a = nondet_int(), b = nondet_int(), c = nondet_int(), d = nondet_int(); size_t k = nondet_size(); ASSUME(k <= Z);
  int r = init_nbs_packet_st(N, f, q, a, b, c, d, f); if (r == 0) { CLAIM(vp_openr >= 0 && !bad, "the product was opened"); CLAIM(N->num_blocks == NB && IMP(S > 0, N->last_block_size == S - (off_t)(NB - 1) * 65536), "the blocks add up to the product"); CLAIM(N->block_number == 0 && N->f_zip == 0 && N->seq_number == q && N->psh_product_type == a && N->psh_product_category == b && N->psh_product_code == c && N->np_channel_index == d && N->fbasename[k] == vp_nm[k], "the product identity"); CLAIM(N->fsfd == (vp_sp == 0 ? vp_openr : -1) && N->mfd == (vp_sp == 1 ? vp_openr : -1) && N->cfd == (vp_sp == 2 ? vp_openr : -1), "where it is read"); free_nbs_packet_st(N); CLAIM(vp_closed, "closed"); free_nbs_packet_st(N); }
  else CLAIM(bad || vp_openr < 0 || (vp_sp == 0 && vp_szr != 0), "a product that can be opened is sent"); COVER(r == 0 && S > 65536, "several blocks"); COVER(r == -2, "not found"); REACH(); }
#endif
#ifdef U2
void h_build(void){ unsigned char vp_buf[sizeof(struct nbs1_packet_st)]; N = (struct nbs1_packet_st *)vp_buf; vp_init(); int b = nondet_int(); ASSUME(S > 0 && b >= 0 && b < NB); FP = (off_t)b * 65536; ASSUME(vp_openr >= 0); N->num_blocks = NB; N->last_block_size = (int)(S - (off_t)(NB - 1) * 65536); N->block_number = b; N->fsfd = vp_sp == 0 ? vp_openr : -1; N->mfd = vp_sp == 1 ? vp_openr : -1; N->cfd = vp_sp == 2 ? vp_openr : -1; N->f_zip = 0; for (int i = 0; i < 37; i++) N->fbasename[i] = vp_nm[i]; struct { unsigned q; int a, b, c, d; } o = { N->seq_number, N->psh_product_type, N->psh_product_category, N->psh_product_code, N->np_channel_index };
  int r = build_nbs_packet(N); off_t share = S - (off_t)b * 65536; if (share > 65536) share = 65536; CLAIM(IMP(r == 0, vp_k == share) && IMP(vp_k == share, r == 0), "a block is sent only when all of it was read"); CLAIM(N->block_number == b + 1 && N->num_blocks == NB, "the place in the sequence");
  if (r == 0) { CLAIM(FP == (off_t)b * 65536 + share && N->block_size == (size_t)share && N->packet_size == (size_t)share + 66, "its share of the data"); CLAIM(vp_sums >= 1 && vp_cp == PK + 12 && vp_cn == 54 + (size_t)share && IMP(J >= 12 && J < N->packet_size, vp_cJ == PK[J]), "the checksum covers exactly the data");
    uint32_t x = 0; size_t h = J - 12; if (J < 4) x = 1 >> (8 * (3 - J)); else if (J < 8) x = (uint32_t)(54 + share) >> (8 * (7 - J)); else if (J < 12) x = vp_sum >> (8 * (11 - J)); else if (h < 4) x = o.q >> (8 * (3 - h)); else if (h == 4) x = o.a; else if (h == 5) x = o.b; else if (h == 6) x = o.c; else if (h == 7) x = o.d; else if (h < 45) { for (int i = 0; i < 37; i++) if (h == 8 + i) x = (size_t)i < Z ? (unsigned char)vp_nm[i] : 0; } else if (h == 45) x = 0; else if (h < 48) x = (unsigned)NB >> (8 * (47 - h)); else if (h < 50) x = (unsigned)(b + 1) >> (8 * (49 - h)); else if (h < 54) x = (uint32_t)share >> (8 * (53 - h)); if (J < 66) CLAIM(PK[J] == (unsigned char)x, "each header byte is the one the protocol says"); else if (J < N->packet_size) CLAIM(vp_at == (off_t)b * 65536 && PK[J] == vp_bJ, "the data is that of the product");
  }
  COVER(r == 0 && b + 1 == NB, "last block"); COVER(r != 0, "short read"); REACH(); }
#endif
#ifdef U3
void h_send(void){ unsigned char vp_buf[sizeof(struct nbs1_packet_st)]; N = (struct nbs1_packet_st *)vp_buf; vp_init(); N->packet_size = nondet_size(); ASSUME(N->packet_size <= NBS1_PACKET_MAXSIZE); vp_tot = N->packet_size; vp_t = (unsigned)nondet_int(); int r = send_nbs_packet(vp_sock, N, (int)vp_t, vp_rt); CLAIM((r == 0) == (vp_n1 >= 0 && (size_t)vp_n1 == vp_tot) && (r == -1) == (vp_n1 == -1) && vp_reads == 1, "success only when the whole packet was written"); COVER(r == 1, "short"); REACH(); }
#endif
#ifdef U4
void h_recv(void){ unsigned char vp_buf[sizeof(struct nbs1_packet_st)]; N = (struct nbs1_packet_st *)vp_buf; vp_init(); H = nondet_bool(); for (int i = 0; i < 37; i++) ASSUME(IMP(!H || (size_t)i < Z, PK[20 + i] != 0) && IMP(H && (size_t)i == Z, PK[20 + i] == 0)); vp_ds = vp_get(PK, 4, 4);
  int r = recv_nbs_packet(vp_sock, N, vp_t, vp_rt); uint32_t bs = vp_get(PK, 62, 4); int ok = vp_n1 == 12 && vp_n2 == (long)vp_ds && vp_get(PK, 0, 4) == 1 && vp_ds == 54ul + bs && bs <= 65536 && H;
  CLAIM((r == 0) == ok, "exactly the well formed packets are accepted"); if (r == 0) { size_t k = nondet_size(); ASSUME(k <= Z); CLAIM(N->seq_number == vp_get(PK, 12, 4) && N->psh_product_type == PK[16] && N->psh_product_category == PK[17] && N->psh_product_code == PK[18] && N->np_channel_index == PK[19] && N->fbasename[k] == (char)PK[20 + k] && N->fbasename[Z] == 0 && N->f_zip == PK[57] && N->num_blocks == (int)vp_get(PK, 58, 2) && N->block_number == (int)vp_get(PK, 60, 2) && N->block_size == bs && N->packet_size == 66ul + bs && (unsigned char *)N->block == PK + 66, "the fields are those of the packet, the block follows the header"); }
  else { CLAIM(r == -1 || r == -2 || r == -3 || r == 1 || r == 2, "documented result"); CLAIM(IFF(r == -1, vp_n1 == -1 || vp_n2 == -1), "a reading error is reported"); CLAIM(IMP(vp_n1 == -2, r == -2) && IMP(vp_n1 == 0, r == -3), "time out and end of file are told apart"); }
  COVER(r == 0, "accepted"); COVER(r == 2, "corrupt"); COVER(r == 1, "short"); REACH(); }
#endif
