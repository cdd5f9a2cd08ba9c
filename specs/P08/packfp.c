//@ target src/packfp.c
//@ target src/pack.c
//@ target src/packfpu.c
//@ unit pack harness=h_pack defs=U1 plain about=nbsfp_pack_fpath,nbs_pack_envelope,nbsfp_unpack_fpath,const_fpath_packet_maxsize,nbsfp_packetinfo_init,nbsfp_packetinfo_create,nbsfp_packetinfo_cleanup,nbsfp_packetinfo_destroy unwind=42
//@ unit unpack harness=h_unpack defs=U2 plain about=nbsfp_unpack_fpath unwind=42
//@ unit recv harness=h_recv defs=U3 plain about=recv_fp_packet,nbsfp_unpack_fpath unwind=42
//@ assume the byte encoders and the checksum are those P07 proves; memchr and strncpy have their C meaning
//@ assume readn behaves as P11 proves
#include "pk_h.h"
#include "pctl.h"
static size_t vp_mx; int const_fpath_maxsize(void){ return (int)vp_mx; }
static int vp_nch; static size_t Z1, Z2; static int H1, H2; static const unsigned char *vp_d; static size_t vp_ds;   /* does a terminator follow, and where first, in the name field, in the path field */
static void *vp_mchr(const void *p, int c, size_t n){ CLAIM(c == 0 && __CPROVER_r_ok(p, n), "the search stays in the data received"); const unsigned char *q = p; vp_nch++;
  if (q == vp_d + 8) { CLAIM(n <= 19, "the name field"); return H1 && Z1 < n ? (void *)(q + Z1) : NULL; } CLAIM(q == vp_d + 27 && n <= vp_ds - 27, "the path field"); return H2 && Z2 < n ? (void *)(q + Z2) : NULL; }
#undef memchr
#define memchr vp_mchr
static size_t vp_nl(const char *p, size_t n){ CLAIM((const unsigned char *)p == vp_d + 8 || (const unsigned char *)p == vp_d + 27, "a name"); size_t z = (const unsigned char *)p == vp_d + 8 ? (H1 ? Z1 : 19) : (H2 ? Z2 : vp_ds - 27); return z < n ? z : n; }
#define strnlen vp_nl
static int vp_fd, vp_reads; static long vp_pos, vp_n1, vp_n2; static unsigned char *vp_b;
ssize_t readn(int fd, void *b, size_t n, unsigned int t, int r){ CLAIM(fd == vp_fd && __CPROVER_w_ok(b, n), "the receiver writes only in its buffer"); vp_reads++; long k = nondet_long(); ASSUME(k == -1 || k == -2 || (k >= 0 && (size_t)k <= n));
  if (vp_reads == 1) { CLAIM(b == PK && n == 12, "the envelope is read first"); vp_n1 = k; } else { CLAIM(vp_reads == 2 && vp_n1 == 12 && b == PK + 12 && n == vp_ds, "then exactly the data announced"); vp_n2 = k; } return k; }
#include VP_TARGET
#include VP_TARGET2
#include VP_TARGET3
static void vp_names(void){ Z1 = nondet_size(); Z2 = nondet_size(); H1 = nondet_bool(); H2 = nondet_bool(); size_t i = nondet_size();
  if (vp_ds >= 27) { ASSUME(IMP(H1, Z1 < 19)); for (int k = 0; k < 19; k++) ASSUME(IFF(PK[20 + k] == 0 && k == Z1, H1 && k == Z1) && IMP(!H1 || k < Z1, PK[20 + k] != 0)); ASSUME(IMP(H2, Z2 < vp_ds - 27 && PK[39 + Z2] == 0)); if (i < vp_ds - 27 && (!H2 || i < Z2)) ASSUME(PK[39 + i] != 0); } }
#ifdef U1
void h_pack(void){ size_t fs = nondet_size(); ASSUME(fs >= 1 && fs <= 5000); vp_mx = fs - 1; struct packet_info_st *pi = NULL, q; int r = nbsfp_packetinfo_create(&pi); COVER(r != 0, "out of memory"); if (r != 0) return; CLAIM(pi->packet_size == 12 + 27 + fs && __CPROVER_rw_ok(pi->packet, pi->packet_size), "room for every product"); PKS = pi->packet_size; PK = pi->packet; J = nondet_size(); ASSUME(J < PKS); vp_sum = nondet_uint(); vp_sums = 0;
  struct pctl_element_st *p = malloc(sizeof *p + fs); ASSUME(p != NULL); p->fpath_size = fs; vp_path = p->fpath; vp_pl = nondet_size(); ASSUME(vp_pl < fs && p->fpath[vp_pl] == 0); ASSUME(p->fname[18] == 0);
  unsigned char b = PK[J]; r = nbsfp_pack_fpath(pi, p); CLAIM(r == 0, "every product fits"); CLAIM(pi->packet == PK && pi->packet_size == PKS, "the packet stays"); CLAIM(vp_sums >= 1 && vp_cp == PK + 12 && vp_cn == 27 + fs && IMP(J >= 12, vp_cJ == PK[J]), "the checksum covers exactly the data sent");
  size_t d = J - 12; unsigned x = 0; int z = 0; for (int i = 0; i < 19; i++) { if (p->fname[i] == 0) z = 1; if (d == 8 + i) x = z ? 0 : (unsigned char)p->fname[i]; }
  if (J < 4) x = 2 >> (8 * (3 - J)); else if (J < 8) x = (uint32_t)(27 + fs) >> (8 * (7 - J)); else if (J < 12) x = vp_sum >> (8 * (11 - J)); else if (d < 4) x = p->seq_number >> (8 * (3 - d)); else if (d == 4) x = p->psh_product_type; else if (d == 5) x = p->psh_product_category; else if (d == 6) x = p->psh_product_code; else if (d == 7) x = p->np_channel_index; else if (d >= 27) x = d - 27 < vp_pl ? (unsigned char)p->fpath[d - 27] : 0;
  CLAIM(PK[J] == (unsigned char)x, "each byte of the packet is the one the protocol says");
  CLAIM(pi->seq_number == p->seq_number && pi->psh_product_type == p->psh_product_type && pi->psh_product_category == p->psh_product_category && pi->psh_product_code == p->psh_product_code && pi->np_channel_index == p->np_channel_index && (unsigned char *)pi->fname == PK + 20 && (unsigned char *)pi->fpath == PK + 39, "the description refers to the packet");
  /* the receiver of the same bytes */
  vp_d = PK + 12; vp_ds = 27 + fs; vp_nch = 0; for (int i = 18; i >= 0; i--) if (p->fname[i] == 0) Z1 = i; H1 = H2 = 1; Z2 = vp_pl; q.packet = PK; q.packet_size = PKS; r = nbsfp_unpack_fpath(&q);
  CLAIM(r == 0, "what is packed is accepted"); CLAIM(q.seq_number == p->seq_number && (unsigned char *)q.fname == PK + 20 && (unsigned char *)q.fpath == PK + 39 && q.psh_product_type == (p->psh_product_type & 255) && q.psh_product_category == (p->psh_product_category & 255) && q.psh_product_code == (p->psh_product_code & 255) && q.np_channel_index == (p->np_channel_index & 255), "unpacking gives back what was packed");
  nbsfp_packetinfo_destroy(pi); COVER(vp_pl + 1 == fs, "longest path"); REACH(); }
#endif
#define OKP (vp_get(PK, 0, 4) == 2 && PKS >= 12 && vp_ds <= PKS - 12 && vp_ds > 27 && vp_get(PK, 8, 4) == vp_sum && H1 && H2)
static void vp_check(struct packet_info_st *q){ CLAIM(OKP && vp_cp == PK + 12 && vp_cn == vp_ds, "only a consistent packet whose checksum is right is accepted"); CLAIM(q->seq_number == vp_get(PK, 12, 4) && q->psh_product_type == PK[16] && q->psh_product_category == PK[17] && q->psh_product_code == PK[18] && q->np_channel_index == PK[19] && (unsigned char *)q->fname == PK + 20 && (unsigned char *)q->fpath == PK + 39, "the fields are those of the packet"); }
#ifdef U2
void h_unpack(void){ struct packet_info_st q; PKS = nondet_size(); ASSUME(PKS <= 100000); PK = malloc(PKS); ASSUME(PK != NULL); vp_sum = nondet_uint(); vp_sums = 0; J = 0; vp_ds = PKS >= 12 ? vp_get(PK, 4, 4) : 0; vp_d = PK + 12; if (PKS >= 12 && vp_ds <= PKS - 12) vp_names(); else H1 = H2 = 0; q.packet = PK; q.packet_size = PKS;
  int r = nbsfp_unpack_fpath(&q); if (r == 0) vp_check(&q); else CLAIM(PKS < 12 || !OKP, "a well formed packet is accepted"); CLAIM(q.packet == PK && q.packet_size == PKS, "the packet stays"); COVER(r == 0, "accepted"); COVER(r != 0, "refused"); REACH(); }
#endif
#ifdef U3
void h_recv(void){ struct packet_info_st q; PKS = nondet_size(); ASSUME(PKS >= 40 && PKS <= 100000); PK = malloc(PKS); ASSUME(PK != NULL); vp_sum = nondet_uint(); vp_sums = vp_reads = 0; vp_n1 = vp_n2 = -3; J = 0; vp_ds = vp_get(PK, 4, 4); vp_d = PK + 12; if (vp_ds <= PKS - 12) vp_names(); else H1 = H2 = 0; q.packet = PK; q.packet_size = PKS; vp_fd = nondet_int();
  int r = recv_fp_packet(vp_fd, &q, nondet_uint(), nondet_int());   /* the bytes received are those in the buffer */
  if (r == 0) { CLAIM(vp_n1 == 12 && vp_n2 == (long)vp_ds, "all the bytes announced arrived"); vp_check(&q); } else CLAIM(r == -1 ? vp_n1 == -1 || vp_n2 == -1 : vp_n1 != 12 || vp_n2 != (long)vp_ds || !OKP, "a complete well formed packet is accepted, errors are told apart"); CLAIM(IMP(vp_n1 == -1 || vp_n2 == -1, r == -1), "a reading error is reported");
  COVER(r == 0, "accepted"); COVER(r == 1, "short"); COVER(r == 2, "corrupt"); REACH(); }
#endif
