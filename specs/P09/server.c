//@ target src/serverc.c
//@ unit product harness=h_product about=send_nbs1_client,nbs_retransmit_packet loops unwind=3 solver=default fbunwind=5 fbdefs=VPFB
//@ loop send_nbs1_client 1 __CPROVER_assigns(i, status, VP_STATE, __CPROVER_object_whole(&nbs)) __CPROVER_loop_invariant(1 <= i && i <= NBL + 1 && status == 0 && nbs.num_blocks == NBL && nbs.block_number == i - 1 && GB == i - 1 && GS == GB && vp_ups == GS && vp_open == 1 && !vp_lost && !vp_fail && !vp_dropped && FD == FD0) __CPROVER_decreases(NBL - i + 1)
//@ assume init_nbs_packet_st, build_nbs_packet and send_nbs_packet behave as units init, build and send show
#include "sv_h.h"
static uint32_t vp_q; static int vp_a, vp_b, vp_c, vp_d; static const struct nbs1_packet_st *vp_n;
int nbsfp_unpack_fpath(struct packet_info_st *p){ CLAIM(p->packet == vp_pkt && p->packet_size == vp_pks, "the element of the queue"); if (vp_unr == 0) { p->seq_number = vp_q; p->psh_product_type = vp_a; p->psh_product_category = vp_b; p->psh_product_code = vp_c; p->np_channel_index = vp_d; p->fname = vp_fname; p->fpath = vp_fpath; } return vp_unr; }
int init_nbs_packet_st(struct nbs1_packet_st *n, char *f, uint32_t q, int a, int b, int c, int d, char *m){ CLAIM(f == vp_fpath && q == vp_q && a == vp_a && b == vp_b && c == vp_c && d == vp_d, "the product that was queued"); vp_n = n; if (vp_initr == 0) { n->num_blocks = NBL; n->block_number = 0; vp_open++; } return vp_initr; }
void free_nbs_packet_st(struct nbs1_packet_st *n){ CLAIM(n == vp_n && vp_open == 1, "closed once"); vp_open--; }
int build_nbs_packet(struct nbs1_packet_st *n){ CLAIM(n == vp_n && vp_open == 1 && n->block_number == GB && GB < NBL && GS == GB && !vp_lost && !vp_fail, "the blocks are sent in order, each once"); int r = nondet_int(); n->block_number++; if (r == 0) GB++; else vp_fail = 1; return r; }
int send_nbs_packet(int fd, struct nbs1_packet_st *n, int t, int y){ CLAIM(n == vp_n && fd == FD0 && t == vp_tmo && y == vp_retry && GS + 1 == GB && !vp_lost, "each block built is written once"); int r = nondet_int(); ASSUME(r == 0 || r == 1 || r == -1); if (r == 0) GS++; else vp_lost = 1; return r; }
#include VP_TARGET
void h_product(void){ vp_sinit(); vp_q = nondet_uint(); vp_a = nondet_int(); vp_b = nondet_int(); vp_c = nondet_int(); vp_d = nondet_int();
#ifdef VPFB
  ASSUME(NBL <= 3);
#endif
  int r = send_nbs1_client(CE, vp_pkt, vp_pks); CLAIM(vp_open == 0, "the product is closed"); CLAIM((r == 0) == (vp_unr == 0 && vp_initr == 0 && GS == NBL), "success only when every block was sent"); CLAIM(IMP(vp_lost, FD == -1 && vp_dropped) && IMP(!vp_lost, FD == FD0), "a connection with a block missing is given up"); COVER(r == 0 && NBL > 1, "sent"); COVER(vp_lost, "lost"); REACH(); }
