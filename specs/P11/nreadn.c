//@ target src/nreadn.c
//@ unit read1 harness=h_read1 about=read1 loops fbunwind=6 fbdefs=VPFB
//@ unit write1 harness=h_write1 about=write1 loops fbunwind=6 fbdefs=VPFB
//@ unit sreadm harness=h_sreadm about=sreadm,readm replace=read1 loops defs=E_S fbunwind=7 fbdefs=VPFB
//@ unit sreadn harness=h_sreadn about=sreadn,readn replace=read1 loops defs=E_S fbunwind=7 fbdefs=VPFB
//@ unit writem harness=h_writem about=writem,writen replace=write1 loops defs=E_S fbunwind=7 fbdefs=VPFB
//@ unit readn_fifo harness=h_nfifo about=readn_fifo replace=read1 loops defs=E_S fbunwind=7 fbdefs=VPFB
//@ unit readm_fifo harness=h_mfifo about=readm_fifo replace=read1 loops defs=E_S fbunwind=7 fbdefs=VPFB
//@ unit dpgets harness=h_dpgets about=dpgets loops fbunwind=7 fbdefs=VPFB
//@ loop read1 1 POLLINV
//@ loop write1 1 POLLINV
//@ loop sreadm 1 __CPROVER_assigns(i, n, GHOSTS, __CPROVER_object_whole(vp_b)) __CPROVER_loop_invariant(i <= size && !vp_eof && GPOS <= VSN && GPOS == i && IMP(GK < i, vp_b[GK] == VS[GK])) __CPROVER_decreases(size - i)
//@ loop writem 1 __CPROVER_assigns(i, n, WGHOSTS) __CPROVER_loop_invariant(i <= size && GPOS == i && (GK < i ? vp_cnt == 1 && vp_byte == vp_b[GK] : vp_cnt == 0)) __CPROVER_decreases(size - i)
//@ loop dpgets 1 __CPROVER_assigns(b, c, n, GPOS, vp_eof, vp_err, vp_tmo, __CPROVER_object_whole(vp_b)) __CPROVER_loop_invariant(b + 1 <= size && GPOS <= VSN && GPOS == b && IMP(GK < b, vp_b[GK] == VS[GK] && VS[GK] != '\n')) __CPROVER_decreases(size - b)
//@ assume poll, read and write behave as POSIX says: any piece size, time-out, end or error at any call
//@ assume the retry interrupt function returns any value and has no other effect
#include "io_h.h"
#ifdef E_S
ssize_t read1(int fd, void *buf, size_t size, unsigned int msecs, int retry)
  REQ(fd == VFD && __CPROVER_w_ok(buf, size) && size > 0 && msecs == vp_ms && __CPROVER_same_object(buf, vp_b) && (unsigned char *)buf == vp_b + GPOS)
  ASG(GHOSTS, __CPROVER_object_upto(buf, size))
  ENS(-2 <= RET && RET <= (ssize_t)size && IMP(RET > 0, GPOS == OLD(GPOS) + (size_t)RET && GPOS <= VSN) && IMP(RET <= 0, GPOS == OLD(GPOS)))
  ENS(IMP(RET > 0 && GK >= OLD(GPOS) && GK < GPOS, ((unsigned char *)buf)[GK - OLD(GPOS)] == VS[GK]))
  ENS(IMP(GK < OLD(GPOS), vp_b[GK] == VS[GK]))
  ENS(IMP(RET == 0, vp_eof) && IMP(RET == -1, vp_err) && IMP(RET == -2, vp_tmo) && IMP(RET > 0, !vp_eof) && IMP(RET == -2, !vp_eof || OLD(vp_eof)));
ssize_t write1(int fd, void *buf, size_t size, unsigned int msecs, int retry)
  REQ(fd == VFD && __CPROVER_r_ok(buf, size) && size > 0 && msecs == vp_ms && (unsigned char *)buf == vp_b + GPOS)
  ASG(WGHOSTS)
  ENS(-1 <= RET && RET <= (ssize_t)size && IMP(RET > 0, GPOS == OLD(GPOS) + (size_t)RET) && IMP(RET <= 0, GPOS == OLD(GPOS)))
  ENS(RET > 0 && GK >= OLD(GPOS) && GK < GPOS ? vp_cnt == OLD(vp_cnt) + 1 && vp_byte == ((unsigned char *)buf)[GK - OLD(GPOS)] : vp_cnt == OLD(vp_cnt) && vp_byte == OLD(vp_byte));
#endif
static int vp_intr(void);
#include VP_TARGET
#undef read
#undef write
static int vp_intr(void){ return nondet_bool(); }
static int vp_retry(void){ int r = nondet_int(); ASSUME(r < 0x7fffffff);
#ifdef VPFB
  ASSUME(r < 3);
#endif
  if (nondet_bool()) init_readn(vp_intr); else init_readn(NULL); return r; }
#ifndef E_S
void h_read1(void){ vp_init(); int retry = vp_retry(); ASSUME(vp_n > 0);
  ssize_t r = read1(VFD, vp_b, vp_n, vp_ms, retry);
  CLAIM(-2 <= r && r <= (ssize_t)vp_n, "count"); CLAIM(GPOS == (r > 0 ? (size_t)r : 0), "bytes taken are reported"); CLAIM(IMP(r > 0 && GK < (size_t)r, vp_b[GK] == VS[GK]), "the bytes of the stream");
  CLAIM(IMP(r == -1, vp_err), "-1 means error"); CLAIM(IMP(r == -2, vp_polls == 0 || vp_tmo), "-2 means time-out"); CLAIM(IMP(r == 0, !vp_err && !vp_tmo && vp_eof), "0 means end"); CLAIM(IMP(r > 0 || r == -2, !vp_eof), "no end seen");
  COVER(r == 3, "read"); COVER(r == -2 && retry == 1, "time-out"); COVER(r == 0, "end"); COVER(r == -1, "error"); REACH(); }
void h_write1(void){ vp_init(); int retry = vp_retry();
  ssize_t r = write1(VFD, vp_b, vp_n, vp_ms, retry);
  CLAIM(-1 <= r && r <= (ssize_t)vp_n, "count"); CLAIM(GPOS == (r > 0 ? (size_t)r : 0), "bytes accepted are reported"); CLAIM(r > 0 && GK < (size_t)r ? vp_cnt == 1 && vp_byte == vp_b[GK] : vp_cnt == 0, "each byte once");
  CLAIM(IMP(vp_err, r == -1) && IMP(r == -1, vp_err), "-1 means error");
  COVER(r == 3, "written"); COVER(r == 0 && retry == 1, "time-out"); COVER(r == -1, "error"); REACH(); }
void h_dpgets(void){ vp_init(); ASSUME(vp_n > 0); size_t nl = nondet_size();
  ssize_t r = dpgets(VFD, (char *)vp_b, vp_n);
  CLAIM(IMP(r == -1, vp_err), "-1 means error"); CLAIM(-1 <= r && r < (ssize_t)vp_n, "fits");
  if (r >= 0) { CLAIM(GPOS == (size_t)r && vp_b[r] == 0, "terminated after the bytes taken"); CLAIM(IMP(GK < (size_t)r, vp_b[GK] == VS[GK] && IMP(GK + 1 < (size_t)r, VS[GK] != '\n')), "the bytes of one line");
    CLAIM((size_t)r == vp_n - 1 || vp_eof || vp_b[r - 1] == '\n', "complete line unless full or at the end"); }
  COVER(r == 3, "line"); COVER(r == 0, "end"); REACH(); }
#else
#define GOT(r) do { CLAIM(-2 <= (r) && (r) <= (ssize_t)vp_n, "count"); CLAIM(IMP((r) >= 0, GPOS == (size_t)(r)), "every byte taken from the stream is reported"); \
  CLAIM(IMP((r) >= 0 && GK < (size_t)(r), vp_b[GK] == VS[GK]), "the next bytes of the stream, in order"); CLAIM(IMP((r) >= 0 && (size_t)(r) < vp_n, vp_eof || vp_tmo || vp_short), "short only at the end or after a time-out"); \
  CLAIM(IMP((r) == -1, vp_err), "-1 means error"); CLAIM(IMP((r) == -2, GPOS == 0), "time-out before anything"); } while (0)
static int vp_short;
void h_sreadm(void){ vp_init(); int retry = vp_retry(), e = nondet_int(), e2; int *ep = nondet_bool() ? &e : NULL; vp_short = 0; ssize_t r;
  if (nondet_bool()) { r = sreadm(VFD, vp_b, vp_n, vp_ms, retry, ep);
    if (ep && r >= 0) CLAIM(e == ((size_t)r < vp_n && vp_eof), "end flag");
    COVER(ep && e && r == 2, "partial at the end"); COVER(r == 2 && vp_tmo && ep == NULL, "partial at time-out");
  } else r = readm(VFD, vp_b, vp_n, vp_ms, retry);
  GOT(r); COVER(r == 3 && vp_n == 3, "full"); COVER(r == -2, "time-out"); COVER(r == -1, "error"); REACH(); }
void h_sreadn(void){ vp_init(); int retry = vp_retry(), e = nondet_int(); int *ep = nondet_bool() ? &e : NULL; vp_short = 0; ssize_t r; unsigned s = nondet_uint(); ASSUME(s <= 2147483); vp_ms = 1000 * s;
  if (nondet_bool()) { r = sreadn(VFD, vp_b, vp_n, s, retry, ep);
    if (ep && r >= 0) CLAIM(e == ((size_t)r < vp_n && vp_eof), "end flag");
  } else r = readn(VFD, vp_b, vp_n, s, retry);
  GOT(r); COVER(r == 3 && vp_n == 3, "full"); COVER(r == -2, "time-out"); REACH(); }
void h_writem(void){ vp_init(); int retry = vp_retry(); ssize_t r; unsigned s = nondet_uint(); ASSUME(s <= 2147483); vp_ms = 1000 * s;
  if (nondet_bool()) r = writen(VFD, vp_b, vp_n, s, retry); else r = writem(VFD, vp_b, vp_n, 1000 * s, retry);
  CLAIM(-1 <= r && r <= (ssize_t)vp_n, "count"); CLAIM(IMP(r >= 0, GPOS == (size_t)r), "exactly the reported bytes were accepted");
  CLAIM(IMP(r >= 0, GK < (size_t)r ? vp_cnt == 1 && vp_byte == vp_b[GK] : vp_cnt == 0), "each byte once, in order");
  COVER(r == 3 && vp_n == 3, "full"); COVER(r == 2 && vp_n == 3, "time-out"); COVER(r == -1, "error"); REACH(); }
#define FIFO(f, S, M) vp_init(); vp_retry(); unsigned s = nondet_uint(); ASSUME(s <= 2147483); vp_ms = M; vp_short = 1; ssize_t r = f(VFD, vp_b, vp_n, S); GOT(r); \
  CLAIM(IMP(r >= 0, GPOS == (size_t)r), "no byte is dropped"); COVER(r == 2 && vp_n == 2, "full"); COVER(r == 0 && vp_n == 1, "end"); COVER(r == -2, "time-out"); REACH();
void h_nfifo(void){ FIFO(readn_fifo, s, 1000 * s) }
void h_mfifo(void){ FIFO(readm_fifo, s, s) }
#endif
