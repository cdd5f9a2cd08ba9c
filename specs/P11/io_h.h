/* a peer: an arbitrary stream read in arbitrary pieces, an arbitrary acceptance of written pieces, arbitrary time-outs, ends and errors */
#include "vp.h"
#include <sys/types.h>
#include <poll.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#ifdef VPFB
#define BMAX 4
#else
#define BMAX MAXLEN
#endif
static int VFD;
static unsigned char *VS; static size_t VSN;   /* what the peer sends */
static size_t GPOS;                            /* bytes taken from the stream / accepted by the peer */
static size_t GK;                              /* an arbitrary position in the transfer */
static int vp_eof, vp_err, vp_tmo;    /* the last event: end of stream, error, error of read, time-out */
static int vp_cnt; static unsigned char vp_byte;   /* how often position GK was accepted, and its value */
static unsigned vp_ms; static int vp_polls, vp_fail;
static int vp_poll(struct pollfd *p, unsigned long n, int ms){ CLAIM(n == 1 && p->fd == VFD, "polls the descriptor"); CLAIM(ms == (int)vp_ms, "polls for the time asked");
  int r = nondet_int(); ASSUME(-1 <= r && r <= 1); p->revents = 0; if (r == 1) { p->revents = (short)nondet_int(); ASSUME(p->revents != 0); } vp_tmo = r == 0; vp_err = r == -1; vp_eof = r == 1 && !(p->revents & POLLIN); if (vp_polls < 0x7fffffff) vp_polls++; return r; }
static ssize_t vp_read(int fd, void *b, size_t n){ CLAIM(fd == VFD && __CPROVER_w_ok(b, n), "reads into the buffer");
  ssize_t r = nondet_long(); ASSUME(-1 <= r && r <= (ssize_t)n && (r <= 0 || GPOS + (size_t)r <= VSN));
  vp_tmo = 0; vp_err = r == -1; vp_eof = r == 0 && n > 0;
#ifdef VPFB
  for (ssize_t i = 0; i < r; i++) ((unsigned char *)b)[i] = VS[GPOS + i];
#else
  if (r > 0) { __CPROVER_havoc_slice(b, r); if (GK >= GPOS && GK < GPOS + (size_t)r) ASSUME(((unsigned char *)b)[GK - GPOS] == VS[GK]); }
#endif
  if (r > 0) GPOS += r;
  return r; }
static ssize_t vp_write(int fd, const void *b, size_t n){ CLAIM(fd == VFD && __CPROVER_r_ok(b, n), "writes from the buffer");
  ssize_t r = nondet_long(); ASSUME(-1 <= r && r <= (ssize_t)n && GPOS + n < 2 * MAXLEN); vp_tmo = r == 0; vp_err = r == -1;
  if (r > 0) { if (GK >= GPOS && GK < GPOS + (size_t)r) { vp_cnt++; vp_byte = ((const unsigned char *)b)[GK - GPOS]; } GPOS += r; }
  return r; }
#define poll vp_poll
#define read vp_read
#define write vp_write
static unsigned char *vp_b; static size_t vp_n;
static void vp_init(void){ VFD = nondet_int(); VSN = nondet_size(); ASSUME(VSN <= 4 * (size_t)BMAX); VS = malloc(VSN); vp_n = nondet_size(); ASSUME(vp_n <= BMAX); vp_b = malloc(vp_n); ASSUME(VS != NULL && vp_b != NULL);
  GPOS = 0; GK = nondet_size(); ASSUME(GK < 2 * MAXLEN); vp_eof = vp_err = vp_tmo = vp_cnt = vp_polls = 0; vp_ms = nondet_uint(); ASSUME(vp_ms <= 0x7fffffff); }
#define GHOSTS GPOS, vp_eof, vp_err, vp_tmo, vp_polls
#define WGHOSTS GPOS, vp_err, vp_tmo, vp_polls, vp_cnt, vp_byte
#define POLLINV __CPROVER_assigns(status, i, pfd.revents, vp_tmo, vp_err, vp_eof, vp_polls) __CPROVER_loop_invariant(0 <= i && i - 1 <= retry && -1 <= status && status <= 1 && IMP(status == 0, pfd.revents == pfd.revents) && IMP(status == 1, i > 0) && IMP(status == -1, vp_err) && IMP(status == 0 && i > 0, vp_tmo) && vp_polls == i && IMP(status != -1, !vp_err) && IMP(status == 1, !vp_tmo && vp_eof == !(pfd.revents & POLLIN)) && IMP(status != 1, !vp_eof)) __CPROVER_decreases(retry - i + 1)
