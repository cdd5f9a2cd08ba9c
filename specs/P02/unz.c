//@ target src/unz.c
//@ unit unz enforce=unz replace=uncompress
//@ unit zip enforce=zip replace=compressBound,compress2
//@ assume zlib: uncompress and compress2 touch only their destination and length, write at most the given length, and report what they wrote
#include "vp.h"
#include <zlib.h>
#include "unz.h"
int vp_e; unsigned long vp_len, vp_bound;
int uncompress(Bytef *dest, uLongf *destLen, const Bytef *src, uLong sourceLen)
  REQ(__CPROVER_w_ok(destLen, sizeof(uLongf)) && __CPROVER_w_ok(dest, *destLen) && __CPROVER_r_ok(src, sourceLen))
  ASG(__CPROVER_object_upto(dest, *destLen), *destLen)
  ENS(RET == vp_e) ENS(*destLen <= OLD(*destLen)) ENS(*destLen == vp_len);
uLong compressBound(uLong n) REQ(n <= 0x7fffffff) ASG() ENS(RET == vp_bound && RET >= n && RET <= n + (n >> 12) + (n >> 14) + (n >> 25) + 13);
int compress2(Bytef *dest, uLongf *destLen, const Bytef *src, uLong sourceLen, int level)
  REQ(__CPROVER_w_ok(destLen, sizeof(uLongf)) && __CPROVER_w_ok(dest, *destLen) && __CPROVER_r_ok(src, sourceLen))
  ASG(__CPROVER_object_upto(dest, *destLen), *destLen)
  ENS(RET == vp_e) ENS(*destLen <= OLD(*destLen)) ENS(*destLen == vp_len);
int unz(char *out, int *outlen, char *in, int inlen)
  REQ(inlen >= 0 && FRESH(outlen, sizeof(int)) && *outlen >= 0 && FRESH(out, *outlen) && FRESH(in, inlen))
  ASG(__CPROVER_object_upto(out, *outlen), *outlen)
  ENS(RET == vp_e) ENS(IMP(RET == Z_OK, *outlen >= 0 && *outlen <= OLD(*outlen) && *outlen == (int)vp_len)) ENS(IMP(RET != Z_OK, *outlen == OLD(*outlen)));
int zip(char **out, int *outlen, char *in, int inlen, int level)
  REQ(inlen >= 0 && inlen <= (1 << 28) && FRESH(outlen, sizeof(int)) && FRESH(out, sizeof(char *)) && FRESH(in, inlen))
  ASG(*out, *outlen)
  ENS(IMP(RET == Z_OK, FRESH(*out, vp_bound) && *outlen == (int)vp_len && (unsigned long)*outlen <= vp_bound))
  ENS(IMP(RET != Z_OK, *outlen == OLD(*outlen) && *out == OLD(*out)));
#include VP_TARGET
void h_unz(void){ char *o, *i; int *n; int m; int r = unz(o, n, i, m); COVER(r == 0, "ok"); COVER(r != 0, "error"); REACH(); }
void h_zip(void){ char **o, *i; int *n; int m, l; int r = zip(o, n, i, m, l); COVER(r == 0, "ok"); COVER(r != 0, "error"); REACH(); }
