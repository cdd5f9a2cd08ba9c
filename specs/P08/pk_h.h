/* packets of any content; J is an arbitrary index in the packet, the checksum and the encoders are those of P07 */
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <assert.h>
#include "util.h"
#include "const.h"
static unsigned char *PK; static size_t PKS, J; static uint32_t vp_sum; static const void *vp_cp; static size_t vp_cn; static int vp_sums; static unsigned char vp_cJ;
static void vp_put(void *p, uint32_t v, size_t at, int n){ unsigned char *q = (unsigned char *)p + at; for (int i = 0; i < 4; i++) if (i < n) q[i] = (unsigned char)(v >> (8 * (n - 1 - i))); }
static uint32_t vp_get(const void *p, size_t at, int n){ const unsigned char *q = (const unsigned char *)p + at; uint32_t v = 0; for (int i = 0; i < 4; i++) if (i < n) v = (v << 8) | q[i]; return v; }
uint32_t unpack_uint32(void *p, size_t s){ return vp_get(p, s, 4); } void pack_uint32(void *p, uint32_t u, size_t s){ vp_put(p, u, s, 4); } uint16_t unpack_uint16(void *p, size_t s){ return (uint16_t)vp_get(p, s, 2); } void pack_uint16(void *p, uint16_t u, size_t s){ vp_put(p, u, s, 2); }
/* one value per region: the same bytes have the same checksum */
uint32_t calc_checksum(void *p, size_t n){ CLAIM(__CPROVER_r_ok(p, n), "the checksum reads only the data"); vp_cp = p; vp_cn = n; vp_sums++; vp_cJ = J < PKS ? PK[J] : 0; return vp_sum; }
static const char *vp_path; static size_t vp_pl;        /* a string of any length */
static char *vp_ncpy(char *d, const char *s, size_t n){ CLAIM(__CPROVER_w_ok(d, n), "room for the copy"); size_t o = (size_t)((unsigned char *)d - PK);
  if (s == vp_path) { size_t x = J - o; if (__CPROVER_same_object(d, PK) && J >= o && x < n) { if (x < vp_pl) ASSUME(s[x] != 0); PK[J] = x < vp_pl ? s[x] : 0; } return d; }
  CLAIM(n <= 40, "a name"); int e = 0; for (int i = 0; i < 40; i++) if ((size_t)i < n) { if (!e && s[i] == 0) e = 1; d[i] = e ? 0 : s[i]; } return d; }
#undef strncpy
#define strncpy vp_ncpy
