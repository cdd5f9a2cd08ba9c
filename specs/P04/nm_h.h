/* strings of bounded size, computed exactly; the spool directory is a name of any length */
#define VP_NAMES
#include "vp.h"
#include "vpctype.h"
#include <string.h>
#include <stdarg.h>
static int vp_long; static size_t SL;           /* the length of the spool directory name */
static char vp_dig[11]; static int vp_nd;       /* the decimal digits of the sequence number */
static char vp_tail[64]; static int vp_nt, vp_rooted; static long vp_tot; static size_t vp_room; static char *vp_dst;   /* the path after the spool directory */
static int vp_snp(char *d, size_t n, const char *f, ...);
#include "../P05/fr_h.h"
#undef isalpha
static int vp_snp(char *d, size_t n, const char *f, ...){ va_list ap; va_start(ap, f); int k = 0, root = 0; size_t tot = 0; char o[64];
  for (int i = 0; f[i] != 0 && i < 16; i++) { if (f[i] != '%') { CLAIM(k < 63, "room"); o[k++] = f[i]; continue; } i++;
    if (f[i] == 's') { const char *s = va_arg(ap, const char *); if (s == vp_dir) { CLAIM(k == 0 && !root, "the path starts at the spool directory"); root = 1; } else for (int j = 0; j < 40 && s[j] != 0; j++) { CLAIM(k < 63, "room"); o[k++] = s[j]; } }
    else if (f[i] == 'c') { int c = va_arg(ap, int); CLAIM(k < 63, "room"); o[k++] = (char)c; }
    else { CLAIM(f[i] == 'u', "known conversion"); unsigned u = va_arg(ap, unsigned); CLAIM(u == FSEQ, "the sequence number"); for (int j = 0; j < vp_nd; j++) { CLAIM(k < 63, "room"); o[k++] = vp_dig[j]; } } }
  va_end(ap); tot = (root ? SL : 0) + k; if (tot >= n) vp_long = 1;
  if (root) { vp_rooted = 1; vp_nt = k; for (int j = 0; j < 63; j++) vp_tail[j] = j < k ? o[j] : 0; vp_tot = tot; vp_room = n; vp_dst = d; if (n > 0) d[0] = 's'; }
  else { for (int j = 0; j < 63 && (size_t)j < n; j++) if (j < k && (size_t)j + 1 < n) d[j] = o[j]; else { d[j] = 0; break; } }
  return (int)tot; }
static size_t vp_len(const char *s){ if (s == vp_dir) return SL; for (int i = 0; i < 40; i++) if (s[i] == 0) return i; CLAIM(0, "a terminated string"); return 40; }
static char *vp_ncpy(char *d, const char *s, size_t n){ int e = 0; for (int i = 0; i < 40 && (size_t)i < n; i++) { if (!e && s[i] == 0) e = 1; d[i] = e ? 0 : s[i]; } CLAIM(n <= 40, "room"); return d; }
static char *vp_ncat(char *d, const char *s, size_t n){ size_t l = vp_len(d); int i; for (i = 0; i < 40 && (size_t)i < n && s[i] != 0; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
static char *vp_schr(const char *s, int c){ for (int i = 0; i < 40; i++) { if (s[i] == (char)c) return (char *)s + i; if (s[i] == 0) return NULL; } CLAIM(0, "a terminated string"); return NULL; }
#undef strlen
#undef strncpy
#undef strncat
#undef strchr
#define strlen(s) vp_len(s)
#define strncpy(d, s, n) vp_ncpy(d, s, n)
#define strncat(d, s, n) vp_ncat(d, s, n)
#define strchr(s, c) vp_schr(s, c)
static void vp_pce(void){ SL = nondet_size(); ASSUME(SL <= 4096); vp_nt = vp_rooted = vp_long = 0; vp_tot = 0; vp_nd = nondet_int(); ASSUME(vp_nd >= 1 && vp_nd <= 10); for (int i = 0; i < 10; i++) { vp_dig[i] = (char)nondet_uchar(); ASSUME(VP_DG(vp_dig[i])); } vp_init(); PC->fpath_size = const_fpath_maxsize() + 1; }   /* P05 create: as many bytes are allocated */
