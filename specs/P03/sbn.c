//@ target src/sbn.c
//@ unit count_char enforce=count_char loops unwind=16 defs=E_count
//@ unit validate_wmo enforce=validate_wmo unwind=9 defs=E_validate
//@ unit split_wmo_header about=split_wmo_header replace=count_char,validate_wmo loops unwind=9 unwindset=__CPROVER_contracts_write_set_check_assignment.0:40 timeout=300 fbunwind=35 fbdefs=VPFB
//@ cut count_char 1 (vp_stop = i, vp_count_ax(s, i, n, c))
//@ loop count_char 1 __CPROVER_assigns(i, count, vp_stop) __CPROVER_loop_invariant(0 <= i && i <= n && count == VPS[i] && 0 <= count && count <= i && IMP(GK < (size_t)i, s[GK] != '\n' && s[GK] != 0)) __CPROVER_decreases(n - i)
//@ cut split_wmo_header 1 (vp_term = n, 1)
//@ loop split_wmo_header 1 __CPROVER_assigns(n, vp_term, __CPROVER_object_whole(line)) __CPROVER_loop_invariant(0 <= n && n <= data_size && n <= SBN_FRAME_SIZE && IMP(GK < (size_t)n, line[GK] == wmo[GK] && wmo[GK] != '\n')) __CPROVER_decreases(data_size - n)
//@ cut split_wmo_header 2 (vp_i2 = i, VP_REBASE(wmo, vp_D + i), 1)
//@ loop split_wmo_header 2 __CPROVER_assigns(i, wmo, vp_i2) __CPROVER_loop_invariant(0 <= i && i <= data_size && wmo == vp_D + i && IMP(GK < (size_t)i, vp_D[GK] != '\n')) __CPROVER_decreases(data_size - i)
//@ assume sscanf with %Ns conversions skips white space, stores the longest run (up to N) of other characters, and reads only the terminated string it is given
//@ assume character classes are those of the C locale
#include "vp.h"
#include "../P01/spec_sbn.h"
#include "const.h"
#include <stdarg.h>
#ifdef VPFB
#define DMAX 32
#else
#define DMAX 5200
#endif
size_t GK;
const int *VPS;              /* VPS[i]: number of c among the first i characters */
static int vp_stop, vp_blanks;
static int vp_count_ax(const char *s, int i, int n, unsigned char c){ if (i < n) ASSUME(VPS[i + 1] == VPS[i] + (s[i] == c ? 1 : 0)); return 1; }
static int vp_i2;            /* where the second line is taken to start, less one */
static int vp_valid;
static int vp_term;          /* length of the terminated copy of the first line */
static const char *vp_D;     /* the data block after the control block */
static int vp_pos[4], vp_len[4], vp_ntok;   /* where the conversions of the first line found their tokens */

/* the number of c before the end of the line (or NUL, or the end of the data) */
static int count_char(char *s, int n, unsigned char c)
#ifdef E_count
  REQ(n >= 0 && n <= DMAX && FRESH(s, n) && FRESH(VPS, ((size_t)DMAX + 2) * sizeof(int)) && VPS[0] == 0)
  ASG(vp_stop)
  ENS(0 <= vp_stop && vp_stop <= n && (vp_stop == n || s[vp_stop] == '\n' || s[vp_stop] == 0) && IMP(GK < (size_t)vp_stop, s[GK] != '\n' && s[GK] != 0))
  ENS(RET == VPS[vp_stop]);
#else
  REQ(n >= 0 && __CPROVER_r_ok(s, n)) ASG(vp_blanks) ENS(RET == vp_blanks && RET >= 0 && RET <= n);
#endif
#define LEN6(p) ((p)[0] == 0 ? 0 : (p)[1] == 0 ? 1 : (p)[2] == 0 ? 2 : (p)[3] == 0 ? 3 : (p)[4] == 0 ? 4 : (p)[5] == 0 ? 5 : (p)[6] == 0 ? 6 : 7)
#define C6(p,K) (K((p)[0]) && K((p)[1]) && K((p)[2]) && K((p)[3]) && K((p)[4]) && K((p)[5]))
#define O6(p,K) ((p)[0] == 0 || (K((p)[0]) && ((p)[1] == 0 || (K((p)[1]) && ((p)[2] == 0 || (K((p)[2]) && ((p)[3] == 0 || (K((p)[3]) && ((p)[4] == 0 || (K((p)[4]) && ((p)[5] == 0 || K((p)[5]))))))))))))
#define VALID(id,st,tm,bb) (LEN6(id) == 6 && LEN6(tm) == 6 && (st)[4] == 0 && VP_AL((st)[0]) && VP_AL((st)[1]) && VP_AL((st)[2]) && VP_AL((st)[3]) \
   && C6(id, VP_AN) && C6(tm, VP_DG) && O6(bb, VP_AN))
static int validate_wmo(char *id, char *st, char *tm, char *bb)
  REQ(FRESH(id, 7) && LEN6(id) <= 6 && FRESH(st, 5) && st[4] == 0 && FRESH(tm, 7) && tm[6] == 0 && FRESH(bb, 7) && bb[6] == 0)
#ifdef E_validate
  ASG() ENS(RET == (VALID(id, st, tm, bb) ? 0 : 1));
#else
  ASG(vp_valid) ENS(RET == (VALID(id, st, tm, bb) ? 0 : 1)) ENS(RET == vp_valid);
#endif

static int vp_sscanf(const char *s, const char *fmt, char *a, char *b, char *c, char *d){
  char *arg[4] = { a, b, c, d };
#ifdef VPFB
  if (vp_ntok < 0) { vp_term = 0; while (s[vp_term] != 0) vp_term++; }
#endif
  int t = s[vp_term] == 0 ? vp_term : 8;
  CLAIM(s[t] == 0, "sscanf reads a terminated string");
  int at = 0, k = 0, first = vp_ntok < 0;
  if (!first) CLAIM(!VP_SP(s[0]) && s[0] != 0, "the second line starts with its code");
  for (; *fmt != 0; fmt += fmt[3] == ' ' ? 4 : 3) {
    CLAIM(fmt[0] == '%' && fmt[1] >= '1' && fmt[1] <= '9' && fmt[2] == 's', "modelled sscanf format");
    int w = fmt[1] - '0';
    char *dst = arg[k];
    int p = 0; if (first) { p = nondet_int(); ASSUME(p >= at && p <= t && !VP_SP(s[p]) && IMP(GK >= (size_t)at && GK < (size_t)p, VP_SP(s[GK]) && s[GK] != 0)); }
    if (s[p] == 0) break;
    int l = 0;
    if (first) {                       /* content related at the arbitrary index GK */
      l = nondet_int(); ASSUME(1 <= l && l <= w && p + l <= t);
      ASSUME((l == w || s[p + l] == 0 || VP_SP(s[p + l])));
      for (int j = 0; j < w; j++) { char ch = (char)nondet_uchar(); ASSUME(j >= l || (ch != 0 && !VP_SP(ch))); dst[j] = j < l ? ch : 0; if ((size_t)(p + j) == GK) ASSUME(j >= l || ch == s[GK]); }
    } else
      while (l < w && s[p + l] != 0 && !VP_SP(s[p + l])) { dst[l] = s[p + l]; l++; }
    dst[l] = 0;
    if (first) { vp_pos[k] = p; vp_len[k] = l; }
    at = p + l; k++;
  }
  if (first) vp_ntok = k;
  return k;
}
/* the frame size is only the capacity of a local buffer here: kept symbolic (any value that holds the data) */
static int vp_frame_size;
#ifndef VPFB
#undef SBN_FRAME_SIZE
#define SBN_FRAME_SIZE vp_frame_size
#endif
#undef sscanf
#define VP_S4(s, f, a, b, c, d, ...) vp_sscanf(s, f, a, b, c, d)
#define sscanf(s, f, ...) VP_S4(s, f, __VA_ARGS__, 0, 0, 0, 0)
#include VP_TARGET
#undef sscanf

void h_count_char(void){ char *s; int n; unsigned char c; int r = count_char(s, n, c); COVER(r > 2, "several"); COVER(r == 0, "none"); REACH(); }
void h_validate_wmo(void){ char *a, *b, *c, *d; int r = validate_wmo(a, b, c, d); COVER(r == 0, "valid"); COVER(r == 1, "invalid"); REACH(); }

/* run of characters of class K at the start of the second line (q, n characters), at most 6 */
#define A0(K) (n2 > 0 && K(q[0]))
#define A1(K) (A0(K) && n2 > 1 && K(q[1]))
#define A2(K) (A1(K) && n2 > 2 && K(q[2]))
#define A3(K) (A2(K) && n2 > 3 && K(q[3]))
#define A4(K) (A3(K) && n2 > 4 && K(q[4]))
#define A5(K) (A4(K) && n2 > 5 && K(q[5]))
#define RUN(K) (A0(K) + A1(K) + A2(K) + A3(K) + A4(K) + A5(K))
#define NSP(c) ((c) != 0 && !VP_SP(c))
#define SAME(s,p,l) (((l) < 1 || (s)[0] == (p)[0]) && ((l) < 2 || (s)[1] == (p)[1]) && ((l) < 3 || (s)[2] == (p)[2]) && ((l) < 4 || (s)[3] == (p)[3]) && ((l) < 5 || (s)[4] == (p)[4]) && ((l) < 6 || (s)[5] == (p)[5]))
static struct sbn_frame vp_f;
void h_split_wmo_header(void){
  vp_frame_size = nondet_int(); ASSUME(vp_frame_size >= DMAX && vp_frame_size <= 10000); struct sbn_frame *f = &vp_f;
  char id[7], st[5], tm[7], aw[7], na[7];
  int n = nondet_int(); ASSUME(n >= 0 && n <= DMAX);
  char *d = malloc(n); ASSUME(d != NULL);
  int N = n, bad = 0; vp_D = d;
  if (nondet_bool()) {            /* control header in the frame */
    ASSUME(n >= 21); f->ctrlhdr = d; f->ctrlhdr_size = n;
    if (!VP_AL(d[0])) { ASSUME(n >= 24); vp_D = d + 24; N = n - 24; }
    bad = N < 21;
  } else { f->ctrlhdr = NULL; f->pdata = d; f->pdata_size = n; }
  vp_ntok = -1; vp_valid = -1; vp_term = 0; vp_stop = 0; vp_i2 = -1;
#ifdef VPFB
  vp_i2 = 0; while (vp_i2 < N && vp_D[vp_i2] != '\n') vp_i2++;
#endif
  int r = split_wmo_header(f, id, st, tm, aw, na);
  CLAIM(r == 0 || r == 1, "status");
  CLAIM(!bad || r == 1, "too short a control header is refused");
  if (!bad) {
    CLAIM(r == 1 && vp_ntok < 0 || vp_term >= 0 && vp_term <= N && (vp_term == N || vp_D[vp_term] == '\n' || vp_D[vp_term] == 0) && IMP(GK < (size_t)vp_term, vp_D[GK] != '\n'), "first line");
    CLAIM(IMP(vp_blanks != 2 && vp_blanks != 3, r == 1), "number of parts of the first line");
    CLAIM(IMP(vp_blanks == 2 && vp_ntok < 3, r == 1), "missing parts");
    CLAIM(IMP(vp_blanks == 3 && vp_ntok < 4, r == 1), "missing parts (four)");
  }
  if (!bad && ((vp_blanks == 2 && vp_ntok == 3) || (vp_blanks == 3 && vp_ntok == 4))) CLAIM(r == vp_valid, "accepted exactly when valid");
  if (r == 0) {
    CLAIM(C6(id, VP_AN) && id[6] == 0, "identifier form");
    CLAIM(VP_AL(st[0]) && VP_AL(st[1]) && VP_AL(st[2]) && VP_AL(st[3]) && st[4] == 0, "station form");
    CLAIM(C6(tm, VP_DG) && tm[6] == 0, "time form");
    CLAIM(vp_len[0] == 6 && vp_len[1] == 4 && vp_len[2] == 6, "token lengths");
    CLAIM(vp_pos[0] >= 0 && vp_pos[1] >= vp_pos[0] + 6 && vp_pos[2] >= vp_pos[1] + 4 && vp_pos[2] + 6 <= vp_term, "tokens in order in the first line");
    if (GK >= (size_t)vp_pos[0] && GK < (size_t)vp_pos[0] + 6) CLAIM(id[GK - vp_pos[0]] == vp_D[GK], "identifier verbatim");
    if (GK >= (size_t)vp_pos[1] && GK < (size_t)vp_pos[1] + 4) CLAIM(st[GK - vp_pos[1]] == vp_D[GK], "station verbatim");
    if (GK >= (size_t)vp_pos[2] && GK < (size_t)vp_pos[2] + 6) CLAIM(tm[GK - vp_pos[2]] == vp_D[GK], "time verbatim");
    CLAIM(LEN6(aw) <= 6 && LEN6(na) <= 6 && O6(aw, VP_AN) && O6(na, VP_AN), "codes are short alphanumeric strings");
    int n2 = N - (vp_i2 + 1); const char *q = vp_D + vp_i2 + 1;
    CLAIM(vp_i2 >= 0 && vp_i2 <= N && (vp_i2 == N || vp_D[vp_i2] == '\n') && IMP(GK < (size_t)vp_i2, vp_D[GK] != '\n'), "the second line starts after the first newline");
    int bl = vp_blanks == 3 ? vp_len[3] : 0;
    if (n2 <= 0)
      CLAIM(aw[0] == 0 && (na[0] == 0 || LEN6(na) == bl), "no second line");
    else if (!VP_AL(q[0])) {
      CLAIM(aw[0] == 0 && LEN6(na) == bl, "second line without code: the qualifier");
      if (bl > 0 && GK >= (size_t)vp_pos[3] && GK < (size_t)vp_pos[3] + bl) CLAIM(na[GK - vp_pos[3]] == vp_D[GK], "qualifier verbatim");
    } else {
      int rs = RUN(NSP), ra = RUN(VP_AN);
      if (n2 >= 9 && q[8] == '\n' && rs == ra)
        CLAIM(LEN6(aw) == rs && SAME(aw, q, rs) && na[0] == 0, "awips code of the second line");
      else
        CLAIM(aw[0] == 0 && LEN6(na) == ra && SAME(na, q, ra), "leading characters of the second line");
    }
  }
  COVER(r == 0 && aw[0] != 0, "awips"); COVER(r == 0 && na[0] != 0, "notawips"); COVER(r == 0 && na[0] == 0 && aw[0] == 0, "neither"); COVER(r == 1 && !bad, "refused");
  REACH();
}
