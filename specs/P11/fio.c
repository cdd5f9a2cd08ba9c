//@ target filters/filterlib/c/io.c
//@ unit readf harness=h_readf about=readf loops fbunwind=7 fbdefs=VPFB
//@ unit pages harness=h_pages about=read_page,write_page
//@ loop readf 1 __CPROVER_assigns(nleft, nread, p, GPOS, vp_eof, vp_err, vp_tmo, __CPROVER_object_whole(vp_b)) __CPROVER_loop_invariant(nleft <= nbytes && GPOS <= VSN && GPOS == nbytes - nleft && p == (char *)vp_b + GPOS && IMP(GK < GPOS, vp_b[GK] == VS[GK])) __CPROVER_decreases(nleft)
//@ cut readf 1 (VP_REBASE(p, (char *)vp_b + GPOS), 1)
//@ assume fread and fwrite transfer the bytes they report; ferror is set when fread stopped for an error
#include "io_h.h"
#include <stdio.h>
static FILE *vp_f;
static size_t vp_fread(void *b, size_t s, size_t n, FILE *f){ CLAIM(f == vp_f && s == 1 && __CPROVER_w_ok(b, n), "reads into the page"); size_t r = nondet_size(); ASSUME(r <= n && r <= VSN); vp_eof = vp_err = 0; if (r < n) { vp_err = nondet_bool(); vp_eof = !vp_err; }
  if (r > 0) { __CPROVER_havoc_slice(b, r); if (GK < r) ASSUME(((unsigned char *)b)[GK] == VS[GK]); } GPOS = r; return r; }
static size_t vp_fwrite(const void *b, size_t s, size_t n, FILE *f){ CLAIM(f == vp_f && s == 1 && __CPROVER_r_ok(b, n), "writes the page"); size_t r = nondet_size(); ASSUME(r <= n); if (GK < r) { vp_cnt++; vp_byte = ((const unsigned char *)b)[GK]; } GPOS = r; return r; }
static int vp_ferror(FILE *f){ return vp_err; }
#define fread vp_fread
#define fwrite vp_fwrite
#define ferror vp_ferror
#include "err.h"
#define log_err_read(x) ((void)0)
#define log_err_write(x) ((void)0)
#define log_err_open(x) ((void)0)
#undef log_err
#undef log_errx
#define log_err(...) ((void)0)
#define log_errx(...) ((void)0)
#include VP_TARGET
#undef read
#undef write
void h_readf(void){ vp_init(); ssize_t r = readf(VFD, vp_b, vp_n);
  CLAIM(-1 <= r && r <= (ssize_t)vp_n, "count"); CLAIM(IMP(r == -1, vp_err), "-1 means error"); CLAIM(IMP(r >= 0, GPOS == (size_t)r), "every byte taken is reported");
  CLAIM(IMP(r >= 0 && GK < (size_t)r, vp_b[GK] == VS[GK]), "the bytes of the stream, in order"); CLAIM(IMP(r >= 0 && (size_t)r < vp_n, vp_eof), "short only at the end");
  COVER(r == 3 && vp_n == 3, "full"); COVER(r == 2 && vp_n == 3, "short"); REACH(); }
void h_pages(void){ vp_init(); vp_f = malloc(1); int n = (int)vp_n;
  int r = read_page(vp_f, vp_b, n); CLAIM(vp_err ? r == -1 : r == (int)GPOS, "count or error"); CLAIM(IMP(r >= 0 && r < n, vp_eof), "short only at the end"); CLAIM(IMP(r >= 0 && GK < (size_t)r, vp_b[GK] == VS[GK]), "the bytes read");
  COVER(r == -1, "read error"); COVER(r == 2, "short");
  GPOS = 0; vp_cnt = 0; r = write_page(vp_f, vp_b, n); CLAIM(r == ((int)GPOS < n ? -1 : n), "complete or failed"); CLAIM(IMP(r >= 0 && GK < (size_t)n, vp_cnt == 1 && vp_byte == vp_b[GK]), "each byte"); COVER(r == -1, "write error"); REACH(); }
