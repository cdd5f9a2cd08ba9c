//@ target tools/nbspinsert/nbspinsert.c
//@ inc filters/filterlib/c
//@ unit create harness=h_create defs=U1 plain solver=default about=create_finfo,delete_finfo,send_finfo,process_file
//@ unit validate harness=h_valid defs=U2 plain about=validate_input
//@ unit save harness=h_save defs=U3 about=save_fpath,delete_fpath loops fbunwind=9 fbdefs=VPFB
//@ loop save_fpath 1 __CPROVER_assigns(nwrite, status, nread, __CPROVER_object_whole(input_buffer), vp_rn, vp_bad, vp_owed) __CPROVER_loop_invariant(nread == vp_rn && nread >= -1 && nread <= (long)input_buffer_size && IFF(vp_bad, status != 0) && (vp_bad || IFF(vp_owed, nread > 0)))
//@ assume snprintf with %s conversions writes the concatenation up to its room and returns the total length; writef behaves as P11 proves, the conversions as P17 proves
//@ assume the arguments of the program take less than 1 GB together
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/file.h>
#include <stdarg.h>
static char *A[7]; static size_t AL[7], J, T; static char vp_cJ; static int vp_snps, vp_sf; static char *vp_pk; static uint32_t vp_pv; static int vp_pks;
/* the text "a0 a1 ... a6", any strings of any length: its character at an arbitrary place J is vp_cJ */
static int vp_snp(char *d, size_t n, const char *f, ...){ for (int i = 0; i < 21; i++) CLAIM(f[i] == "%s %s %s %s %s %s %s"[i], "the seven fields separated by blanks"); va_list ap; va_start(ap, f); for (int i = 0; i < 7; i++) CLAIM(va_arg(ap, char *) == A[i], "the fields in order"); va_end(ap); CLAIM(__CPROVER_w_ok(d, n), "room for the text"); vp_snps++; if (vp_sf == vp_snps) return -1;
  if (J < T && J + 1 < n) d[J] = vp_cJ; if (n > 0) d[T < n ? T : n - 1] = 0; return (int)T; }
#undef snprintf
#define snprintf vp_snp
void pack_uint32(void *p, uint32_t u, size_t s){ unsigned char *q = (unsigned char *)p + s; CLAIM(__CPROVER_w_ok(q, 4), "room for the size"); q[0] = u >> 24; q[1] = u >> 16; q[2] = u >> 8; q[3] = u; }
static int vp_wr; static long vp_wn; static int vp_wf(int fd, void *p, size_t n);
ssize_t writef(int fd, void *p, size_t n){ return vp_wf(fd, p, n); }
static int vp_cv[5], vp_ncv; static unsigned vp_val[5]; int strto_u32(char *s, uint32_t *u){ CLAIM(s == A[0], "the sequence number"); *u = vp_val[0]; return vp_cv[0]; } int strto_uint(char *s, unsigned *u){ for (int i = 1; i < 5; i++) if (s == A[i]) { *u = vp_val[i]; return vp_cv[i]; } CLAIM(0, "a numerical field"); return 1; }
static int vp_exit; void log_errx(int c, char *f, ...){ if (c) { vp_exit++; CLAIM(vp_cv[0] != 0 || vp_cv[1] != 0 || vp_cv[2] != 0 || vp_cv[3] != 0 || vp_cv[4] != 0 || vp_val[1] > 255 || vp_val[2] > 255 || vp_val[3] > 255 || vp_val[4] > 255, "only bad numbers are refused"); ASSUME(0); } } void log_err(int c, char *f, ...){ if (c) ASSUME(0); }
int check_fifo(char *f){ return nondet_int(); } void set_progname(char *p){} void set_usesyslog(void){}
static int vp_unl; int unlink(const char *p){ CLAIM(p == A[6], "only the file just written is removed"); vp_unl++; return nondet_bool() ? 0 : -1; }
static int vp_opened, vp_opst, vp_bad, vp_owed; static long vp_rn; static int vp_open(const char *p, int f){ CLAIM(p == A[6], "the file named"); vp_opened++; return vp_opst; }
ssize_t read(int fd, void *b, size_t n){ CLAIM(fd == 0 && __CPROVER_w_ok(b, n), "standard input"); CLAIM(!vp_owed, "what was read before is written first"); long k = nondet_long(); ASSUME(k >= -1 && k <= (long)n); vp_rn = k; vp_owed = k > 0; return k; }
ssize_t write(int fd, const void *b, size_t n){ CLAIM(fd == vp_opst && (long)n == vp_rn && vp_owed && __CPROVER_r_ok(b, n), "what was read is written, once"); long k = nondet_long(); ASSUME(k >= -1 && k <= (long)n); vp_owed = 0; if (k < (long)n) vp_bad = 1; return k; } int close(int fd){ return 0; }
#define VPO(_1, _2, _3, N, ...) N
#define open(...) VPO(__VA_ARGS__, vp_open3, vp_open)(__VA_ARGS__)
#define vp_open3(p, f, m) vp_open(p, f)
#include VP_TARGET
static void vp_setup(void){ T = 6; for (int i = 0; i < 7; i++) { AL[i] = nondet_size(); ASSUME(AL[i] < (1u << 27)); T += AL[i]; A[i] = malloc(1); ASSUME(A[i] != NULL); } J = nondet_size(); vp_cJ = (char)nondet_uchar(); ASSUME(vp_cJ != 0); vp_snps = vp_wr = vp_exit = vp_unl = vp_opened = vp_bad = vp_owed = 0; vp_opst = nondet_int(); ASSUME(vp_opst >= -1); vp_sf = nondet_int(); vp_wn = nondet_long();
  g.seq = A[0]; g.type = A[1]; g.cat = A[2]; g.code = A[3]; g.npchidx = A[4]; g.fname = A[5]; g.fpath = A[6]; g.finfo_buffer_d = NULL; g.finfo_data = NULL; g.finfo_data_size = 0; g.nbsp_infifo_fd = nondet_int(); }
static int vp_wf(int fd, void *p, size_t n){ vp_wr++; CLAIM(vp_wr == 1, "one record"); CLAIM(fd == g.nbsp_infifo_fd && n == T + 5 && __CPROVER_r_ok(p, n), "the whole record is written"); unsigned char *q = p; CLAIM(q[0] == (unsigned char)(T >> 24) && q[1] == (unsigned char)(T >> 16) && q[2] == (unsigned char)(T >> 8) && q[3] == (unsigned char)T, "the size of the text comes first"); CLAIM(q[T + 4] == '\n', "the record ends with a line feed"); CLAIM(IMP(J < T, q[J + 4] == (unsigned char)vp_cJ), "the text follows"); ASSUME(vp_wn >= -1 && vp_wn <= (long)n); return vp_wn; }
#ifdef U1
void h_create(void){ vp_setup(); g.opt_i = 0; int r = process_file(); CLAIM(IMP(r == 0, vp_wr == 1 && vp_wn == (long)T + 5), "success only if all was written"); CLAIM(IMP(vp_wr == 1 && vp_wn == (long)T + 5, r == 0), "a record written is reported so"); CLAIM(g.finfo_buffer_d == NULL, "the buffer is released"); CLAIM(vp_unl == 0, "the file of the caller is not removed"); COVER(r == 0 && T < 1020, "short"); COVER(r == 0 && T >= 1020, "long"); COVER(r != 0 && vp_wr == 0, "out of memory"); REACH(); }
#endif
#ifdef U2
void h_valid(void){ vp_setup(); for (int i = 0; i < 5; i++) { vp_cv[i] = nondet_int(); vp_val[i] = nondet_uint(); } int r = validate_input(); CLAIM(r == 0 && vp_cv[0] == 0 && vp_cv[1] == 0 && vp_cv[2] == 0 && vp_cv[3] == 0 && vp_cv[4] == 0 && vp_val[1] <= 255 && vp_val[2] <= 255 && vp_val[3] <= 255 && vp_val[4] <= 255, "only numbers that fit the fields are accepted"); REACH(); }
#endif
#ifdef U3
void h_save(void){ vp_setup(); int r = save_fpath(); CLAIM(vp_opened == 1, "the file is opened"); CLAIM(IFF(r == 0, vp_opst != -1 && !vp_bad && vp_rn == 0), "success only if all the input is in the file"); CLAIM(vp_unl == (r != 0 && vp_opst != -1), "an incomplete file is removed"); COVER(r == 0, "saved"); COVER(r != 0 && vp_bad, "no space"); REACH(); }
#endif
