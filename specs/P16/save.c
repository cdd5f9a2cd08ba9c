//@ target src/mfile.c
//@ target src/efile.c
//@ unit save harness=h_save defs=U1 about=save_memfile,save_memfile_skip plain unwind=4 solver=default
//@ unit open harness=h_open defs=U2 about=e_open_product_file plain unwind=4 solver=default
//@ assume write, open and directory creation have their POSIX meaning
#include "../P05/pn_h.h"
#include "mfile.h"
#include "file.h"
#include "efile.h"
static char *vp_base; static size_t vp_pos, vp_tot; static int vp_werr, vp_short;
static ssize_t vp_write(int fd, const void *p, size_t n){ CLAIM(fd == 7, "the file of the product"); CLAIM((const char *)p == vp_base + vp_pos && n <= vp_tot - vp_pos && n > 0, "the bytes written are those of the product, each once and in order"); CLAIM(!vp_werr, "nothing follows a failed write"); ssize_t r = nondet_long(); ASSUME(r >= -1 && (r == -1 || (size_t)r <= n)); if (r == -1) { vp_werr = 1; errno = nondet_int(); } else { vp_pos += r; if ((size_t)r < n) { vp_short++; ASSUME(r > 0 && vp_short <= 2); } } return r; }
#define write(f, p, n) vp_write(f, p, n)
static int vp_dirs, vp_do, vp_opened; static char *vp_path;
int create_path_dirs(char *p, mode_t m){ CLAIM(p == vp_path && m == g.subdir_product_mode, "directories of the product"); vp_do++; return vp_dirs; }
struct nbsp_globals g;
static int vp_open(const char *p, int fl, mode_t m){ CLAIM(p == vp_path && m == g.product_mode && vp_do && vp_dirs == 0, "the path of the product"); CLAIM((fl & O_ACCMODE) == O_WRONLY && (fl & O_CREAT) && (fl & O_TRUNC) && !(fl & O_APPEND), "an older file of the same name is replaced"); vp_opened = nondet_int(); ASSUME(vp_opened >= -1); return vp_opened; }
#define open(p, f, m) vp_open(p, f, m)
#include VP_TARGET
#include VP_TARGET2
#ifdef U1
void h_save(void){ struct memfile_st *m = malloc(sizeof *m); ASSUME(m != NULL); m->allocsize = nondet_size(); ASSUME(m->allocsize >= 1 && m->allocsize <= MAXLEN && m->size <= m->allocsize && m->nread <= m->size); m->p = malloc(m->allocsize); ASSUME(m->p != NULL); vp_werr = vp_short = 0; size_t skip = 0; int r, s = nondet_bool(); struct memfile_st m0 = *m;
  if (s) skip = nondet_size(); vp_base = m->p + (skip <= m->size ? skip : 0); vp_pos = 0; vp_tot = skip <= m->size ? m->size - skip : 0; ASSUME(vp_tot > 0 || s);
  r = s ? save_memfile_skip(7, m, skip) : save_memfile(7, m);
  CLAIM(IFF(r == 0, vp_pos == vp_tot && vp_tot > 0 && !vp_werr), "success exactly when every byte after the part skipped was written"); CLAIM(m->p == m0.p && m->size == m0.size && m->allocsize == m0.allocsize, "the product is unchanged"); COVER(r == 0 && s, "skip"); COVER(r != 0 && vp_pos > 0, "short"); REACH(); }
#endif
#ifdef U2
void h_open(void){ struct pctl_element_st *p = malloc(sizeof *p + 16); ASSUME(p != NULL); vp_path = p->fpath; vp_do = 0; vp_opened = -2; vp_dirs = nondet_int(); ASSUME(vp_dirs >= -1 && vp_dirs <= 1); g.product_mode = nondet_uint(); g.subdir_product_mode = nondet_uint(); int r = e_open_product_file(p); CLAIM(IMP(vp_dirs != 0, r == -1) && IMP(vp_dirs == 0, r == vp_opened), "the open file or a failure"); COVER(r >= 0, "opened"); REACH(); }
#endif
