//@ target src/mfile.c
//@ unit create_memfile enforce=create_memfile
//@ unit destroy_memfile enforce=destroy_memfile
//@ unit open_memfile enforce=open_memfile
//@ unit close_memfile enforce=close_memfile
//@ unit realloc_memfile enforce=realloc_memfile defs=E_realloc_memfile
//@ unit grow_memfile enforce=grow_memfile defs=E_grow_memfile replace=realloc_memfile
//@ unit sizes
//@ unit write_memfile enforce=write_memfile defs=E_write_memfile replace=grow_memfile loops unwind=16 fbunwind=5 fbdefs=VPFB
//@ unit write_memfile_fixed enforce=write_memfile_fixed replace=write_memfile
//@ unit read_memfile enforce=read_memfile
//@ unit adjust_memfile_size enforce=adjust_memfile_size replace=realloc_memfile
//@ unit write_memframe_info enforce=write_memframe_info replace=write_memfile
//@ unit frame_roundtrip replace=grow_memfile unwind=3
//@ unit get_memframe enforce=get_memframe
//@ cut write_memfile 1 vp_cut(mf, &status, data, data_size)
//@ assume memory files are at most 1 GB (largest product the protocol can carry is far smaller), data sizes are not negative
#include "vp.h"
#include <stdlib.h>
#include "mfile.h"
#ifdef VPFB
#define MFCAP ((size_t)64)
#else
#define MFCAP ((size_t)1 << 30)
#endif
size_t GK; char GKV;      /* arbitrary index into the content, its value before the call */
size_t GD;                /* arbitrary index into the data written */
#define MF_PRE(mf) REQ(FRESH(mf, sizeof(*mf)) && mf->allocsize >= 1 && mf->allocsize <= 2 * MFCAP && FRESH(mf->p, mf->allocsize) \
     && mf->size <= mf->allocsize && mf->nread <= mf->size && mf->allocsize <= mf->maxallocsize) REQ(IMP(GK < mf->size, mf->p[GK] == GKV))
#define MF_KEPT(mf) (mf->size == OLD(mf->size) && mf->nread == OLD(mf->nread) && IMP(GK < mf->size, mf->p[GK] == GKV))
#define MF_SAME(mf) (mf->allocsize == OLD(mf->allocsize) && PEQ(mf->p, OLD(mf->p)) && __CPROVER_rw_ok(mf->p, mf->allocsize) && mf->maxallocsize == OLD(mf->maxallocsize))
/* the old buffer is freed by a successful call; callers only see that the new one is fresh */
#ifdef E_realloc_memfile
#define FREES_realloc_memfile __CPROVER_frees(mf->p)
#else
#define FREES_realloc_memfile
#endif
#ifdef E_grow_memfile
#define FREES_grow_memfile __CPROVER_frees(mf->p)
#else
#define FREES_grow_memfile
#endif
#ifdef E_write_memfile
#define FREES_write_memfile __CPROVER_frees(mf->p)
#else
#define FREES_write_memfile
#endif
#define MAX2(a,b) ((a) > (b) ? (a) : (b))

static int vp_visit;
static size_t vp_size, vp_nread, vp_alloc, vp_alloc0; static char *vp_p0; static void *vp_data; static int vp_dsize; static struct memfile_st *vp_mf;
#ifdef E_write_memfile
#define VPG , vp_visit, vp_size, vp_nread, vp_alloc, vp_alloc0, vp_p0, vp_data, vp_dsize, vp_mf
#else
#define VPG
#endif
static int vp_cut(struct memfile_st *mf, int *status, void *data, int data_size);
struct memfile_st *create_memfile(size_t mpoolsize)
  REQ(mpoolsize <= MFCAP)
  ENS(IMP(RET != NULL, FRESH(RET, sizeof(struct memfile_st)) && RET->allocsize >= 1 && RET->allocsize >= mpoolsize && FRESH(RET->p, RET->allocsize)
          && RET->size == 0 && RET->nread == 0 && RET->maxallocsize == RET->allocsize))
  ASG();
void destroy_memfile(struct memfile_st *mf)
  MF_PRE(mf) ASG(*mf, __CPROVER_object_whole(mf->p)) __CPROVER_frees(mf, mf->p)
  ENS(__CPROVER_was_freed(OLD(mf)) && __CPROVER_was_freed(OLD(mf->p)));
int open_memfile(struct memfile_st *mf)
  MF_PRE(mf) ASG() ENS(IFF(RET == 0, mf->size == 0 && mf->nread == 0));
void close_memfile(struct memfile_st *mf)
  MF_PRE(mf) ASG(mf->size, mf->nread) ENS(mf->size == 0 && mf->nread == 0);
int realloc_memfile(struct memfile_st *mf, size_t newsize)
  MF_PRE(mf)
  REQ(newsize >= 1 && newsize <= 4 * MFCAP)
  ASG(*mf, __CPROVER_object_whole(mf->p)) FREES_realloc_memfile
  ENS(RET == 0 || RET == -1)
  ENS(IMP(RET == 0, mf->allocsize == newsize && FRESH(mf->p, newsize)))
  ENS(IMP(RET == 0, mf->maxallocsize == MAX2(OLD(mf->maxallocsize), newsize)))
  ENS(IMP(RET == 0, mf->size == (OLD(mf->size) < newsize ? OLD(mf->size) : newsize - 1)))
  ENS(IMP(RET == 0, mf->nread == (OLD(mf->nread) < newsize ? OLD(mf->nread) : newsize - 1)))
  ENS(IMP(RET != 0, MF_SAME(mf) && MF_KEPT(mf)))
  ENS(IMP(GK < mf->size, mf->p[GK] == GKV));
static int grow_memfile(struct memfile_st *mf)
  MF_PRE(mf)
  ASG(*mf, __CPROVER_object_whole(mf->p)) FREES_grow_memfile
  ENS(RET == 0 || RET == -1)
  ENS(IMP(RET == 0, mf->allocsize > OLD(mf->allocsize) && mf->allocsize <= 2 * OLD(mf->allocsize) && FRESH(mf->p, mf->allocsize) && mf->maxallocsize >= mf->allocsize && mf->size < mf->allocsize))
  ENS(IMP(RET != 0, MF_SAME(mf)))
  ENS(MF_KEPT(mf));
int write_memfile(struct memfile_st *mf, void *data, int data_size)
  MF_PRE(mf)
  REQ(data_size >= 0 && mf->size + (size_t)data_size <= MFCAP && FRESH(data, data_size))
  ASG(*mf, __CPROVER_object_whole(mf->p) VPG) FREES_write_memfile
  ENS(RET == 0 || RET == -1)
  ENS(mf->nread == OLD(mf->nread))
  ENS(IMP(RET != 0, mf->size == OLD(mf->size)))
  ENS(OLD(mf->size) + (size_t)data_size <= OLD(mf->allocsize) ? RET == 0 && MF_SAME(mf) :
      mf->allocsize <= 2 * MFCAP && mf->allocsize >= OLD(mf->allocsize) && (mf->allocsize == OLD(mf->allocsize) ? PEQ(mf->p, OLD(mf->p)) && __CPROVER_rw_ok(mf->p, mf->allocsize) : FRESH(mf->p, mf->allocsize)))
  ENS(IMP(RET == 0, mf->size == OLD(mf->size) + (size_t)data_size))
  ENS(mf->size <= mf->allocsize && mf->allocsize <= mf->maxallocsize)
  ENS(IMP(GK < OLD(mf->size), mf->p[GK] == GKV))
  ENS(IMP(RET == 0 && GD < (size_t)data_size, mf->p[OLD(mf->size) + GD] == ((char *)data)[GD]));
int write_memfile_fixed(struct memfile_st *mf, void *data, int data_size)
  MF_PRE(mf)
  REQ(data_size >= 0 && (size_t)data_size <= MFCAP && mf->size <= MFCAP / 2 && mf->allocsize <= MFCAP && FRESH(data, data_size))
  ASG(*mf, __CPROVER_object_whole(mf->p)) __CPROVER_frees(mf->p)
  ENS(IFF(RET == 1, OLD(mf->size) + (size_t)data_size > OLD(mf->allocsize)))
  ENS(RET == 0 || RET == 1)
  ENS(MF_SAME(mf) && mf->nread == OLD(mf->nread))
  ENS(mf->size == OLD(mf->size) + (RET == 0 ? (size_t)data_size : 0))
  ENS(IMP(GK < OLD(mf->size), mf->p[GK] == GKV))
  ENS(IMP(RET == 0 && GD < (size_t)data_size, mf->p[OLD(mf->size) + GD] == ((char *)data)[GD]));
int read_memfile(struct memfile_st *mf, void **pdata, int data_size)
  MF_PRE(mf)
  REQ(data_size >= 0 && FRESH(pdata, sizeof(void *)) && mf->size <= MFCAP)
  ASG(mf->nread, *pdata)
  ENS((size_t)RET == ((size_t)data_size <= OLD(mf->size) - OLD(mf->nread) ? (size_t)data_size : OLD(mf->size) - OLD(mf->nread)))
  ENS(mf->nread == OLD(mf->nread) + (size_t)RET)
  ENS(*pdata == (RET > 0 ? (void *)(mf->p + OLD(mf->nread)) : OLD(*pdata)));
int adjust_memfile_size(struct memfile_st *mf, size_t estimated_size)
  MF_PRE(mf)
  REQ(estimated_size <= MFCAP && mf->allocsize >= 2 && (mf->size == 0 || mf->size < estimated_size))
  ASG(*mf, __CPROVER_object_whole(mf->p)) __CPROVER_frees(mf->p)
  ENS(RET == 0 || RET == -1)
  ENS(IMP(RET == 0, mf->allocsize >= estimated_size && mf->size <= mf->allocsize))
  ENS(IMP(RET == 0 && mf->allocsize != OLD(mf->allocsize), FRESH(mf->p, mf->allocsize)))
  ENS(IMP(RET != 0 || mf->allocsize == OLD(mf->allocsize), MF_SAME(mf)))
  ENS(MF_KEPT(mf));
int write_memframe_info(struct memfile_st *mf, int total_size, int f_compressed)
  MF_PRE(mf)
  REQ(mf->size <= MFCAP - 64)
  ASG(*mf, __CPROVER_object_whole(mf->p)) __CPROVER_frees(mf->p)
  ENS(RET == 0 || RET == -1)
  ENS(IMP(RET != 0, mf->size == OLD(mf->size)))
  ENS(IMP(RET == 0, mf->size == OLD(mf->size) + 16))
  ENS(IMP(GK < OLD(mf->size), mf->p[GK] == GKV));

#include VP_TARGET

int get_memframe(struct memfile_st *mf, char **frdata, int *f_compressed)
  MF_PRE(mf)
  REQ(FRESH(frdata, sizeof(char *)) && FRESH(f_compressed, sizeof(int)) && mf->size <= MFCAP)
  REQ(mf->nread == mf->size || mf->size - mf->nread >= sizeof(struct memframe_info_st))
  REQ(IMP(mf->nread != mf->size, ((struct memframe_info_st *)(mf->p + mf->nread))->size <= MFCAP))
  ASG(mf->nread, *frdata, *f_compressed)
  ENS(IFF(OLD(mf->nread) == mf->size, RET == 0 && mf->nread == OLD(mf->nread)) || OLD(mf->nread) < mf->size)
  ENS(RET >= -1)
  ENS(mf->nread >= OLD(mf->nread) && mf->nread <= mf->size)
  ENS(IMP(RET > 0, *frdata == mf->p + OLD(mf->nread) + sizeof(struct memframe_info_st) && mf->nread == OLD(mf->nread) + sizeof(struct memframe_info_st) + (size_t)RET
       && (size_t)RET == ((struct memframe_info_st *)(mf->p + OLD(mf->nread)))->size
       && *f_compressed == ((struct memframe_info_st *)(mf->p + OLD(mf->nread)))->f_compressed));

/* cut of the growing loop: base case, arbitrary iteration, induction step */
static int vp_cut(struct memfile_st *mf, int *status, void *data, int data_size){
  if (vp_visit == 0) {
    vp_visit = 1;
    vp_size = mf->size; vp_nread = mf->nread; vp_data = data; vp_dsize = data_size; vp_mf = mf;
    CLAIM(*status == 0, "loop invariant: no error before the loop");
    vp_alloc0 = mf->allocsize; vp_p0 = mf->p;
    if (nondet_bool()) {                 /* at least one iteration done, with or without error */
      ASSUME(mf->size + (size_t)data_size > mf->allocsize);   /* the loop was entered */
      if (nondet_bool())
        *status = -1;                    /* the first growth failed: nothing changed */
      else {
        size_t a = nondet_size(); ASSUME(a > mf->allocsize && a <= 2 * MFCAP && mf->size < a);
        size_t m = nondet_size(); ASSUME(m >= a);
        char *q = malloc(a); ASSUME(q != NULL);
        if (GK < mf->size) ASSUME(q[GK] == GKV);
        int st = nondet_int(); ASSUME(st == 0 || st == -1);
        mf->p = q; mf->allocsize = a; mf->maxallocsize = m; *status = st;
      }
    }
    vp_alloc = mf->allocsize;
    return 1;
  }
  CLAIM(mf == vp_mf && data == vp_data && data_size == vp_dsize, "loop frame: arguments unchanged");
  CLAIM(mf->size == vp_size && mf->nread == vp_nread, "loop invariant: size and read position unchanged");
  CLAIM(IMP(GK < mf->size, mf->p[GK] == GKV), "loop invariant: content unchanged");
  CLAIM(mf->allocsize >= 1 && mf->allocsize <= 2 * MFCAP && mf->size <= mf->allocsize && mf->maxallocsize >= mf->allocsize, "loop invariant: well formed");
  CLAIM((mf->allocsize == vp_alloc0 && mf->p == vp_p0) || (mf->allocsize > vp_alloc0 && mf->size < mf->allocsize), "loop invariant: same buffer or a larger one");
  CLAIM(*status == 0 || *status == -1, "loop invariant: status");
  CLAIM(*status != 0 || mf->allocsize > vp_alloc, "loop decreases: allocation grows or the loop ends");
  ASSUME(0);
  return 0;
}
#define M struct memfile_st *mf;
void h_create_memfile(void){ size_t n; create_memfile(n); REACH(); }
void h_destroy_memfile(void){ M destroy_memfile(mf); REACH(); }
void h_open_memfile(void){ M open_memfile(mf); REACH(); }
void h_close_memfile(void){ M close_memfile(mf); REACH(); }
void h_realloc_memfile(void){ M size_t n; int r = realloc_memfile(mf, n); COVER(r == 0, "realloc ok"); COVER(r != 0, "realloc fails"); REACH(); }
void h_grow_memfile(void){ M int r = grow_memfile(mf); COVER(r == 0, "grow ok"); COVER(r != 0, "grow fails"); REACH(); }
void h_write_memfile(void){ vp_visit = 0; M void *d; int n; int r = write_memfile(mf, d, n); COVER(r == 0 && n > 0, "write ok"); COVER(r != 0, "write fails"); REACH(); }
void h_write_memfile_fixed(void){ M void *d; int n; int r = write_memfile_fixed(mf, d, n); COVER(r == 0, "fits"); COVER(r == 1, "does not fit"); REACH(); }
void h_read_memfile(void){ M void **d; int n; int r = read_memfile(mf, d, n); COVER(r > 0, "reads"); COVER(r == 0, "end"); REACH(); }
void h_adjust_memfile_size(void){ M size_t n; adjust_memfile_size(mf, n); REACH(); }
void h_write_memframe_info(void){ M int n, c; int r = write_memframe_info(mf, n, c); COVER(r == 0, "ok"); REACH(); }
void h_get_memframe(void){ M char **f; int *c; int r = get_memframe(mf, f, c); COVER(r > 0, "frame"); COVER(r == -1, "error"); COVER(r == 0, "end"); REACH(); }
void h_sizes(void){
  struct memfile_st m;
  CLAIM(get_memfile_data_size(&m) == m.size, "reported data size"); CLAIM(get_memfile_allocated_size(&m) == m.allocsize, "reported allocation"); REACH();
}
/* a frame written reads back as the same frame (after any content) */
void h_frame_roundtrip(void){
  struct memfile_st m; size_t a = nondet_size();
  ASSUME(a >= 1 && a <= MFCAP); m.p = malloc(a); ASSUME(m.p != NULL); m.allocsize = m.maxallocsize = a;
  ASSUME(m.size <= a); m.nread = m.size;
  int n = nondet_int(), c = nondet_int(); ASSUME(n >= 1 && n <= (int)(MFCAP/2) && a - m.size >= 16 + (size_t)n && (c == 0 || c == 1));
  char *d = malloc(n); ASSUME(d != NULL); ASSUME(GD < (size_t)n);
  int r = write_memframe(&m, d, n, c);
  CLAIM(r == 0, "framed write that fits succeeds");
  char *f = NULL; int fc = -1;
  int k = get_memframe(&m, &f, &fc);
  CLAIM(k == n && fc == c, "frame size and flag read back");
  CLAIM(f[GD] == d[GD], "frame content reads back");
  CLAIM(get_memframe(&m, &f, &fc) == 0, "no further frame");
  REACH();
}
