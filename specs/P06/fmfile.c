//@ target filters/filterlib/c/mfile.c
//@ unit f_open enforce=open_memfile harness=h_open solver=z3
//@ unit f_close enforce=close_memfile harness=h_close
//@ unit f_grow enforce=grow_mf harness=h_grow defs=E_grow
//@ unit f_write enforce=write_memfile replace=grow_mf harness=h_write loops defs=E_write unwind=16 fbunwind=5 fbdefs=VPFB
//@ unit f_read enforce=read_memfile harness=h_read
//@ unit f_get_memframe enforce=get_memframe harness=h_get
//@ unit f_frame_roundtrip replace=grow_mf harness=h_rt unwind=3
//@ cut write_memfile 1 vp_cut(mf, &status, data, data_size)
#include "vp.h"
#include <stdlib.h>
#include "mfile.h"
#ifdef VPFB
#define MFCAP (64)
#else
#define MFCAP (1 << 29)
#endif
int GK; char GKV;      /* arbitrary index into the content, its value before the call */
int GD;                /* arbitrary index into the data written */
#define MF_PRE(mf) REQ(FRESH(mf, sizeof(*mf)) && mf->maxsize >= 1 && mf->maxsize <= MFCAP && FRESH(mf->p, (size_t)mf->maxsize) \
     && mf->size >= 0 && mf->size <= mf->maxsize && mf->nread >= 0 && mf->nread <= mf->size && GK >= 0 && GD >= 0) REQ(IMP(GK < mf->size, mf->p[GK] == GKV))
#define MF_KEPT(mf) (mf->size == OLD(mf->size) && mf->nread == OLD(mf->nread) && IMP(GK < mf->size, mf->p[GK] == GKV))
#define MF_SAME(mf) (mf->maxsize == OLD(mf->maxsize) && PEQ(mf->p, OLD(mf->p)) && __CPROVER_rw_ok(mf->p, (size_t)mf->maxsize))
#ifdef E_grow
#define FREES_grow __CPROVER_frees(mf->p)
#else
#define FREES_grow
#endif
#ifdef E_write
#define FREES_write __CPROVER_frees(mf->p)
#define VPG , vp_visit, vp_size, vp_nread, vp_alloc, vp_alloc0, vp_p0, vp_data, vp_dsize, vp_mf
#else
#define FREES_write
#define VPG
#endif
static int vp_visit;
static int vp_size, vp_nread, vp_alloc, vp_alloc0; static char *vp_p0; static void *vp_data; static int vp_dsize; static struct memfile_st *vp_mf;
static int vp_cut(struct memfile_st *mf, int *status, void *data, int data_size);
struct memfile_st *open_memfile(int numblocks, int blocksize)
  REQ(numblocks >= 1 && numblocks <= 1024 && blocksize >= 1 && blocksize <= (1 << 19))
  ENS(IMP(RET != NULL, FRESH(RET, sizeof(struct memfile_st)) && RET->maxsize == numblocks * blocksize && FRESH(RET->p, (size_t)RET->maxsize) && RET->size == 0 && RET->nread == 0))
  ASG();
void close_memfile(struct memfile_st *mf)
  MF_PRE(mf) ASG(*mf, __CPROVER_object_whole(mf->p)) __CPROVER_frees(mf, mf->p)
  ENS(__CPROVER_was_freed(OLD(mf)) && __CPROVER_was_freed(OLD(mf->p)));
static int grow_mf(struct memfile_st *mf)
  MF_PRE(mf)
  ASG(*mf, __CPROVER_object_whole(mf->p)) FREES_grow
  ENS(RET == 0 || RET == -1)
  ENS(IMP(RET == 0, mf->maxsize > OLD(mf->maxsize) && mf->maxsize <= 2 * OLD(mf->maxsize) && FRESH(mf->p, (size_t)mf->maxsize)))
  ENS(IMP(RET != 0, MF_SAME(mf)))
  ENS(MF_KEPT(mf));
int write_memfile(struct memfile_st *mf, void *data, int data_size)
  MF_PRE(mf)
  REQ(data_size >= 0 && data_size <= MFCAP && mf->size <= MFCAP - data_size && FRESH(data, (size_t)data_size))
  ASG(*mf, __CPROVER_object_whole(mf->p) VPG) FREES_write
  ENS(RET == 0 || RET == -1)
  ENS(mf->nread == OLD(mf->nread))
  ENS(IMP(RET != 0, mf->size == OLD(mf->size)))
  ENS(OLD(mf->size) + data_size <= OLD(mf->maxsize) ? RET == 0 && MF_SAME(mf) :
      mf->maxsize >= OLD(mf->maxsize) && (mf->maxsize == OLD(mf->maxsize) ? PEQ(mf->p, OLD(mf->p)) && __CPROVER_rw_ok(mf->p, (size_t)mf->maxsize) : FRESH(mf->p, (size_t)mf->maxsize)))
  ENS(IMP(RET == 0, mf->size == OLD(mf->size) + data_size))
  ENS(mf->size <= mf->maxsize)
  ENS(IMP(GK < OLD(mf->size), mf->p[GK] == GKV))
  ENS(IMP(RET == 0 && GD < data_size, mf->p[OLD(mf->size) + GD] == ((char *)data)[GD]));
int read_memfile(struct memfile_st *mf, void **pdata, int data_size)
  MF_PRE(mf)
  REQ(data_size >= 0 && data_size <= MFCAP && FRESH(pdata, sizeof(void *)))
  ASG(mf->nread, *pdata)
  ENS(RET == (data_size <= OLD(mf->size) - OLD(mf->nread) ? data_size : OLD(mf->size) - OLD(mf->nread)))
  ENS(mf->nread == OLD(mf->nread) + RET)
  ENS(*pdata == (RET > 0 ? (void *)(mf->p + OLD(mf->nread)) : OLD(*pdata)));
#include VP_TARGET
int get_memframe(struct memfile_st *mf, char **frdata, int *f_compressed)
  MF_PRE(mf)
  REQ(FRESH(frdata, sizeof(char *)) && FRESH(f_compressed, sizeof(int)))
  REQ(mf->nread == mf->size || mf->size - mf->nread >= (int)sizeof(struct memframe_info_st))
  REQ(IMP(mf->nread != mf->size, ((struct memframe_info_st *)(mf->p + mf->nread))->size >= 0 && ((struct memframe_info_st *)(mf->p + mf->nread))->size <= MFCAP))
  ASG(mf->nread, *frdata, *f_compressed)
  ENS(IMP(OLD(mf->nread) == mf->size, RET == 0 && mf->nread == OLD(mf->nread)))
  ENS(RET >= 0 && mf->nread >= OLD(mf->nread) && mf->nread <= mf->size)
  ENS(IMP(RET > 0, *frdata == mf->p + OLD(mf->nread) + sizeof(struct memframe_info_st) && mf->nread == OLD(mf->nread) + (int)sizeof(struct memframe_info_st) + RET
       && RET == ((struct memframe_info_st *)(mf->p + OLD(mf->nread)))->size
       && *f_compressed == ((struct memframe_info_st *)(mf->p + OLD(mf->nread)))->f_compressed));
/* cut of the growing loop: base case, arbitrary iteration, induction step */
static int vp_cut(struct memfile_st *mf, int *status, void *data, int data_size){
  if (vp_visit == 0) {
    vp_visit = 1;
    vp_size = mf->size; vp_nread = mf->nread; vp_data = data; vp_dsize = data_size; vp_mf = mf;
    CLAIM(*status == 0, "loop invariant: no error before the loop");
    vp_alloc0 = mf->maxsize; vp_p0 = mf->p;
    if (nondet_bool()) {                 /* at least one iteration done, with or without error */
      ASSUME(mf->size + data_size > mf->maxsize);   /* the loop was entered */
      if (nondet_bool())
        *status = -1;                    /* the first growth failed: nothing changed */
      else {
        int a = nondet_int(); ASSUME(a > mf->maxsize && a <= 2 * MFCAP && mf->size < a);
        
        char *q = malloc((size_t)a); ASSUME(q != NULL);
        if (GK < mf->size) ASSUME(q[GK] == GKV);
        int st = nondet_int(); ASSUME(st == 0 || st == -1);
        mf->p = q; mf->maxsize = a; *status = st;
      }
    }
    vp_alloc = mf->maxsize;
    return 1;
  }
  CLAIM(mf == vp_mf && data == vp_data && data_size == vp_dsize, "loop frame: arguments unchanged");
  CLAIM(mf->size == vp_size && mf->nread == vp_nread, "loop invariant: size and read position unchanged");
  CLAIM(IMP(GK < mf->size, mf->p[GK] == GKV), "loop invariant: content unchanged");
  CLAIM(mf->maxsize >= 1 && mf->maxsize <= 2 * MFCAP && mf->size <= mf->maxsize, "loop invariant: well formed");
  CLAIM((mf->maxsize == vp_alloc0 && mf->p == vp_p0) || (mf->maxsize > vp_alloc0 && mf->size < mf->maxsize), "loop invariant: same buffer or a larger one");
  CLAIM(*status == 0 || *status == -1, "loop invariant: status");
  CLAIM(*status != 0 || mf->maxsize > vp_alloc, "loop decreases: allocation grows or the loop ends");
  ASSUME(0);
  return 0;
}
#define M struct memfile_st *mf;
void h_open(void){ int a, b; open_memfile(a, b); REACH(); }
void h_close(void){ M close_memfile(mf); REACH(); }
void h_grow(void){ M int r = grow_mf(mf); COVER(r == 0, "grow ok"); COVER(r != 0, "grow fails"); REACH(); }
void h_write(void){ vp_visit = 0; M void *d; int n; int r = write_memfile(mf, d, n); COVER(r == 0 && n > 0, "write ok"); COVER(r != 0, "write fails"); REACH(); }
void h_read(void){ M void **d; int n; int r = read_memfile(mf, d, n); COVER(r > 0, "reads"); COVER(r == 0, "end"); REACH(); }
void h_get(void){ M char **f; int *c; int r = get_memframe(mf, f, c); COVER(r > 0, "frame"); COVER(r == 0, "end"); REACH(); }
/* a frame written reads back as the same frame (after any content) */
void h_rt(void){
  struct memfile_st m; int a = nondet_int();
  ASSUME(a >= 1 && a <= MFCAP); m.p = malloc((size_t)a); ASSUME(m.p != NULL); m.maxsize = a;
  ASSUME(m.size >= 0 && m.size <= a); m.nread = m.size;
  int n = nondet_int(), c = nondet_int(); ASSUME(n >= 1 && n <= MFCAP / 2 && a - m.size >= 8 + n && (c == 0 || c == 1));
  char *d = malloc((size_t)n); ASSUME(d != NULL); ASSUME(GD >= 0 && GD < n);
  int r = write_memframe(&m, d, n, c);
  CLAIM(r == 0, "framed write that fits succeeds");
  char *f = NULL; int fc = -1;
  int k = get_memframe(&m, &f, &fc);
  CLAIM(k == n && fc == c, "frame size and flag read back");
  CLAIM(f[GD] == d[GD], "frame content reads back");
  CLAIM(get_memframe(&m, &f, &fc) == 0, "no further frame");
  REACH();
}
