//@ target src/pctldb.c
//@ target src/pctlmfdb.c
//@ target src/mfile.c
//@ unit p_send harness=h_send about=pctldb_send_pce,pctldb_snd,pctlmfdb_snd,pctldb_hard_limit,pctldb_soft_limit,pctlmfdb_del
//@ unit p_rcv harness=h_rcv about=pctldb_rcv_pce,pctldb_rcv,pctlmfdb_rcv,realloc_memfile loops unwind=3 fbunwind=3
//@ unit p_deadline harness=h_rcv about=pctldb_rcv_pce,pctldb_set_timeout loops unwind=3 fbunwind=3 solver=z3 defs=DL
//@ unit p_stat harness=h_stat about=pctldb_stat,pctlmfdb_stat,pctldb_sync loops unwind=4 fbunwind=4 fbdefs=VPFB
//@ unit p_open harness=h_open about=pctldb_open,pctldb_close,pctlmfdb_open,pctlmfdb_close loops unwind=4 fbunwind=4 fbdefs=VPFB
//@ unit p_key harness=h_key about=timespec_cmp
//@ loop pctldb_rcv_pce 1 __CPROVER_assigns(status, GN, q.n, GB, q.mf_total_size, vp_werr, vp_waits) __CPROVER_loop_invariant(q.n == GN && q.mf_total_size == GB && GB >= GSZ && GL == 1 && status == vp_werr && status >= 0 && vp_waits >= 0 && IMP(status != 0, vp_waits > 0) && IMP(vp_ms < 0, status != ETIMEDOUT))
//@ loop pctlmfdb_stat 1 __CPROVER_assigns(status, GCUR, GSUM, vp_cerr, pctldb->mf_total_size, __CPROVER_object_whole(&data), __CPROVER_object_whole(&key)) __CPROVER_loop_invariant(pctldb->mf_total_size == GSUM && GSUM <= GCUR * MAXLEN && GCUR <= GREC && IMP(status == 0, vp_cerr == 0) && IMP(status != 0, status == vp_cerr) && IMP(vp_cerr == DB_NOTFOUND, GCUR == GREC))
//@ cond pctlmfdb_stat 1 1
//@ assume Berkeley DB: a failed put, get or del changes nothing; a queue holds less than 2^31 products of less than 4 GB each, and less than 2^60 bytes
//@ assume pthread and clock calls have their POSIX meaning; other threads change the queue only while the lock is released in a wait
#include "db_h.h"
#include "mfile.h"
#include "pctl.h"
static DB *qdb, *mdb; static struct pctldb_st q;
static uint32_t GN, vp_reclen, GSZ; static size_t GB, GI; static char GV;  /* elements, bytes queued; the element at the head: size, an arbitrary byte */
static struct timespec GKEY, GLAST;
static int vp_qput, vp_mput, vp_qget, vp_mget, vp_mdel, vp_err, vp_waits, vp_unread, vp_delerr; static const void *vp_pd, *vp_md; static uint32_t vp_ps, vp_msz; static struct timespec vp_mk;
static void vp_wake(void){ GN = nondet_uint(); GB = nondet_size(); ASSUME(GN < 0x7fffffff && GB < ((size_t)1 << 60) && GB >= GSZ); q.n = GN; q.mf_total_size = GB; vp_waits = 1; }
static int vp_less(const struct timespec *a, const struct timespec *b){ return a->tv_sec < b->tv_sec || (a->tv_sec == b->tv_sec && a->tv_nsec < b->tv_nsec); }
static int vp_put(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){ int r = nondet_int();
  if (d == qdb) { CLAIM(f == DB_APPEND && GL == 1 && __CPROVER_r_ok(v->data, vp_reclen), "an element is appended with the lock held"); vp_pd = v->data; vp_ps = v->size; vp_qput++; if (r == 0) GN++; else { vp_err = r; vp_qput--; } }
  else { CLAIM(d == mdb && GL == 1 && k->size == sizeof(struct timespec), "data is stored with the lock held"); vp_mk = *(struct timespec *)k->data; CLAIM(vp_less(&GLAST, &vp_mk), "the key is not the key of another product"); CLAIM(vp_mk.tv_nsec >= 0 && vp_mk.tv_nsec < 1000000000, "the key is a time"); vp_md = v->data; vp_msz = v->size; vp_mput++; if (r == 0) { GB += v->size; GLAST = vp_mk; } else { vp_err = r; vp_mput--; } }
  return r; }
static int vp_get(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){ int r = nondet_int();
  if (d == qdb) { CLAIM(f == DB_CONSUME && GL == 1, "an element is taken with the lock held"); CLAIM((v->flags & DB_DBT_USERMEM) && v->ulen >= vp_reclen && __CPROVER_w_ok(v->data, vp_reclen), "room for the element"); if (GN == 0) ASSUME(r != 0);
    if (r == 0) { GN--; vp_qget++; __CPROVER_havoc_slice(v->data, vp_reclen); ((struct pctl_element_st *)v->data)->tsqueue = GKEY; v->size = vp_reclen; } else vp_err = r; }
  else { CLAIM(d == mdb && GL == 1 && vp_qget == 1, "the data of the element taken"); struct timespec *kt = k->data; CLAIM(kt->tv_sec == GKEY.tv_sec && kt->tv_nsec == GKEY.tv_nsec, "the data of the element taken"); CLAIM((v->flags & DB_DBT_USERMEM) && __CPROVER_w_ok(v->data, v->ulen), "the size announced is there");
    if (v->ulen < GSZ && (r == 0 || nondet_bool())) { r = DB_BUFFER_SMALL; v->size = GSZ; }
    else if (r == 0) { vp_mget++; __CPROVER_havoc_slice(v->data, GSZ); if (GI < GSZ) ASSUME(((char *)v->data)[GI] == GV); v->size = GSZ; }
    else { ASSUME(r != DB_BUFFER_SMALL); vp_err = r; vp_unread = 1; } }
  return r; }
static int vp_del(DB *d, DB_TXN *t, DBT *k, u_int32_t f){ struct timespec *kt = k->data; CLAIM(d == mdb && GL == 1, "data is deleted with the lock held"); int r = nondet_int();
  if (vp_mput) { CLAIM(kt->tv_sec == vp_mk.tv_sec && kt->tv_nsec == vp_mk.tv_nsec && k->size == sizeof *kt, "only the product that was not queued is deleted"); if (r == 0) { GB -= vp_msz; vp_mdel++; } }
  else { CLAIM(vp_qget == 1 && kt->tv_sec == GKEY.tv_sec && kt->tv_nsec == GKEY.tv_nsec, "only the product taken is deleted"); if (r == 0) { GB -= GSZ; vp_mdel++; } else { if (!vp_err) vp_err = r; vp_delerr = 1; } } return r; }
static int vp_relen(DB *d, u_int32_t *l){
#ifdef DL
  ASSUME(0); /* this unit is about the wait only */
#endif
  int r = nondet_int(); if (r == 0) *l = vp_reclen; else vp_err = r; return r; }
static int vp_sync(DB *d, u_int32_t f){ CLAIM(d == mdb && GL == 1, "sync with the lock held"); vp_err = nondet_int(); return vp_err; }
static size_t GCUR, GREC, GSUM; static int vp_cerr, vp_cclosed; static DBC *vc; static uint32_t vp_nstat;
static int vp_stat(DB *d, DB_TXN *t, void *sp, u_int32_t f){ vp_err = nondet_int(); if (vp_err == 0 || nondet_bool()) { DB_QUEUE_STAT *s = malloc(sizeof *s); ASSUME(s != NULL); s->qs_ndata = vp_nstat; *(DB_QUEUE_STAT **)sp = s; } return vp_err; }
static int vp_cget(DBC *c, DBT *k, DBT *v, u_int32_t f){ CLAIM(c == vc && f == DB_NEXT && !vp_cclosed, "walks the records"); int r = nondet_int(); if (GCUR == GREC) { if (r == 0) r = DB_NOTFOUND; } else ASSUME(r != DB_NOTFOUND); vp_cerr = r; if (r == 0) { GCUR++; v->size = nondet_uint(); ASSUME(v->size <= MAXLEN); GSUM += v->size; } return r; }
static int vp_cclose(DBC *c){ CLAIM(c == vc && !vp_cclosed, "the cursor is closed once"); vp_cclosed = 1; return nondet_int(); }
static int vp_curs(DB *d, DB_TXN *t, DBC **c, u_int32_t f){ vp_cclosed = 0; GCUR = GSUM = 0; *c = vc; vp_cerr = vp_err = nondet_int(); ASSUME(vp_err != DB_NOTFOUND); return vp_err; }
static int vp_open1, vp_open2, vp_made; static int vp_bt;
static int vp_dbclose(DB *d, u_int32_t f){ if (d == qdb) { CLAIM(vp_open1 == 1, "closed once"); vp_open1 = 2; } else { CLAIM(d == mdb && vp_open2 == 1, "closed once"); vp_open2 = 2; } return nondet_int(); }
static int vp_set1(DB *d, u_int32_t l){ vp_err = nondet_int(); return vp_err; }
static int vp_setcmp(DB *d, int (*c)(DB *, const DBT *, const DBT *)){ CLAIM(d == mdb, "order of the data"); vp_err = nondet_int(); return vp_err; }
static int vp_dbopen(DB *d, DB_TXN *t, const char *f, const char *n, DBTYPE ty, u_int32_t fl, int m){ CLAIM(ty == (d == qdb ? DB_QUEUE : DB_BTREE), "kind of storage"); vp_err = nondet_int(); return vp_err; }
static int vp_create(DB **d, DB_ENV *e, u_int32_t f){ vp_err = nondet_int(); if (vp_err == 0) { if (vp_made == 0) { *d = qdb; vp_open1 = 1; } else { CLAIM(vp_made == 1, "two data bases"); *d = mdb; vp_open2 = 1; } vp_made++; } return vp_err; }
static int vp_minit(void *m, void *a){ vp_err = nondet_int(); return vp_err; }
#define db_create vp_create
#define pthread_mutex_init vp_minit
#define pthread_cond_init vp_minit
#define pthread_mutex_destroy(m) 0
#define pthread_cond_destroy(m) 0
int const_pce_size(void){ return vp_reclen; }
static int vp_ocg(struct timespec *t){ t->tv_sec = VT_S; t->tv_nsec = VT_U * 1000; return nondet_bool() ? 0 : 0; }
#define oscompat_clock_gettime(t) vp_ocg(t)
static void *vp_malloc(size_t n){ void *p = nondet_bool() ? NULL : malloc(n); if (p == NULL) { errno = ENOMEM; vp_err = ENOMEM; } return p; }
static void *vp_realloc(void *o, size_t n){ void *p = nondet_bool() ? NULL : malloc(n); if (p == NULL) { errno = ENOMEM; vp_err = ENOMEM; } else free(o); return p; }
static void vp_init(void){ qdb = malloc(sizeof(DB)); mdb = malloc(sizeof(DB)); vc = malloc(sizeof(DBC)); ASSUME(qdb != NULL && mdb != NULL && vc != NULL); vp_clock(); GN = nondet_uint(); ASSUME(GN < 0x7ffffffe); vp_reclen = nondet_uint(); ASSUME(vp_reclen >= sizeof(struct pctl_element_st) && vp_reclen <= sizeof(struct pctl_element_st) + 4096);
  GSZ = nondet_uint(); GB = nondet_size(); ASSUME(GSZ > 0 && GSZ <= MAXLEN && GB >= GSZ && GB < ((size_t)1 << 60)); GI = nondet_size(); GV = (char)nondet_uchar();
  vp_qput = vp_mput = vp_qget = vp_mget = vp_mdel = vp_err = vp_waits = vp_unread = vp_delerr = 0; vp_pd = vp_md = NULL; vp_ps = vp_msz = 0; vp_cerr = 0; vp_cclosed = 1; GCUR = GSUM = 0; GREC = nondet_size(); ASSUME(GREC < ((size_t)1 << 30)); vp_open1 = vp_open2 = vp_made = 0; vp_nstat = nondet_uint();
#ifdef VPFB
  ASSUME(GREC <= 2);
#endif
  qdb->put = vp_put; qdb->get = vp_get; qdb->get_re_len = vp_relen; qdb->stat = vp_stat; mdb->put = vp_put; mdb->get = vp_get; mdb->del = vp_del; mdb->sync = vp_sync; mdb->cursor = vp_curs; vc->c_get = vc->get = vp_cget; vc->c_close = vc->close = vp_cclose;
  qdb->close = mdb->close = vp_dbclose; qdb->set_re_len = qdb->set_q_extentsize = vp_set1; mdb->set_bt_compare = vp_setcmp; qdb->open = mdb->open = vp_dbopen;
  q.dbp = qdb; q.mfdbp = mdb; q.n = GN; q.pce_size = q.pce_data_size = vp_reclen; q.nmax = 0xffffffff; q.mf_total_size = GB; GKEY.tv_sec = nondet_long(); GKEY.tv_nsec = nondet_long(); GLAST.tv_sec = nondet_long(); GLAST.tv_nsec = nondet_long(); ASSUME(GLAST.tv_sec >= 0 && GLAST.tv_sec < (1L << 60) && GLAST.tv_nsec >= 0 && GLAST.tv_nsec < 1000000000); q.last_tsqueue = GLAST;
  q.softlimit = nondet_uint(); q.hardlimit = nondet_uint(); q.mf_softlimit_mb = nondet_size(); q.mf_hardlimit_mb = nondet_size(); ASSUME(q.mf_softlimit_mb < (1UL << 40) && q.mf_hardlimit_mb < (1UL << 40)); VQ_MUTEX = &q.mutex; VQ_COND = &q.cond; }
static struct memfile_st *vp_mf(size_t sz){ struct memfile_st *m = malloc(sizeof *m); ASSUME(m != NULL); m->allocsize = nondet_size(); ASSUME(m->allocsize >= 1 && m->allocsize <= 2 * MAXLEN && sz <= m->allocsize); m->p = malloc(m->allocsize); ASSUME(m->p != NULL); m->maxallocsize = m->allocsize; m->size = sz; m->nread = 0; return m; }
#define malloc vp_malloc
#define realloc vp_realloc
#include VP_TARGET
#include VP_TARGET2
#include VP_TARGET3
#undef malloc
#undef realloc
#define INV (q.n == GN && q.mf_total_size == GB && GL == 0)
void h_send(void){ vp_init(); uint32_t n0 = GN; size_t b0 = GB, sz = nondet_size(); ASSUME(sz <= MAXLEN); struct pctl_element_st *pce = malloc(vp_reclen); ASSUME(pce != NULL); pce->mf = vp_mf(sz); struct memfile_st *mf = pce->mf; char *mp = mf->p; int e = 0;
  int r = pctldb_send_pce(&q, pce, &e);
  CLAIM(GL == 0, "the lock is released"); CLAIM(q.n == GN, "the count is what is queued"); CLAIM(q.mf_total_size == GB, "the bytes are what is queued"); CLAIM(r >= -1 && r <= 2, "documented results");
  CLAIM(IMP(r == 0 || r == 1, vp_qput == 1 && vp_mput == 1 && vp_mdel == 0 && vp_pd == pce && vp_ps == vp_reclen && vp_md == mp && vp_msz == sz && vp_mk.tv_sec == pce->tsqueue.tv_sec && vp_mk.tv_nsec == pce->tsqueue.tv_nsec), "the product and its data are queued once under one key");
  CLAIM(IMP(r == 2 || r == -1, vp_qput == 0), "a refused product is not queued"); CLAIM(IMP(r == 2, vp_mput == 0), "nor its data");
  CLAIM(pce->mf == mf && mf->p == mp && mf->size == sz, "the product is unchanged");
  CLAIM(IMP(vp_lockerr == 0, IFF(r == 2, (q.hardlimit > 0 && n0 >= q.hardlimit) || (q.mf_hardlimit_mb > 0 && b0 + sz > q.mf_hardlimit_mb * 1048576))), "refused exactly at the hard limits");
  CLAIM(IMP(r == 0 || r == 1, IFF(r == 1, (q.softlimit > 0 && GN >= q.softlimit) || (q.mf_softlimit_mb > 0 && GB > q.mf_softlimit_mb * 1048576))), "the soft limits are reported");
  CLAIM(IMP(r == -1, e != 0 && e == (vp_lockerr ? vp_lockerr : vp_err)), "a storage failure is reported"); CLAIM(IMP(r == 0 || r == 1, vp_sig), "a waiting reader is woken");
  CLAIM(!vp_less(&q.last_tsqueue, &GLAST), "later keys are larger");
  COVER(r == 2, "hard"); COVER(r == 1, "soft"); COVER(r == -1 && vp_mdel, "undone"); COVER(r == 0, "queued"); REACH(); }
void h_rcv(void){ vp_init(); struct pctl_element_st *pce = malloc(vp_reclen); ASSUME(pce != NULL); struct memfile_st *mf = vp_mf(0); pce->mf = mf; int e = 0;
  int r = pctldb_rcv_pce(&q, pce, vp_ms, &e);
  CLAIM(GL == 0, "the lock is released"); CLAIM(q.n == GN, "the count is what is queued"); CLAIM(IMP(!vp_unread, q.mf_total_size == GB), "the bytes are what is queued"); CLAIM(r >= -1 && r <= 1, "documented results"); CLAIM(pce->mf == mf, "the product keeps its memory file");
  CLAIM(IMP(r == 0, vp_qget == 1 && vp_mget == 1 && vp_mdel == 1 && mf->size == GSZ && mf->allocsize >= GSZ && __CPROVER_rw_ok(mf->p, mf->allocsize)), "the product and its data are taken once"); CLAIM(IMP(r == 0 && GI < GSZ, mf->p[GI] == GV), "with exactly its data");
  CLAIM(IMP(r == 0, pce->tsqueue.tv_sec == GKEY.tv_sec && pce->tsqueue.tv_nsec == GKEY.tv_nsec), "its own description");
  CLAIM(IMP(r == 1, vp_qget == 0 && GN == 0 && vp_waits > 0 && vp_werr == ETIMEDOUT && vp_ms >= 0), "time-out only when the queue is empty");
  CLAIM(IMP(r == -1 && vp_lockerr == 0 && vp_err == 0, e == vp_werr), "the error of the wait is reported"); CLAIM(IMP(r == -1 && vp_err != 0, e == vp_err || e == vp_werr), "the error of the storage is reported");
  COVER(r == 1, "time-out");
#ifndef DL
  COVER(r == 0 && vp_waits > 0, "waited"); COVER(r == -1 && vp_qget, "data not readable"); COVER(r == 0, "received");
#endif
  REACH(); }
void h_stat(void){ vp_init(); int e = 0; if (nondet_bool()) { int r = pctldb_stat(&q); CLAIM(r == vp_err && IMP(r == 0, q.n == vp_nstat), "the elements of an existing queue are counted"); }
  else if (nondet_bool()) { int r = pctlmfdb_stat(&q, &e); CLAIM(IMP(r == 0, GCUR == GREC && q.mf_total_size == GSUM), "the bytes of an existing queue are counted"); CLAIM(vp_cclosed || vp_err != 0, "the cursor is closed"); CLAIM(r == 0 || (r == -1 && e == vp_cerr && e != DB_NOTFOUND), "errors are reported"); COVER(r == 0 && GREC == 2, "two"); COVER(r == -1, "error"); }
  else { int r = pctldb_sync(&q, &e); CLAIM(GL == 0 && (r == 0 || (r == -1 && e == (vp_lockerr ? vp_lockerr : vp_err))), "sync releases the lock"); } REACH(); }
void h_open(void){ vp_init(); struct pctldb_param_st p; char nm[2]; p.dbname = nondet_bool() ? nm : NULL; p.mfdbname = p.dbname; p.dbenv = NULL; p.reclen = vp_reclen; p.extent_size = nondet_int(); p.softlimit = nondet_uint(); p.hardlimit = nondet_uint(); p.mf_softlimit_mb = nondet_size(); p.mf_hardlimit_mb = nondet_size(); struct pctldb_st *r = NULL; int e = 0; vp_cerr = 0;
  int st = pctldb_open(&r, &p, &e);
  CLAIM(st == 0 || st == -1, "documented results"); CLAIM(IMP(st == 0, r->n == vp_nstat && r->mf_total_size == GSUM && GCUR == GREC && r->dbp == qdb && r->mfdbp == mdb && vp_open1 == 1 && vp_open2 == 1 && r->pce_data_size == vp_reclen && r->softlimit == p.softlimit && r->hardlimit == p.hardlimit && r->mf_softlimit_mb == p.mf_softlimit_mb && r->mf_hardlimit_mb == p.mf_hardlimit_mb), "an opened queue counts what the storage holds, with its limits");
  CLAIM(IMP(st == -1, r == NULL && vp_open1 != 1 && vp_open2 != 1 && e != 0 && (e == vp_err || e == vp_cerr)), "failure releases the storage and is reported"); COVER(st == 0, "opened"); COVER(st == -1 && vp_open2, "failed late");
  if (st == 0) { VQ_MUTEX = &r->mutex; vp_locksure = 1; pctldb_close(r, &e); CLAIM(vp_open1 == 2 && vp_open2 == 2, "both are closed"); } REACH(); }
void h_key(void){ struct timespec a, b; DBT da, db; a.tv_sec = nondet_long(); a.tv_nsec = nondet_long(); b.tv_sec = nondet_long(); b.tv_nsec = nondet_long(); da.data = &a; db.data = &b; int r = timespec_cmp(NULL, &da, &db); CLAIM(IFF(r < 0, vp_less(&a, &b)) && IFF(r > 0, vp_less(&b, &a)), "keys are ordered by time"); REACH(); }
