//@ target src/libqdb/qdb.c
//@ unit q_snd harness=h_snd about=nbspqt_snd,qdb_snd
//@ unit q_rcv harness=h_rcv about=nbspqt_rcv,qdb_rcv loops unwind=3 fbunwind=3
//@ unit q_deadline harness=h_rcv about=nbspqt_rcv,queue_set_timeout loops unwind=3 fbunwind=3 solver=z3 defs=DL
//@ unit q_misc harness=h_misc about=nbspqt_rcv_cleanup,nbspqt_n,qdb_n,set_qdb_status_flag,clear_qdb_status_flag,test_qdb_status_flag,nbspqt_test_qdb_status_flag
//@ unit q_open harness=h_open about=qdb_open,qdb_close
//@ loop nbspqt_rcv 1 __CPROVER_assigns(status, GN, q.n, vp_werr, vp_waits) __CPROVER_loop_invariant(q.n == GN && GL == 1 && status == vp_werr && status >= 0 && vp_waits >= 0 && IMP(status != 0, vp_waits > 0) && IMP(vp_ms < 0, status != ETIMEDOUT))
//@ assume Berkeley DB: put with DB_APPEND adds one element, get with DB_CONSUME removes one, or they fail and change nothing; a queue holds less than 2^31 elements
//@ assume pthread and clock calls have their POSIX meaning; other threads change the queue only while the lock is released in a wait
#include "db_h.h"
#include "libqdb/qdb.h"
static DB *vdbp; static DB_MPOOLFILE *vmpp;
#define vdb (*vdbp)
#define vmp (*vmpp)
 static struct nbspq_st q, q2, *qtab[2]; static nbspqtable_t T;
static uint32_t GN, vp_reclen; static int vp_puts, vp_gets, vp_putp, vp_err, vp_trunc, vp_waits; static const void *vp_pd; static uint32_t vp_ps;
static void *vp_got;
static void vp_wake(void){ GN = nondet_uint(); ASSUME(GN < 0x7fffffff); q.n = GN; vp_waits = 1; }
static int vp_put(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){ CLAIM(d == &vdb && f == DB_APPEND && GL == 1, "an element is appended with the lock held"); CLAIM(__CPROVER_w_ok(k->data, 4) && k->ulen >= 4, "room for the record number"); int r = nondet_int(); if (v->size > vp_reclen) ASSUME(r != 0); vp_pd = v->data; vp_ps = v->size; vp_puts++; if (r == 0) { GN++; vp_putp++; } else vp_err = r; return r; }
static int vp_get(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){ CLAIM(d == &vdb && f == DB_CONSUME && GL == 1, "an element is taken with the lock held"); CLAIM(__CPROVER_w_ok(k->data, 4) && k->ulen >= 4, "room for the record number");
  CLAIM((v->flags & DB_DBT_USERMEM) && v->ulen >= vp_reclen && __CPROVER_w_ok(v->data, vp_reclen), "room for the element"); int r = nondet_int(); if (GN == 0) ASSUME(r != 0); if (r == 0) { GN--; vp_gets++; vp_got = v->data; v->size = vp_reclen; } else vp_err = r; return r; }
static int vp_relen(DB *d, u_int32_t *l){ int r = nondet_int(); if (r == 0) *l = vp_reclen; else vp_err = r; return r; }
static int vp_truncate(DB *d, DB_TXN *t, u_int32_t *c, u_int32_t f){ CLAIM(GN == 0 && GL == 1, "nothing that is queued is dropped"); vp_trunc++; return nondet_int(); }
static int vp_closed, vp_created, vp_crerr; static uint32_t vp_nstat;
static int vp_dbclose(DB *d, u_int32_t f){ CLAIM(d == &vdb && vp_created && !vp_closed, "a queue is closed once"); vp_closed = 1; int r = nondet_int(); vp_crerr = r; return r; }
static int vp_setlen(DB *d, u_int32_t l){ CLAIM(l == vp_reclen, "record length"); vp_err = nondet_int(); return vp_err; }
static int vp_setext(DB *d, u_int32_t l){ vp_err = nondet_int(); return vp_err; }
static int vp_setcache(DB *d, u_int32_t a, u_int32_t b, int c){ vp_err = nondet_int(); return vp_err; }
static int vp_mpflags(DB_MPOOLFILE *m, u_int32_t f, int on){ vp_err = nondet_int(); return vp_err; }
static DB_MPOOLFILE *vp_getmpf(DB *d){ return &vmp; }
static int vp_dbopen(DB *d, DB_TXN *t, const char *f, const char *n, DBTYPE ty, u_int32_t fl, int m){ CLAIM(ty == DB_QUEUE, "a queue"); vp_err = nondet_int(); return vp_err; }
static int vp_stat(DB *d, DB_TXN *t, void *sp, u_int32_t f){ vp_err = nondet_int(); if (vp_err == 0 || nondet_bool()) { DB_QUEUE_STAT *s = malloc(sizeof *s); ASSUME(s != NULL); s->qs_ndata = vp_nstat; *(DB_QUEUE_STAT **)sp = s; } return vp_err; }
static int vp_create(DB **d, DB_ENV *e, u_int32_t f){ CLAIM(!vp_created, "created once"); vp_err = nondet_int(); if (vp_err == 0) { vp_created = 1; *d = &vdb; } return vp_err; }
static int vp_minit(void *m, void *a){ vp_err = nondet_int(); return vp_err; }
#define db_create vp_create
#define pthread_mutex_init vp_minit
#define pthread_cond_init vp_minit
#define pthread_mutex_destroy(m) 0
#define pthread_cond_destroy(m) 0
static void vp_init(void){ vdbp = malloc(sizeof(DB)); vmpp = malloc(sizeof(DB_MPOOLFILE)); ASSUME(vdbp != NULL && vmpp != NULL); vp_clock(); GN = nondet_uint(); ASSUME(GN < 0x7ffffffe); vp_reclen = nondet_uint(); ASSUME(vp_reclen > 0 && vp_reclen <= MAXLEN); vp_puts = vp_gets = vp_putp = vp_err = vp_trunc = vp_waits = vp_closed = vp_created = vp_crerr = 0; vp_nstat = nondet_uint(); vp_pd = vp_got = NULL; vp_ps = 0;
  vdb.put = vp_put; vdb.get = vp_get; vdb.get_re_len = vp_relen; vdb.truncate = vp_truncate; vdb.close = vp_dbclose; vdb.set_re_len = vp_setlen; vdb.set_q_extentsize = vp_setext; vdb.set_cachesize = vp_setcache; vdb.get_mpf = vp_getmpf; vdb.open = vp_dbopen; vdb.stat = vp_stat; vmp.set_flags = vp_mpflags;
  q.dbp = &vdb; q.n = GN; q.nmax = 0xffffffff; q.f_memory_based = nondet_int(); q.f_qdb_status = nondet_int(); VQ_MUTEX = &q.mutex; VQ_COND = &q.cond;
  q2.dbp = NULL; qtab[0] = &q; qtab[1] = &q2; T.n = 2; T.nbspq = qtab; T.softlimit = nondet_int(); T.hardlimit = nondet_int(); T.reclen = vp_reclen; }
static void *vp_malloc(size_t n){ void *p = nondet_bool() ? NULL : malloc(n); if (p == NULL) { errno = ENOMEM; vp_err = ENOMEM; } return p; }
#define malloc vp_malloc
#include VP_TARGET
#undef malloc
void h_snd(void){ vp_init(); uint32_t n0 = GN, sz = nondet_uint(); char c; void *p = &c; int e = 0; int swap = nondet_bool(); if (swap) { qtab[0] = &q2; qtab[1] = &q; }
  int r = nbspqt_snd(&T, swap, p, sz, &e);
  CLAIM(GL == 0, "the lock is released"); CLAIM(q.n == GN, "the count is what is queued"); CLAIM(r >= -1 && r <= 2, "documented results");
  CLAIM(IMP(r == 0 || r == 1, vp_putp == 1 && GN == n0 + 1 && vp_pd == p && vp_ps == sz), "queued once, as given");
  CLAIM(IMP(r == 2 || r == -1, vp_putp == 0 && GN == n0), "refused elements are not queued");
  CLAIM(IMP(vp_lockerr == 0, IFF(r == 2, T.hardlimit > 0 && n0 >= (uint32_t)T.hardlimit)), "refused exactly at the hard limit");
  CLAIM(IMP(r == 0 || r == 1, IFF(r == 1, T.softlimit > 0 && GN >= (uint32_t)T.softlimit)), "the soft limit is reported");
  CLAIM(IMP(r == -1, e != 0 && e == (vp_lockerr ? vp_lockerr : vp_err)), "a storage failure is reported");
  CLAIM(IMP(r == 0 || r == 1, vp_sig), "a waiting reader is woken");
  CLAIM(IMP(vp_lockerr == 0, IFF(q.f_qdb_status & QDB_FSTATUS_MAX_HARD, r == 2) && IMP(r == 1, q.f_qdb_status & QDB_FSTATUS_MAX_SOFT) && IMP(r == 0, !(q.f_qdb_status & (QDB_FSTATUS_MAX_SOFT | QDB_FSTATUS_DBERROR))) && IMP(r == -1, q.f_qdb_status & QDB_FSTATUS_DBERROR)), "the status flags follow the result");
  COVER(r == 2, "hard"); COVER(r == 1, "soft"); COVER(r == -1, "error"); COVER(r == 0, "queued"); REACH(); }
void h_rcv(void){ vp_init(); uint32_t n0 = GN, sz = nondet_uint(); int own = nondet_bool();
#ifdef DL
  own = 0;
#endif
  ASSUME(sz <= MAXLEN); void *b0 = NULL, *b; if (own) { b0 = malloc(sz); ASSUME(b0 != NULL); } b = b0; uint32_t sz0 = sz; int e = 0;
  int r = nbspqt_rcv(&T, 0, &b, &sz, vp_ms, &e);
  CLAIM(GL == 0, "the lock is released"); CLAIM(q.n == GN, "the count is what is queued"); CLAIM(r >= -1 && r <= 1, "documented results");
  CLAIM(IMP(r == 0, vp_gets == 1 && b == vp_got && b != NULL && sz == vp_reclen && IMP(own, b == b0)), "an element taken from the queue is delivered");
  CLAIM(IMP(r != 0, vp_gets == 0 && b == b0 && sz == sz0), "nothing is taken unless it is delivered");
  CLAIM(IMP(r == 1, GN == 0 && vp_waits > 0 && vp_werr == ETIMEDOUT && vp_ms >= 0), "time-out only when the queue is empty");
  CLAIM(IMP(r == -1 && vp_lockerr == 0 && vp_err == 0 && GN == 0, e == vp_werr), "the error of the wait is reported"); CLAIM(IMP(r == -1 && vp_err != 0, e == vp_err), "the error of the storage is reported");
  CLAIM(IMP(vp_waits == 0 && n0 > 0 && r == 0, GN == n0 - 1), "one element"); CLAIM(vp_trunc <= 1, "space reclaimed at most once");
  COVER(r == 1, "time-out"); COVER(r == 0 && vp_waits > 0, "waited"); COVER(r == 0 && (own || GN == 5), "reused buffer"); COVER(r == 0 && !own, "new buffer"); COVER(r == -1 && vp_err, "storage error"); COVER(vp_trunc == 1, "memory queue emptied"); REACH(); }
void h_misc(void){ vp_init(); int fl = nondet_int(), on = nondet_int(), f0 = q.f_qdb_status; CLAIM(nbspqt_n(&T, 0) == GN && qdb_n(&q) == GN, "the number reported is the number queued");
  set_qdb_status_flag(&q, fl, on); CLAIM(q.f_qdb_status == (on ? (f0 | fl) : (f0 & ~fl)), "flag"); CLAIM(test_qdb_status_flag(&q, fl) == (on && fl != 0) && nbspqt_test_qdb_status_flag(&T, 0, fl) == (on && fl != 0), "flag read back"); clear_qdb_status_flag(&q); CLAIM(test_qdb_status_flag(&q, fl) == 0, "cleared");
  GL = 1; int e = 0; CLAIM(nbspqt_rcv_cleanup(&T, 0, &e) == 0 && GL == 0, "clean up releases the lock"); REACH(); }
void h_open(void){ vp_init(); struct qdb_param_st p; char nm[2]; p.dbname = nondet_bool() ? nm : NULL; p.dbenv = nondet_bool() ? (DB_ENV *)&p : NULL; p.reclen = vp_reclen; p.cache_mb = nondet_uint(); ASSUME(p.cache_mb < 4096); struct nbspq_st *r = NULL; int e = 0; int st = qdb_open(&r, &p, &e);
  CLAIM(st == 0 || st == -1, "documented results"); CLAIM(IMP(st == 0, r->n == vp_nstat && r->dbp == &vdb && vp_created && !vp_closed && r->f_qdb_status == QDB_FSTATUS_OK && r->f_memory_based == (p.dbname == NULL || nm[0] == 0)), "counts what the storage holds"); CLAIM(IMP(st == -1, r == NULL && vp_created == vp_closed && e == vp_err), "failure releases the storage and is reported");
  COVER(st == 0, "opened"); COVER(st == -1 && vp_created, "failed late");
  if (st == 0) { int s2 = qdb_close(r, &e); CLAIM(vp_closed && IFF(s2 == 0, vp_crerr == 0) && IMP(s2 != 0, s2 == -1 && e == vp_crerr), "closed"); } REACH(); }
