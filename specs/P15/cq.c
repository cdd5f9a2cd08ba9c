//@ target src/libconnth/cq.c
//@ unit c_ops harness=h_c about=connqueue_snd,connqueue_rcv,connqueue_rcv_cleanup,connqueue_n
//@ unit c_open harness=h_open about=connqueue_open,connqueue_close
//@ assume nbspqt_snd, nbspqt_rcv behave as units q_snd, q_rcv show
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include "vpdb.h"
#include <pthread.h>
#define pthread_mutex_t int
#define pthread_cond_t int
#include "cq.h"
static nbspqtable_t *vp_t; static int vp_r, vp_e; static const void *vp_d; static uint32_t vp_s, vp_got, vp_rl; static int vp_calls, vp_closed;
static int vp_snd(nbspqtable_t *t, int ty, void *d, uint32_t s, int *e){ CLAIM(t == vp_t && ty == 0 && d == vp_d && s == vp_s, "the element itself is queued"); vp_calls++; *e = vp_e; return vp_r; }
static int vp_rcv(nbspqtable_t *t, int ty, void **d, uint32_t *s, int ms, int *e){ CLAIM(t == vp_t && ty == 0 && __CPROVER_w_ok(*d, *s) && *s >= vp_rl, "room for an element"); vp_calls++; *e = vp_e; if (vp_r == 0) *s = vp_rl; return vp_r; }
static int vp_clean(nbspqtable_t *t, int ty, int *e){ CLAIM(t == vp_t && ty == 0, "queue"); vp_calls++; return vp_r; }
static uint32_t vp_n(nbspqtable_t *t, int ty){ CLAIM(t == vp_t && ty == 0, "queue"); return vp_s; }
static nbspqtable_t *vp_qopen(u_int8_t n, int soft, int hard, struct qdb_param_st *p, int *e){ CLAIM(n == 1 && soft == vp_r && hard == vp_e && p->reclen == vp_rl && p->dbenv == NULL && p->dbname == NULL, "one memory queue with the limits of the client"); vp_calls++; return nondet_bool() ? vp_t : NULL; }
static int vp_qclose(nbspqtable_t *t, int *e){ CLAIM(t == vp_t && !vp_closed, "closed once"); vp_closed = 1; return vp_r; }
#define nbspqt_snd vp_snd
#define nbspqt_rcv vp_rcv
#define nbspqt_rcv_cleanup vp_clean
#define nbspqt_n vp_n
#define nbspqt_open vp_qopen
#define nbspqt_close vp_qclose
#include VP_TARGET
static void vp_init(void){ vp_t = malloc(sizeof *vp_t); ASSUME(vp_t != NULL); vp_r = nondet_int(); vp_e = nondet_int(); vp_s = nondet_uint(); vp_d = &vp_s; vp_calls = vp_closed = 0; vp_rl = nondet_uint(); ASSUME(vp_rl > 0 && vp_rl <= MAXLEN); vp_got = 0; }
void h_c(void){ vp_init(); connqueue_t q; int e = 1; void *d = NULL; uint32_t s = 0; q.qt = vp_t; q.data_size = nondet_uint(); q.data_size_max = vp_rl; q.data = malloc(vp_rl); ASSUME(q.data != NULL); void *b = q.data;
  CLAIM(connqueue_n(&q) == vp_s, "the number queued"); CLAIM(connqueue_snd(&q, (void *)vp_d, vp_s, &e) == vp_r && e == vp_e && vp_calls == 1, "the result of the queue is passed on");
  int r = connqueue_rcv(&q, &d, &s, nondet_int(), &e); CLAIM(r == vp_r && e == vp_e && vp_calls == 2, "the result of the queue is passed on"); CLAIM(IMP(r == 0, d == b && s == vp_rl), "the element taken is delivered"); CLAIM(IMP(r != 0, d == NULL && s == 0), "nothing else is"); CLAIM(q.data == b && q.data_size_max == vp_rl, "the buffer keeps its size"); CLAIM(connqueue_rcv_cleanup(&q, &e) == vp_r && vp_calls == 3, "the lock is released"); COVER(r == 0, "received"); COVER(r == 1, "empty"); REACH(); }
void h_open(void){ vp_init(); struct connqueue_param_st p; p.reclen = vp_rl; p.softlimit = vp_r; p.hardlimit = vp_e; p.cache_mb = nondet_uint(); int e = 0; connqueue_t *q = connqueue_open(&p, &e); CLAIM(IMP(q != NULL, q->qt == vp_t && q->data_size_max == vp_rl && __CPROVER_w_ok(q->data, vp_rl) && vp_calls == 1), "opened with room for an element"); COVER(q != NULL, "opened"); COVER(q == NULL && vp_calls, "failed"); if (q) { CLAIM(connqueue_close(q, &e) == vp_r && vp_closed, "closed"); } REACH(); }
