/* the storage (Berkeley DB), the clock and the lock: arbitrary outcomes, ghost counters */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <assert.h>
#include <time.h>
#include <sys/time.h>
#include <pthread.h>
#include "vpdb.h"
#define pthread_mutex_t int
#define pthread_cond_t int
static void *VQ_MUTEX, *VQ_COND; static int GL, vp_badlock; /* lock depth */
static int vp_sig;
static long VT_S; static long VT_U; static int vp_ms;  /* the clock, the time asked */
static int vp_lockerr, vp_locksure;
static void vp_wake(void);
static int vp_mlock(void *m){ CLAIM(m == VQ_MUTEX && GL == 0, "takes the queue lock once"); if (!vp_locksure && nondet_bool()) { vp_lockerr = nondet_int(); ASSUME(vp_lockerr > 0); return vp_lockerr; } GL = 1; return 0; }
static int vp_munlock(void *m){ CLAIM(m == VQ_MUTEX && GL == 1, "releases the lock it holds"); GL = 0; return 0; }
static int vp_signal(void *c){ CLAIM(c == VQ_COND, "signals the queue"); vp_sig = 1; return 0; }
static int vp_gtod(struct timeval *tv, void *z){ tv->tv_sec = VT_S; tv->tv_usec = VT_U; return 0; }
static int vp_cgt(int id, struct timespec *ts){ ts->tv_sec = VT_S; ts->tv_nsec = VT_U * 1000; return 0; }
static int vp_werr;
static int vp_cwait(void *c, void *m){ CLAIM(c == VQ_COND && m == VQ_MUTEX && GL == 1, "waits with the lock held"); CLAIM(vp_ms < 0, "waits for ever only when no time-out was asked"); vp_wake(); int r = nondet_int(); ASSUME(r >= 0 && r != ETIMEDOUT); vp_werr = r; return r; }
static int vp_ctwait(void *c, void *m, const struct timespec *t){ CLAIM(c == VQ_COND && m == VQ_MUTEX && GL == 1, "waits with the lock held");
  CLAIM(t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "the deadline is a valid time"); CLAIM(vp_ms >= 0, "waits for a time only when one was asked");
#ifdef DL
  unsigned m = vp_ms; long es = VT_S + (m/1000), en = VT_U * 1000; en += (m % 1000)*1000000; if (en >= 1000000000) { en -= 1000000000; es++; }
  CLAIM(t->tv_sec == es && t->tv_nsec == en, "the deadline is the time asked from now");
#endif

  vp_wake(); int r = nondet_int(); ASSUME(r >= 0); vp_werr = r; return r; }
#define pthread_mutex_lock(m) vp_mlock(m)
#define pthread_mutex_unlock(m) vp_munlock(m)
#define pthread_cond_signal(c) vp_signal(c)
#define pthread_cond_broadcast(c) vp_signal(c)
#define pthread_cond_wait(c, m) vp_cwait(c, m)
#define pthread_cond_timedwait(c, m, t) vp_ctwait(c, m, t)
#define gettimeofday(t, z) vp_gtod(t, z)
#define clock_gettime(i, t) vp_cgt(i, t)
static void vp_clock(void){ VT_S = nondet_long(); VT_U = nondet_long(); ASSUME(VT_S >= 0 && VT_S < (1L << 40) && VT_U >= 0 && VT_U < 1000000); vp_ms = nondet_int(); GL = 0; vp_locksure = 0; vp_sig = 0; vp_lockerr = 0; vp_werr = 0; }
