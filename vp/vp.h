/* Common macros of the contract files (CBMC side). */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#define REQ(x)      __CPROVER_requires(x)
#define ENS(x)      __CPROVER_ensures(x)
#define ASG(...)    __CPROVER_assigns(__VA_ARGS__)
#define RET         __CPROVER_return_value
#define OLD(x)      __CPROVER_old(x)
#define FRESH(p,n)  __CPROVER_is_fresh(p,n)
#define PEQ(a,b)    __CPROVER_pointer_equals(a,b)
#define IMP(a,b)    (!(a) || (b))
#define IFF(a,b)    (((a) != 0) == ((b) != 0))
#define REACH()     __CPROVER_assert(0, "vp_reach: end of harness reachable")
#define COVER(c,t)  do { if (c) __CPROVER_assert(0, "vp_cover: " t); } while (0)
#define ASSUME(c)   __CPROVER_assume(c)
#define CLAIM(c,t)  __CPROVER_assert(c, t)
#define BYTE(p,i)   (((const unsigned char *)(p))[i])
/* no-op on values (the two are claimed equal): gives a pointer havocked by a loop contract its object back */
#define VP_REBASE(p, e) (__CPROVER_assert((p) == (e), "rebased pointer is unchanged"), (p) = (void *)(e))
#define MAXLEN      ((size_t)1 << 30)
int nondet_int(void);
unsigned nondet_uint(void);
size_t nondet_size(void);
long nondet_long(void);
unsigned char nondet_uchar(void);
_Bool nondet_bool(void);
uint16_t nondet_u16(void);
uint32_t nondet_u32(void);
#endif
