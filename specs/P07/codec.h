#include "vp.h"
#include <stdlib.h>
#define BE32(q) (((uint32_t)BYTE(q,0) << 24) | ((uint32_t)BYTE(q,1) << 16) | ((uint32_t)BYTE(q,2) << 8) | (uint32_t)BYTE(q,3))
#define LE32(q) (((uint32_t)BYTE(q,3) << 24) | ((uint32_t)BYTE(q,2) << 16) | ((uint32_t)BYTE(q,1) << 8) | (uint32_t)BYTE(q,0))
#define BE16(q) (uint16_t)(((uint32_t)BYTE(q,0) << 8) | (uint32_t)BYTE(q,1))
#define LE16(q) (uint16_t)(((uint32_t)BYTE(q,1) << 8) | (uint32_t)BYTE(q,0))
#define BE24(q) (((uint32_t)BYTE(q,0) << 16) | ((uint32_t)BYTE(q,1) << 8) | (uint32_t)BYTE(q,2))
#define AT(p,s) ((unsigned char *)(p) + (s))
