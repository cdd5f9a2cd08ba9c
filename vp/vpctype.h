/* character classes of the C locale, as the C standard defines them (the library versions are trusted to agree) */
#ifndef VPCTYPE_H
#define VPCTYPE_H
#include <ctype.h>
#undef isalpha
#undef isdigit
#undef isalnum
#undef isspace
#undef isupper
#undef islower
#undef tolower
#undef toupper
#undef isblank
#undef isprint
#undef iscntrl
#define VP_UP(c) ((c) >= 'A' && (c) <= 'Z')
#define VP_LO(c) ((c) >= 'a' && (c) <= 'z')
#define VP_DG(c) ((c) >= '0' && (c) <= '9')
#define VP_AL(c) (VP_UP(c) || VP_LO(c))
#define VP_AN(c) (VP_AL(c) || VP_DG(c))
#define VP_SP(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
#define VP_LOWER(c) (VP_UP(c) ? (c) + 32 : (c))
static inline int vp_isalpha(int c){ return VP_AL(c); }
static inline int vp_isdigit(int c){ return VP_DG(c); }
static inline int vp_isalnum(int c){ return VP_AN(c); }
static inline int vp_isspace(int c){ return VP_SP(c); }
static inline int vp_isupper(int c){ return VP_UP(c); }
static inline int vp_islower(int c){ return VP_LO(c); }
static inline int vp_tolower(int c){ return VP_LOWER(c); }
static inline int vp_toupper(int c){ return VP_LO(c) ? c - 32 : c; }
static inline int vp_isblank(int c){ return c == ' ' || c == 9; }
static inline int vp_isprint(int c){ return c >= 32 && c < 127; }
static inline int vp_iscntrl(int c){ return (c >= 0 && c < 32) || c == 127; }
#define isalpha vp_isalpha
#define isdigit vp_isdigit
#define isalnum vp_isalnum
#define isspace vp_isspace
#define isupper vp_isupper
#define islower vp_islower
#define tolower vp_tolower
#define toupper vp_toupper
#define isblank vp_isblank
#define isprint vp_isprint
#define iscntrl vp_iscntrl
#endif
