// the few C library functions compilers emit calls to
#include "stdlib.h"
#include "string.h"
void *memset(void *d, int c, __SIZE_TYPE__ n) { for (volatile char *p = d; n--;) *p++ = (char)c; return d; }
void *memcpy(void *d, const void *s, __SIZE_TYPE__ n) { volatile char *p = d; const char *q = s; while (n--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, __SIZE_TYPE__ n) { volatile char *p = d; const char *q = s; if (p <= q) while (n--) *p++ = *q++; else while (n--) p[n] = q[n]; return d; }
__SIZE_TYPE__ strlen(const char *s) { __SIZE_TYPE__ n = 0; while (((volatile const char *)s)[n]) n++; return n; }
