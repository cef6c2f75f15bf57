/* Calls through the macros that duma.h and dumapp.h put in place of the
 * standard functions, as a program that includes them makes them. Every macro is
 * used on a line of its own in "src_m.c"; tools/trace.py knows the numbers. */
#include <new>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include "duma.h"
#include "dumapp.h"

/* the sizes GenFocus.tla uses with macnew */
#define MACSIZES N(1) N(4) N(8) N(10) N(16) N(24) N(33) N(100) N(1000) N(4096) N(5000) N(1100000)
template <int K> struct Blk { char b[K]; };

#line 7001 "src_m.c"
void mac_del(char *p) { delete p; }
void mac_adel(char *p) { delete[] p; }
void mac_free(void *p) { free(p); }
void *mac_malloc(size_t n) { return malloc(n); }
void *mac_calloc(size_t n, size_t m) { return calloc(n, m); }
void *mac_memalign(size_t a, size_t n) { return memalign(a, n); }
int mac_posix(void **r, size_t a, size_t n) { return posix_memalign(r, a, n); }
void *mac_realloc(void *p, size_t n) { return realloc(p, n); }
void *mac_valloc(size_t n) { return valloc(n); }
char *mac_strdup(const char *s) { return strdup(s); }
#define N(k) case k: return new Blk<k>;
void *mac_new(size_t n) { switch (n) { MACSIZES } abort(); }
#line 7014 "src_m.c"
void *mac_anew(size_t n) { return new char[n]; }
size_t mac_usable(void *p) { return malloc_usable_size(p); }
