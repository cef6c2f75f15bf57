/* the macros of duma.h for the string and memory functions, each on a line of its own */
#include <string.h>
#include "duma.h"
#line 7101 "src_m.c"
void *mac_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *mac_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *mac_strcpy(char *d, const char *s) { return strcpy(d, s); }
void *mac_strncpy(char *d, const char *s, size_t n) { return strncpy(d, s, n); }
void *mac_strcat(char *d, const char *s) { return strcat(d, s); }
void *mac_strncat(char *d, const char *s, size_t n) { return strncat(d, s, n); }
