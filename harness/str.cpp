/* Runs calls of the copying functions on memories between inaccessible pages
 * and records what happened.  usage: str CASES RESULTS
 * A case:   f d s n place entry lift N b0 .. bN-1
 *   place 0: the memory ends at an inaccessible page, 1: it begins behind one
 *   entry 0: C function, 1: function with call site, 2: macro of duma.h
 *   lift  0: as it is; 31/32: the operands are made 2^lift bytes longer in
 *         front of the bytes given (1: source and destination, for strcat and
 *         strncat the source; 2: the string at the destination; 3: source, and
 *         the destination is that far behind it; 4: nothing is longer, but the
 *         halves of the memory are that far apart): 321 = 32 and 1 */
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#define DUMA_SKIP_SETUP 1
#include "duma.h"
#ifdef DUMA_NO_LEAKDETECTION
#define SITE
#else
#define SITE , "site.c", 77
#endif
extern "C" {
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
void *memcpy(void *, const void *, size_t) throw();
void *memmove(void *, const void *, size_t) throw();
char *strcpy(char *, const char *) throw();
char *strncpy(char *, const char *, size_t) throw();
char *strcat(char *, const char *) throw();
char *strncat(char *, const char *, size_t) throw();
#endif
void *mac_memcpy(void *, const void *, size_t);
void *mac_memmove(void *, const void *, size_t);
void *mac_strcpy(char *, const char *);
void *mac_strncpy(char *, const char *, size_t);
void *mac_strcat(char *, const char *);
void *mac_strncat(char *, const char *, size_t);
}
enum { PGS = 4096, MAXN = 4096 };
struct Res {
  volatile long at, started, done;
  long ret;
  unsigned char m[MAXN];
  unsigned char rd[MAXN], wr[MAXN];
  long stray;
  char *ptr[4];
};
static Res *R;
static unsigned char *buf;      /* the memory of the case */
static long N;
static volatile int tracing;

#ifdef H_TSAN
static void acc(void *p, int w, long n) {
  if (!tracing) return;
  for (long k = (unsigned char *)p - buf, e = k + n; k < e; ++k)
    if (k >= 0 && k < N) (w ? R->wr : R->rd)[k] = 1;
    else if (k >= -2 * PGS && k < 3 * PGS) ++R->stray;
}
extern "C" {
#define RW(n) void __tsan_read##n(void *p) { acc(p, 0, n); } void __tsan_write##n(void *p) { acc(p, 1, n); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, 0, n); } void __tsan_unaligned_write##n(void *p) { acc(p, 1, n); } \
  void __tsan_volatile_read##n(void *p) { acc(p, 0, n); } void __tsan_volatile_write##n(void *p) { acc(p, 1, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { acc(p, 0, n); }
void __tsan_write_range(void *p, unsigned long n) { acc(p, 1, n); }
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void *, void *) {}
void __tsan_vptr_read(void *) {}
}
#endif

static void *call(int f, int entry, char *d, const char *s, size_t n) {
  if (entry == 2) switch (f) {
    case 0: return mac_memcpy(d, s, n);
    case 1: return mac_memmove(d, s, n);
    case 2: return mac_strcpy(d, s);
    case 3: return mac_strncpy(d, s, n);
    case 4: return mac_strcat(d, s);
    default: return mac_strncat(d, s, n);
  }
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
  if (entry == 0) switch (f) {
    case 0: return memcpy(d, s, n);
    case 1: return memmove(d, s, n);
    case 2: return strcpy(d, s);
    case 3: return strncpy(d, s, n);
    case 4: return strcat(d, s);
    default: return strncat(d, s, n);
  }
#endif
  switch (f) {
    case 0: return _duma_memcpy(d, s, n SITE);
    case 1: return _duma_memmove(d, s, n);
    case 2: return _duma_strcpy(d, s SITE);
    case 3: return _duma_strncpy(d, s, n SITE);
    case 4: return _duma_strcat(d, s SITE);
    default: return _duma_strncat(d, s, n SITE);
  }
}

/* 2^bits bytes of one repeated page range, followed by two private pages; page behind is inaccessible */
static unsigned char *lifted(int bits) {
  size_t len = 1UL << bits, chunk = 1UL << 26, i;
  unsigned char *a = (unsigned char *)syscall(SYS_mmap, 0, len + 6 * PGS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
  if (a == MAP_FAILED) _exit(91);
  a += 2 * PGS;
  int fd = (int)syscall(SYS_memfd_create, "x", 0);
  if (fd < 0 || ftruncate(fd, chunk)) _exit(92);
  for (i = 0; i < len; i += chunk)
    if ((void *)syscall(SYS_mmap, a + i, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0L) == MAP_FAILED) _exit(93);
  if ((void *)syscall(SYS_mmap, a + len, 2 * PGS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0L) == MAP_FAILED) _exit(94);
  for (i = 0; i < chunk; ++i) a[i] = 0x5a;
  close(fd);
  return a;
}

static char text[96 << 20];
/* first: called before the library was initialised; every call is the first one of its process */
static int run_all(char **argv, int first) {
  int in = open(argv[1], O_RDONLY);
  size_t tl = 0;
  for (ssize_t k; (k = read(in, text + tl, sizeof text - 1 - tl)) > 0;) tl += (size_t)k;
  close(in);
  int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
  R = (Res *)syscall(SYS_mmap, 0, (sizeof(Res) + PGS) & ~(PGS - 1L), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0L);
  unsigned char *area = (unsigned char *)syscall(SYS_mmap, 0, 3 * PGS, PROT_NONE, MAP_SHARED | MAP_ANONYMOUS, -1, 0L);
  syscall(SYS_mprotect, area + PGS, PGS, PROT_READ | PROT_WRITE);
  int ef = (int)syscall(SYS_memfd_create, "err", 0);
  dup2(ef, 2);
  /* read all cases */
  struct Case { int f, place, entry, lift; long d, s, n, N; unsigned char *b; };
  static Case cs[200000];
  long nc = 0;
  static unsigned char pool[64 << 20];
  long pl = 0;
  for (char *p = text; nc < 200000 && *p; ++p) {
    Case &c = cs[nc];
    long v[8];
    for (int i = 0; i < 8; ++i) v[i] = strtol(p, &p, 10);
    c.f = v[0]; c.d = v[1]; c.s = v[2]; c.n = v[3]; c.place = v[4]; c.entry = v[5]; c.lift = v[6]; c.N = v[7];
    if (c.N > MAXN || pl + c.N > (long)sizeof pool) _exit(90);
    c.b = pool + pl;
    for (long i = 0; i < c.N; ++i) c.b[i] = (unsigned char)strtol(p, &p, 10);
    pl += c.N;
    ++nc;
    while (*p && *p != '\n') ++p;
    if (!*p) break;
  }
  static char ob[1 << 20];
  long ol = 0;
  for (long next = 0; next < nc;) {
    R->at = next;
    pid_t pid = fork();
    if (pid == 0) {
      alarm(200);
      /* results are written by the child; the parent writes that of the case that killed it */
      for (long k = next; k < nc; ++k) {
        Case &c = cs[k];
        char *d, *s;
        size_t n = c.n;
        N = c.N;
        unsigned char *wd = 0, *ws = 0;
        R->at = k; R->ret = -1; R->stray = 0; R->done = 0;
        for (long i = 0; i < N; ++i) R->rd[i] = R->wr[i] = 0;
        if (!c.lift) {
          for (long i = 0; i < PGS; ++i) area[PGS + i] = 0xEE;
          buf = c.place ? area + PGS : area + 2 * PGS - N;
          for (long i = 0; i < N; ++i) buf[i] = c.b[i];
          d = (char *)buf + c.d; s = (char *)buf + c.s;
        } else {
          /* two windows: the memory up to the destination's window, and that one (of the same size, N/2) */
          int bits = c.lift / 10, kind = c.lift % 10;
          size_t K = 1UL << bits;
          long h = N / 2;
          int ls = kind == 1;
          unsigned char *as = ls ? lifted(bits) : 0, *ad = lifted(bits);
          ws = ls ? as + K : area + PGS;
          wd = kind == 3 ? ws : ad + K;
          if (kind == 3) { as = ad; ws = wd = as + K; }
          if (kind == 4) ws = ad;
          for (long i = 0; i < h; ++i) { ws[i] = c.b[i]; if (kind != 3) wd[i] = c.b[h + i]; }
          if (kind == 3) for (long i = h; i < N; ++i) wd[i] = c.b[i];
          if (kind == 1) {          /* both begin 2^bits before their windows */
            s = (char *)ws + c.s - K;
            d = (char *)wd + (c.d - h) - K;
            if (c.f >= 4) *d = 0;   /* an empty string; what is appended ends in the window */
            n = c.f == 2 || c.f == 4 ? 0 : c.n + K;
          } else if (kind == 2) {   /* a long string at the destination */
            s = (char *)ws + c.s;
            d = (char *)wd + (c.d - h) - K;
          } else if (kind == 4) {   /* the windows are 2^bits apart */
            s = (char *)(c.s < h ? ws + c.s : wd + c.s - h);
            d = (char *)(c.d < h ? ws + c.d : wd + c.d - h);
          } else {                  /* kind 3: memcpy, the destination 2^bits behind the source, n longer */
            s = (char *)ws + c.s - K;
            d = (char *)ws + c.d;
            n = c.n + K;
          }
          R->ptr[2] = (char *)ws; R->ptr[3] = (char *)wd;
          buf = ws;
        }
        R->ptr[0] = d; R->ptr[1] = s;
        R->started = 1;
        tracing = 1;
        char *r = (char *)call(c.f, c.entry, d, s, n);
        tracing = 0;
        R->ret = r == d ? c.d : -2;
        if (c.lift) {
          int kind = c.lift % 10;
          long h = N / 2;
          for (long i = 0; i < N; ++i) R->m[i] = i < h ? ws[i] : kind == 3 ? wd[i] : wd[i - h];
          R->done = 1;
          _exit(0);
        }
        for (long i = 0; i < N; ++i) R->m[i] = buf[i];
        for (long i = 0; i < PGS; ++i)
          if ((area + PGS + i < buf || area + PGS + i >= buf + N) && area[PGS + i] != 0xEE) ++R->stray;
        R->done = 1;
        char t[64];
        int l;
        static char o[MAXN * 12 + 256];
        l = sprintf(o, "%ld ret %ld %ld", k, R->ret, R->stray);
        for (long i = 0; i < N; ++i) l += sprintf(o + l, " %d", R->m[i]);
        l += sprintf(o + l, " |");
        for (long i = 0; i < N; ++i) l += sprintf(o + l, "%c", "-rwb"[R->rd[i] + 2 * R->wr[i]]);
        o[l++] = '\n';
        if (ol + l > (long)sizeof ob) { if (write(out, ob, ol) != ol) _exit(89); ol = 0; }
        for (int i = 0; i < l; ++i) ob[ol + i] = o[i];
        ol += l;
        R->started = 0;
        if (write(out, ob, ol) != ol) _exit(89);
        ol = 0;
        if (first) break;
      }
      _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !cs[R->at].lift) {
      if (!first) break;
      next = R->at + 1;
      continue;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 255) { _exit(WEXITSTATUS(st)); }
    {
      Case &c = cs[R->at];
      static char o[MAXN * 8 + 16384], msg[8192];
      int l, ml = (int)pread(ef, msg, sizeof msg - 1, 0);
      if (ml < 0) ml = 0;
      for (int i = 0; i < ml; ++i) if (msg[i] == '\n') msg[i] = ' ';
      msg[ml] = 0;
      const char *w = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "ret" :
                      WIFEXITED(st) || WTERMSIG(st) == SIGILL ? "abort" : WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS ? "segv" : "died";
      l = sprintf(o, "%ld %s %ld %ld", R->at, w, R->ret, R->stray);
      if (*w == 'r') for (long i = 0; i < c.N; ++i) l += sprintf(o + l, " %d", R->m[i]);
      else if (!c.lift) {
        unsigned char *b = c.place ? area + PGS : area + 2 * PGS - c.N;
        for (long i = 0; i < c.N; ++i) l += sprintf(o + l, " %d", b[i]);
      }
      l += sprintf(o + l, " | %lx %lx %s\n", (unsigned long)R->ptr[0], (unsigned long)R->ptr[1], *w == 'r' ? "" : msg);
      if (write(out, o, l) != l) _exit(88);
      if (ftruncate(ef, 0)) _exit(87);
      lseek(ef, 0, SEEK_SET);
    }
    next = R->at + 1;
  }
  return 0;
}
__attribute__((constructor(101))) static void before(int argc, char **argv, char **envp) {
  (void)argc;
  for (char **e = envp; *e; ++e)
    if ((*e)[0] == 'H' && (*e)[1] == '_' && (*e)[2] == 'F' && (*e)[3] == '=') _exit(run_all(argv, 1));
}
int main(int argc, char **argv) { (void)argc; return run_all(argv, 0); }
