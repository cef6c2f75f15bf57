/* Probes for the settings that decide where and whether messages appear.
 * usage: env RESULT OUT ERR FILE   (descriptors 1 and 2 write to OUT and ERR)
 * Every probe runs in its own child; the result has one line per probe:
 * name, exit code, signal, descriptors left open, and for each of the three
 * places the bytes that appeared there, in hexadecimal ("-" for none).      */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#define DUMA_SKIP_SETUP 1
#include "duma.h"
#ifdef DUMA_NO_LEAKDETECTION
#define SITE
#else
#define SITE , "site.c", 77
#endif
extern "C" {
#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
void *memcpy(void *, const void *, size_t) throw();
#endif
}
static const char *path[3];
static long off[3];
static int rfd;
static void w(const char *s) { long n = 0; while (s[n]) ++n; if (write(rfd, s, n) < 0) _exit(70); }
static void wn(long v) { char b[24]; int i = 23; b[i] = 0; if (v < 0) { w("-"); v = -v; } do b[--i] = (char)('0' + v % 10); while (v /= 10); w(b + i); }
static void slice(int k) {
  static char b[1 << 16];
  char h[3]; int any = 0;
  h[2] = 0;
  int fd = open(path[k], O_RDONLY);
  long n;
  if (fd >= 0) {
    while ((n = pread(fd, b, sizeof b, off[k])) > 0) {
      for (long i = 0; i < n; ++i) { h[0] = "0123456789abcdef"[(b[i] >> 4) & 15]; h[1] = "0123456789abcdef"[b[i] & 15]; w(h); }
      off[k] += n; any = 1;
    }
    close(fd);
  }
  if (!any) w("-");
}
static int fds(void) { int n = 0; for (int i = 0; i < 200; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }
static void line(const char *name, int st, int left) {
  w(name); w(" "); wn(WIFEXITED(st) ? WEXITSTATUS(st) : -1); w(" "); wn(WIFSIGNALED(st) ? WTERMSIG(st) : 0); w(" "); wn(left);
  for (int k = 0; k < 3; ++k) { w(" "); slice(k); }
  w("\n");
}
static char area[64];
static void probe(int k) {
  int before = fds();
  void *p;
  switch (k) {
  case 0: _duma_free(area + 8 SITE); break;
  case 1: _duma_memcpy(area + 4, area, 8 SITE); break;
  case 2: _duma_memcpy(area, area + 4, 8 SITE); break;
  case 3: p = _duma_malloc((size_t)1 << 46 SITE); if (p) _exit(60); break;
  case 4:
    p = _duma_malloc(100 SITE);
    if (mprotect((void *)((unsigned long)p & ~4095UL), 4096, PROT_READ)) _exit(61);
    _duma_free(p SITE);
    break;
  case 5: p = _duma_malloc(7 SITE); exit(fds() == before ? 0 : 62);
  case 6: p = _duma_malloc(7 SITE); _duma_free(p SITE); break;
  }
  _exit(fds() == before ? 0 : 62);
}
static const char *names[] = {"badfree", "overlapup", "overlapdown", "huge", "freeaccess", "leak", "quiet"};
int main(int argc, char **argv) {
  rfd = open(argv[1], O_CREAT | O_WRONLY | O_APPEND, 0644);
  for (int k = 0; k < 3; ++k) path[k] = argv[2 + k];
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  line("start", 0, 0);
  for (int k = 0; k < 7; ++k) {
    pid_t pid = fork();
    if (!pid) { alarm(20); probe(k); }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    int left = WIFEXITED(st) && WEXITSTATUS(st) == 62;
    line(names[k], left ? 0 : st, left);
  }
  _exit(0);
}
