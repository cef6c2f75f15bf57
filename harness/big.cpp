/* Histories with big blocks: big SCRIPT RESULT LOG; one history per process.
   Everything the library prints goes to LOG; each result line ends with the
   position in LOG after the call.                                          */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <errno.h>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include "duma.h"
#include "dumapp.h"
#undef malloc
#undef calloc
#undef free
#undef memalign
#undef posix_memalign
#undef realloc
#undef valloc
#undef malloc_usable_size
#undef new
#undef delete
typedef unsigned long ul;
static char *ptr[3], *kept[3];
static ul sz[3];
static int fam[3];
static int out_fd, log_fd;
static sigjmp_buf jb;
static void segv(int) { siglongjmp(jb, 1); }
static void ill(int) { static const char m[] = "stop\n"; write(out_fd, m, 5); _exit(0); }
static char line[512], text[1 << 16];
static void res(const char *fmt, ul a, ul b, ul c) {
  int n = snprintf(line, sizeof line, fmt, a, b, c);
  n += snprintf(line + n, sizeof line - n, " %ld\n", (long)lseek(log_fd, 0, SEEK_END));
  write(out_fd, line, n);
}
int main(int argc, char **argv) {
  int fd = open(argv[1], O_RDONLY), n = 0, k;
  while ((k = read(fd, text + n, sizeof text - 1 - n)) > 0) n += k;
  text[n] = 0; close(fd);
  out_fd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0600);
  log_fd = open(argv[3], O_WRONLY | O_CREAT | O_APPEND, 0600);
  dup2(log_fd, 2);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = segv; sa.sa_flags = SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
  sa.sa_handler = ill; sigaction(SIGILL, &sa, 0);
  res("begin", 0, 0, 0);
  for (char *q = text; *q;) {
    char *e = strchr(q, '\n'); if (!e) break; *e = 0;
    char op = q[0], api[20] = ""; int id = 0, v = 0; ul p = 0, r = 0, ap = 0, ar = 0; long o = 0, orr = 0;
    if (op == 'A') {
      sscanf(q, "A %d %19s %lu %lu %lu %lu", &id, api, &p, &r, &ap, &ar);
      ul size = p * 4096 + r, al = ap * 4096 + ar; char *x = 0; int f = 0, line_no = 100 + id;
      if (!strcmp(api, "malloc")) x = (char *)_duma_malloc(size, "big", line_no);
      else if (!strcmp(api, "calloc")) {
        if (size % 4096 == 0) x = (char *)_duma_calloc(size / 4096, 4096, "big", line_no);
        else x = (char *)_duma_calloc(1, size, "big", line_no);
      }
      else if (!strcmp(api, "memalign")) x = (char *)_duma_memalign(al, size, "big", line_no);
      else if (!strcmp(api, "posix")) { void *y = 0; if (_duma_posix_memalign(&y, al, size, "big", line_no)) y = 0; x = (char *)y; }
      else if (!strcmp(api, "valloc")) { x = (char *)_duma_valloc(size, "big", line_no); al = 4096; }
      else if (!strcmp(api, "new")) { x = (char *)::operator new(size, std::nothrow, "big", line_no); f = 1; }
      else { x = (char *)::operator new[](size, std::nothrow, "big", line_no); f = 2; }
      if (x) { ptr[id] = x; sz[id] = size; fam[id] = f; }
      res(x ? "ptr %lu %lx" : "null %lu %lx", !al || (ul)x % al == 0, (ul)x, 0);
    } else if (op == 'R') {
      sscanf(q, "R %d %lu %lu", &id, &p, &r);
      char *x = (char *)_duma_realloc(ptr[id], p * 4096 + r, "big", 100 + id);
      if (x) { ptr[id] = x; sz[id] = p * 4096 + r; fam[id] = 0; }
      res(x ? "ptr %lu %lx" : "null %lu %lx", 1, (ul)x, 0);
    } else if (op == 'F') {
      sscanf(q, "F %d", &id);
      if (fam[id] == 0) _duma_free(ptr[id], "big", 200 + id);
      else if (fam[id] == 1) ::operator delete(ptr[id], "big", 200 + id);
      else ::operator delete[](ptr[id], "big", 200 + id);
      res("ok", 0, 0, 0);
    } else if (op == 'P' || op == 'W' || op == 'M') {
      sscanf(q + 1, "%d %ld %ld %d", &id, &o, &orr, &v);
      volatile char *x = ptr[id] + (o * 4096 + orr);
      if (!ptr[id]) res("none", 0, 0, 0);
      else if (op == 'M') {
        unsigned char w;
        res(mincore((void *)((ul)x & ~4095ul), 1, &w) ? "unmapped" : "mapped", 0, 0, 0);
      } else if (sigsetjmp(jb, 1)) res("fault", 0, 0, 0);
      else if (op == 'P') { unsigned char w = *x; res("v %lu", w, 0, 0); }
      else { *x = v; res("ok", 0, 0, 0); }
    } else if (op == 'U') {
      sscanf(q, "U %d", &id);
      res("v %lu", _duma_malloc_usable_size(ptr[id], "big", 5), 0, 0);
    } else if (op == 'L') { DUMA_delFrame(); res("ok", 0, 0, 0); }
    else if (op == 'K') { duma_checkAll(); res("ok", 0, 0, 0); }
    q = e + 1;
  }
  res("done", 0, 0, 0);
  _exit(0);
}
