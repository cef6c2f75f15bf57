/* Two threads make their first calls at the same time, before the constructor
   of the library ran: while the first one is in the middle of initialising, the
   second one starts.  Prints how many tables of slots were made and whether the
   two blocks can be given back. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "duma.h"

static pthread_t first;
static volatile int go, calls1, calls2, tables, known, done1;

extern "C" void *mmap(void *h, size_t n, int prot, int flags, int fd, off_t off) throw() {
  int i;
  if (n >= (1 << 20) && n < (3 << 20)) __sync_fetch_and_add(&tables, 1);
  if (known && pthread_equal(pthread_self(), first)) {
    /* stop in the middle of initialising until the other one is there, too */
    if (calls1++ == 0) {
      go = 1;
      for (i = 0; i < 700 && calls2 < 2; i++) usleep(1000);
    }
  } else if (go) {
    if (++calls2 == 2)
      for (i = 0; i < 700 && !done1; i++) usleep(1000);
  }
  return (void *)syscall(SYS_mmap, h, n, prot, flags, fd, off);
}

static void *p1, *p2;
static void *one(void *x) {
  first = pthread_self();
  known = 1;
  p1 = malloc(100);
  done1 = 1;
  return 0;
}
static void *two(void *x) {
  while (!go) usleep(100);
  p2 = malloc(100);
  return 0;
}

static void early(void) __attribute__((constructor(101)));
static void early(void) {
  pthread_t a, b;
  int st = 0;
  pid_t c;
  pthread_create(&b, 0, two, 0);
  pthread_create(&a, 0, one, 0);
  pthread_join(a, 0);
  pthread_join(b, 0);
  fflush(stdout);
  c = fork();
  if (!c) {
    free(p1);
    free(p2);
    _exit(0);
  }
  waitpid(c, &st, 0);
  dprintf(1, "tables=%d blocks=%s\n", tables, st ? "lost" : "kept");
}

int main(void) { return 0; }
