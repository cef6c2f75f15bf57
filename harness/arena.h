/* Stand-ins for mmap/munmap/mprotect with a recorded page map.
 *
 * DUMA's calls are served from one reserved address range ("arena"), so that
 * addresses are small offsets, the placement policy can be chosen, failures can
 * be injected, and the exact accessibility of every page is known at any time.
 * Page states: 0 not mapped, 1 mapped without access, 2 mapped read/write,
 * 3 any other protection.
 */
#ifndef ARENA_H
#define ARENA_H
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>

#define PG 4096UL
#define ARENA_PAGES 524032UL            /* 2 GB - 1 MB: offsets fit in 31 bits */
#define ARENA_BYTES (ARENA_PAGES * PG)

static char *ar_base;
static unsigned char ar_cur[ARENA_PAGES]; /* state now */
static unsigned char ar_old[ARENA_PAGES]; /* state at the last snapshot */
static unsigned char ar_un[ARENA_PAGES];  /* unmapped since the snapshot: 1 + state before */
static long ar_lo = ARENA_PAGES, ar_hi = 0; /* touched since the snapshot */
static long ar_top = 0;                   /* high-water mark (bottom-up) */
static long ar_rw, ar_mapped;             /* pages */
static int ar_policy = 1;  /* 0 bump, 1 lowest fit, 2 highest fit below the start, 3 honour the hint */
static long ar_limit = -1; /* mmap fails above this many mapped pages */
static int ar_fail_after = -1, ar_fail_count = 0; /* fail mmap calls [after, after+count) */
static int ar_pfail_after = -1;           /* fail one mprotect call */
static int ar_ufail = 0;                  /* fail that many munmap calls */
/* counters of the current op, shared with the parent process */
#ifdef H_MT
#define TL __thread
#else
#define TL
#endif
static long ar_noshare[16];
static TL long *ar_sh = ar_noshare;
/* what the harness does before a page operation: kind 1 map, 2 unmap, 3 protect */
static void ar_hook(int kind, void *a, size_t n, int prot);
#define ar_mm ar_sh[1]
#define ar_mf ar_sh[2]
#define ar_mlast ar_sh[3]
#define ar_pc ar_sh[4]
#define ar_uc ar_sh[5]
#define ar_uf ar_sh[6]
#define ar_mapreq ar_sh[7]              /* pages successfully mapped in the current op */
static int ar_suspend = 0;                /* no injected failures for now */
static long ar_passthru = 0;              /* huge mappings served by the kernel */
static long ar_start = 60000;             /* top-down allocation starts below this page */

static void *ar_raw_mmap(void *a, size_t n, int p, int f) {
  return (void *)syscall(SYS_mmap, a, n, p, f, -1, 0L);
}
static void ar_init(void) {
  if (ar_base) return;
  /* aligned to 1 GB, so that alignments of offsets are alignments of addresses */
  ar_base = (char *)ar_raw_mmap(0, ARENA_BYTES + (1UL << 30), PROT_NONE,
                                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE);
  if (ar_base == (char *)-1) _exit(97);
  ar_base = (char *)(((unsigned long)ar_base + (1UL << 30) - 1) & ~((1UL << 30) - 1));
  ar_sh = (long *)syscall(SYS_mmap, 0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0L);
}
static inline int ar_in(const void *p) {
  return ar_base && (const char *)p >= ar_base && (const char *)p < ar_base + ARENA_BYTES;
}
static void ar_touch(long lo, long hi) {
  if (lo < ar_lo) ar_lo = lo;
  if (hi > ar_hi) ar_hi = hi;
}
static void ar_set(long lo, long hi, int st) {
  long i;
  ar_touch(lo, hi);
  for (i = lo; i < hi; ++i) {
    int o = ar_cur[i];
    if (st == 0 && o) { if (!ar_un[i]) ar_un[i] = (unsigned char)(1 + ar_old[i]); ar_old[i] = 0; }
    if (o == st) continue;
    if (o >= 2) --ar_rw;
    if (st >= 2) ++ar_rw;
    if (o == 0) ++ar_mapped;
    if (st == 0) --ar_mapped;
    ar_cur[i] = (unsigned char)st;
  }
}
static int ar_free_range(long lo, long n) {
  long i;
  if (lo < 0 || lo + n > (long)ARENA_PAGES) return 0;
  for (i = lo; i < lo + n; ++i) if (ar_cur[i]) return 0;
  return 1;
}
static long ar_place(void *hint, long n) {
  long i, run = 0;
  if (ar_policy == 3 && ar_in(hint) && !(((unsigned long)hint) & (PG - 1))) {
    long h = ((char *)hint - ar_base) / (long)PG;
    if (ar_free_range(h, n)) return h;
  }
  if (ar_policy == 1) {
    for (i = 16; i < ar_top; ++i) {
      run = ar_cur[i] ? 0 : run + 1;
      if (run == n) return i - n + 1;
    }
    /* extend at the top */
    i = ar_top - run;
    if (i < 16) i = 16;
    return i + n <= (long)ARENA_PAGES ? i : -1;
  }
  if (ar_policy == 2 || ar_policy == 3) {
    for (i = ar_start - 1; i >= 16; --i) {
      run = ar_cur[i] ? 0 : run + 1;
      if (run == n) return i;
    }
  }
  i = ar_top < 16 ? 16 : ar_top;
  if (i < ar_start && (ar_policy == 2 || ar_policy == 3)) i = ar_start;
  return i + n <= (long)ARENA_PAGES ? i : -1;
}

extern "C" {
void *mmap(void *hint, size_t n, int prot, int flags, int fd, off_t off) throw() {
  long np, at;
  (void)fd; (void)off;
  ar_init();
  ar_hook(1, hint, n, prot);
  if (n == 0) { errno = EINVAL; return (void *)-1; }
  ++ar_mm;
  if (ar_passthru && n >= (size_t)ar_passthru) {
    void *r = ar_raw_mmap(0, n, prot, flags | MAP_NORESERVE);
    if ((long)r < 0 && (long)r > -4096) { errno = ENOMEM; r = (void *)-1; }
    ar_mlast = r != (void *)-1;
    if (!ar_mlast) ++ar_mf;
    return r;
  }
  if (ar_fail_after >= 0 && !ar_suspend) {
    if (ar_fail_after > 0) --ar_fail_after;
    else if (ar_fail_count != 0) {
      if (ar_fail_count > 0 && --ar_fail_count == 0) ar_fail_after = -1;
      ++ar_mf; ar_mlast = 0;
      errno = ENOMEM;
      return (void *)-1;
    }
  }
  np = n >= ARENA_BYTES ? -1 : (long)((n + PG - 1) / PG);
  at = -1;
  if (np > 0 && !(ar_limit >= 0 && !ar_suspend && ar_mapped + np > ar_limit)) at = ar_place(hint, np);
  if (at < 0) {
    ++ar_mf; ar_mlast = 0;
    errno = ENOMEM;
    return (void *)-1;
  }
  ar_set(at, at + np, (prot & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE) ? 2 : prot == PROT_NONE ? 1 : 3);
  if (at + np > ar_top) ar_top = at + np;
  if (syscall(SYS_mprotect, ar_base + at * PG, np * PG, prot)) _exit(96);
  ar_mlast = 1;
  ar_mapreq += np;
  return ar_base + at * PG;
}
int munmap(void *a, size_t n) throw() {
  long lo, np;
  ar_hook(2, a, n, 0);
  ++ar_uc;
  if (n == 0 || ((unsigned long)a & (PG - 1))) { errno = EINVAL; return -1; }
  if (!ar_in(a)) return (int)syscall(SYS_munmap, a, n);
  lo = ((char *)a - ar_base) / (long)PG;
  np = (long)((n + PG - 1) / PG);
  if (lo + np > (long)ARENA_PAGES) { errno = EINVAL; return -1; }
  if (ar_ufail > 0) { --ar_ufail; ++ar_uf; errno = ENOMEM; return -1; }
  ar_set(lo, lo + np, 0);
  if (syscall(SYS_mprotect, a, np * PG, PROT_NONE)) _exit(95);
  if (syscall(SYS_madvise, a, np * PG, MADV_DONTNEED)) _exit(94);
  return 0;
}
int mprotect(void *a, size_t n, int prot) throw() {
  long lo, np, i;
  ar_hook(3, a, n, prot);
  ++ar_pc;
  if ((unsigned long)a & (PG - 1)) { errno = EINVAL; return -1; }
  if (!ar_in(a)) return (int)syscall(SYS_mprotect, a, n, prot);
  if (ar_pfail_after >= 0 && ar_pfail_after-- == 0) { errno = ENOMEM; return -1; }
  lo = ((char *)a - ar_base) / (long)PG;
  np = (long)((n + PG - 1) / PG);
  if (n >= ARENA_BYTES || lo + np > (long)ARENA_PAGES) { errno = ENOMEM; return -1; }
  for (i = lo; i < lo + np && ar_cur[i]; ++i) ;
  if (i > lo) {
    ar_set(lo, i, (prot & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE) ? 2 : prot == PROT_NONE ? 1 : 3);
    if (syscall(SYS_mprotect, a, (i - lo) * PG, prot)) _exit(93);
  }
  if (i < lo + np) { errno = ENOMEM; return -1; }
  return 0;
}
}
#endif
