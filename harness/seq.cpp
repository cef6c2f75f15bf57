/* Sequential script interpreter: runs scripts of API calls against DUMA and
 * records what can be observed. It judges nothing: the TLA+ specification does.
 *
 * usage: seq SCRIPTS TRACE STDERRFILE STDOUTFILE
 * Every script runs in its own child process. See tools/scripts.py for the
 * script language and tools/trace.py for the trace format.
 */
#include <new>
#include <exception>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stddef.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "arena.h"

#define DUMA_SKIP_SETUP 1
#include "duma.h"

#ifdef DUMA_NO_LEAKDETECTION
#define FL
#else
#define FL , file, line
#endif

extern "C" {
void *malloc(size_t) throw();
void *calloc(size_t, size_t) throw();
void free(void *) throw();
void *realloc(void *, size_t) throw();
void *memalign(size_t, size_t) throw();
int posix_memalign(void **, size_t, size_t) throw();
void *valloc(size_t) throw();
char *strdup(const char *) throw();
size_t malloc_usable_size(void *) throw();
}
#ifndef H_NO_CPP
#ifndef DUMA_NO_LEAKDETECTION
void *operator new(std::size_t, const char *, int) throw(std::bad_alloc);
void *operator new(std::size_t, const std::nothrow_t &, const char *, int) throw();
void operator delete(void *, const char *, int) throw();
void operator delete(void *, const std::nothrow_t &, const char *, int) throw();
void *operator new[](std::size_t, const char *, int) throw(std::bad_alloc);
void *operator new[](std::size_t, const std::nothrow_t &, const char *, int) throw();
void operator delete[](void *, const char *, int) throw();
void operator delete[](void *, const std::nothrow_t &, const char *, int) throw();
#endif
#endif

/* The C++ runtime takes the memory of an exception object from malloc. That is
 * a request of its own: it is served also while the harness lets memory run out. */
#ifndef H_NO_CPP
extern "C" void *__real___cxa_allocate_exception(size_t) throw();
#if __cplusplus < 201103L
namespace std { new_handler get_new_handler() throw(); }
#endif
extern "C" void *__wrap___cxa_allocate_exception(size_t n) throw() {
  long l = ar_mlast, f = ar_mf, m = ar_mm, q = ar_mapreq;
  ar_suspend = 1;
  void *r = __real___cxa_allocate_exception(n);
  ar_suspend = 0;
  ar_mlast = l; ar_mf = f; ar_mm = m; ar_mapreq = q;
  return r;
}
#endif

/* ---- the lock, and who touches the bookkeeping ----
 * Calls of the mutex functions by the library are redirected to the wrappers
 * below (ld --wrap). With the library built with -fsanitize=thread the compiler
 * also reports every access to memory; the functions it calls are defined here. */
static TL int lk_held;                   /* locks held by this thread */
static TL long lk_touch;                 /* bookkeeping touched without the lock in this op */
static TL const void *lk_where;
static int early_on;
static int lk_on;                        /* start-up is over */
static TL int in_op;
static long tb_len;                      /* bytes of the slot table */
#ifdef H_MT
static int mt_thread(void);
static void mt_event(int kind, long arg);
static void mt_yield(int cls);
static void mt_blocked(void);
static void mt_unlocked(void);
static void mt_endcs(void);
#else
#define mt_event(k, a) ((void)0)
#define mt_yield(c) ((void)0)
#define mt_blocked() ((void)0)
#define mt_unlocked() ((void)0)
#define mt_endcs() ((void)0)
#endif
enum { Y_CALL = 1, Y_TRY, Y_LOCKED, Y_OPEN, Y_CLOSE, Y_UNLOCK, Y_UNLOCKED, Y_RET, Y_PAGE, Y_MEM, Y_UMEM, Y_HANDLER };
enum { E_CALL = 1, E_ACQ, E_REL, E_OPEN, E_CLOSE, E_PAGE, E_WRITE, E_TABLE, E_RET, E_BLOCK, E_DEADLOCK };
static inline int in_table(const void *p) {
  return ar_in(p) && _duma_g.allocList && (const char *)p >= (const char *)_duma_g.allocList &&
         (const char *)p < (const char *)_duma_g.allocList + (tb_len ? tb_len : (long)PG);
}
static void lk_touched(const void *p) {
  if (lk_on && in_op && !lk_held) { ++lk_touch; lk_where = p; }
}
static void ar_hook(int kind, void *a, size_t n, int prot) {
  if (kind == 3 && a && a == (void *)_duma_g.allocList) {
    tb_len = (long)n;
    mt_yield(prot ? Y_OPEN : Y_CLOSE);
    mt_event(prot ? E_OPEN : E_CLOSE, 0);
  } else { mt_yield(Y_PAGE); mt_event(E_PAGE, kind); }
  lk_touched(a);
}
#include <pthread.h>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  mt_yield(Y_TRY);
  int r = __real_pthread_mutex_trylock(m);
  if (!r) { ++lk_held; mt_event(E_ACQ, 0); mt_yield(Y_LOCKED); }
  return r;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  mt_yield(Y_TRY);
#ifdef H_MT
  int r;
  while ((r = __real_pthread_mutex_trylock(m)) == EBUSY) { mt_event(E_BLOCK, 0); mt_blocked(); }
#else
  int r = __real_pthread_mutex_lock(m);
#endif
  if (!r) { ++lk_held; mt_event(E_ACQ, 0); mt_yield(Y_LOCKED); }
  return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  mt_yield(Y_UNLOCK);
  if (lk_held == 1) mt_endcs();
  mt_event(E_REL, 0);
  --lk_held;
  int r = __real_pthread_mutex_unlock(m);
  mt_unlocked();
  mt_yield(Y_UNLOCKED);
  return r;
}
}
#ifdef H_TSAN
/* static variables of the library: [address, end), from the linked program */
static unsigned long lv[256][2];
static int nlv;
static inline void acc(const void *p, int w) {
  if (!lk_on || !in_op) return;
  if (in_table(p)) { if (!lk_held) { ++lk_touch; lk_where = p; } mt_event(E_TABLE, w); mt_yield(lk_held ? Y_MEM : Y_UMEM); return; }
#ifndef H_MT
  if (!w) return;
#endif
  for (int i = 0; i < nlv; ++i)
    if ((unsigned long)p >= lv[i][0] && (unsigned long)p < lv[i][1]) {
      if (w && !lk_held) { ++lk_touch; lk_where = p; }
      if (w) mt_event(E_WRITE, i);
      mt_yield(lk_held ? Y_MEM : Y_UMEM);
      return;
    }
}
extern "C" {
#define RW(n) void __tsan_read##n(void *p) { acc(p, 0); } void __tsan_write##n(void *p) { acc(p, 1); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, 0); } void __tsan_unaligned_write##n(void *p) { acc(p, 1); } \
  void __tsan_volatile_read##n(void *p) { acc(p, 0); } void __tsan_volatile_write##n(void *p) { acc(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) { acc(p, 0); acc((char *)p + n - 1, 0); } }
void __tsan_write_range(void *p, unsigned long n) { if (n) { acc(p, 1); acc((char *)p + n - 1, 1); } }
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void *, void *) {}
void __tsan_vptr_read(void *) {}
}
#endif

/* ---- small output layer, no stdio, no malloc ---- */
static int tfd;
#ifdef H_MT
#define OBUF (1 << 14)
#else
#define OBUF (1 << 16)
#endif
static TL char obuf[OBUF];
static TL size_t olen;
static void oflush(void) {
  size_t o = 0;
  while (o < olen) { ssize_t n = write(tfd, obuf + o, olen - o); if (n <= 0) _exit(92); o += (size_t)n; }
  olen = 0;
}
static void oc(char c) { if (olen >= sizeof obuf - 8) oflush(); obuf[olen++] = c; }
static void os(const char *s) { while (*s) oc(*s++); }
static void on(long v) {
  char b[24]; int i = 0; unsigned long u = v < 0 ? 0UL - (unsigned long)v : (unsigned long)v;
  if (v < 0) oc('-');
  do b[i++] = (char)('0' + u % 10); while (u /= 10);
  while (i) oc(b[--i]);
}
static void kv(const char *k, long v) { oc(' '); os(k); oc('='); on(v); }

/* ---- shared between parent and child ---- */
static long *sh; /* [0] stderr offset, [1] stdout offset */
static int efd, ofd;

static void drain(int fd, int ix, char tag) {
  char b[4096];
  ssize_t n;
  int any = 0;
  while ((n = pread(fd, b, sizeof b, sh[ix])) > 0) {
    sh[ix] += n;
    if (!any) { oc(tag); oc(' '); any = 1; }
    for (ssize_t i = 0; i < n; ++i) {
      if (b[i] == '\n') os("\\n");
      else if (b[i] == '\\') os("\\\\");
      else oc(b[i]);
    }
  }
  if (any) oc('\n');
}

/* ---- guarded access ---- */
static sigjmp_buf jb;
static volatile int guarded;
static void onsegv(int s) {
  if (guarded) siglongjmp(jb, 1);
  signal(s, SIG_DFL);
  raise(s);
}
static int peek(const char *p, unsigned char *v) {
  volatile int bad = 0;
  guarded = 1;
  if (!sigsetjmp(jb, 1)) *v = *(volatile const unsigned char *)p; else bad = 1;
  guarded = 0;
  return bad;
}
static int poke(char *p, unsigned char v) {
  volatile int bad = 0;
  guarded = 1;
  if (!sigsetjmp(jb, 1)) *(volatile unsigned char *)p = v; else bad = 1;
  guarded = 0;
  return bad;
}
/* a write far away must not get into another block: it stops in the first
 * inaccessible page on its way */
static char *reach(char *from, char *to) {
  if (!ar_in(from) || !ar_in(to)) return to;
  long a = (from - ar_base) / PG, b = (to - ar_base) / PG, d = b < a ? -1 : 1;
  for (; a != b; a += d) if (ar_cur[a] < 2) return ar_base + a * PG + (d > 0 ? 0 : PG - 1);
  return to;
}
static int same_poke(char *p) { /* write back what is there */
  volatile int bad = 0;
  guarded = 1;
  if (!sigsetjmp(jb, 1)) { volatile unsigned char *q = (volatile unsigned char *)p; *q = *q; } else bad = 1;
  guarded = 0;
  return bad;
}

/* ---- script state ---- */
#define MAXID 4096
static struct blk { char *a; unsigned long size; long seed; int isalloc; } B[MAXID];
static char files[16][12];
static int svar;
static TL int handler_calls;
static int handler_mode, handler_k;
static TL int handler_locked;

/* macro.cpp */
void mac_del(char *p);
void mac_adel(char *p);
void mac_free(void *p);
void *mac_malloc(size_t n);
void *mac_calloc(size_t n, size_t m);
void *mac_memalign(size_t a, size_t n);
int mac_posix(void **r, size_t a, size_t n);
void *mac_realloc(void *p, size_t n);
void *mac_valloc(size_t n);
char *mac_strdup(const char *s);
void *mac_new(size_t n);
void *mac_anew(size_t n);
size_t mac_usable(void *p);

static unsigned char pat(long seed, unsigned long i) { return (unsigned char)(seed * 37 + (long)i * 11 + (long)(i >> 8)); }
static long uniform(const char *p, const char *e) {
  if (p >= e) return -2;
  unsigned char v, w;
  if (peek(p, &v)) return -3;
  guarded = 1;
  volatile long r = v;
  if (!sigsetjmp(jb, 1)) { for (; p < e; ++p) { w = *(volatile const unsigned char *)p; if (w != v) { r = -1; break; } } }
  else r = -3;
  guarded = 0;
  return r;
}
static long fillpat(char *p, unsigned long n, long seed) {
  volatile long r = 0;
  guarded = 1;
  if (!sigsetjmp(jb, 1)) { for (unsigned long i = 0; i < n; ++i) ((volatile unsigned char *)p)[i] = pat(seed, i); } else r = 1;
  guarded = 0;
  return r;
}
/* leading bytes that carry the pattern; -3: fault */
static long prefix(const char *p, unsigned long n, long seed) {
  volatile long r = 0;
  volatile unsigned long i = 0;
  guarded = 1;
  if (!sigsetjmp(jb, 1)) { for (; i < n; i = i + 1) if (((volatile const unsigned char *)p)[i] != pat(seed, i)) break; r = (long)i; }
  else r = -3;
  guarded = 0;
  return r;
}
static long aoff(const void *p) {
  if (!p) return -1;
  if (!ar_in(p)) return -2;
  return (long)((const char *)p - ar_base);
}

/* pages that changed since the last snapshot */
static void diff_out(void) {
  long i, j;
  os(" d=");
  for (i = ar_lo; i < ar_hi; i = j) {
    for (j = i + 1; j < ar_hi && ar_cur[j] == ar_cur[i] && ar_old[j] == ar_old[i]; ++j) ;
    if (ar_cur[i] != ar_old[i]) { on(i); oc(':'); on(j); oc(':'); on(ar_old[i]); oc(':'); on(ar_cur[i]); oc(','); }
  }
  os(" u=");
  for (i = ar_lo; i < ar_hi; i = j) {
    for (j = i + 1; j < ar_hi && ar_un[j] == ar_un[i]; ++j) ;
    if (ar_un[i] > 1) { on(i); oc(':'); on(j); oc(':'); on(ar_un[i] - 1); oc(','); }
  }
}
static void diff_reset(void) {
  for (long i = ar_lo; i < ar_hi; ++i) { ar_old[i] = ar_cur[i]; ar_un[i] = 0; }
  ar_lo = ARENA_PAGES; ar_hi = 0;
}
#ifdef H_MT
static int fresh(const char *p, long *lo, long *hi);
static void snapshot(void) {}
static void post(void);
#else
/* interval of pages that became read/write in this op and contains p */
static int fresh(const char *p, long *lo, long *hi) {
  if (!ar_in(p)) return 0;
  long i = (p - ar_base) / (long)PG, a, b;
  if (!(ar_cur[i] == 2 && ar_old[i] != 2)) return 0;
  for (a = i; a > 0 && ar_cur[a - 1] == 2 && ar_old[a - 1] != 2; --a) ;
  for (b = i + 1; b < (long)ARENA_PAGES && ar_cur[b] == 2 && ar_old[b] != 2; ++b) ;
  *lo = a; *hi = b;
  return 1;
}
static void snapshot(void) {
  diff_reset();
  ar_mm = ar_mf = ar_pc = ar_uc = ar_uf = 0; ar_mlast = -1; ar_mapreq = 0;
  lk_touch = 0; handler_locked = 0;
}
static void post(void) {
  kv("rw", ar_rw); kv("mp", ar_mapped); kv("mm", ar_mm); kv("mf", ar_mf); kv("ml", ar_mlast); kv("mq", ar_mapreq); kv("uf", ar_uf);
  kv("tb", ar_in(_duma_g.allocList) ? ar_cur[((char *)_duma_g.allocList - ar_base) / PG] : -1);
  kv("lk", lk_held); kv("nl", lk_touch); kv("hl", handler_locked);
  if (early_on == 1) { kv("na", aoff(_duma_g.null_addr)); kv("al", _duma_g.allocList != 0); if (_duma_g.allocList) lk_on = 1; }
  diff_out();
  oc('\n');
  drain(efd, 0, 'M');
  drain(ofd, 1, 'O');
  oflush();
  snapshot();
}
#endif
static void scan_new(char *p, unsigned long size, int zero, int str) {
  long lo = -1, hi = -1;
  if (p && size && fresh(p, &lo, &hi)) {
    char *l = ar_base + lo * PG, *h = ar_base + hi * PG;
    kv("lo", lo); kv("hi", hi); kv("gl", lo ? ar_cur[lo - 1] : 0); kv("gh", ar_cur[hi]);
    kv("sb", uniform(l, p));
    if (p + size <= h) { kv("fv", str ? -5 : uniform(p, p + size)); kv("sa", uniform(p + size, h)); }
    else { kv("fv", -4); kv("sa", -4); }
  } else { kv("lo", -1); kv("hi", -1); kv("gl", ar_in(p) ? ar_cur[(p - ar_base) / PG] : 0); kv("gh", 0); kv("sb", -2); kv("fv", -2); kv("sa", -2); }
  (void)zero;
}

static void the_handler() {
  ++handler_calls;
  if (lk_held) handler_locked = 1;
  if (handler_mode == 4) { /* a handler that needs memory itself */
    long l = ar_mlast, f = ar_mf, m = ar_mm, q = ar_mapreq;
    ar_suspend = 1;
    void *t = ::operator new(24, std::nothrow);
    ::operator delete(t);
    ar_suspend = 0;
    ar_mlast = l; ar_mf = f; ar_mm = m; ar_mapreq = q;
    if (handler_calls >= handler_k) { ar_fail_after = -1; ar_limit = -1; }
  }
  if (handler_mode == 1) { if (handler_calls >= handler_k) { ar_fail_after = -1; ar_limit = -1; } }
  else if (handler_mode == 2) { if (handler_calls >= handler_k) throw std::bad_alloc(); }
  else if (handler_mode == 3) { if (handler_calls >= handler_k) std::set_new_handler(0); }
}

/* ---- parsing ---- */
static TL char *sp;
static long num(void) {
  while (*sp == ' ') ++sp;
  int neg = 0; unsigned long v = 0;
  if (*sp == '-') { neg = 1; ++sp; }
  while (*sp >= '0' && *sp <= '9') v = v * 10 + (unsigned long)(*sp++ - '0');
  return neg ? (long)(0UL - v) : (long)v;
}
static TL char word[32];
static void getword(void) {
  int i = 0;
  while (*sp == ' ') ++sp;
  while (*sp && *sp != ' ' && *sp != '\n' && i < 31) word[i++] = *sp++;
  word[i] = 0;
}
static int is(const char *w) { int i = 0; for (; w[i] && w[i] == word[i]; ++i) ; return !w[i] && !word[i]; }

static char *addr_of(long id, long delta) {
  char *a;
  switch (id) {
  case -1: a = 0; break;
  case -2: a = (char *)_duma_g.null_addr; break;
  case -3: a = (char *)&svar; break;
  case -4: a = (char *)_duma_g.allocList; break;
  case -5: a = (char *)(ar_base + 8 * PG); break; /* never mapped */
  default: a = (id >= 0 && id < MAXID) ? B[id].a : 0;
  }
  return a + delta;
}
static char srcstr[4 << 20];

static void do_alloc(void) {
  long id = num(); getword();
  unsigned long size = (unsigned long)num(), al = (unsigned long)num();
  long site = num(), seed = num();
  const char *file = files[site & 15]; int line = (int)site;
  void *p = 0; long rc = 0; int exc = 0, str = 0; unsigned long us = size;
  (void)file; (void)line;
  handler_calls = 0;
  if (is("malloc")) p = _duma_malloc(size FL);
  else if (is("macmalloc")) p = mac_malloc(size);
  else if (is("maccalloc")) { us = size * al; p = mac_calloc(size, al); }
  else if (is("macmemalign")) p = mac_memalign(al, size);
  else if (is("macposix")) { p = (void *)0x5; rc = mac_posix(&p, al, size); }
  else if (is("macvalloc")) p = mac_valloc(size);
  else if (is("gmalloc")) p = malloc(size);
  else if (is("calloc")) { us = size * al; p = _duma_calloc(size, al FL); }
  else if (is("gcalloc")) { us = size * al; p = calloc(size, al); }
  else if (is("memalign")) p = _duma_memalign(al, size FL);
  else if (is("gmemalign")) p = memalign(al, size);
  else if (is("posix")) { p = (void *)0x5; rc = _duma_posix_memalign(&p, al, size FL); }
  else if (is("gposix")) { p = (void *)0x5; rc = posix_memalign(&p, al, size); }
  else if (is("valloc")) p = _duma_valloc(size FL);
  else if (is("gvalloc")) p = valloc(size);
  else if (is("realloc0")) p = _duma_realloc(0, size FL);
  else if (is("grealloc0")) p = realloc(0, size);
  else if (is("strdup") || is("gstrdup") || is("macstrdup")) {
    str = 1;
    unsigned long n = size - 1;
    for (unsigned long i = 0; i < n; ++i) { unsigned char c = pat(seed + 1, i); srcstr[i] = (char)(c ? c : 1); }
    srcstr[n] = 0;
    p = is("strdup") ? _duma_strdup(srcstr FL) : is("macstrdup") ? mac_strdup(srcstr) : strdup(srcstr);
    long bad = 0;
    if (p) for (unsigned long i = 0; i <= n; ++i) { unsigned char v; if (peek((char *)p + i, &v) || v != (unsigned char)srcstr[i]) { bad = 1; break; } }
    kv("sd", bad);
  }
#ifndef H_NO_CPP
  else try {
    if (is("macnew")) p = mac_new(size);
    else if (is("macanew")) p = mac_anew(size);
    else if (is("new")) p = ::operator new(size);
    else if (is("newnt")) p = ::operator new(size, std::nothrow);
    else if (is("anew")) p = ::operator new[](size);
    else if (is("anewnt")) p = ::operator new[](size, std::nothrow);
#ifndef DUMA_NO_LEAKDETECTION
    else if (is("newfl")) p = ::operator new(size, file, line);
    else if (is("newntfl")) p = ::operator new(size, std::nothrow, file, line);
    else if (is("anewfl")) p = ::operator new[](size, file, line);
    else if (is("anewntfl")) p = ::operator new[](size, std::nothrow, file, line);
#endif
    else if (is("mnew")) p = _duma_allocate(0, size, _duma_g.TLS.PROTECT_BELOW, _duma_g.TLS.FILL, 1, EFA_MEMBER_NEW_ELEM, DUMA_FAIL_ENV FL);
    else if (is("manew")) p = _duma_allocate(0, size, _duma_g.TLS.PROTECT_BELOW, _duma_g.TLS.FILL, 1, EFA_MEMBER_NEW_ARRAY, DUMA_FAIL_ENV FL);
    else _exit(91);
  } catch (std::bad_alloc &) { exc = 1; p = 0; } catch (...) { exc = 2; p = 0; }
#endif
  {
    /* how far the new block's size is usable, as the allocator reports it, is asked by op U */
    int mmlast = ar_mlast; (void)mmlast;
    kv("r", aoff(p)); kv("rc", rc); kv("x", exc); kv("nc", handler_calls);
#ifndef H_NO_CPP
#ifdef H_MT
    std::new_handler h = mt_thread() ? (handler_mode ? the_handler : 0) : std::get_new_handler();   /* judged when nothing runs */
#else
    std::new_handler h = std::get_new_handler();
#endif
    kv("nh", h == the_handler ? 1 : h == 0 ? 0 : 2);
#endif
    scan_new((char *)p, us, us == 0, str);
    if (id >= 0 && id < MAXID) { B[id].a = (char *)p; B[id].size = us; B[id].seed = 0; }
    if (p && seed > 0 && ar_in(p) && us && us < ARENA_BYTES) {
      kv("wf", fillpat((char *)p, us, seed));
      B[id].seed = seed;
    } else kv("wf", -1);
  }
}
static void do_free(void) {
  long id = num(); getword();
  long site = num(), delta = num();
  const char *file = files[site & 15]; int line = (int)site;
  char *p = addr_of(id, delta);
  (void)file; (void)line;
  if (is("free")) _duma_free(p FL);
  else if (is("gfree")) free(p);
  else if (is("macfree")) mac_free(p);
  else if (is("realloc0")) { void *r = _duma_realloc(p, 0 FL); kv("rr", aoff(r)); }
  else if (is("grealloc0")) { void *r = realloc(p, 0); kv("rr", aoff(r)); }
#ifndef H_NO_CPP
  else if (is("macdel")) mac_del(p);
  else if (is("macadel")) mac_adel(p);
  else if (is("del")) ::operator delete(p);
  else if (is("delnt")) ::operator delete(p, std::nothrow);
  else if (is("adel")) ::operator delete[](p);
  else if (is("adelnt")) ::operator delete[](p, std::nothrow);
#ifndef DUMA_NO_LEAKDETECTION
  else if (is("delfl")) ::operator delete(p, file, line);
  else if (is("delntfl")) ::operator delete(p, std::nothrow, file, line);
  else if (is("adelfl")) ::operator delete[](p, file, line);
  else if (is("adelntfl")) ::operator delete[](p, std::nothrow, file, line);
#endif
  else if (is("mdel")) _duma_deallocate(p, 1, EFA_MEMBER_DEL_ELEM FL);
  else if (is("madel")) _duma_deallocate(p, 1, EFA_MEMBER_DEL_ARRAY FL);
#endif
  else _exit(90);
}
static void do_realloc(void) {
  long nid = num(), id = num(); getword();
  unsigned long size = (unsigned long)num(); long site = num(), seed = num(), delta = num();
  const char *file = files[site & 15]; int line = (int)site;
  (void)file; (void)line;
  char *p = addr_of(id, delta), *q;
  unsigned long osz = id >= 0 ? B[id].size : 0; long osd = id >= 0 ? B[id].seed : 0;
  q = (char *)(is("realloc") ? _duma_realloc(p, size FL) : is("macrealloc") ? mac_realloc(p, size) : realloc(p, size));
  kv("r", aoff(q));
  scan_new(q, size, 0, 0);
  if (q && osd > 0) {
    unsigned long m = osz < size ? osz : size;
    kv("pf", prefix(q, m, osd));
    kv("tv", uniform(q + m, q + size));
  } else { kv("pf", -9); kv("tv", q && size && osz < size && osz == 0 ? uniform(q, q + size) : -2); }
  if (nid >= 0) { B[nid].a = q; B[nid].size = size; B[nid].seed = 0; }
  if (q && seed > 0) { kv("wf", fillpat(q, size, seed)); B[nid].seed = seed; } else kv("wf", -1);
}

static int run_op2(char *line);
static int run_op(char *line) {
  in_op = 1;
  int r = run_op2(line);
  in_op = 0;
  return r;
}
static int run_op2(char *line) {
  sp = line;
  getword();
  if (is("A")) do_alloc();
  else if (is("F")) do_free();
  else if (is("R")) do_realloc();
  else if (is("W")) { long id = num(), off = num(), v = num(); char *q = reach(addr_of(id, 0), addr_of(id, off)); kv("s", poke(q, (unsigned char)v)); kv("a", aoff(q)); }
  else if (is("P")) { long id = num(), off = num(), w = num(); unsigned char v = 0; kv("s", w ? same_poke(addr_of(id, off)) : peek(addr_of(id, off), &v)); kv("a", aoff(addr_of(id, off))); }
  else if (is("K")) { long id = num(), d = num(); duma_check(addr_of(id, d)); }
  else if (is("KA")) duma_checkAll();
  else if (is("i")) {
#ifdef DUMA_EXPLICIT_INIT
    duma_init();
#endif
    _duma_init();
  }
  else if (is("U")) {
    long id = num(), d = num(); getword(); const char *file = files[1]; int line = 1; (void)file; (void)line;
    kv("us", (long)(is("g") ? malloc_usable_size(addr_of(id, d)) : is("m") ? mac_usable(addr_of(id, d)) : _duma_malloc_usable_size(addr_of(id, d) FL)));
  }
  else if (is("T")) { long id = num(), sd = num(); kv("wf", fillpat(B[id].a, B[id].size, sd)); B[id].seed = sd; }
  else if (is("V")) { long id = num(); kv("pf", prefix(B[id].a, B[id].size, B[id].seed)); }
  else if (is("S")) {
    getword(); long v = num();
    if (is("align")) _duma_g.TLS.ALIGNMENT = (int)v;
    else if (is("below")) _duma_g.TLS.PROTECT_BELOW = (int)v;
    else if (is("fill")) _duma_g.TLS.FILL = (int)v;
    else _exit(89);
  }
  else if (is("I")) { ar_fail_after = (int)num(); ar_fail_count = (int)num(); }
  else if (is("J")) { long v = num(); ar_limit = v < 0 ? -1 : ar_mapped + v; }
  else if (is("IP")) ar_pfail_after = (int)num();
  else if (is("IU")) ar_ufail = (int)num();
  else if (is("H")) ar_passthru = num();
#ifndef H_NO_CPP
  else if (is("N")) { handler_mode = (int)num(); handler_k = (int)num(); std::set_new_handler(handler_mode ? the_handler : 0); }
#endif
#ifndef DUMA_NO_LEAKDETECTION
  else if (is("L")) DUMA_delFrame();
#endif
  else if (is("X")) { oc('\n'); oflush(); exit(0); }
  else _exit(88);
  return 0;
}

#ifdef H_TSAN
static void lib_variables(void) {   /* file named by H_VARS: lines "address size", hexadecimal */
  char b[16384]; unsigned long v[2]; int i = 0, k = 0;
  int fd = -1;
  for (char **e = environ; *e; ++e) if ((*e)[0] == 'H' && (*e)[1] == '_' && (*e)[2] == 'V' && (*e)[3] == 'A') { char *q = *e; while (*q != '=') ++q; fd = open(q + 1, O_RDONLY); }
  if (fd < 0) _exit(86);
  ssize_t n = read(fd, b, sizeof b - 1); close(fd);
  v[0] = v[1] = 0;
  for (i = 0; i < n; ++i) {
    char c = b[i];
    if (c == ' ') k = 1;
    else if (c == '\n') { lv[nlv][0] = v[0]; lv[nlv][1] = v[0] + v[1]; if (nlv < 255) ++nlv; v[0] = v[1] = 0; k = 0; }
    else v[k] = v[k] * 16 + (unsigned long)(c >= 'a' ? c - 'a' + 10 : c - '0');
  }
}
#endif
#ifndef H_MT
static char scripts[64 << 20];
/* early 0: called from main; 1: called before the library was initialised, the
 * scripts start with the first call; 2: like 1, after initialising the library */
static void run_all(char **argv, int early) {
  int noenv = early == 3;
  if (noenv) early = 1;
  int fd = open(argv[1], O_RDONLY);
  size_t n = 0; ssize_t k;
  while ((k = read(fd, scripts + n, sizeof scripts - 1 - n)) > 0) n += (size_t)k;
  close(fd);
  scripts[n] = 0;
  tfd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  for (int i = 0; i < 16; ++i) { const char *t = "src_0.c"; int j = 0; for (; t[j]; ++j) files[i][j] = t[j]; files[i][j] = 0; files[i][4] = (char)('a' + i); }
  sh = (long *)ar_raw_mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS);
  efd = open(argv[3], O_CREAT | O_RDWR | O_APPEND, 0644);
  ofd = open(argv[4], O_CREAT | O_RDWR | O_APPEND, 0644);
  /* what was printed before main (banner, construction) is in these files already
   * when the caller redirected 1 and 2 to them */
  ar_init();
#ifdef H_TSAN
  lib_variables();
#endif
  early_on = early;
  if (early == 2) _duma_init();
#ifdef DUMA_EXPLICIT_INIT
  if (early != 1) duma_init();
#endif
  lk_on = early != 1;
  oc('B'); os(" base="); on((long)ar_base); kv("rw", ar_rw); kv("mp", ar_mapped); kv("na", aoff(_duma_g.null_addr));
  kv("tb", ar_in(_duma_g.allocList) ? ar_cur[((char *)_duma_g.allocList - ar_base) / PG] : -1); oc('\n');
  drain(efd, 0, 'M'); drain(ofd, 1, 'O'); oflush();
  static char altst[1 << 16];
  stack_t ss; ss.ss_sp = altst; ss.ss_flags = 0; ss.ss_size = sizeof altst;
  sigaltstack(&ss, 0);
  struct sigaction sa;
  for (unsigned i = 0; i < sizeof sa; ++i) ((char *)&sa)[i] = 0;
  sa.sa_handler = onsegv; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);

  char *p = scripts;
  while (*p) {
    char *e = p; while (*e && *e != '\n') ++e;
    if (*e) *e++ = 0;
    if (*p != 'S') { p = e; continue; }
    /* header: S name policy */
    os("S "); os(p + 2); oc('\n'); oflush();
    char *hdr = p, *body = e, *q = e;
    while (*q && !(q[0] == 'E' && (q[1] == '\n' || !q[1]))) { while (*q && *q != '\n') ++q; if (*q) ++q; }
    char *next = q; while (*next && *next != '\n') ++next; if (*next) ++next;
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      if (noenv) environ = 0;      /* as before the C library is up, or after clearenv() */
      sp = hdr + 2; getword(); ar_policy = (int)num();
      snapshot();
#ifndef DUMA_NO_LEAKDETECTION
      if (early != 1) DUMA_delFrame();
#endif
      oc('b'); os(" acc=");
      for (long i = 0, j; i < (long)ARENA_PAGES; i = j) {
        for (j = i + 1; j < (long)ARENA_PAGES && ar_cur[j] == ar_cur[i]; ++j) ;
        if (ar_cur[i] >= 2) { on(i); oc(':'); on(j); oc(','); }
      }
      post();
      char *l = body;
      while (l < q) {
        char *le = l; while (le < q && *le != '\n') ++le;
        char save = *le; *le = 0;
        os("> "); os(l); oc('\n'); oflush();
        oc('<');
        run_op(l);
        post();
        *le = save;
        l = le < q ? le + 1 : q;
      }
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    os("Z"); kv("mm", ar_mm); kv("mf", ar_mf); kv("ml", ar_mlast); kv("mq", ar_mapreq); kv("uf", ar_uf); kv("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0); kv("code", WIFEXITED(st) ? WEXITSTATUS(st) : -1); oc('\n');
    drain(efd, 0, 'M'); drain(ofd, 1, 'O'); oflush();
    p = next;
  }
  _exit(0);
}
__attribute__((constructor(101))) static void before_all(int argc, char **argv, char **envp) {
  for (char **e = envp; *e; ++e) {
    const char *n = "H_EARLY="; int i = 0;
    while (n[i] && (*e)[i] == n[i]) ++i;
    if (!n[i] && argc >= 5) run_all(argv, (*e)[i] - '0');
  }
}
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  run_all(argv, 0);
}
#endif
