/* Multi-threaded script interpreter. The threads of a script run one at a time;
 * a schedule written in the script says at which points control moves on.
 * Script: S name policy threads / P op (main thread, before) / t <thread> op /
 *   c <thread> <class> <k>: run that thread up to its k-th point of the class
 *   (0: any point) / Q op (main thread, after the others) / E
 * Trace: "> thread op" call, "C thread ..." end of a critical section with the
 * pages changed in it, "< thread ..." return; L the log of lock and bookkeeping
 * events. */
#define H_MT 1
#include "seq.cpp"
#include <linux/futex.h>

#define MAXT 4
#define MAIN MAXT
#define MAXSEG 64
#define LOGMAX 60000

struct lev { unsigned char t, k; short a; };
static struct shared {
  volatile int cur, nlog, overflow;
  struct lev log[LOGMAX];
} *S;
static long *cnts;                      /* mmap counters of the threads */
static struct seg { int t, cls; long k; } seg[MAXSEG + 1];
static int nseg, iseg, nthr, mt_on;
static volatile int go[MAXT + 1], fin[MAXT], blk_[MAXT];
static TL int me = -1;
static int mt_thread(void) { return me >= 0; }
static TL int spin;
static char *ops[MAXT][256];
static int nops[MAXT];
static TL long ups[16][2];
static TL int nups;
static TL char mbuf[1 << 14];
static TL size_t mlen;

static void fwait(volatile int *w) {
  while (!*w) syscall(SYS_futex, w, FUTEX_WAIT, 0, 0, 0, 0);
  *w = 0;
}
static void fwake(volatile int *w) { *w = 1; syscall(SYS_futex, w, FUTEX_WAKE, 1, 0, 0, 0); }

static void mt_event(int kind, long arg) {
  if (!mt_on || me < 0) return;
  if (kind == E_TABLE || kind == E_WRITE || kind == E_PAGE || kind == E_BLOCK) {
    if (S->nlog && S->log[S->nlog - 1].t == me && S->log[S->nlog - 1].k == kind) return;
    if ((kind == E_TABLE || kind == E_WRITE) && S->nlog > 1 && S->log[S->nlog - 2].t == me && S->log[S->nlog - 2].k == kind &&
        S->log[S->nlog - 1].t == me && (S->log[S->nlog - 1].k == E_TABLE || S->log[S->nlog - 1].k == E_WRITE)) return;
  }
  if (S->nlog >= LOGMAX) { S->overflow = 1; return; }
  S->log[S->nlog].t = (unsigned char)me; S->log[S->nlog].k = (unsigned char)kind; S->log[S->nlog].a = (short)arg;
  ++S->nlog;
}
/* what the library printed since the last look belongs to the running thread */
static void keep_messages(void) {
  char b[4096]; ssize_t n;
  while ((n = pread(efd, b, sizeof b, sh[0])) > 0) {
    sh[0] += n;
    for (ssize_t i = 0; i < n && mlen < sizeof mbuf - 4; ++i) {
      if (b[i] == '\n') { mbuf[mlen++] = '\\'; mbuf[mlen++] = 'n'; }
      else if (b[i] == '\\') { mbuf[mlen++] = '\\'; mbuf[mlen++] = '\\'; }
      else mbuf[mlen++] = b[i];
    }
  }
}
static int runnable(int t) { return t < nthr && !fin[t] && !blk_[t]; }
/* the thread that runs next; -1: all finished, -2: all wait */
static int next_thread(void) {
  for (++iseg; iseg < nseg; ++iseg) if (runnable(seg[iseg].t)) return seg[iseg].t;
  iseg = nseg; seg[nseg].k = -1;
  int any = 0;
  for (int t = 0; t < nthr; ++t) { if (runnable(t)) { seg[nseg].t = t; return t; } if (!fin[t]) any = 1; }
  return any ? -2 : -1;
}
static void switch_next(int wait) {
  keep_messages();
  int n = next_thread();
  if (n == -2) { mt_event(E_DEADLOCK, 0); _exit(77); }
  if (n == me) return;
  int to = n < 0 ? MAIN : n;
  S->cur = to;
  fwake(&go[to]);
  if (wait) { fwait(&go[me]); S->cur = me; }
}
static void mt_yield(int cls) {
  if (!mt_on || me < 0) return;
  if (cls != Y_TRY && cls != Y_MEM && cls != Y_UMEM) spin = 0;
  else if (cls == Y_TRY && ++spin > 200) { blk_[me] = 1; switch_next(1); spin = 0; }
  struct seg *s = &seg[iseg];
  if (s->t != me || s->k < 0) return;
  if (s->cls == 0 ? cls == Y_MEM || cls == Y_UMEM : s->cls != cls) return;
  if (--s->k > 0) return;
  switch_next(1);
}
/* the library looks at the C++ new handler by replacing it */
extern "C" std::new_handler __real__ZSt15set_new_handlerPFvvE(std::new_handler);
extern "C" std::new_handler __wrap__ZSt15set_new_handlerPFvvE(std::new_handler h) {
  mt_yield(Y_HANDLER);
  return __real__ZSt15set_new_handlerPFvvE(h);
}
static void mt_blocked(void) {
  if (!mt_on || me < 0) { _exit(78); }
  blk_[me] = 1;
  switch_next(1);
}
static void mt_unlocked(void) { for (int t = 0; t < MAXT; ++t) blk_[t] = 0; }

static void post_counts(void) {
  kv("rw", ar_rw); kv("mp", ar_mapped); kv("mm", ar_mm); kv("mf", ar_mf); kv("ml", ar_mlast); kv("mq", ar_mapreq); kv("uf", ar_uf);
  kv("tb", ar_in(_duma_g.allocList) ? ar_cur[((char *)_duma_g.allocList - ar_base) / PG] : -1);
}
static void mt_endcs(void) {
  if (!mt_on) return;
  size_t keep = olen;
  for (long i = ar_lo, j; i < ar_hi; i = j) {
    int n = ar_cur[i] == 2 && ar_old[i] != 2;
    for (j = i + 1; j < ar_hi && (ar_cur[j] == 2 && ar_old[j] != 2) == n; ++j) ;
    if (n && nups < 16) { ups[nups][0] = i; ups[nups][1] = j; ++nups; }
  }
  if (olen > sizeof obuf / 2) _exit(85);
  oc('C'); kv("t", me); post_counts(); diff_out(); oc('\n');
  if (write(tfd, obuf + keep, olen - keep) != (ssize_t)(olen - keep)) _exit(92);
  olen = keep;
  diff_reset();
}
static int fresh(const char *p, long *lo, long *hi) {
  if (!ar_in(p)) return 0;
  long i = (p - ar_base) / (long)PG;
  for (int k = 0; k < nups; ++k) if (ups[k][0] <= i && i < ups[k][1]) { *lo = ups[k][0]; *hi = ups[k][1]; return 1; }
  return 0;
}
static void post(void) { }
static void one_op(char *l) {
  os("> "); on(me); oc(' '); os(l); oc('\n'); oflush();
  ar_mm = ar_mf = ar_pc = ar_uc = ar_uf = 0; ar_mlast = -1; ar_mapreq = 0;
  lk_touch = 0; handler_locked = 0; nups = 0;
  mt_yield(Y_CALL);
  mt_event(E_CALL, 0);
  os("< "); on(me);
  run_op(l);
  mt_event(E_RET, 0);
  kv("lk", lk_held); kv("nl", lk_touch); kv("hl", handler_locked); kv("mm", ar_mm); kv("mf", ar_mf); kv("ml", ar_mlast); kv("mq", ar_mapreq); kv("uf", ar_uf);
  keep_messages();
  if (mlen) { os("\nM "); for (size_t i = 0; i < mlen; ++i) oc(mbuf[i]); mlen = 0; }
  oc('\n'); oflush();
  mt_yield(Y_RET);
}
static void *thread(void *arg) {
  me = (int)(long)arg;
  static char st[MAXT][1 << 15];
  stack_t ss; ss.ss_sp = st[me]; ss.ss_flags = 0; ss.ss_size = sizeof st[me];
  sigaltstack(&ss, 0);
  ar_sh = cnts + me * 16;
  fin[me] = 2;                          /* ready */
  fwait(&go[me]);
  S->cur = me;
  for (int i = 0; i < nops[me]; ++i) one_op(ops[me][i]);
  fin[me] = 1;
  switch_next(0);
  for (;;) syscall(SYS_pause);
}
static char scripts[64 << 20];
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  int fd = open(argv[1], O_RDONLY);
  size_t n = 0; ssize_t k;
  while ((k = read(fd, scripts + n, sizeof scripts - 1 - n)) > 0) n += (size_t)k;
  close(fd);
  scripts[n] = 0;
  tfd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  for (int i = 0; i < 16; ++i) { const char *t = "src_0.c"; int j = 0; for (; t[j]; ++j) files[i][j] = t[j]; files[i][j] = 0; files[i][4] = (char)('a' + i); }
  sh = (long *)ar_raw_mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS);
  S = (struct shared *)ar_raw_mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS);
  efd = open(argv[3], O_CREAT | O_RDWR | O_APPEND, 0644);
  ofd = open(argv[4], O_CREAT | O_RDWR | O_APPEND, 0644);
  ar_init();
  cnts = (long *)ar_raw_mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS);
#ifdef H_TSAN
  lib_variables();
#endif
#ifdef DUMA_EXPLICIT_INIT
  duma_init();
#endif
  lk_on = 1;
  oc('B'); os(" base="); on((long)ar_base); kv("rw", ar_rw); kv("mp", ar_mapped); kv("na", aoff(_duma_g.null_addr));
  kv("tb", ar_in(_duma_g.allocList) ? ar_cur[((char *)_duma_g.allocList - ar_base) / PG] : -1); oc('\n');
  drain(efd, 0, 'M'); drain(ofd, 1, 'O'); oflush();
  static char altst[1 << 16];
  stack_t ss; ss.ss_sp = altst; ss.ss_flags = 0; ss.ss_size = sizeof altst;
  sigaltstack(&ss, 0);
  struct sigaction sa;
  for (unsigned i = 0; i < sizeof sa; ++i) ((char *)&sa)[i] = 0;
  sa.sa_handler = onsegv; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);

  char *p = scripts;
  while (*p) {
    char *e = p; while (*e && *e != '\n') ++e;
    if (*e) *e++ = 0;
    if (*p != 'S') { p = e; continue; }
    os("S "); os(p + 2); oc('\n'); oflush();
    char *hdr = p, *body = e, *q = e;
    while (*q && !(q[0] == 'E' && (q[1] == '\n' || !q[1]))) { while (*q && *q != '\n') ++q; if (*q) ++q; }
    char *next = q; while (*next && *next != '\n') ++next; if (*next) ++next;
    S->nlog = 0; S->overflow = 0; S->cur = -1;
    pid_t pid = fork();
    if (pid == 0) {
      alarm(30);
      sp = hdr + 2; getword(); ar_policy = (int)num(); nthr = (int)num();
      if (nthr < 1 || nthr > MAXT) _exit(84);
      char *pre[512], *suf[512]; int npre = 0, nsuf = 0;
      for (char *l = body; l < q; ) {
        char *le = l; while (le < q && *le != '\n') ++le;
        *le = 0;
        if (*l == 'P' && npre < 512) pre[npre++] = l + 2;
        else if (*l == 'Q' && nsuf < 512) suf[nsuf++] = l + 2;
        else if (*l == 't') { int t = l[2] - '0'; if (t >= 0 && t < nthr && nops[t] < 256) ops[t][nops[t]++] = l + 4; }
        else if (*l == 'c' && nseg < MAXSEG) { sp = l + 2; seg[nseg].t = (int)num(); seg[nseg].cls = (int)num(); seg[nseg].k = num(); ++nseg; }
        l = le + 1;
      }
      for (int t = 0; t < nthr; ++t) {
        pthread_t th;
        if (pthread_create(&th, 0, thread, (void *)(long)t)) _exit(83);
        while (fin[t] != 2) syscall(SYS_sched_yield);
        fin[t] = 0;
      }
      diff_reset();
#ifndef DUMA_NO_LEAKDETECTION
      DUMA_delFrame();
#endif
      oc('b'); os(" acc=");
      for (long i = 0, j; i < (long)ARENA_PAGES; i = j) {
        for (j = i + 1; j < (long)ARENA_PAGES && ar_cur[j] == ar_cur[i]; ++j) ;
        if (ar_cur[i] >= 2) { on(i); oc(':'); on(j); oc(','); }
      }
      post_counts(); diff_out(); oc('\n'); drain(efd, 0, 'M'); drain(ofd, 1, 'O'); oflush();
      ar_sh = cnts + MAIN * 16;
      mt_on = 1;
      for (int i = 0; i < npre; ++i) one_op(pre[i]);
      iseg = -1;
      int f = next_thread();
      if (f >= 0) { S->cur = f; fwake(&go[f]); fwait(&go[MAIN]); }
      S->cur = -1;
      for (int i = 0; i < nsuf; ++i) one_op(suf[i]);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    os("Z"); kv("cur", S->cur); kv("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0); kv("code", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    { long *c = cnts + (S->cur < 0 || S->cur > MAXT ? MAIN : S->cur) * 16; kv("mm", c[1]); kv("mf", c[2]); kv("ml", c[3]); kv("mq", c[7]); kv("uf", c[6]); }
    oc('\n');
    drain(efd, 0, 'M'); drain(ofd, 1, 'O');
    os("L "); on(S->overflow); oc(' ');
    for (int i = 0; i < S->nlog; ++i) { on(S->log[i].t); oc(':'); on(S->log[i].k); oc(':'); on(S->log[i].a); oc(','); }
    oc('\n'); oflush();
    p = next;
  }
  _exit(0);
}
