/* Simulator runtime: libc interposition for virtual files, pipes, time, CPUs and a deterministic
 * thread scheduler. Linked statically into every simulated executable, so that Rust's std, rayon and
 * crossbeam run on it unmodified. Never uses a random source or a real clock of its own. */
#define _GNU_SOURCE
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define VFD 1000000
#define NVFD 64
#define MAXT 600
#define EXIT_SIM 97

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static long raw(long n, long a, long b, long c) { return raw6(n, a, b, c, 0, 0, 0); }
static long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

static SimPlan  nullplan;
static SimPlan *P = &nullplan;
static int      cli;         /* whole-process simulation */
static int      active;      /* virtual files are served */
static uint8_t *A_cov, *A_trace, *A_stdout, *A_stderr, *A_stdin, *A_file, *A_block;
static uint8_t  cov_local[SIM_COV];
static uint64_t fops, rng;
static int      seeded;
static uint32_t ich_read, ich_stdin, ich_stdout;

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);

/* ------------------------------------------------------------------ trace */
static void tr(const char *what, uint64_t a, uint64_t b) {
  uint64_t h = P->trace_hash ? P->trace_hash : 1469598103934665603ull;
  for (const char *p = what; *p; p++) h = (h ^ (uint8_t)*p) * 1099511628211ull;
  for (int i = 0; i < 8; i++) h = (h ^ ((a >> (8 * i)) & 255)) * 1099511628211ull;
  for (int i = 0; i < 8; i++) h = (h ^ ((b >> (8 * i)) & 255)) * 1099511628211ull;
  P->trace_hash = h;
  if (P->trace_on && A_trace && P->trace_len + 96 < P->cap_trace)
    P->trace_len += (uint64_t)snprintf((char *)A_trace + P->trace_len, 96, "%s %llu %llu @%llu\n", what,
                                       (unsigned long long)a, (unsigned long long)b, (unsigned long long)P->steps);
}
static void sim_exit(uint32_t reason) {
  P->reason = reason;
  P->done = 1;
  raw(SYS_exit_group, EXIT_SIM, 0, 0);
  __builtin_unreachable();
}

/* -------------------------------------------------------------- scheduler */
enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
typedef struct {
  int state;
  volatile uint32_t gate;
  uint32_t *addr;
  uint32_t bitset;
  int join_on, timedout, timed;
  uint64_t wake_at, seq;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
} Thr;
static Thr T[MAXT];
static int nthr = 1, cur = 0, multi = 0, live = 1;
static uint64_t waitseq;
static uint32_t ipre, idec;
static uint64_t next_pre = UINT64_MAX;
static __thread int self_id = 0;
static pthread_key_t exit_key;
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static void gate_wait(int t) {
  while (__atomic_load_n(&T[t].gate, __ATOMIC_ACQUIRE) == 0)
    raw6(SYS_futex, (long)&T[t].gate, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&T[t].gate, 0, __ATOMIC_RELEASE);
}
static void gate_open(int t) {
  __atomic_store_n(&T[t].gate, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&T[t].gate, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static int decision(uint32_t *out) {
  if (idec < P->ndec) { *out = P->dec[idec++]; P->decisions = idec; return 1; }
  return 0;
}
/* the runnable thread to go on with; advances the virtual clock when only sleepers are left */
static int pick(int may_stay) {
  int run[MAXT], n;
  for (;;) {
    n = 0;
    for (int k = may_stay ? 0 : 1; k <= nthr - (may_stay ? 1 : 0); k++) {
      int t = (cur + k) % nthr;
      if (T[t].state == T_RUN) run[n++] = t;
    }
    if (n) break;
    uint64_t best = UINT64_MAX; int bt = -1;
    for (int t = 0; t < nthr; t++)
      if ((T[t].state == T_SLEEP || (T[t].state == T_FUTEX && T[t].timed)) && T[t].wake_at < best) { best = T[t].wake_at; bt = t; }
    if (bt < 0) { tr("deadlock", (uint64_t)cur, 0); sim_exit(2); }
    if (P->vclock_ns < best) P->vclock_ns = best;
    T[bt].timedout = T[bt].state == T_FUTEX;
    T[bt].state = T_RUN;
  }
  uint32_t d;
  if (n == 1) return run[0];
  if (decision(&d)) return run[d % (uint32_t)n];
  return run[0];
}
static void switch_to(int t) {
  int me = self_id;
  if (t == me) return;
  P->switches++;
  tr("switch", (uint64_t)me, (uint64_t)t);
  cur = t;
  gate_open(t);
  gate_wait(me);
}
static void bump(uint64_t k) {
  P->steps += k;
  if (P->steps > P->step_limit) { tr("step-limit", P->steps, 0); sim_exit(1); }
}
/* the running thread cannot go on */
static void block(void) { bump(16); switch_to(pick(0)); }
/* a point where another thread may be preferred */
static void maybe_switch(void) {
  if (!multi) return;
  bump(16);
  uint32_t d;
  if (decision(&d) && d < 96) switch_to(pick(1));
}
static SimFault *next_op(uint32_t op);
static void set_next_pre(void) { next_pre = ipre < P->npre ? P->pre[ipre] : UINT64_MAX; }
static void __attribute__((noinline)) slow_step(void) {
  if (P->steps > P->step_limit) { tr("step-limit", P->steps, 0); sim_exit(1); }
  if (multi && self_id == cur) {
    while (ipre < P->npre && P->pre[ipre] <= P->steps) ipre++;
    set_next_pre();
    P->preempted++;
    P->fired[OP_THREAD][K_PREEMPT]++;
    tr("preempt", (uint64_t)self_id, P->steps);
    if (live > 1) { /* prefer somebody else */
      int any = 0;
      for (int t = 0; t < nthr; t++) any |= t != cur && T[t].state == T_RUN;
      if (any) switch_to(pick(0));
    }
  }
}
static uint64_t stop_at = UINT64_MAX; /* min(step_limit+1, next_pre) while relevant */
static void recompute_stop(void) {
  uint64_t l = P->step_limit == UINT64_MAX ? UINT64_MAX : P->step_limit + 1;
  stop_at = (multi && next_pre < l) ? next_pre : l;
}
static inline void step(void) {
  if (__builtin_expect(++P->steps >= stop_at, 0)) { slow_step(); recompute_stop(); }
}

#define EXPORT __attribute__((visibility("default"), used))
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  static uint32_t k;
  for (; a < b; a++) if (!*a) *a = ++k;
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  uint8_t *c = &A_cov[*g & (SIM_COV - 1)];
  if (*c < 255) (*c)++;
  step();
}
#define LS(x) EXPORT void __sanitizer_cov_load##x(void *p) { (void)p; step(); } \
              EXPORT void __sanitizer_cov_store##x(void *p) { (void)p; step(); }
LS(1) LS(2) LS(4) LS(8) LS(16)
/* load/store of other sizes are not reported by the pass */

static void thread_end(void *v) {
  (void)v;
  int me = self_id;
  if (!cli || me == 0) return;
  T[me].state = T_DONE;
  live--;
  tr("exit", (uint64_t)me, 0);
  for (int t = 0; t < nthr; t++) if (T[t].state == T_JOIN && T[t].join_on == me) T[t].state = T_RUN;
  if (live == 1) { P->multi_to = P->steps; }
  int n = pick(0);
  cur = n;
  P->switches++;
  gate_open(n);
}
static void *trampoline(void *v) {
  int me = (int)(intptr_t)v;
  self_id = me;
  gate_wait(me);
  pthread_setspecific(exit_key, (void *)1);
  return T[me].fn(T[me].arg);
}
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!cli) return real_create(t, a, fn, arg);
  SimFault *f = next_op(OP_SPAWN);
  if (nthr >= MAXT || (f && f->kind == K_ENOMEM)) return EAGAIN;
  int id = nthr;
  T[id].state = T_RUN; T[id].gate = 0; T[id].fn = fn; T[id].arg = arg;
  int r = real_create(t, a, trampoline, (void *)(intptr_t)id);
  if (r) { T[id].state = T_FREE; return r; }
  T[id].pt = *t;
  nthr++; live++;
  P->nthreads = (uint64_t)nthr;
  if (!multi) { multi = 1; P->multi_from = P->steps; set_next_pre(); }
  recompute_stop();
  tr("spawn", (uint64_t)self_id, (uint64_t)id);
  maybe_switch();
  return 0;
}
EXPORT int pthread_join(pthread_t pt, void **rv) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (cli) {
    for (int t = 0; t < nthr; t++)
      if (T[t].state != T_FREE && T[t].pt && pthread_equal(T[t].pt, pt)) {
        if (T[t].state != T_DONE) { T[self_id].state = T_JOIN; T[self_id].join_on = t; block(); }
        T[t].pt = 0;
        break;
      }
  }
  return real_join(pt, rv);
}
EXPORT int sched_yield(void) {
  if (!cli) return (int)ret(raw(SYS_sched_yield, 0, 0, 0));
  if (multi) { bump(16); P->vclock_ns += 1000; switch_to(pick(0 /* somebody else first */)); }
  return 0;
}

static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t bits) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { maybe_switch(); errno = EAGAIN; return -1; }
    SimFault *f = next_op(OP_THREAD);
    if (f && f->kind == K_SHORT) { /* woken up without a reason */
      if (multi) switch_to(pick(0));
      return 0;
    }
    Thr *me = &T[self_id];
    me->state = T_FUTEX; me->addr = addr; me->bitset = cmd == FUTEX_WAIT ? FUTEX_BITSET_MATCH_ANY : bits;
    me->timedout = 0; me->timed = ts != NULL; me->seq = ++waitseq;
    if (ts) {
      uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
      me->wake_at = cmd == FUTEX_WAIT ? P->vclock_ns + t : t;
    }
    tr("wait", (uint64_t)self_id, me->timed);
    block();
    if (me->timedout) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t b = cmd == FUTEX_WAKE ? FUTEX_BITSET_MATCH_ANY : bits, n = 0;
    while (n < val) {
      int cand[MAXT], nc = 0;
      for (int t = 0; t < nthr; t++)
        if (T[t].state == T_FUTEX && T[t].addr == addr && (T[t].bitset & b)) cand[nc++] = t;
      if (!nc) break;
      int best = cand[0];
      uint32_t d;
      if (nc > 1 && n + 1 <= val && val != INT_MAX && decision(&d)) best = cand[d % (uint32_t)nc];
      else for (int i = 1; i < nc; i++) if (T[cand[i]].seq < T[best].seq) best = cand[i];
      T[best].state = T_RUN; T[best].timedout = 0;
      n++;
    }
    tr("wake", (uint64_t)self_id, n);
    if (n) maybe_switch();
    return n;
  }
  errno = ENOSYS;
  return -1;
}

static void fill_random(uint8_t *p, size_t n) {
  for (size_t i = 0; i < n; i++) {
    rng += 0x9e3779b97f4a7c15ull;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    p[i] = (uint8_t)(z ^ (z >> 31));
  }
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!cli && !seeded) return ret(raw(SYS_getrandom, (long)b, (long)n, (long)f));
  fill_random(b, n);
  return (ssize_t)n;
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_getrandom && (cli || seeded)) { fill_random((uint8_t *)a, (size_t)b); return b; }
  if (cli) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    if (n == SYS_sched_yield) return sched_yield();
    if (n == SYS_gettid) return gettid();
    if (n == SYS_getpid) return getpid();
  }
  return ret(raw6(n, a, b, c, d, e, f));
}

/* ----------------------------------------------------------------- memory */
/* Whole processes only: the nth allocation fails; with an argument, so do all later ones of at least that size.
   With a limit, allocations fail that would take the process beyond it. */
static int no_memory_for(size_t n, size_t more) {
  if (!cli || self_id != cur) return 0;
  uint64_t k = P->nops[OP_ALLOC]++;
  int fails = P->mem_limit && P->heap + (int64_t)more > (int64_t)P->mem_limit;
  for (uint32_t i = 0; i < P->nfaults; i++)
    fails |= P->faults[i].op == OP_ALLOC &&
             (P->faults[i].arg ? P->faults[i].nth <= k && n >= P->faults[i].arg : P->faults[i].nth == k);
  if (!fails) return 0;
  P->fired[OP_ALLOC][K_ENOMEM]++;
  tr("no-memory", n, k);
  errno = ENOMEM;
  return 1;
}
static int no_memory(size_t n) { return no_memory_for(n, n); }
extern size_t malloc_usable_size(void *);
extern void __libc_free(void *);
static void *held(void *p, size_t before) {
  if (!cli) return p;
  int64_t h = __atomic_add_fetch(&P->heap, p ? (int64_t)malloc_usable_size(p) - (int64_t)before : 0, __ATOMIC_RELAXED);
  if (h > P->heap_peak) P->heap_peak = h;
  return p;
}
EXPORT void *malloc(size_t n) { return no_memory(n) ? NULL : held(__libc_malloc(n), 0); }
EXPORT void *calloc(size_t a, size_t b) { return no_memory(a * b) ? NULL : held(__libc_calloc(a, b), 0); }
EXPORT void *realloc(void *p, size_t n) {
  size_t before = cli && p ? malloc_usable_size(p) : 0;
  if (n && no_memory_for(n, n > before ? n - before : 0)) return NULL;
  void *q = __libc_realloc(p, n);
  if (q) return held(q, before);
  if (!n && cli) __atomic_sub_fetch(&P->heap, (int64_t)before, __ATOMIC_RELAXED);
  return NULL;
}
EXPORT void free(void *p) {
  if (cli && p) __atomic_sub_fetch(&P->heap, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED);
  __libc_free(p);
}
EXPORT int posix_memalign(void **p, size_t a, size_t n) {
  if (no_memory(n)) return ENOMEM;
  void *m = held(__libc_memalign(a, n), 0);
  if (!m) return ENOMEM;
  *p = m;
  return 0;
}
EXPORT void *aligned_alloc(size_t a, size_t n) { return no_memory(n) ? NULL : held(__libc_memalign(a, n), 0); }
EXPORT void *memalign(size_t a, size_t n) { return no_memory(n) ? NULL : held(__libc_memalign(a, n), 0); }

/* ------------------------------------------------------------------- time */
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!cli) return (int)ret(raw(SYS_clock_gettime, c, (long)ts, 0));
  P->vclock_ns += 100;
  uint64_t t = P->vclock_ns + (c == CLOCK_REALTIME ? 1700000000000000000ull : 0);
  ts->tv_sec = (time_t)(t / 1000000000ull);
  ts->tv_nsec = (long)(t % 1000000000ull);
  return 0;
}
static int vsleep(uint64_t until) {
  bump(16);
  if (!multi) { if (until > P->vclock_ns) P->vclock_ns = until; return 0; }
  T[self_id].state = T_SLEEP; T[self_id].wake_at = until;
  switch_to(pick(0));
  if (P->vclock_ns < until) P->vclock_ns = until;
  return 0;
}
EXPORT int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!cli) return (int)ret(raw(SYS_nanosleep, (long)r, (long)rem, 0));
  return vsleep(P->vclock_ns + (uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec);
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (!cli) { long x = raw6(SYS_clock_nanosleep, c, fl, (long)r, (long)rem, 0, 0); return (int)-x; }
  uint64_t t = (uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec;
  if (fl & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) t -= 1700000000000000000ull; }
  else t += P->vclock_ns;
  return vsleep(t);
}

/* -------------------------------------------------------- cpus, identities */
EXPORT pid_t getpid(void) { return cli ? 4242 : (pid_t)raw(SYS_getpid, 0, 0, 0); }
EXPORT pid_t gettid(void) { return cli ? 4242 + self_id : (pid_t)raw(SYS_gettid, 0, 0, 0); }
EXPORT int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!cli) { long r = raw(SYS_sched_getaffinity, pid, (long)sz, (long)set); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  memset(set, 0, sz);
  for (uint32_t i = 0; i < P->ncpu && i < sz * 8; i++) CPU_SET_S(i, sz, set);
  return 0;
}

/* ------------------------------------------------------------------ files */
/* open descriptors: of the log file (o: which position, shared by duplicates) or duplicates of a standard one (std) */
static struct { int used, std, o; } V[NVFD];
static uint64_t voff[NVFD];
static int is_vpath(const char *p) { return active && p && !strncmp(p, "/simfs/", 7); }
static int slot(int fd) { return active && fd >= VFD && fd < VFD + NVFD && V[fd - VFD].used; }
static int is_vfd(int fd) { return slot(fd) && !V[fd - VFD].std; }
/* the standard descriptor that fd is a duplicate of */
static int stdfd(int fd) { return slot(fd) && V[fd - VFD].std ? V[fd - VFD].std - 1 : fd; }
static uint64_t *offp(int fd) { return &voff[V[fd - VFD].o]; }
static int vslot(void) {
  for (int i = 0; i < NVFD; i++) if (!V[i].used) return i;
  errno = EMFILE;
  return -1;
}
static int is_std(int fd) { return cli && fd >= 0 && fd <= 2; }

static int kind_errno(uint32_t k) {
  switch (k) {
    case K_EINTR: return EINTR;
    case K_EIO: return EIO;
    case K_ENOSPC: return ENOSPC;
    case K_EPIPE: return EPIPE;
    case K_ENOENT: return ENOENT;
    case K_EACCES: return EACCES;
    case K_EMFILE: return EMFILE;
    case K_ENOMEM: return ENOMEM;
    case K_ENODEV: return ENODEV;
    case K_EFBIG: return EFBIG;
  }
  return 0;
}
/* the error of a fault; K_EIO may carry any other error number */
static int fault_errno(const SimFault *f) {
  if (!f) return 0;
  if (f->kind == K_EIO && f->arg > 0 && f->arg < 4096) return (int)f->arg;
  return kind_errno(f->kind);
}
/* next operation of a kind: which planned fault hits it? */
static SimFault *next_op(uint32_t op) {
  uint64_t n = P->nops[op]++;
  bump(16);
  P->vclock_ns += 1000;
  for (uint32_t i = 0; i < P->nfaults; i++)
    if (P->faults[i].op == op && P->faults[i].nth == n) {
      P->fired[op][P->faults[i].kind]++;
      tr("fault", op * 100 + P->faults[i].kind, n);
      if (P->faults[i].kind == K_STALL) P->vclock_ns += P->faults[i].arg;
      return &P->faults[i];
    }
  return NULL;
}
static void grow(void) {
  uint64_t n = fops++;
  for (uint32_t i = 0; i < P->ngrow; i++)
    if (P->grow[i].at_op <= n && P->grow[i].len > P->file_len && P->grow[i].len <= P->file_cap) {
      P->file_len = P->grow[i].len;
      P->fired[OP_READ][K_GROW]++;
      tr("grow", P->file_len, n);
    }
}
static size_t limit(size_t n, uint32_t *i, uint32_t nch, const uint32_t *ch, uint32_t op) {
  if (!nch) return n;
  uint32_t c = ch[(*i)++ % nch];
  if (c && n > c) { P->fired[op][K_SHORT]++; return c; }
  return n;
}
/* bytes of the hole: zeros, or pages of the block, shared where that is possible */
static void fhole(uint8_t *d, uint64_t off, uint64_t n, int fresh) {
  if (!P->block_len) { if (!fresh) memset(d, 0, n); return; }
  while (n) {
    uint64_t r = off % P->block_len, k = P->block_len - r;
    if (k > n) k = n;
    if (!fresh || (r | k | (uint64_t)(uintptr_t)d) % 4096) memcpy(d, A_block + r, k);
    else {
      raw6(SYS_mremap, (long)(A_block + r), 0, (long)k, MREMAP_MAYMOVE | MREMAP_FIXED, (long)d, 0);
      raw(SYS_mprotect, (long)d, (long)k, PROT_READ);
    }
    d += k; off += k; n -= k;
  }
}
/* bytes of the virtual file; `fresh` memory is zero already */
static void fcopy(uint8_t *d, uint64_t off, uint64_t n, int fresh) {
  while (n) {
    uint64_t k = n;
    if (off < P->hole_at) { if (k > P->hole_at - off) k = P->hole_at - off; memcpy(d, A_file + off, k); }
    else if (off < P->hole_at + P->hole_len) { uint64_t r = P->hole_at + P->hole_len - off; if (k > r) k = r; fhole(d, off - P->hole_at, k, fresh); }
    else memcpy(d, A_file + (off - P->hole_len), k);
    d += k; off += k; n -= k;
  }
}
static ssize_t vread_at(uint64_t *off, uint8_t *b, size_t n) {
  SimFault *f = next_op(OP_READ);
  grow();
  if (fault_errno(f)) { errno = fault_errno(f); return -1; }
  n = limit(n, &ich_read, P->nread_ch, P->read_ch, OP_READ);
  if (f && f->kind == K_SHORT && f->arg && n > f->arg) n = f->arg;
  if (*off >= P->file_len) n = 0;
  else if (n > P->file_len - *off) n = P->file_len - *off;
  if (P->read_err_at >= 0 && (n > 0 || *off >= P->file_len) && *off + n > (uint64_t)P->read_err_at) {
    if (*off >= (uint64_t)P->read_err_at) { P->fired[OP_READ][K_EIO]++; tr("read-err", *off, 0); errno = (int)P->read_errno; return -1; }
    n = (uint64_t)P->read_err_at - *off;
  }
  if (n) fcopy(b, *off, n, 0);
  *off += n;
  tr("read", *off, n);
  return (ssize_t)n;
}
static ssize_t sread(uint8_t *b, size_t n) {
  SimFault *f = next_op(OP_STDIN);
  if (fault_errno(f)) { errno = fault_errno(f); return -1; }
  n = limit(n, &ich_stdin, P->nstdin_ch, P->stdin_ch, OP_STDIN);
  if (f && f->kind == K_SHORT && f->arg && n > f->arg) n = f->arg;
  uint64_t off = P->stdin_taken;
  if (n > P->stdin_len - off) n = P->stdin_len - off;
  if (P->stdin_err_at >= 0 && off + n >= (uint64_t)P->stdin_err_at && (n == 0 || off + n > (uint64_t)P->stdin_err_at)) {
    if (off >= (uint64_t)P->stdin_err_at) { P->fired[OP_STDIN][K_EIO]++; tr("stdin-err", off, 0); errno = (int)P->stdin_errno; return -1; }
    n = (uint64_t)P->stdin_err_at - off;
  }
  if (n) memcpy(b, A_stdin + off, n);
  P->stdin_taken += n;
  tr("stdin", P->stdin_taken, n);
  return (ssize_t)n;
}
static ssize_t swrite(int fd, const uint8_t *b, size_t n) {
  if (fd == 2) {
    uint64_t k = n;
    if (P->stderr_len + k > P->cap_stderr) k = P->cap_stderr - P->stderr_len;
    memcpy(A_stderr + P->stderr_len, b, k);
    P->stderr_len += k;
    maybe_switch();
    return (ssize_t)n;
  }
  SimFault *f = next_op(OP_STDOUT);
  maybe_switch();
  if (n == 0) return 0;
  if (fault_errno(f)) { errno = fault_errno(f); return -1; }
  n = limit(n, &ich_stdout, P->nstdout_ch, P->stdout_ch, OP_STDOUT);
  if (f && f->kind == K_SHORT && f->arg && n > f->arg) n = f->arg;
  if (P->stdout_err_at >= 0 && P->stdout_len + n > (uint64_t)P->stdout_err_at) {
    if (P->stdout_len >= (uint64_t)P->stdout_err_at) { P->fired[OP_STDOUT][P->stdout_errno == ENOSPC ? K_ENOSPC : P->stdout_errno == EPIPE ? K_EPIPE : K_EIO]++; tr("stdout-err", P->stdout_len, 0); errno = (int)P->stdout_errno; return -1; }
    n = (uint64_t)P->stdout_err_at - P->stdout_len;
  }
  if (P->stdout_len + n > P->cap_stdout) sim_exit(3);
  memcpy(A_stdout + P->stdout_len, b, n);
  P->stdout_len += n;
  tr("stdout", P->stdout_len, n);
  return (ssize_t)n;
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  fd = stdfd(fd);
  if (is_vfd(fd)) return vread_at(offp(fd), b, n);
  if (is_std(fd)) { if (fd == 0) return sread(b, n); errno = EBADF; return -1; }
  return ret(raw(SYS_read, fd, (long)b, (long)n));
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (is_vfd(fd)) { uint64_t off = (uint64_t)o; return vread_at(&off, b, n); }
  return ret(raw6(SYS_pread64, fd, (long)b, (long)n, o, 0, 0));
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  fd = stdfd(fd);
  if (is_vfd(fd) || is_std(fd)) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return read(fd, NULL, 0);
  }
  return ret(raw(SYS_readv, fd, (long)v, c));
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  fd = stdfd(fd);
  if (is_std(fd) && fd > 0) return swrite(fd, b, n);
  if (is_vfd(fd)) { errno = EBADF; return -1; }
  return ret(raw(SYS_write, fd, (long)b, (long)n));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  fd = stdfd(fd);
  if (is_std(fd) && fd > 0) {
    /* one call, one acceptance decision over the concatenation */
    size_t tot = 0;
    for (int i = 0; i < c; i++) tot += v[i].iov_len;
    uint8_t *t = __libc_malloc(tot ? tot : 1);
    size_t k = 0;
    for (int i = 0; i < c; i++) { memcpy(t + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
    ssize_t r = swrite(fd, t, tot);
    int e = errno;
    free(t);
    errno = e;
    return r;
  }
  return ret(raw(SYS_writev, fd, (long)v, c));
}
static int vopen(const char *p, int fl) {
  (void)p;
  SimFault *f = next_op(OP_OPEN);
  grow();
  if (fault_errno(f)) { errno = fault_errno(f); return -1; }
  if ((fl & O_ACCMODE) != O_RDONLY) { errno = EROFS; return -1; }
  int i = vslot(), o = 0;
  if (i < 0) return -1;
  for (int j = 0; j < NVFD; j++) if (V[j].used && !V[j].std && V[j].o == o) { o++; j = -1; }
  V[i].used = 1; V[i].std = 0; V[i].o = o; voff[o] = 0;
  tr("open", (uint64_t)i, 0);
  return VFD + i;
}
static int vdup(int fd) {
  int i = vslot();
  if (i < 0) return -1;
  if (is_std(fd)) { V[i].std = fd + 1; V[i].o = 0; }
  else V[i] = V[fd - VFD];
  V[i].used = 1;
  return VFD + i;
}
EXPORT int dup(int fd) {
  if (slot(fd) || is_std(fd)) return vdup(fd);
  return (int)ret(raw(SYS_dup, fd, 0, 0));
}
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (slot(fd) || is_std(fd)) {
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return vdup(fd);
    if (cmd == F_GETFL) return is_vfd(fd) ? O_RDONLY : stdfd(fd) ? O_WRONLY : O_RDONLY;
    if (cmd == F_GETFD || cmd == F_SETFD || cmd == F_SETFL) return 0;
    errno = EINVAL;
    return -1;
  }
  return (int)ret(raw(SYS_fcntl, fd, cmd, arg));
}
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return fcntl64(fd, cmd, arg);
}
/* pipes cannot be synchronised; a log that is open for reading can */
static int vsync(int fd) {
  if (is_vfd(fd)) return 0;
  errno = EINVAL;
  return -1;
}
EXPORT int fsync(int fd) {
  if (slot(fd) || is_std(fd)) return vsync(fd);
  return (int)ret(raw(SYS_fsync, fd, 0, 0));
}
EXPORT int fdatasync(int fd) {
  if (slot(fd) || is_std(fd)) return vsync(fd);
  return (int)ret(raw(SYS_fdatasync, fd, 0, 0));
}
EXPORT int flock(int fd, int op) {
  if (slot(fd) || is_std(fd)) return 0;
  return (int)ret(raw(SYS_flock, fd, op, 0));
}
EXPORT int open64(const char *p, int fl, ...) {
  int mode = 0;
  if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
  if (is_vpath(p)) return vopen(p, fl);
  if (cli) { errno = ENOENT; return -1; }
  return (int)ret(raw6(SYS_openat, AT_FDCWD, (long)p, fl, mode, 0, 0));
}
EXPORT int open(const char *p, int fl, ...) {
  int mode = 0;
  if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
  return open64(p, fl, mode);
}
EXPORT int close(int fd) {
  if (slot(fd)) { V[fd - VFD].used = 0; return 0; }
  if (is_std(fd)) return 0;
  return (int)ret(raw(SYS_close, fd, 0, 0));
}
static uint64_t hint(SimFault *f) { return f && f->kind == K_WRONGHINT ? f->arg : P->file_len; }
static int vstat(struct stat64 *st) {
  SimFault *f = next_op(OP_STAT);
  grow();
  if (fault_errno(f)) { errno = fault_errno(f); return -1; }
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_ino = 7; st->st_blksize = 4096;
  st->st_size = (off64_t)hint(f);
  st->st_blocks = (st->st_size + 511) / 512;
  return 0;
}
static int pipestat(struct stat64 *st) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; st->st_blksize = 4096; return 0; }
EXPORT int fstat64(int fd, struct stat64 *st) {
  fd = stdfd(fd);
  if (is_vfd(fd)) return vstat(st);
  if (is_std(fd)) return pipestat(st);
  return (int)ret(raw(SYS_fstat, fd, (long)st, 0));
}
EXPORT int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
EXPORT int stat64(const char *p, struct stat64 *st) {
  if (is_vpath(p)) return vstat(st);
  if (cli) { errno = ENOENT; return -1; }
  return (int)ret(raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0, 0, 0));
}
EXPORT int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
EXPORT int statx(int dfd, const char *p, int fl, unsigned mask, struct statx *sx) {
  /* std probes with null pointers, which glibc's declaration says cannot happen */
  __asm__("" : "+r"(p), "+r"(sx));
  dfd = stdfd(dfd);
  int v = is_vpath(p) || (p && !*p && is_vfd(dfd));
  if (v || (p && !*p && is_std(dfd))) {
    struct stat64 st;
    if (v ? vstat(&st) : pipestat(&st)) return -1;
    memset(sx, 0, sizeof *sx);
    sx->stx_mask = STATX_BASIC_STATS;
    sx->stx_mode = (uint16_t)st.st_mode; sx->stx_nlink = 1; sx->stx_ino = 7; sx->stx_blksize = 4096;
    sx->stx_size = (uint64_t)st.st_size; sx->stx_blocks = (uint64_t)st.st_blocks;
    return 0;
  }
  if (cli && p && *p) { errno = ENOENT; return -1; }
  return (int)ret(raw6(SYS_statx, dfd, (long)p, fl, (long)mask, (long)sx, 0));
}
EXPORT off64_t lseek64(int fd, off64_t o, int w) {
  fd = stdfd(fd);
  if (is_vfd(fd)) {
    P->nops[OP_SEEK]++;
    int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)*offp(fd) : (int64_t)P->file_len;
    if (base + o < 0) { errno = EINVAL; return -1; }
    *offp(fd) = (uint64_t)(base + o);
    return base + o;
  }
  if (is_std(fd)) { errno = ESPIPE; return -1; }
  return ret(raw(SYS_lseek, fd, o, w));
}
EXPORT off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
EXPORT void *mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t o) {
  if (!(fl & MAP_ANONYMOUS) && is_vfd(fd)) {
    SimFault *f = next_op(OP_MMAP);
    grow();
    if (n == 0 || o % 4096) { errno = EINVAL; return MAP_FAILED; }
    if (fault_errno(f)) { errno = fault_errno(f); return MAP_FAILED; }
    uint8_t *m = (uint8_t *)raw6(SYS_mmap, 0, (long)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if ((unsigned long)m > -4096ul) { errno = ENOMEM; return MAP_FAILED; }
    /* A snapshot: bytes of the file that exist now; pages behind the end of the file are not simulated. */
    uint64_t have = (uint64_t)o < P->file_len ? P->file_len - (uint64_t)o : 0;
    fcopy(m, (uint64_t)o, have < n ? have : n, 1);
    tr("mmap", n, (uint64_t)o);
    return m;
  }
  return (void *)ret(raw6(SYS_mmap, (long)a, (long)n, prot, fl, fd, o));
}
EXPORT void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) { return mmap64(a, n, prot, fl, fd, o); }
EXPORT ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  if (cli || is_vfd(a) || is_vfd(b)) { errno = ENOSYS; return -1; }
  return ret(raw6(SYS_copy_file_range, a, (long)ao, b, (long)bo, (long)n, f));
}
EXPORT ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
  if (cli || is_vfd(b)) { errno = EINVAL; return -1; }
  return ret(raw6(SYS_sendfile, a, b, (long)o, (long)n, 0, 0));
}
EXPORT ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  if (cli || is_vfd(a)) { errno = EINVAL; return -1; }
  return ret(raw6(SYS_splice, a, (long)ao, b, (long)bo, (long)n, f));
}
EXPORT int posix_fadvise64(int fd, off64_t o, off64_t l, int adv) {
  if (is_vfd(fd)) return 0;
  return (int)-raw6(SYS_fadvise64, fd, o, l, adv, 0, 0);
}
EXPORT int posix_fadvise(int fd, off_t o, off_t l, int adv) { return posix_fadvise64(fd, o, l, adv); }

/* ------------------------------------------------- in-process interface */
EXPORT void sim_begin(SimPlan *p, const uint8_t *file) {
  P = p;
  A_file = (uint8_t *)file;
  A_cov = cov_local;
  active = 1;
  fops = 0; ich_read = ich_stdin = ich_stdout = 0;
  memset(V, 0, sizeof V);
  recompute_stop();
}
EXPORT void sim_end(void) {
  active = 0;
  P = &nullplan;
  nullplan.step_limit = UINT64_MAX;
  stop_at = UINT64_MAX;
}
EXPORT void sim_seed(uint64_t s) { rng = s; seeded = 1; }
EXPORT uint8_t *sim_cov(void) { return cov_local; }
EXPORT uint64_t sim_sizeof(void) { return sizeof(SimPlan); }

static void at_exit(void) { P->done = 1; }

__attribute__((constructor)) static void init(void) {
  A_cov = cov_local;
  nullplan.step_limit = UINT64_MAX;
  stop_at = UINT64_MAX;
  const char *s = getenv("SIM_FD");
  if (!s) return;
  int fd = atoi(s);
  struct stat st;
  if (raw(SYS_fstat, fd, (long)&st, 0) < 0) return;
  uint8_t *m = (uint8_t *)raw6(SYS_mmap, 0, (long)st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if ((unsigned long)m > -4096ul) return;
  raw(SYS_close, fd, 0, 0);
  unsetenv("SIM_FD");
  SimPlan *p = (SimPlan *)m;
  if (p->magic != SIM_MAGIC) return;
  P = p;
  A_cov = m + p->off_cov; A_trace = m + p->off_trace; A_stdout = m + p->off_stdout; A_stderr = m + p->off_stderr;
  A_stdin = m + p->off_stdin; A_file = m + p->off_file; A_block = m + p->off_block;
  rng = p->seed;
  T[0].state = T_RUN;
  pthread_key_create(&exit_key, thread_end);
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  cli = active = 1;
  recompute_stop();
  /* backstop in real time for loops that never come back to a simulated step */
  struct itimerval it = { {0, 0}, {60, 0} };
  raw(SYS_setitimer, ITIMER_REAL, (long)&it, 0);
  atexit(at_exit);
}
