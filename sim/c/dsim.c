// dsim: deterministic scheduler runtime.
//
// The simulated program runs as real OS threads of one process, but exactly one
// of them - the token holder - ever runs; every other thread is parked on its
// own gate.  A seeded PRNG decides at which compiler-inserted edge callback
// (SanitizerCoverage trace-pc-guard) the holder is preempted and who runs next.
// Blocking (futex), thread creation / exit / join, sleeping, the clock and the
// system entropy source are interposed and simulated.
//
// Nothing here is compiled with coverage instrumentation.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

#define MAXT 256
#define MAXKEYS 512
#define MAXSW (1u << 20)

enum { ST_NONE, ST_RUN, ST_FUTEX, ST_JOIN, ST_SLEEP, ST_DONE };

typedef struct {
  int id, state;
  uint32_t gate;
  uint64_t steps;      // own edge count up to the last switch-out
  uint32_t *faddr;
  uint32_t fbits;
  int fresult;         // 0 woken, ETIMEDOUT
  uint64_t deadline;   // simulated ns, UINT64_MAX = none
  int join_target;
  void *(*start)(void *);
  void *arg;
  void *ret;
  pthread_t real;
  int prio;
  uint64_t waits;      // futex-wait ordinal
  struct { void (*fn)(void *); void *obj; } dtors[256];
  int ndtors;
} Thr;

typedef struct { uint32_t tid, next; uint64_t step; } Sw;

typedef struct {
  uint64_t sched_seed, entropy_seed;
  uint32_t strategy;     // 0 random walk, 1 PCT, 2 cooperative, 3 hot edges, 4 starve, 5 explicit
  uint32_t param;        // mean slice / change points / hot edges
  uint64_t max_steps;    // liveness budget over all threads
  uint32_t spurious_pm;  // spurious futex wake-ups, per mille of waits
  uint32_t eintr_pm;     // getrandom EINTR per mille
  uint32_t short_pm, pad; // getrandom short reads per mille
  int64_t fail_at;       // index of the getrandom call to fail with EIO; -1 none
  int64_t fail_len;      // how many consecutive calls fail
  uint32_t biased;       // entropy shape: 0 uniform 1 zeros 2 ones 3 repeat word 4 sparse
  uint32_t clock_jump_pm;// clock jumps per mille of clock reads
} Cfg;

typedef struct {
  uint64_t steps, switches, preemptions, blocks, wakes, spurious, spawns, joins, yields, sleeps;
  uint64_t entropy_calls, eintr, shorts, fails, clock_reads, clock_jumps, hash, max_live, contended, simns;
  uint64_t hot_hits;
} Stat;

static Cfg cfg;
static Stat st;
static Thr thr[MAXT];
static int nthr;
static Thr *cur;
static volatile int active;
static int64_t budget = INT64_MAX, slice0;
static uint64_t rs[4], re[4], rf[4];
static int64_t fidx;
static uint64_t since_switch;
static uint64_t simbase = 1700000000ull * 1000000000ull, simextra;
static int nopreempt;
static Sw *swlog;
static uint32_t nsw;
static Sw *expl;
static uint32_t nexpl;
static uint64_t *change;  // PCT change points
static int nchange, ichange, lowprio;
static void (*fatal_cb)(int kind);
static __thread Thr *me;

static pthread_key_t keys[MAXKEYS];
static void (*keydtor[MAXKEYS])(void *);
static int nkeys;

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_key_create)(pthread_key_t *, void (*)(void *));
static int (*real_atexit)(void (*)(void *), void *, void *);

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

__attribute__((constructor)) static void boot(void) {
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  real_key_create = dlsym(RTLD_NEXT, "pthread_key_create");
  real_atexit = dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
}

// ---------------------------------------------------------------- PRNG
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t next(uint64_t *s) {
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
static void seed(uint64_t *s, uint64_t x) {
  for (int i = 0; i < 4; i++) {
    x += 0x9e3779b97f4a7c15ull;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    s[i] = z ^ (z >> 31);
  }
}
static uint64_t below(uint64_t *s, uint64_t n) { return n ? (uint64_t)(((__uint128_t)next(s) * n) >> 64) : 0; }
static int permille(uint64_t *s, uint32_t pm) { return pm && below(s, 1000) < pm; }
static void mix(uint64_t v) { st.hash = (st.hash ^ v) * 0x100000001b3ull; st.hash ^= st.hash >> 29; }

static uint64_t now_ns(void) { return simbase + simextra + st.steps + (uint64_t)(slice0 - budget); }

// ---------------------------------------------------------------- scheduling
static volatile int counting;
static void fatal(int kind) {
  active = counting = 0;
  if (fatal_cb) fatal_cb(kind);
  raw(SYS_exit_group, 99, 0, 0, 0, 0, 0);
}

static void account(void) {
  uint64_t d = (uint64_t)(slice0 - budget);
  cur->steps += d;
  st.steps += d;
  since_switch += d;
  slice0 = budget = 0;
}

static void set_budget(int64_t b) { slice0 = budget = b < 1 ? 1 : b; }

static int runnable(int *out) {
  int n = 0;
  for (int i = 0; i < nthr; i++)
    if (thr[i].state == ST_RUN) out[n++] = i;
  return n;
}

// explicit entries are sorted by (tid, step): the entry at exactly this position, or the first one after it
static Sw *expl_find(uint32_t tid, uint64_t step, int exact) {
  uint32_t lo = 0, hi = nexpl;
  while (lo < hi) {
    uint32_t mid = (lo + hi) / 2;
    int less = expl[mid].tid < tid || (expl[mid].tid == tid && (exact ? expl[mid].step < step : expl[mid].step <= step));
    if (less) lo = mid + 1; else hi = mid;
  }
  if (lo >= nexpl || expl[lo].tid != tid) return 0;
  if (exact && expl[lo].step != step) return 0;
  return &expl[lo];
}

static void logsw(uint32_t to) {
  if (nsw < MAXSW) { swlog[nsw].tid = cur->id; swlog[nsw].next = to; swlog[nsw].step = cur->steps; nsw++; }
}

static void new_slice(void) {
  int64_t b = 1 << 20;
  switch (cfg.strategy) {
    case 0: case 4: {
      if (nthr < 2) break;
      // geometric-ish with the configured mean
      uint64_t m = cfg.param ? cfg.param : 1, sh = st.preemptions >> 14;
      // long runs: the mean grows with the preemptions spent, but dense windows recur
      if (sh) {
        static uint32_t burst;
        if (burst) burst--;
        else {
          m = sh > 20 ? 1 << 20 : m << sh;
          if (m > (1 << 20)) m = 1 << 20;
          if (!below(rs, 512)) burst = 200;
        }
      }
      b = 1 + (int64_t)below(&rs[0], 2 * m);
      break;
    }
    case 1:
      if (nthr >= 2 && ichange < nchange) {
        uint64_t t = st.steps;
        b = change[ichange] > t ? (int64_t)(change[ichange] - t) : 1;
        if (b > (1 << 20)) b = 1 << 20;
      }
      break;
    case 5: {
      Sw *s = expl_find(cur->id, cur->steps, 0);
      if (s && s->step - cur->steps < (1u << 20)) b = (int64_t)(s->step - cur->steps);
      break;
    }
    default: break;
  }
  set_budget(b);
}

static int pick(int voluntary, int self_ok) {
  int r[MAXT], n = runnable(r), m = 0;
  for (int i = 0; i < n; i++)
    if (self_ok || r[i] != cur->id) r[m++] = r[i];
  if (m == 0) return -1;
  if (m > 1) st.contended++;
  if (cfg.strategy == 5) {
    Sw *s = expl_find(cur->id, cur->steps, 1);
    if (s)
      for (int i = 0; i < m; i++)
        if ((uint32_t)r[i] == s->next) return r[i];
    if (self_ok && cur->state == ST_RUN && !s && voluntary != 2) return cur->id;
    for (int i = 0; i < m; i++)
      if (r[i] > cur->id) return r[i];
    return r[0];
  }
  if (cfg.strategy == 1) {
    int best = r[0];
    for (int i = 1; i < m; i++)
      if (thr[r[i]].prio > thr[best].prio) best = r[i];
    return best;
  }
  if (cfg.strategy == 4) {  // starve one thread: it runs only when nothing else can, or rarely
    int victim = (int)(cfg.param % (nthr ? nthr : 1));
    int k[MAXT], c = 0;
    for (int i = 0; i < m; i++)
      if (r[i] != victim) k[c++] = r[i];
    if (c && below(rs, 64)) return k[below(rs, c)];
  }
  return r[below(rs, m)];
}

static void handoff(int to) {
  Thr *t = &thr[to];
  st.switches++;
  mix(((uint64_t)cur->id << 56) ^ ((uint64_t)to << 48) ^ cur->steps);
  logsw(to);
  since_switch = 0;
  cur = t;
  new_slice();
  __atomic_store_n(&t->gate, 1, __ATOMIC_SEQ_CST);
  raw(SYS_futex, (long)&t->gate, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

static void park(Thr *t) {
  while (!__atomic_exchange_n(&t->gate, 0, __ATOMIC_SEQ_CST))
    raw(SYS_futex, (long)&t->gate, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}

// current thread cannot go on: run somebody else until it is made runnable and chosen
static void block(void) {
  Thr *t = cur;
  account();
  t->steps++; st.steps++;
  if (st.steps > cfg.max_steps) fatal(2);
  st.blocks++;
  for (;;) {
    int n = pick(1, 1);
    if (n >= 0) {
      if (n == t->id) { logsw(n); new_slice(); return; }
      handoff(n);
      park(t);
      return;
    }
    // nobody can run: advance the clock to the earliest deadline
    int e = -1;
    for (int i = 0; i < nthr; i++)
      if ((thr[i].state == ST_FUTEX || thr[i].state == ST_SLEEP) && thr[i].deadline != UINT64_MAX &&
          (e < 0 || thr[i].deadline < thr[e].deadline)) e = i;
    if (e < 0) fatal(1);  // deadlock
    uint64_t nw = simbase + simextra + st.steps;
    if (thr[e].deadline > nw) simextra += thr[e].deadline - nw;
    thr[e].fresult = ETIMEDOUT;
    thr[e].state = ST_RUN;
  }
}

static void preempt(int voluntary) {
  Thr *t = cur;
  account();
  // voluntary points take a position of their own, so that every position (thread, step) is unique
  if (voluntary) { t->steps++; st.steps++; }
  if (st.steps > cfg.max_steps) fatal(2);
  if (cfg.strategy == 1) {
    if (ichange < nchange && st.steps >= change[ichange]) { t->prio = --lowprio; ichange++; }
    else if (voluntary == 2) t->prio = --lowprio;
  }
  int n;
  if (cfg.strategy == 2 && voluntary != 2) n = t->id;
  else n = pick(voluntary, 1);
  // fairness: a thread may not keep the token for ever while others are runnable
  if (n == t->id && since_switch > 30000000ull) {
    since_switch = 0;
    int r[MAXT], c = runnable(r);
    n = r[0];
    for (int i = 0; i < c; i++)
      if (r[i] > t->id) { n = r[i]; break; }
    if (cfg.strategy == 1) t->prio = --lowprio;
  }
  if (n == t->id && voluntary == 2) logsw(n);
  if (n < 0 || n == t->id) { new_slice(); return; }
  if (voluntary == 0) st.preemptions++;
  handoff(n);
  park(t);
}

#define HOT 0x80000000u
#define UNSEEN 0x40000000u
static uint64_t hotleft;

// slow path of the hot-edge strategy: decide at its first execution whether an edge is hot
static void __attribute__((noinline)) special_edge(uint32_t *g) {
  if (*g & UNSEEN) {
    *g &= ~UNSEEN;
    if (nthr > 1 && below(rs, 1000) < cfg.param) *g |= HOT;
    else if (nthr <= 1) *g |= UNSEEN;
  }
  if (*g & HOT) {
    if (nthr < 2 || !hotleft) return;
    st.hot_hits++;
    if (next(rs) & 1) { hotleft--; budget--; preempt(0); }
  }
}

#ifdef DSIM_COV
// development aid (tools/cov.sh): which instrumented edges were ever executed
#include <fcntl.h>
#include <sys/mman.h>
static uint8_t *covmap;
static const uintptr_t *pcs_lo, *pcs_hi;
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) {
  if (!pcs_lo || a < pcs_lo) pcs_lo = a;
  if (b > pcs_hi) pcs_hi = b;
  const char *f = getenv("DSIM_COV_FILE");
  if (!f || covmap) return;
  int fd = open(f, O_RDWR | O_CREAT, 0644);
  if (fd < 0 || ftruncate(fd, 1 << 22)) abort();
  covmap = mmap(0, 1 << 22, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
}
static uint32_t *g_lo;
static __attribute__((destructor)) void cov_pcs(void) {
  const char *f = getenv("DSIM_COV_PCS");
  FILE *o = f ? fopen(f, "w") : 0;
  Dl_info d;
  dladdr((void *)&__sanitizer_cov_pcs_init, &d);
  if (o) for (const uintptr_t *p = pcs_lo; p < pcs_hi; p += 2) fprintf(o, "0x%lx %lu\n", p[0] - (uintptr_t)d.dli_fbase, p[1]);
  if (o) fclose(o);
}
#endif
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
#ifdef DSIM_COV
  if (covmap && active) covmap[g - g_lo] = 1;
#endif
  if (__builtin_expect(!counting, 0)) return;
  if (__builtin_expect(*g & (HOT | UNSEEN), 0)) special_edge(g);
  if (__builtin_expect(--budget <= 0, 0)) preempt(0);
}

#ifndef DSIM_COV
static uint32_t *g_lo;
#endif
static uint32_t *g_hi;
static uint32_t g_n;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  if (!g_lo || a < g_lo) g_lo = a;
  if (b > g_hi) g_hi = b;
  for (; a < b; a++) *a = ++g_n;
}

static int nlive;
#ifdef DSIM_RACE
#include "race.c"
#else
static void race_spawn(int a, int b) { (void)a; (void)b; }
static void race_started(void) {}
static const pthread_attr_t *race_stack(const pthread_attr_t *a, pthread_attr_t *at, int id) { (void)at; (void)id; return a; }
static void race_joined(int a, int b) { (void)a; (void)b; }
void dsim_race(uint64_t *o) { memset(o, 0, 80); }
#endif

// ---------------------------------------------------------------- interposed primitives
static uint64_t deadline_of(const struct timespec *ts, int absolute) {
  if (!ts) return UINT64_MAX;
  uint64_t v = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
  return absolute ? v : now_ns() + v;
}

static long futex_wait(uint32_t *addr, uint32_t val, const struct timespec *ts, int absolute, uint32_t bits) {
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { preempt(1); errno = EAGAIN; return -1; }
  Thr *t = cur;
  t->waits++;
  if (permille(rf, cfg.spurious_pm)) { st.spurious++; preempt(2); return 0; }
  t->state = ST_FUTEX; t->faddr = addr; t->fbits = bits; t->fresult = 0;
  t->deadline = deadline_of(ts, absolute);
  block();
  if (t->fresult) { errno = t->fresult; return -1; }
  return 0;
}

static long futex_wake(uint32_t *addr, long n, uint32_t bits) {
  long w = 0;
  int idx[MAXT], c = 0;
  for (int i = 0; i < nthr; i++)
    if (thr[i].state == ST_FUTEX && thr[i].faddr == addr && (thr[i].fbits & bits)) idx[c++] = i;
  while (c && w < n) {
    int k = (int)below(rf, c);
    thr[idx[k]].state = ST_RUN;
    idx[k] = idx[--c];
    w++;
  }
  st.wakes += w;
  if (w && !nopreempt) preempt(1);
  return w;
}

static ssize_t sim_entropy(void *buf, size_t len, unsigned flags) {
  st.entropy_calls++;
  if (len == 0) return 0;
  {
    int64_t i = fidx++;
    if (cfg.fail_at >= 0 && i >= cfg.fail_at && i < cfg.fail_at + cfg.fail_len) { st.fails++; errno = EIO; return -1; }
    if (permille(re, cfg.eintr_pm)) { st.eintr++; fidx--; errno = EINTR; return -1; }
    if (len > 1 && permille(re, cfg.short_pm)) { st.shorts++; len = 1 + below(re, len - 1); }
  }
  uint8_t *p = buf;
  uint64_t w = 0;
  for (size_t i = 0; i < len; i++) {
    if (i % 8 == 0) {
      w = next(re);
      switch (cfg.biased) {
        case 1: w = 0; break;
        case 2: w = ~0ull; break;
        case 3: w = 0x0101010101010101ull * (cfg.entropy_seed & 255); break;
        case 4: w &= next(re) & next(re) & next(re); break;
      }
    }
    p[i] = (uint8_t)(w >> (8 * (i % 8)));
  }
  if (flags == 0 && active) preempt(1);
  return (ssize_t)len;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active && me) {
    if (n == SYS_futex) {
      int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
      switch (op) {
        case FUTEX_WAIT: return futex_wait((uint32_t *)a, (uint32_t)c, (void *)d, 0, ~0u);
        case FUTEX_WAIT_BITSET: return futex_wait((uint32_t *)a, (uint32_t)c, (void *)d, 1, (uint32_t)f);
        case FUTEX_WAKE: return futex_wake((uint32_t *)a, (int)c < 0 ? INT_MAX : (long)(int)c, ~0u);
        case FUTEX_WAKE_BITSET: return futex_wake((uint32_t *)a, (int)c < 0 ? INT_MAX : (long)(int)c, (uint32_t)f);
      }
    } else if (n == SYS_getrandom) {
      return sim_entropy((void *)a, (size_t)b, (unsigned)c);
    } else if (n == SYS_sched_yield) {
      preempt(2);
      return 0;
    }
  }
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  if (active && me) return sim_entropy(buf, len, flags);
  return syscall(SYS_getrandom, buf, len, (long)flags, 0L, 0L, 0L);
}

int getentropy(void *buf, size_t len) {
  if (active && me) { sim_entropy(buf, len, 4); return 0; }
  return syscall(SYS_getrandom, buf, len, 0L, 0L, 0L, 0L) < 0 ? -1 : 0;
}

int sched_yield(void) {
  // a loop that only yields is cheap in steps and expensive in time: it has its own liveness budget
  if (active && me) { if (++st.yields > 3000000) fatal(2); preempt(2); return 0; }
  return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (active && me) {
    st.clock_reads++;
    if (permille(rf, cfg.clock_jump_pm)) { st.clock_jumps++; simextra += below(rf, 3600ull * 1000000000ull); }
    uint64_t v = now_ns();
    ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
    return 0;
  }
  long r = raw(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}

// the machine a simulated process runs on: processors, process number, host name
static unsigned m_cpus = 8, m_pid = 4242, m_host;
void dsim_machine(unsigned cpus, unsigned pid, unsigned host) { m_cpus = cpus ? cpus : 1; m_pid = pid; m_host = host; }
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
  if (active && me) {
    memset(set, 0, n);
    for (unsigned i = 0; i < m_cpus && i / 8 < n; i++) ((uint8_t *)set)[i / 8] |= 1 << (i % 8);
    return 0;
  }
  long r = raw(SYS_sched_getaffinity, pid, (long)n, (long)set, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
pid_t getpid(void) { return active && me ? (pid_t)m_pid : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
int gethostname(char *b, size_t n) {
  struct utsname u;
  if (active && me) snprintf(u.nodename, sizeof u.nodename, "host%u", m_host);
  else if (raw(SYS_uname, (long)&u, 0, 0, 0, 0, 0) < 0) return -1;
  if (n) { strncpy(b, u.nodename, n); b[n - 1] = 0; }
  return 0;
}

static int sim_sleep(uint64_t until) {
  Thr *t = cur;
  st.sleeps++;
  t->state = ST_SLEEP; t->deadline = until; t->fresult = 0;
  block();
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (active && me) return sim_sleep(deadline_of(a, 0));
  long r = raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
  if (active && me) return sim_sleep(deadline_of(a, fl & TIMER_ABSTIME));
  return (int)-raw(SYS_clock_nanosleep, id, fl, (long)a, (long)b, 0, 0);
}

static void run_dtors(void) {
  for (int round = 0; round < 8; round++) {
    int any = 0;
    while (me->ndtors) { me->ndtors--; any = 1; me->dtors[me->ndtors].fn(me->dtors[me->ndtors].obj); }
    for (int i = 0; i < nkeys; i++) {
      if (!keydtor[i]) continue;
      void *v = pthread_getspecific(keys[i]);
      if (v) { any = 1; pthread_setspecific(keys[i], 0); keydtor[i](v); }
    }
    if (!any) break;
  }
}

static void *tramp(void *p) {
  Thr *t = p;
  me = t;
  park(t);
  race_started();
  t->ret = t->start(t->arg);
  run_dtors();
  // finish: wake joiners, pass the token on
  account();
  t->state = ST_DONE;
  nlive--;
  for (int i = 0; i < nthr; i++)
    if (thr[i].state == ST_JOIN && thr[i].join_target == t->id) thr[i].state = ST_RUN;
  for (;;) {
    int n = pick(1, 0);
    if (n >= 0) { void *r = t->ret; me = 0; handoff(n); return r; }
    int e = -1;
    for (int i = 0; i < nthr; i++)
      if ((thr[i].state == ST_FUTEX || thr[i].state == ST_SLEEP) && thr[i].deadline != UINT64_MAX &&
          (e < 0 || thr[i].deadline < thr[e].deadline)) e = i;
    if (e < 0) fatal(1);
    uint64_t nw = simbase + simextra + st.steps;
    if (thr[e].deadline > nw) simextra += thr[e].deadline - nw;
    thr[e].fresult = ETIMEDOUT;
    thr[e].state = ST_RUN;
  }
}

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!(active && me)) return real_create(out, attr, fn, arg);
  if (nthr >= MAXT) return EAGAIN;
  Thr *t = &thr[nthr];
  memset(t, 0, sizeof *t);
  t->id = nthr; t->start = fn; t->arg = arg; t->state = ST_RUN;
  t->deadline = UINT64_MAX;
  t->prio = 1000 + (int)below(rs, 1 << 20);
  pthread_attr_t at;
  attr = race_stack(attr, &at, t->id);
  int r = real_create(&t->real, attr, tramp, t);
  if (r) return r;
  nthr++; nlive++;
  race_spawn(cur->id, t->id);
  st.spawns++;
  int live = 0;
  for (int i = 0; i < nthr; i++) live += thr[i].state != ST_DONE;
  if ((uint64_t)live > st.max_live) st.max_live = live;
  *out = t->real;
  preempt(1);
  return 0;
}

int pthread_join(pthread_t th, void **ret) {
  if (active && me) {
    for (int i = nthr - 1; i > 0; i--)  // the latest thread of that name: names of ended threads are reused
      if (pthread_equal(thr[i].real, th) && thr[i].join_target != -2) {
        st.joins++;
        if (thr[i].state != ST_DONE) { cur->state = ST_JOIN; cur->join_target = i; cur->deadline = UINT64_MAX; block(); }
        thr[i].join_target = -2;
        race_joined(cur->id, i);
        return real_join(th, ret);
      }
  }
  return real_join(th, ret);
}

int pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  int r = real_key_create(k, 0);
  if (!r && nkeys < MAXKEYS) { keys[nkeys] = *k; keydtor[nkeys] = d; nkeys++; }
  return r;
}

int __cxa_thread_atexit_impl(void (*fn)(void *), void *obj, void *dso) {
  if (active && me) {
    if (me->ndtors < 256) { me->dtors[me->ndtors].fn = fn; me->dtors[me->ndtors].obj = obj; me->ndtors++; }
    return 0;
  }
  return real_atexit ? real_atexit(fn, obj, dso) : 0;
}

// ---------------------------------------------------------------- harness interface
void dsim_start(const Cfg *c, const Sw *ex, uint32_t nex, void (*cb)(int)) {
  cfg = *c;
  fatal_cb = cb;
  simbase = 1600000000ull * 1000000000ull + (c->entropy_seed * 0x9e3779b97f4a7c15ull >> 7);  // some time in the following four years
  expl = (Sw *)ex; nexpl = nex;
  seed(rs, c->sched_seed); seed(re, c->entropy_seed ^ 0x5bd1e995u); seed(rf, c->sched_seed ^ 0xfa017ull);
  swlog = malloc(sizeof(Sw) * MAXSW);
  memset(thr, 0, sizeof thr[0]);
  nthr = nlive = 1; cur = me = &thr[0];
#ifdef DSIM_RACE
  tvc[0].n = 1; tvc[0].v[0] = 1;
#endif
  thr[0].state = ST_RUN; thr[0].real = pthread_self(); thr[0].prio = 1000 + (int)below(rs, 1 << 20);
  thr[0].deadline = UINT64_MAX;
  st.hash = 0xcbf29ce484222325ull;
  if (c->strategy == 1) {
    nchange = (int)(c->param & 255);
    uint64_t span = (uint64_t)(c->param >> 8) * 64 + 64;
    change = malloc(sizeof(uint64_t) * (nchange + 1));
    for (int i = 0; i < nchange; i++) change[i] = below(rs, span);
    for (int i = 1; i < nchange; i++)
      for (int j = i; j > 0 && change[j] < change[j - 1]; j--) { uint64_t x = change[j]; change[j] = change[j - 1]; change[j - 1] = x; }
  }
  if (c->strategy == 3)
    for (uint32_t *g = g_lo; g < g_hi; g++)
      if (*g) *g |= UNSEEN;
  hotleft = 30000;
  active = 1;
  new_slice();
  counting = !nopreempt;
}
void dsim_stop(void) { if (active) { account(); active = counting = 0; st.simns = simextra + st.steps; } }
void dsim_stats(Stat *o) { *o = st; if (active) o->steps += (uint64_t)(slice0 - budget); }
uint32_t dsim_switches(const Sw **o) { *o = swlog; return nsw; }
void dsim_yield(void) { if (active && me) preempt(1); }
void dsim_nopreempt(int d) { nopreempt += d; counting = active && !nopreempt; }
int dsim_tid(void) { return me ? me->id : -1; }
uint64_t dsim_seq(void) { return active ? st.steps + (uint64_t)(slice0 - budget) : 0; }
uint64_t dsim_entropy_calls(void) { return st.entropy_calls; }
void dsim_set_fail(int64_t at_rel, int64_t len) { cfg.fail_len = len; cfg.fail_at = at_rel < 0 ? -1 : fidx + at_rel; }
int dsim_live(void) { int n = 0; for (int i = 0; i < nthr; i++) n += thr[i].state != ST_DONE; return n; }
uint32_t dsim_edges(void) { return g_n; }
