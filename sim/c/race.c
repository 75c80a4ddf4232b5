// Data races, judged inside the simulation (included by dsim.c when DSIM_RACE is defined).
//
// In this flavour the Rust code, std included, is compiled with ThreadSanitizer's
// instrumentation but without its runtime: the callbacks below are the runtime.
// Every load, store and atomic operation is a point where the token can be taken
// away, and every plain access is checked with vector clocks against the accesses
// of other threads to the same bytes: two conflicting accesses that no chain of
// release/acquire pairs, fences, thread creations or joins puts in order are a
// race, whichever of them happened to run first in this schedule.
#include <sys/mman.h>

typedef struct { uint32_t n; uint32_t v[MAXT]; } VC;
typedef struct { uint32_t clk, pc; uint8_t tid, mask, flags, pad[5]; } Slot;  // flags: 1 write, 2 atomic, 4 release of memory
typedef struct { Slot s[4]; } Gran;
typedef struct Sync { struct Sync *next; uintptr_t a; VC vc; } Sync;
typedef struct { Gran g[512]; Sync *sync; } Page;

static VC tvc[MAXT], acqp[MAXT], relf[MAXT];
static Page **l1[1u << 17];
static Sync *freesync;
static uint32_t evict_rr;
static uint64_t race_checks, race_atomics, race_shared;
static struct { uint64_t addr; uint32_t pc0, pc1, tid0, tid1, f0, f1; } race_found;
extern char __executable_start;

static void *fresh(size_t n) {
  void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) raw(SYS_exit_group, 98, 0, 0, 0, 0, 0);
  return p;
}
static Page *page_of(uintptr_t a, int make) {
  static uintptr_t last = ~0ull;
  static Page *lastp;
  uintptr_t k = a >> 12;
  if (k == last) return lastp;
  if (a >> 47) return 0;
  Page **l = l1[a >> 30];
  if (!l) {
    if (!make) return 0;
    l = l1[a >> 30] = fresh(sizeof(Page *) << 18);
  }
  Page **pp = &l[k & 0x3FFFF];
  if (!*pp) {
    if (!make) return 0;
    static char *pool;
    static size_t left;
    if (left < sizeof(Page)) { left = sizeof(Page) * 64; pool = fresh(left); }
    *pp = (Page *)pool;
    pool += sizeof(Page); left -= sizeof(Page);
  }
  last = k; lastp = *pp;
  return *pp;
}
static void join(VC *a, const VC *b) {
  if (b->n > a->n) { memset(a->v + a->n, 0, 4 * (b->n - a->n)); a->n = b->n; }
  for (uint32_t i = 0; i < b->n; i++) if (b->v[i] > a->v[i]) a->v[i] = b->v[i];
}
static void copy(VC *a, const VC *b) { a->n = b->n; memcpy(a->v, b->v, 4 * b->n); }
static Sync *sync_of(uintptr_t a, int make) {
  Page *p = page_of(a, make);
  if (!p) return 0;
  for (Sync *s = p->sync; s; s = s->next) if (s->a == a) return s;
  if (!make) return 0;
  Sync *s = freesync;
  if (s) freesync = s->next; else s = malloc(sizeof *s);
  s->a = a; s->vc.n = 0; s->next = p->sync; p->sync = s;
  return s;
}
static void race_clear(uintptr_t a, size_t n) {
  uintptr_t e = a + n;
  for (uintptr_t b = a & ~4095ull; b < e; b += 4096) {
    Page *p = page_of(b, 0);
    if (!p) continue;
    unsigned lo = b < a ? (unsigned)((a & 4095) >> 3) : 0, hi = e - b < 4096 ? (unsigned)((e - b + 7) >> 3) : 512;
    memset(&p->g[lo], 0, sizeof(Gran) * (hi - lo));
    for (Sync **s = &p->sync; *s;)
      if ((*s)->a >= a && (*s)->a < e) { Sync *x = *s; *s = x->next; x->next = freesync; freesync = x; } else s = &(*s)->next;
  }
}
static void race_spawn(int parent, int child) {
  copy(&tvc[child], &tvc[parent]);
  if (tvc[child].n < MAXT) { memset(tvc[child].v + tvc[child].n, 0, 4 * (MAXT - tvc[child].n)); }
  tvc[child].n = child + 1 > (int)tvc[child].n ? child + 1 : tvc[child].n;
  tvc[child].v[child] = 1;
  acqp[child].n = relf[child].n = 0;
  tvc[parent].v[parent]++;
}
static void race_started(void) {
  pthread_attr_t at;
  void *a;
  size_t n;
  if (pthread_getattr_np(pthread_self(), &at)) return;
  if (!pthread_attr_getstack(&at, &a, &n)) race_clear((uintptr_t)a, n);
  pthread_attr_destroy(&at);
}
// Every thread gets a stack of its own, in order: std keeps threads in maps keyed by address, so
// where the C library's stack cache would have put one decides how many steps a lookup takes.
static const pthread_attr_t *race_stack(const pthread_attr_t *a, pthread_attr_t *at, int id) {
  static char *base;
  size_t each = 16u << 20, n = 2u << 20;
  int det = 0;
  if (!base) base = fresh(each * MAXT);
  if (a) { pthread_attr_getstacksize(a, &n); pthread_attr_getdetachstate(a, &det); }
  if (n > each - 65536) return a;
  pthread_attr_init(at);
  pthread_attr_setdetachstate(at, det);
  n = (n + 65535) & ~65535ull;
  pthread_attr_setstack(at, base + each * id + each - n, n);
  return at;
}
// std insists on a guard page, which only stacks of the C library's own making report
int pthread_attr_getguardsize(const pthread_attr_t *a, size_t *n) { (void)a; *n = 4096; return 0; }
static void race_joined(int me_, int other) { join(&tvc[me_], &tvc[other]); }

static void __attribute__((noinline)) race_report(uintptr_t a, Slot *o, uint32_t pc, int t, int fl) {
  race_found.addr = a;
  race_found.pc0 = o->pc; race_found.pc1 = pc; race_found.tid0 = o->tid; race_found.tid1 = t; race_found.f0 = o->flags; race_found.f1 = fl;
  fatal(4);
}
static inline void check8(uintptr_t g, uint8_t mask, int fl, uint32_t pc) {
  Page *p = page_of(g, 1);
  if (!p) return;
  Slot *s = p->g[(g & 4095) >> 3].s;
  int t = cur->id, shared = 0, put = -1;
  VC *c = &tvc[t];
  race_checks++;
  for (int i = 0; i < 4; i++) {
    Slot *o = &s[i];
    if (!o->mask) { if (put < 0) put = i; continue; }
    if (o->tid == t) {
      if ((o->mask & mask) == o->mask && (o->flags & 1) <= (fl & 1) && (o->flags & 2) >= (fl & 2)) put = i;
      continue;
    }
    if (!(o->mask & mask) || !((o->flags | fl) & 1)) continue;
    shared = 1;
    if (o->flags & fl & 2) continue;
    if (o->tid >= c->n || o->clk > c->v[o->tid]) race_report(g, o, pc, t, fl);
    else if (put < 0 && (fl & 1) && (o->mask & mask) == o->mask && !(fl & 2)) put = i;
  }
  if (put < 0) put = evict_rr++ & 3;
  s[put] = (Slot){.clk = c->v[t], .pc = pc, .tid = (uint8_t)t, .mask = mask, .flags = (uint8_t)fl};
  if (shared) {
    race_shared++;
    if (cfg.strategy == 3 && hotleft && counting && below(rs, 1000) < 40 + cfg.param) { hotleft--; st.hot_hits++; budget--; preempt(0); }
  }
}
static inline void range(uintptr_t a, size_t n, int fl, uint32_t pc) {
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t g = a & ~7ull;
    unsigned lo = a & 7, hi = e - g < 8 ? (unsigned)(e - g) : 8;
    check8(g, (uint8_t)((0xFF << lo) & (0xFF >> (8 - hi))), fl, pc);
    a = g + 8;
  }
}
// while nobody else is alive, everything done happens before whatever is started later
static inline int alone(void) { return nlive <= 2; }
#define PC ((uint32_t)((char *)__builtin_return_address(0) - &__executable_start))
static inline void touch(uintptr_t a, size_t n, int fl, uint32_t pc) {
  if (!counting) return;
  if (__builtin_expect(--budget <= 0, 0)) preempt(0);
  if (!alone()) range(a, n, fl, pc);
}
#define RW(n) \
  void __tsan_read##n(void *a) { touch((uintptr_t)a, n, 0, PC); } \
  void __tsan_write##n(void *a) { touch((uintptr_t)a, n, 1, PC); } \
  void __tsan_read_write##n(void *a) { touch((uintptr_t)a, n, 1, PC); } \
  void __tsan_unaligned_read##n(void *a) { touch((uintptr_t)a, n, 0, PC); } \
  void __tsan_unaligned_write##n(void *a) { touch((uintptr_t)a, n, 1, PC); } \
  void __tsan_unaligned_read_write##n(void *a) { touch((uintptr_t)a, n, 1, PC); } \
  void __tsan_volatile_read##n(void *a) { touch((uintptr_t)a, n, 2, PC); } \
  void __tsan_volatile_write##n(void *a) { touch((uintptr_t)a, n, 3, PC); } \
  void __tsan_unaligned_volatile_read##n(void *a) { touch((uintptr_t)a, n, 2, PC); } \
  void __tsan_unaligned_volatile_write##n(void *a) { touch((uintptr_t)a, n, 3, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, uintptr_t n) { touch((uintptr_t)a, n, 0, PC); }
void __tsan_write_range(void *a, uintptr_t n) { touch((uintptr_t)a, n, 1, PC); }
void *__tsan_memcpy(void *d, const void *s, uintptr_t n) {
  if (n) { touch((uintptr_t)s, n, 0, PC); touch((uintptr_t)d, n, 1, PC); }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, uintptr_t n) {
  if (n) { touch((uintptr_t)s, n, 0, PC); touch((uintptr_t)d, n, 1, PC); }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, uintptr_t n) {
  if (n) touch((uintptr_t)d, n, 1, PC);
  return memset(d, c, n);
}
void __tsan_vptr_update(void **a, void *v) { (void)a; (void)v; }
void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void race_alloc(void *p, size_t n) { (void)p; (void)n; }
void race_free(void *p, size_t n) { if (counting && n && !alone()) range((uintptr_t)p, n, 5, PC); }

// std takes some of its memory from the C library directly, and memory goes back and forth between
// it and the simulator's allocator: a block that is handed out has no history
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
size_t malloc_usable_size(void *);
static void *handed(void *p) {
  if (p && active && me == cur) race_clear((uintptr_t)p, malloc_usable_size(p));
  return p;
}
void *malloc(size_t n) { return handed(__libc_malloc(n)); }
void *calloc(size_t n, size_t k) { return handed(__libc_calloc(n, k)); }
void *realloc(void *p, size_t n) { return handed(__libc_realloc(p, n)); }
void *memalign(size_t al, size_t n) { return handed(__libc_memalign(al, n)); }
void *aligned_alloc(size_t al, size_t n) { return handed(__libc_memalign(al, n)); }
int posix_memalign(void **o, size_t al, size_t n) { *o = handed(__libc_memalign(al, n)); return *o ? 0 : ENOMEM; }

// ---- atomics
static inline int at_enter(void) {
  if (!(active && me)) return 0;
  if (counting && __builtin_expect(--budget <= 0, 0)) preempt(0);
  return 1;
}
static inline void at_read(uintptr_t a, int mo) {
  Sync *s = sync_of(a, 0);
  if (!s) return;
  if (mo == 0 || mo == 3) join(&acqp[cur->id], &s->vc);
  else join(&tvc[cur->id], &s->vc);
}
static inline void at_write(uintptr_t a, int mo, int rmw) {
  int t = cur->id;
  VC *src = mo >= 3 ? &tvc[t] : &relf[t];
  Sync *s = sync_of(a, src->n != 0);
  // a relaxed store leaves what earlier stores released (C++11's release sequences when the
  // thread is the same; for another thread this errs on the side of silence)
  if (s) { if (rmw || mo < 3) join(&s->vc, src); else copy(&s->vc, src); }
  if (mo >= 3) tvc[t].v[t]++;
}
static inline void at_touch(void *a, int n, int fl, uint32_t pc) {
  race_atomics++;
  if (counting && !alone()) range((uintptr_t)a, n, fl, pc);
}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int mo) { \
    if (!at_enter()) return __atomic_load_n(a, 5); \
    at_touch((void *)a, sizeof(T), 2, PC); at_read((uintptr_t)a, mo); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { \
    if (at_enter()) { at_touch((void *)a, sizeof(T), 3, PC); at_write((uintptr_t)a, mo, 0); } \
    __atomic_store_n(a, v, 5); } \
  RMW(B, T, exchange, __atomic_exchange_n) RMW(B, T, fetch_add, __atomic_fetch_add) RMW(B, T, fetch_sub, __atomic_fetch_sub) \
  RMW(B, T, fetch_and, __atomic_fetch_and) RMW(B, T, fetch_or, __atomic_fetch_or) RMW(B, T, fetch_xor, __atomic_fetch_xor) \
  RMW(B, T, fetch_nand, __atomic_fetch_nand) \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
    if (!at_enter()) { __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; } \
    at_touch((void *)a, sizeof(T), 3, PC); \
    if (__atomic_compare_exchange_n(a, &c, v, 0, 5, 5)) { at_read((uintptr_t)a, mo); at_write((uintptr_t)a, mo, 1); } \
    else at_read((uintptr_t)a, fmo); \
    return c; }
#define RMW(B, T, name, op) \
  T __tsan_atomic##B##_##name(volatile T *a, T v, int mo) { \
    if (at_enter()) { at_touch((void *)a, sizeof(T), 3, PC); at_read((uintptr_t)a, mo); at_write((uintptr_t)a, mo, 1); } \
    return op(a, v, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!at_enter()) return;
  int t = cur->id;
  if (mo != 3) join(&tvc[t], &acqp[t]);
  if (mo >= 3) { copy(&relf[t], &tvc[t]); tvc[t].v[t]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

void dsim_race(uint64_t *o) {
  o[0] = race_found.addr; o[1] = race_found.pc0; o[2] = race_found.pc1; o[3] = race_found.tid0; o[4] = race_found.tid1;
  o[5] = race_found.f0; o[6] = race_found.f1; o[7] = race_checks; o[8] = race_atomics; o[9] = race_shared;
}
