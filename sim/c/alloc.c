// Global allocator of the simulated process: fills fresh memory with garbage,
// fills freed memory with a pattern and holds it back in a queue, so that stale
// reads and writes through dangling references change results or are caught.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define QN 8192
#define SMALL (512u << 10)
#define QBYTES (96u << 20)

static struct { uint8_t *p; size_t n; } q[QN];
static unsigned qh, qt;
static size_t qb;
static volatile int lk;
static int on;
static void (*bad)(int);
uint64_t dsim_alloc_count, dsim_free_checks;

#ifdef DSIM_RACE
void race_alloc(void *p, size_t n);
void race_free(void *p, size_t n);
#else
#define race_alloc(p, n) ((void)0)
#define race_free(p, n) ((void)0)
#endif
static void take(void) { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) {} }
static void drop(void) { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }

void dsim_alloc_on(void (*cb)(int)) { bad = cb; on = 1; }
void dsim_alloc_off(void) { on = 0; }

void *dsim_malloc(size_t n, size_t align) {
  void *p = 0;
  if (align <= 16) p = malloc(n ? n : 1);
  else if (posix_memalign(&p, align, n ? n : 1)) p = 0;
  if (p && on && n <= SMALL) memset(p, 0xA5, n);
  dsim_alloc_count++;
  race_alloc(p, n);
  return p;
}

void *dsim_calloc(size_t n, size_t align) {
  void *p = 0;
  if (align <= 16) p = calloc(n ? n : 1, 1);
  else if (posix_memalign(&p, align, n ? n : 1)) p = 0;
  else memset(p, 0, n);
  race_alloc(p, n);
  return p;
}

static void evict(void) {
  uint8_t *p = q[qh % QN].p;
  size_t n = q[qh % QN].n;
  qh++;
  qb -= n;
  int dirty = 0;
  for (size_t i = 0; i < n; i++) dirty |= p[i] ^ 0xDD;
  dsim_free_checks++;
  if (dirty && bad) { drop(); bad(3); }
  free(p);
}

void dsim_free(void *p, size_t n) {
  race_free(p, n);
  if (!on || n > SMALL) { free(p); return; }
  memset(p, 0xDD, n);
  take();
  while (qt - qh >= QN || qb + n > QBYTES) evict();
  q[qt % QN].p = p; q[qt % QN].n = n; qt++; qb += n;
  drop();
}

// check everything still held back
void dsim_alloc_sweep(void) {
  if (!on) return;
  take();
  while (qt != qh) evict();
  drop();
}
