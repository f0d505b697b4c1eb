/* gompshim.c - the entry points GCC emits for OpenMP constructs, on pthreads.
   Unlike libgomp it is compiled with the sanitizers, so that ThreadSanitizer
   knows the ordering implied by fork, join, barriers and critical sections,
   and it records what happened: regions, team sizes, the order in which the
   threads passed the critical sections. Random delays vary the schedules. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>

typedef struct Team {
  int n;
  pthread_barrier_t bar;
  pthread_mutex_t lock;
  /* work shares: thread k's i-th loop or single uses slot i */
  struct { long next, end, incr, chunk; int started, taken; void *copy; } ws[64];
  void (*fn)(void *);
  void *data;
} Team;
typedef struct { Team *team; int id; int wsi; } Self;
static __thread Self self;

/* what the monitor reads */
long vt_omp_regions, vt_omp_parallel_regions, vt_omp_criticals, vt_omp_max_team;
unsigned long vt_omp_order;            /* hash of the passing order */
int vt_omp_default = 4;
unsigned vt_omp_jitter;                /* seed, 0: no delays */

static void pause_(unsigned salt) {
  unsigned x;
  if (!vt_omp_jitter) return;
  x = vt_omp_jitter * 2654435761u ^ (salt + 1) * 40503u ^ (unsigned)self.id * 97u;
  x ^= x >> 13; x *= 0x5bd1e995u; x ^= x >> 15;
  if (x % 4 == 0) sched_yield();
  else if (x % 4 == 1) { volatile unsigned k = x % 3000; while (k) k = k - 1; }
}

static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
static void passed(void) {
  vt_omp_criticals++;
  vt_omp_order = vt_omp_order * 1099511628211ul + (unsigned)self.id + 1;
}
void GOMP_critical_start(void) { pause_(1); pthread_mutex_lock(&crit); passed(); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); pause_(2); }
void GOMP_critical_name_start(void **p) { (void)p; GOMP_critical_start(); }
void GOMP_critical_name_end(void **p) { (void)p; GOMP_critical_end(); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
void GOMP_barrier(void) { pause_(3); if (self.team) pthread_barrier_wait(&self.team->bar); }

static void *worker(void *p) {
  Self *s = (Self *)p;
  self = *s;
  pause_(4);
  self.team->fn(self.team->data);
  pause_(5);
  return 0;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags) {
  Self old = self;
  Team t;
  pthread_t th[64];
  Self s[64];
  int i;
  (void)flags;
  memset(&t, 0, sizeof t);
  t.n = num ? (int)num : vt_omp_default;
  if (t.n > 64) t.n = 64;
  if (old.team) t.n = 1;               /* nested regions are serial */
  else {
    vt_omp_regions++;
    if (t.n > 1) vt_omp_parallel_regions++;
    if (t.n > vt_omp_max_team) vt_omp_max_team = t.n;
  }
  t.fn = fn; t.data = data;
  pthread_barrier_init(&t.bar, 0, t.n);
  pthread_mutex_init(&t.lock, 0);
  for (i = 0; i < t.n; ++i) { s[i].team = &t; s[i].id = i; s[i].wsi = 0; }
  for (i = 1; i < t.n; ++i) if (pthread_create(&th[i], 0, worker, &s[i])) abort();
  self = s[0];
  pause_(6);
  fn(data);
  for (i = 1; i < t.n; ++i) pthread_join(th[i], 0);
  self = old;
  pthread_barrier_destroy(&t.bar);
  pthread_mutex_destroy(&t.lock);
}
void GOMP_parallel_start(void (*fn)(void *), void *data, unsigned num) { (void)fn; (void)data; (void)num; abort(); }
void GOMP_parallel_end(void) { abort(); }

int omp_get_thread_num(void) { return self.team ? self.id : 0; }
int omp_get_num_threads(void) { return self.team ? self.team->n : 1; }
int omp_get_max_threads(void) { return vt_omp_default; }
int omp_get_thread_limit(void) { return 2147483647; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return self.team && self.team->n > 1; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int x) { (void)x; }
void omp_set_nested(int x) { (void)x; }
void omp_set_num_threads(int n) { vt_omp_default = n; }

/* loops whose chunks are handed out at run time */
static bool loop_next(long *a, long *b) {
  Team *t = self.team;
  bool got = false;
  int i = (self.wsi - 1) % 64;
  if (!t) return false;
  pause_(7);
  pthread_mutex_lock(&t->lock);
  if (t->ws[i].incr > 0 ? t->ws[i].next < t->ws[i].end : t->ws[i].next > t->ws[i].end) {
    long step = t->ws[i].incr * t->ws[i].chunk, e = t->ws[i].next + step;
    if (t->ws[i].incr > 0 ? e > t->ws[i].end : e < t->ws[i].end) e = t->ws[i].end;
    *a = t->ws[i].next; *b = e;
    t->ws[i].next = e;
    got = true;
  }
  pthread_mutex_unlock(&t->lock);
  return got;
}
static bool loop_start(long start, long end, long incr, long chunk, long *a, long *b) {
  Team *t = self.team;
  int i = self.wsi++ % 64;
  if (!t) { *a = start; *b = end; return incr > 0 ? start < end : start > end; }
  pthread_mutex_lock(&t->lock);
  if (!t->ws[i].started) { t->ws[i].next = start; t->ws[i].end = end; t->ws[i].incr = incr; t->ws[i].chunk = chunk > 0 ? chunk : 1; }
  t->ws[i].started++;
  pthread_mutex_unlock(&t->lock);
  return loop_next(a, b);
}
void GOMP_loop_end_nowait(void) {}
void GOMP_loop_end(void) { GOMP_barrier(); }
#define LOOP(kind)                                                             \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##kind##_next(long *a, long *b) { return loop_next(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(kind)                                                            \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); } \
  bool GOMP_loop_##kind##_next(long *a, long *b) { return loop_next(a, b); }
RLOOP(runtime) RLOOP(maybe_nonmonotonic_runtime) RLOOP(nonmonotonic_runtime)
typedef struct { void (*fn)(void *); void *data; long s, e, i, c; } PL;
static void pl_entry(void *p) {        /* parallel + loop: every thread joins the first share */
  PL *q = (PL *)p;
  Team *t = self.team;
  int i = self.wsi++ % 64;
  pthread_mutex_lock(&t->lock);
  if (!t->ws[i].started) { t->ws[i].next = q->s; t->ws[i].end = q->e; t->ws[i].incr = q->i; t->ws[i].chunk = q->c > 0 ? q->c : 1; }
  t->ws[i].started++;
  pthread_mutex_unlock(&t->lock);
  q->fn(q->data);
}
static void parallel_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned f) {
  PL q = {fn, data, s, e, i, c};
  GOMP_parallel(pl_entry, &q, n, f);
}
#define PLOOP(kind) void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { parallel_loop(fn, d, n, s, e, i, c, f); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PRLOOP(kind) void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { parallel_loop(fn, d, n, s, e, i, 1, f); }
PRLOOP(runtime) PRLOOP(maybe_nonmonotonic_runtime) PRLOOP(nonmonotonic_runtime)

bool GOMP_single_start(void) {
  Team *t = self.team;
  int i = self.wsi++ % 64;
  bool first;
  if (!t) return true;
  pthread_mutex_lock(&t->lock);
  first = !t->ws[i].taken;
  t->ws[i].taken = 1;
  pthread_mutex_unlock(&t->lock);
  return first;
}
/* sections: numbers 1..count, 0 when done */
unsigned GOMP_sections_next(void) { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}

typedef pthread_mutex_t *omp_lock_;
void omp_init_lock(void **l) { *l = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init((pthread_mutex_t *)*l, 0); }
void omp_destroy_lock(void **l) { pthread_mutex_destroy((pthread_mutex_t *)*l); free(*l); }
void omp_set_lock(void **l) { pthread_mutex_lock((pthread_mutex_t *)*l); }
void omp_unset_lock(void **l) { pthread_mutex_unlock((pthread_mutex_t *)*l); }
double omp_get_wtime(void) { return 0; }
