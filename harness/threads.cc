// Threads on distinct objects (C03): every module's workload runs in several
// threads at once under ThreadSanitizer; each thread's results must be those
// of the same workload running alone.
#include "tasks.h"
#include <atomic>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
using namespace vt;

// threads started together; run(k) is executed in thread k
struct Gang {
  pthread_barrier_t bar;
  std::function<void(int)> run;
  struct Arg { Gang *g; int k; };
  static void *entry(void *p) {
    Arg *a = (Arg *)p;
    pthread_barrier_wait(&a->g->bar);
    a->g->run(a->k);
    return 0;
  }
  void go(int n) {
    pthread_barrier_init(&bar, 0, n);
    std::vector<pthread_t> t(n);
    std::vector<Arg> args(n);
    for (int i = 0; i < n; ++i) {
      args[i].g = this; args[i].k = i;
      if (pthread_create(&t[i], 0, entry, &args[i])) abort();
    }
    for (int i = 0; i < n; ++i) pthread_join(t[i], 0);
    pthread_barrier_destroy(&bar);
  }
};

struct Job { int task; uint64_t seed; int jitter; uint64_t got, want; };
static uint64_t runJob(Job const &j) {
  Rng r;
  r.seed(j.seed);
  return TASKS[j.task].f(r);
}
static void jitter(int k) {
  if (k == 1) sched_yield();
  else if (k > 1) { volatile int x = 0; for (int i = 0; i < k * 50; ++i) x = x + 1; }
}

static void mix(Ctx &c, bool same) {
  Rng &r = c.rng;
  int T = (int)r.range(2, c.thorough ? 8 : 5);
  int only = (int)(same ? c.idx % NTASKS : -1);
  std::vector<std::vector<Job>> jobs(T);
  for (auto &v : jobs) {
    v.resize(r.range(1, same ? 3 : 5));
    for (auto &j : v) {
      j.task = same ? only : (int)r.range(0, NTASKS - 1);
      j.seed = r.u64();
      j.jitter = r.chance(.5) ? 0 : (int)r.range(1, 40);
    }
  }
  c.desc("%d threads, %s", T, same ? TASKS[only].name : "mixed modules");
  bool before = r.chance(.5);
  auto alone = [&]() { for (auto &v : jobs) for (auto &j : v) j.want = runJob(j); };
  if (before) alone();
  std::atomic<int> inside(0), top(0);
  Gang g;
  g.run = [&](int k) {
    for (auto &j : jobs[k]) {
      jitter(j.jitter);
      int now = inside.fetch_add(1) + 1;
      int t = top.load();
      while (now > t && !top.compare_exchange_weak(t, now)) {}
      j.got = runJob(j);
      inside.fetch_sub(1);
    }
  };
  g.go(T);
  if (!before) alone();
  long n = 0;
  std::vector<uint64_t> seen;
  for (auto &v : jobs) for (auto &j : v) {
    ++n;
    seen.push_back(j.got);
    if (j.got != j.want)
      c.fail("threads.result", "the %s workload (seed %llu) computed something else in %d threads than alone", TASKS[j.task].name, (unsigned long long)j.seed, T);
  }
  c.count("workloads run in threads", (double)n);
  c.count("threads started", T);
  if (top >= 2) c.count("cases with workloads really overlapping");
  c.nontrivial(seen);
}
VT_GROUP(C03, same, 330, 6600, 0) { mix(c, true); }
VT_GROUP(C03, mixed, 200, 4000, 0) { mix(c, false); }

// the state of a thread is its own and starts fresh
VT_GROUP(C03, state, 200, 4000, 0) {
  Rng &r = c.rng;
  int T = (int)r.range(2, 8);
  c.desc("%d threads with their own error and generator", T);
  struct S { uint64_t seed; int code, firstErr, bad; bool emptyMsg, seeded; long draws; std::vector<vl_uint32> got; char msg[64]; };
  std::vector<S> s(T);
  for (int k = 0; k < T; ++k) {
    s[k].seed = r.u64(); s[k].code = (int)r.range(1, 1000); s[k].seeded = r.chance(.5);
    s[k].draws = r.range(1, 700); s[k].bad = 0; s[k].firstErr = 0; s[k].emptyMsg = true;
    snprintf(s[k].msg, sizeof s[k].msg, "%s of thread %d is %llu", "seed", k, (unsigned long long)s[k].seed);
  }
  // the calling thread's own state must not change
  vl_rand_seed(vl_get_rand(), 77);
  vl_set_last_error(3, "main");
  Gang g;
  VlRand *mine = vl_get_rand();
  std::vector<VlRand *> where(T);
  g.run = [&](int k) {
    S &e = s[k];
    e.firstErr = vl_get_last_error();
    e.emptyMsg = vl_get_last_error_message()[0] == 0;
    where[k] = vl_get_rand();
    if (e.seeded) vl_rand_seed(vl_get_rand(), (vl_uint32)e.seed);
    for (long i = 0; i < e.draws; ++i) {
      if (i % 50 == 0) vl_set_last_error(e.code + (int)i, "%s", e.msg);
      e.got.push_back(vl_rand_uint32(vl_get_rand()));
      if (i % 50 == 20) {
        if (vl_get_last_error() != e.code + (int)(i - 20)) e.bad |= 1;
        if (strcmp(vl_get_last_error_message(), e.msg)) e.bad |= 2;
      }
      if (vl_get_rand() != where[k]) e.bad |= 4;
    }
  };
  g.go(T);
  for (int k = 0; k < T; ++k) {
    S &e = s[k];
    if (e.firstErr || !e.emptyMsg) c.fail("state.fresh", "thread %d started with error %d%s", k, e.firstErr, e.emptyMsg ? "" : " and a message");
    if (e.bad & 3) c.fail("state.error", "thread %d read back another error than it had set", k);
    if (e.bad & 4) c.fail("state.moves", "the generator of thread %d moved while it was running", k);
    if (where[k] == mine) c.fail("state.shared", "thread %d shares the generator of the main thread", k);
    for (int q = 0; q < k; ++q) if (where[q] == where[k] && 0) c.fail("state.shared", "two threads share a generator");
    VlRand ref;
    vl_rand_init(&ref);
    if (e.seeded) vl_rand_seed(&ref, (vl_uint32)e.seed);
    for (size_t i = 0; i < e.got.size(); ++i)
      if (e.got[i] != vl_rand_uint32(&ref)) c.fail("state.rand", "draw %zu of thread %d is not that of its own generator", i, k);
    c.nontrivial(e.got, k);
    c.count("threads with their own state");
    c.count("draws compared", (double)e.got.size());
  }
  VlRand ref;
  vl_rand_init(&ref);
  vl_rand_seed(&ref, 77);
  if (vl_get_last_error() != 3 || strcmp(vl_get_last_error_message(), "main")) c.fail("state.main", "the error of the main thread was changed by others");
  if (vl_rand_uint32(vl_get_rand()) != vl_rand_uint32(&ref)) c.fail("state.main", "the generator of the main thread was advanced by others");
}

// what a thread owned is released when it ends
VT_GROUP(C03, release, 16, 160, 0) {
  Rng &r = c.rng;
  if (!__sanitizer_get_current_allocated_bytes) throw Skip();
  int T = (int)r.range(2, 6), rounds = 40;
  int how = (int)r.range(0, 2);
  c.desc("%d x %d short threads", rounds, T);
  Gang g;
  g.run = [&](int) {
    if (how == 0) vl_rand_uint32(vl_get_rand());
    else if (how == 1) vl_set_last_error(1, "x");
    else { vl_tic(); vl_get_last_error(); }
  };
  for (int i = 0; i < 10; ++i) g.go(T);
  size_t before = __sanitizer_get_current_allocated_bytes();
  for (int i = 0; i < rounds; ++i) g.go(T);
  size_t after = __sanitizer_get_current_allocated_bytes();
  double perThread = ((double)after - (double)before) / (rounds * T);
  c.count("short threads ended", rounds * T);
  // the state of a thread holds the generator's 624 words
  if (perThread > 1000) c.fail("state.leak", "every ended thread leaves %.0f bytes behind", perThread);
  c.nontrivial((uint64_t)how * 100 + T + 1000 * c.idx);
}

// one forest, one searcher per thread
VT_GROUP(C03, searchers, 120, 2500, 0) {
  Rng &r = c.rng;
  int T = (int)r.range(2, 6);
  long d = r.range(1, 10), n = r.range(2, 150), q = r.range(1, 12), kk = r.range(1, std::min(n, 6L));
  std::vector<float> x = points<float>(r, d, n);
  VlKDForest *f = vl_kdforest_new(VL_TYPE_FLOAT, d, r.range(1, 4), r.chance(.5) ? VlDistanceL2 : VlDistanceL1);
  vl_kdforest_set_max_num_comparisons(f, r.chance(.4) ? 0 : r.range(1, 80));
  vl_kdforest_build(f, n, x.data());
  c.desc("%d searchers of %ld points in %ld dimensions", T, n, d);
  std::vector<VlKDForestSearcher *> s(T);
  std::vector<std::vector<float>> y(T);
  std::vector<uint64_t> got(T), want(T);
  for (int k = 0; k < T; ++k) { s[k] = vl_kdforest_new_searcher(f); y[k] = points<float>(r, d, q); }
  auto work = [&](int k, VlKDForestSearcher *sr) {
    Hash h;
    std::vector<VlKDForestNeighbor> nb(kk);
    for (long i = 0; i < q; ++i) {
      h.val(vl_kdforestsearcher_query(sr, nb.data(), kk, &y[k][i * d]));
      for (auto &b : nb) { h.val(b.index); h.val(b.distance); }
    }
    return h.h;
  };
  Gang g;
  g.run = [&](int k) { got[k] = work(k, s[k]); };
  g.go(T);
  VlKDForestSearcher *one = vl_kdforest_new_searcher(f);
  for (int k = 0; k < T; ++k) {
    want[k] = work(k, one);
    if (want[k] != got[k]) c.fail("searchers.result", "searcher %d of %d found other neighbours in its thread than alone", k, T);
    c.count("queries in threads", (double)q);
  }
  for (auto p : s) vl_kdforestsearcher_delete(p);
  vl_kdforest_delete(f);
  c.nontrivial(got);
}
