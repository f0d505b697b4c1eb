// vt.h - the monitor framework shared by every harness.
//
// A harness is a set of "groups"; a group is a generator of cases plus the
// oracle that judges the observed execution.  Case k of group g under seed s
// is a pure function of (s, g, k), so "--group g --case k --seed s" replays
// it.  The framework avoids std::map/std::string on purpose: it must also run
// under MemorySanitizer, where libstdc++.so is not instrumented.
#ifndef VT_H
#define VT_H
#include <vl/generic.h>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <climits>
#include <algorithm>
#include <functional>
#include <limits>

extern "C" intptr_t __msan_test_shadow(void const volatile *, size_t) __attribute__((weak));
extern "C" void __msan_check_mem_is_initialized(void const volatile *, size_t) __attribute__((weak));
namespace vt {

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void seed(uint64_t x) { s[0] = mix(x); s[1] = mix(x); }
  uint64_t u64() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  // integer in [lo,hi]
  long range(long lo, long hi) { return lo + (long)(u64() % (uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return uni() < p; }
  double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  double normal() {
    double u = uni(), v = uni();
    if (u < 1e-300) u = 1e-300;
    return sqrt(-2 * log(u)) * cos(6.283185307179586 * v);
  }
  template <class T> T pick(std::initializer_list<T> l) {
    long k = range(0, (long)l.size() - 1);
    return *(l.begin() + k);
  }
};

inline uint64_t fnv(void const *p, size_t n, uint64_t h = 1469598103934665603ull) {
  unsigned char const *b = (unsigned char const *)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}

struct Violation {};   // thrown by Ctx::fail, caught by the driver loop
struct Skip {};        // the case turned out to be trivial

struct Counter { char name[48]; double n; };
struct ViolRec { char group[64]; long idx; char key[160]; char msg[600]; char desc[400]; };

struct State;
State &st();

struct Ctx {
  Rng rng;
  char const *group;
  long idx;
  bool thorough;
  char desc_[400];
  void desc(char const *fmt, ...) __attribute__((format(printf, 2, 3)));
  // a violation: key identifies the oracle and the class of input
  [[noreturn]] void fail(char const *key, char const *fmt, ...) __attribute__((format(printf, 3, 4)));
  // a violation recorded without leaving the case
  void note(char const *key, char const *fmt, ...) __attribute__((format(printf, 3, 4)));
  void count(char const *name, double n = 1);
  // marks the case as non-trivial; h identifies what was exercised
  void nontrivial(uint64_t h);
  template <class T> void nontrivial(std::vector<T> const &v, uint64_t h = 0) {
    nontrivial(fnv(v.data(), v.size() * sizeof(T), 1469598103934665603ull ^ h));
  }
};

typedef void (*Body)(Ctx &);
struct Group { char const *prop; char const *name; long quick, thorough; Body body; unsigned flags; };
enum { MEM = 1, NOMSAN = 2, SERIAL = 4 };

struct State {
  Group groups[400];
  int ngroups = 0;
  Counter counters[400];
  int ncounters = 0;
  std::vector<uint64_t> seen;
  std::vector<ViolRec> viol;
  std::vector<Counter> pad;
  long evals = 0, skipped = 0, nontriv = 0;
  bool memonly = false;
  // allocation accounting
  long liveBlocks = 0, liveBytes = 0, allocs = 0, badFrees = 0;
  // injected failures: the failAt-th allocation from now returns NULL (FAIL_NULL)
  // or leaves the library by an exception (FAIL_THROW), as Matlab does
  long failAt = 0, failsLeft = 0;
  int failMode = 0;
  // the blocks obtained while tracking (single-threaded groups only)
  bool track = false, accounting = false;
  std::vector<void *> blocks;
};
enum { FAIL_NULL, FAIL_THROW };
struct Abandoned {};
void disposeAll();   // releases every tracked block
inline State &st() { static State *s = new State; return *s; }

struct Reg {
  Reg(char const *prop, char const *name, long q, long t, Body b, unsigned flags = MEM) {
    State &s = st();
    s.groups[s.ngroups++] = Group{prop, name, q, t, b, flags};
  }
};

// VT_GROUP(property, name, quick cases, thorough cases[, flags]) { ... c ... }
#define VT_GROUP(prop, name, q, t, ...)                                        \
  static void vt_body_##prop##_##name(vt::Ctx &c);                             \
  static vt::Reg vt_reg_##prop##_##name(#prop, #prop "." #name, q, t,          \
                                        vt_body_##prop##_##name, ##__VA_ARGS__); \
  static void vt_body_##prop##_##name(vt::Ctx &c)

inline bool close(double a, double b, double rel, double abs) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return fabs(a - b) <= abs + rel * std::max(fabs(a), fabs(b));
}

// under MemorySanitizer: reports a result of which a part was never written
inline void defined(Ctx &c, void const *p, size_t n, char const *what) {
  if (!&__msan_test_shadow || !n) return;
  c.count("results checked to be fully written");
  intptr_t at = __msan_test_shadow(p, n);
  if (at >= 0) c.fail("mem.undefined", "byte %ld of %ld of %s was never written", (long)at, (long)n, what);
}

// A buffer with red zones filled with a canary, for writes that stay inside
// the malloc block but outside the region the API may touch (strides, ...).
template <class T> struct Guarded {
  std::vector<T> v;
  size_t off, n;
  T canary;
  Guarded(size_t n_, size_t pad, T can) : v(n_ + 2 * pad, can), off(pad), n(n_), canary(can) {}
  T *data() { return v.data() + off; }
  bool intact() const {
    for (size_t i = 0; i < off; ++i) if (memcmp(&v[i], &canary, sizeof(T))) return false;
    for (size_t i = off + n; i < v.size(); ++i) if (memcmp(&v[i], &canary, sizeof(T))) return false;
    return true;
  }
};

} // namespace vt
#endif
