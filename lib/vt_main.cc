// vt_main.cc - case loop, allocation accounting, result file.
#include "vt.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <malloc.h>
#include <signal.h>

namespace vt {

void Ctx::desc(char const *fmt, ...) {
  va_list a; va_start(a, fmt); vsnprintf(desc_, sizeof desc_, fmt, a); va_end(a);
}
static void record(Ctx &c, char const *key, char const *fmt, va_list a) {
  ViolRec r;
  memset(&r, 0, sizeof r);
  snprintf(r.group, sizeof r.group, "%s", c.group);
  r.idx = c.idx;
  snprintf(r.key, sizeof r.key, "%s", key);
  vsnprintf(r.msg, sizeof r.msg, fmt, a);
  snprintf(r.desc, sizeof r.desc, "%s", c.desc_);
  int same = 0;
  for (auto &v : st().viol) if (!strcmp(v.key, r.key) && !strcmp(v.group, r.group)) ++same;
  if (same < 5) st().viol.push_back(r);
}
void Ctx::note(char const *key, char const *fmt, ...) {
  if (st().memonly && strncmp(key, "mem.", 4)) return;
  va_list a; va_start(a, fmt); record(*this, key, fmt, a); va_end(a);
}
void Ctx::fail(char const *key, char const *fmt, ...) {
  if (!(st().memonly && strncmp(key, "mem.", 4))) {
    va_list a; va_start(a, fmt); record(*this, key, fmt, a); va_end(a);
  }
  throw Violation();
}
void Ctx::count(char const *name, double n) {
  State &s = st();
  for (int i = 0; i < s.ncounters; ++i)
    if (!strcmp(s.counters[i].name, name)) { s.counters[i].n += n; return; }
  if (s.ncounters == 400) return;
  Counter &k = s.counters[s.ncounters++];
  snprintf(k.name, sizeof k.name, "%s", name);
  k.n = n;
}
void Ctx::nontrivial(uint64_t h) {
  st().nontriv++;
  st().seen.push_back(fnv(group, strlen(group)) ^ (h * 0x9e3779b97f4a7c15ull));
}

// ---- accounting allocator (installed with vl_set_alloc_func). A header in
// front of each block holds size and a magic number, so a block that is freed
// twice or not obtained from the library's allocator is noticed as well.
#ifdef __SANITIZE_ADDRESS__
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#define POISON(h) __asan_poison_memory_region(h, sizeof(Hdr))
#define UNPOISON(h) __asan_unpoison_memory_region(h, sizeof(Hdr))
#else
#define POISON(h)
#define UNPOISON(h)
#endif
struct Hdr { size_t size; uint64_t magic; };
// see rawalloc.cc
extern "C" { extern long vt_raw_live __attribute__((weak)); __thread int vt_in_allocator = 0; }
struct InAlloc { InAlloc() { ++vt_in_allocator; } ~InAlloc() { --vt_in_allocator; } };
static uint64_t const LIVE = 0x564c464541544c56ull, DEAD = 0xdeaddeaddeaddeadull;
static bool injected() {
  State &s = st();
  if (!s.failAt || --s.failAt) return false;
  if (--s.failsLeft > 0) s.failAt = 1;
  if (s.failMode == FAIL_THROW) throw Abandoned();
  return true;
}
static void *a_malloc(size_t n) {
  if (injected()) return 0;
  InAlloc in;
  Hdr *h = (Hdr *)malloc(n + sizeof(Hdr));
  if (!h) return 0;
  h->size = n; h->magic = LIVE;
  __atomic_add_fetch(&st().liveBlocks, 1, __ATOMIC_SEQ_CST);
  __atomic_add_fetch(&st().liveBytes, (long)n, __ATOMIC_SEQ_CST);
  __atomic_add_fetch(&st().allocs, 1, __ATOMIC_SEQ_CST);
  POISON(h);
  if (st().track) st().blocks.push_back(h + 1);
  return h + 1;
}
static void a_free(void *p) {
  if (!p) return;
  InAlloc in;
  Hdr *h = (Hdr *)p - 1;
  UNPOISON(h);
  if (st().track) {
    auto &b = st().blocks;
    for (size_t i = b.size(); i-- > 0;) if (b[i] == p) { b.erase(b.begin() + i); break; }
  }
  if (h->magic != LIVE) { __atomic_add_fetch(&st().badFrees, 1, __ATOMIC_SEQ_CST); return; }
  h->magic = DEAD;
  __atomic_sub_fetch(&st().liveBlocks, 1, __ATOMIC_SEQ_CST);
  __atomic_sub_fetch(&st().liveBytes, (long)h->size, __ATOMIC_SEQ_CST);
  free(h);
}
static void *a_calloc(size_t n, size_t k) {
  void *p = a_malloc(n * k);
  if (p) memset(p, 0, n * k);
  return p;
}
static void *a_realloc(void *p, size_t n) {
  if (!p) return a_malloc(n);
  void *q = a_malloc(n);
  if (!q) return 0;
  Hdr *h = (Hdr *)p - 1;
  UNPOISON(h);
  memcpy(q, p, std::min(n, h->size));
  a_free(p);
  return q;
}

void disposeAll() {
  bool t = st().track;
  st().track = false;
  for (void *p : st().blocks) a_free(p);
  st().blocks.clear();
  st().track = t;
}

static int silent_printf(char const *, ...) { return 0; }

static void jstr(FILE *f, char const *s) {
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char ch = *s;
    if (ch == '"' || ch == '\\') { fputc('\\', f); fputc(ch, f); }
    else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch);
    else fputc(ch, f);
  }
  fputc('"', f);
}

struct Progress { volatile long gi, idx, beat; };

} // namespace vt

using namespace vt;
extern "C" void __gcov_dump(void) __attribute__((weak));

int main(int argc, char **argv) {
  char const *prop = 0, *group = 0, *out = 0, *prog = 0;
  long only = -1, shard = 0, shards = 1, startG = 0, startI = 0;
  double scale = 1;
  uint64_t seed = 1;
  bool thorough = false, account = false;
  unsigned need = 0, skipf = 0;
  for (int i = 1; i < argc; ++i) {
    char const *a = argv[i];
    auto val = [&]() { return argv[++i]; };
    if (!strcmp(a, "--prop")) prop = val();
    else if (!strcmp(a, "--group")) group = val();
    else if (!strcmp(a, "--case")) only = atol(val());
    else if (!strcmp(a, "--seed")) seed = strtoull(val(), 0, 10);
    else if (!strcmp(a, "--thorough")) thorough = true;
    else if (!strcmp(a, "--out")) out = val();
    else if (!strcmp(a, "--progress")) prog = val();
    else if (!strcmp(a, "--shard")) { shard = atol(val()); shards = atol(val()); }
    else if (!strcmp(a, "--start")) { startG = atol(val()); startI = atol(val()); }
    else if (!strcmp(a, "--scale")) scale = atof(val());
    else if (!strcmp(a, "--mem")) { st().memonly = true; account = true; need |= MEM; }
    else if (!strcmp(a, "--account")) account = true;
    else if (!strcmp(a, "--msan")) { st().memonly = true; skipf |= NOMSAN; need |= MEM; }
    else if (!strcmp(a, "--list")) {
      for (int g = 0; g < st().ngroups; ++g)
        printf("%s %s %ld %ld\n", st().groups[g].prop, st().groups[g].name, st().groups[g].quick, st().groups[g].thorough);
      return 0;
    } else { fprintf(stderr, "vt: bad argument %s\n", a); return 64; }
  }
  State &s = st();
  vl_set_printf_func(silent_printf);
  s.accounting = account;
  if (account) vl_set_alloc_func(a_malloc, a_realloc, a_calloc, a_free);

  Progress dummy, *pg = &dummy;
  if (prog) {
    int fd = open(prog, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Progress))) return 65;
    pg = (Progress *)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  static std::vector<std::vector<char>> samples;
  long ran = 0;
  for (int g = 0; g < s.ngroups; ++g) {
    Group const &G = s.groups[g];
    if (prop && strcmp(prop, G.prop)) continue;
    if (group && strcmp(group, G.name)) continue;
    if ((G.flags & need) != need || (G.flags & skipf)) continue;
    if (g < startG) continue;
    if ((G.flags & SERIAL) && shard != 0) continue;
    long n = thorough ? G.thorough : G.quick;
    if (scale != 1) n = std::max(std::min(n, 4L), (long)(n * scale));
    long nsamp = 0;
    long lo = 0, hi = n, step = shards, first = shard;
    if (G.flags & SERIAL) { step = 1; first = 0; }
    if (only >= 0) { first = only; hi = only + 1; step = 1; }
    (void)lo;
    for (long k = first; k < hi; k += step) {
      if (g == startG && k < startI) continue;
      pg->gi = g; pg->idx = k; pg->beat++;
      static Ctx c;
      c.group = G.name; c.idx = k; c.thorough = thorough; c.desc_[0] = 0;
      c.rng.seed(seed * 1000003ull + fnv(G.name, strlen(G.name)) * 31ull + (uint64_t)k * 0x9e3779b97f4a7c15ull);
      vl_rand_seed(vl_get_rand(), (vl_uint32)c.rng.u64());
      vl_set_simd_enabled(VL_TRUE);
      long live0 = s.liveBlocks, bytes0 = s.liveBytes, bad0 = s.badFrees;
      long raw0 = &vt_raw_live ? vt_raw_live : 0;
      bool ok = true, skipped = false;
      try { G.body(c); }
      catch (Violation &) { ok = false; }
      catch (Skip &) { skipped = true; }
      s.failAt = 0; s.track = false; s.blocks.clear();
      s.evals++;
      ++ran;
      if (skipped) s.skipped++;
      if (account && ok) {
        if (s.badFrees != bad0)
          c.note("mem.badfree", "a block was released twice, or released without coming from the installed allocator");
        else if (s.liveBlocks != live0)
          c.note("mem.leak", "%ld blocks (%ld bytes) obtained from the installed allocator are still live after every object was deleted",
                 s.liveBlocks - live0, s.liveBytes - bytes0);
        else if (&vt_raw_live && vt_raw_live > raw0)
          c.note("mem.rawleak", "%ld blocks taken directly from the C library have not been released", vt_raw_live - raw0);
        c.count("allocator balance checked");
      }
      if (nsamp < 1 && c.desc_[0] && !skipped) {
        char b[600];
        snprintf(b, sizeof b, "%s case %ld: %s", G.name, k, c.desc_);
        samples.emplace_back(b, b + strlen(b) + 1);
        ++nsamp;
      }
    }
  }
  pg->gi = -1;
  FILE *f = out ? fopen(out, "w") : stdout;
  if (!f) return 66;
  fprintf(f, "{\"evaluations\":%ld,\"skipped\":%ld,\"nontrivial\":%ld,\"allocs\":%ld,\n\"counters\":{", s.evals, s.skipped, s.nontriv, s.allocs);
  for (int i = 0; i < s.ncounters; ++i) {
    if (i) fputc(',', f);
    jstr(f, s.counters[i].name);
    fprintf(f, ":%.0f", s.counters[i].n);
  }
  fprintf(f, "},\n\"samples\":[");
  for (size_t i = 0; i < samples.size(); ++i) { if (i) fputc(',', f); jstr(f, samples[i].data()); }
  fprintf(f, "],\n\"violations\":[");
  for (size_t i = 0; i < s.viol.size(); ++i) {
    ViolRec &v = s.viol[i];
    if (i) fputc(',', f);
    fprintf(f, "{\"group\":"); jstr(f, v.group);
    fprintf(f, ",\"case\":%ld,\"key\":", v.idx); jstr(f, v.key);
    fprintf(f, ",\"msg\":"); jstr(f, v.msg);
    fprintf(f, ",\"desc\":"); jstr(f, v.desc);
    fprintf(f, "}");
  }
  std::sort(s.seen.begin(), s.seen.end());
  s.seen.erase(std::unique(s.seen.begin(), s.seen.end()), s.seen.end());
  fprintf(f, "],\n\"seen\":[");
  for (size_t i = 0; i < s.seen.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)s.seen[i]);
  fprintf(f, "]}\n");
  if (out) fclose(f);
  fflush(stdout);
  if (__gcov_dump) __gcov_dump();
  _exit(0);
}
