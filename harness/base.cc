// C06 random numbers, C07 heap/sort containers, C10 strings, C11 options.
#include "gen.h"
#include <vl/random.h>
#include <vl/stringop.h>
#include <vl/host.h>
extern "C" {
#include <vl/getopt_long.h>
}
#include <ctype.h>
using namespace vt;

// ------------------------------------------------------------------ C06
struct Mt {  // the published algorithm, straightforwardly
  uint32_t s[624]; int p;
  void seed(uint32_t v) { s[0] = v; for (int i = 1; i < 624; ++i) s[i] = 1812433253u * (s[i - 1] ^ (s[i - 1] >> 30)) + i; p = 624; }
  void key(uint32_t const *k, size_t n) {
    seed(19650218u);
    size_t i = 1, j = 0;
    for (size_t t = std::max<size_t>(624, n); t; --t) {
      s[i] = (s[i] ^ ((s[i - 1] ^ (s[i - 1] >> 30)) * 1664525u)) + k[j] + (uint32_t)j;
      if (++i >= 624) { s[0] = s[623]; i = 1; }
      if (++j >= n) j = 0;
    }
    for (size_t t = 623; t; --t) {
      s[i] = (s[i] ^ ((s[i - 1] ^ (s[i - 1] >> 30)) * 1566083941u)) - (uint32_t)i;
      if (++i >= 624) { s[0] = s[623]; i = 1; }
    }
    s[0] = 0x80000000u; p = 624;
  }
  uint32_t next() {
    if (p == 624) {
      for (int i = 0; i < 624; ++i) {
        uint32_t y = (s[i] & 0x80000000u) | (s[(i + 1) % 624] & 0x7fffffffu);
        s[i] = s[(i + 397) % 624] ^ (y >> 1) ^ (y & 1 ? 0x9908b0dfu : 0);
      }
      p = 0;
    }
    uint32_t y = s[p++];
    y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18;
    return y;
  }
};
static uint32_t untemper(uint32_t y) {
  y ^= y >> 18;
  y ^= (y << 15) & 0xefc60000u;
  uint32_t t = y; for (int i = 0; i < 5; ++i) t = y ^ ((t << 7) & 0x9d2c5680u); y = t;
  t = y; for (int i = 0; i < 3; ++i) t = y ^ (t >> 11);
  return t;
}
static void draw(Ctx &c, VlRand *g, Mt &m, long n) {
  Rng &r = c.rng;
  for (long i = 0; i < n; ++i) {
    int op = (int)r.range(0, 10);
#define EQ(v, e, name) do { auto v_ = (v); auto e_ = (e); if (!(v_ == e_)) c.fail(name, "draw %ld: %.17g, expected %.17g", i, (double)v_, (double)e_); } while (0)
    switch (op) {
    case 0: case 1: EQ(vl_rand_uint32(g), m.next(), "uint32"); break;
    case 2: { uint64_t a = m.next(), b = m.next(); EQ((uint64_t)vl_rand_uint64(g), (a << 32) | b, "uint64"); break; }
    case 3: { uint64_t a = m.next(), b = m.next(); int64_t v = vl_rand_int63(g); if (v < 0) c.fail("int63", "negative"); EQ(v, (int64_t)(((a << 32) | b) >> 1), "int63"); break; }
    case 4: { int32_t v = vl_rand_int31(g); if (v < 0) c.fail("int31", "negative"); EQ(v, (int32_t)(m.next() >> 1), "int31"); break; }
    case 5: { double v = vl_rand_real1(g), e = m.next() / 4294967295.0; if (!(v >= 0 && v <= 1)) c.fail("real1", "%.17g outside [0,1]", v); if (!close(v, e, 1e-15, 0)) c.fail("real1", "%.17g, expected %.17g", v, e); break; }
    case 6: { double v = vl_rand_real2(g), e = m.next() / 4294967296.0; if (!(v >= 0 && v < 1)) c.fail("real2", "%.17g outside [0,1)", v); if (!close(v, e, 1e-15, 0)) c.fail("real2", "%.17g, expected %.17g", v, e); break; }
    case 7: { double v = vl_rand_real3(g), e = (m.next() + .5) / 4294967296.0; if (!(v > 0 && v < 1)) c.fail("real3", "%.17g outside (0,1)", v); if (!close(v, e, 1e-15, 0)) c.fail("real3", "%.17g, expected %.17g", v, e); break; }
    case 8: { double a = m.next() >> 5, b = m.next() >> 6, v = vl_rand_res53(g); if (!(v >= 0 && v < 1)) c.fail("res53", "%.17g outside [0,1)", v); if (!close(v, (a * 67108864. + b) / 9007199254740992., 1e-15, 0)) c.fail("res53", "%.17g", v); break; }
    case 9: { uint64_t k = r.chance(.3) ? (uint64_t)r.range(1, 10) : r.chance(.2) ? 0xffffffffull : (r.u64() >> r.range(32, 63)) + 1;
      if (k > 0xffffffffull) k = 0xffffffffull;
      uint64_t v = vl_rand_uindex(g, k); if (v >= k) c.fail("uindex", "%llu not below %llu", (unsigned long long)v, (unsigned long long)k);
      EQ(v, (uint64_t)(m.next() % (uint32_t)k), "uindex"); break; }
    case 10: { uint64_t k = 0x100000000ull + (r.u64() >> r.range(0, 31)); if (k < 0x100000000ull) k = ~0ull;
      uint64_t v = vl_rand_uindex(g, k); if (v >= k) c.fail("uindex64", "%llu not below %llu", (unsigned long long)v, (unsigned long long)k);
      uint64_t a = m.next(), b = m.next(); EQ(v, ((a << 32) | b) % k, "uindex64"); break; }
    }
  }
  c.count("variates checked", n);
}
VT_GROUP(C06, stream, 400, 12000) {
  Rng &r = c.rng;
  VlRand *g = (VlRand *)malloc(sizeof(VlRand)); Mt m;
  vl_rand_init(g);
  bool unseeded = r.chance(.1);
  if (unseeded) m.seed(5489u);
  long reseed = r.range(1, 3);
  for (long k = 0; k < reseed; ++k) {
    if (!unseeded || k) {
      if (r.chance(.5)) { uint32_t s = r.chance(.2) ? r.pick({0u, 1u, 0xffffffffu, 5489u}) : (uint32_t)r.u64(); vl_rand_seed(g, s); m.seed(s); c.desc("seed %u", s); }
      else {
        long n = r.chance(.5) ? r.range(1, 8) : r.chance(.5) ? r.range(620, 630) : r.range(1, 1500);
        std::vector<vl_uint32> key(n); for (auto &v : key) v = (uint32_t)r.u64();
        vl_rand_seed_by_array(g, key.data(), n); m.key(key.data(), n); c.desc("key array of %ld", n);
      }
    }
    draw(c, g, m, r.range(1, 2500));
  }
  free(g);
  c.nontrivial(r.u64());
}
// extreme 32-bit outputs, injected through the state
VT_GROUP(C06, extremes, 300, 6000) {
  Rng &r = c.rng;
  VlRand g; Mt m;
  vl_rand_init(&g);
  uint32_t s = (uint32_t)r.u64(); vl_rand_seed(&g, s); m.seed(s);
  m.next(); vl_rand_uint32(&g);
  for (int i = 0; i < 624; ++i) if (g.mt[i] != m.s[i]) throw Skip();
  for (int i = 1; i < 624; ++i) { uint32_t o = r.pick({0u, 0xffffffffu, 0xfffffffeu, 1u, 0x7fffffffu, 0x80000000u, 0xffffffe0u}); m.s[i] = g.mt[i] = untemper(o); }
  draw(c, &g, m, 250);
  c.nontrivial(r.u64());
}
#define VL_SHUFFLE_type float
#define VL_SHUFFLE_prefix shf
#include <vl/shuffle-def.h>
struct Pr { long *a; long *pos; };
#define VL_SHUFFLE_array Pr *
#define VL_SHUFFLE_prefix shp
#define VL_SHUFFLE_swap shp_swap
static void shp_swap(Pr *p, vl_uindex a, vl_uindex b) { std::swap(p->a[a], p->a[b]); p->pos[p->a[a]] = a; p->pos[p->a[b]] = b; }
#include <vl/shuffle-def.h>
VT_GROUP(C06, permutations, 600, 20000) {
  Rng &r = c.rng;
  VlRand g; vl_rand_init(&g); uint32_t s = (uint32_t)r.u64(); vl_rand_seed(&g, s);
  long n = r.range(0, 200);
  Guarded<vl_index> a(n, 8, (vl_index)-99);
  for (long i = 0; i < n; ++i) a.data()[i] = i;
  c.desc("n=%ld seed=%u", n, s);
  vl_rand_permute_indexes(&g, a.data(), n);
  if (!a.intact()) c.fail("permute-bounds", "wrote outside");
  std::vector<char> seen(n, 0);
  for (long i = 0; i < n; ++i) { vl_index v = a.data()[i]; if (v < 0 || v >= n || seen[v]++) c.fail("permute", "element %ld is %lld: not a permutation of %ld", i, (long long)v, n); }
  VlRand h; vl_rand_init(&h); vl_rand_seed(&h, s);
  std::vector<vl_index> b(n); for (long i = 0; i < n; ++i) b[i] = i;
  vl_rand_permute_indexes(&h, b.data(), n);
  for (long i = 0; i < n; ++i) if (b[i] != a.data()[i]) c.fail("permute-seed", "equal seeds, different permutations");
  Guarded<float> f(n, 8, -99.f); std::vector<float> u(n), v;
  for (long i = 0; i < n; ++i) f.data()[i] = u[i] = (float)r.range(0, 50);
  shf_shuffle(f.data(), n, &g);
  if (!f.intact()) c.fail("shuffle-bounds", "wrote outside");
  v.assign(f.data(), f.data() + n); std::sort(v.begin(), v.end()); std::sort(u.begin(), u.end());
  if (u != v) c.fail("shuffle", "elements lost or duplicated");
  std::vector<long> x(n), pos(n); for (long i = 0; i < n; ++i) x[i] = pos[i] = i;
  Pr p = {x.data(), pos.data()};
  shp_shuffle(&p, n, &g);
  for (long i = 0; i < n; ++i) if (x[i] < 0 || x[i] >= n || pos[x[i]] != i) c.fail("shuffle-swap", "back reference of %ld broken", i);
  c.count("permutations");
  c.nontrivial(s);
}
VT_GROUP(C06, fairness, 8, 64) {
  Rng &r = c.rng;
  VlRand g; vl_rand_init(&g); vl_rand_seed(&g, (uint32_t)r.u64());
  long const N = 24000; long cnt[24] = {0}, cf[24] = {0};
  auto code = [](auto *a) { int q = 0, n = 4; long left[4] = {0, 1, 2, 3}; for (int i = 0; i < n; ++i) { int k = 0; while (left[k] != (long)a[i]) ++k; q = q * (n - i) + k; for (int j = k; j + 1 < n - i; ++j) left[j] = left[j + 1]; } return q; };
  for (long t = 0; t < N; ++t) { vl_index a[4] = {0, 1, 2, 3}; vl_rand_permute_indexes(&g, a, 4); cnt[code(a)]++; float f[4] = {0, 1, 2, 3}; shf_shuffle(f, 4, &g); cf[code(f)]++; }
  double x = 0, y = 0, e = N / 24.;
  for (int i = 0; i < 24; ++i) { x += (cnt[i] - e) * (cnt[i] - e) / e; y += (cf[i] - e) * (cf[i] - e) / e; }
  // 23 degrees of freedom: P(chi2 > 100) < 1e-11
  if (x > 100) c.fail("fairness", "permutations of 4: chi2 %.1f over 24 outcomes", x);
  if (y > 100) c.fail("fairness", "shuffles of 4: chi2 %.1f over 24 outcomes", y);
  c.count("permutations drawn for the chi-squared test", 2 * N);
  c.nontrivial(r.u64());
}

// ------------------------------------------------------------------ C07
#define VL_HEAP_type float
#define VL_HEAP_prefix hf
#include <vl/heap-def.h>
struct HA { double *key; long *id; long *pos; long swaps; long cmps; };
static double ha_cmp(HA *h, vl_uindex a, vl_uindex b) { h->cmps++; return h->key[a] - h->key[b]; }
static void ha_swap(HA *h, vl_uindex a, vl_uindex b) { h->swaps++; std::swap(h->key[a], h->key[b]); std::swap(h->id[a], h->id[b]); h->pos[h->id[a]] = a; h->pos[h->id[b]] = b; }
#define VL_HEAP_array HA *
#define VL_HEAP_prefix ha
#define VL_HEAP_cmp ha_cmp
#define VL_HEAP_swap ha_swap
#include <vl/heap-def.h>

static double hkey(Rng &r, int kind) { return kind == 0 ? r.normal() : kind == 1 ? (double)r.range(0, 4) : kind == 2 ? 1 : (double)r.range(-1000, 1000); }
VT_GROUP(C07, heap_indexed, 1500, 40000) {
  Rng &r = c.rng;
  long cap = r.chance(.5) ? r.range(1, 12) : r.range(1, 300), steps = r.range(5, 500);
  int kind = (int)r.range(0, 3); double up = r.uni(.2, .8);
  std::vector<double> key(cap); std::vector<long> id(cap, -1), pos; std::vector<double> val; std::vector<char> in;
  HA h = {key.data(), id.data(), 0, 0, 0};
  vl_size n = 0;
  c.desc("capacity %ld, %ld steps, keys %d", cap, steps, kind);
  double last = -INFINITY; bool mono = false;
  for (long t = 0; t < steps; ++t) {
    double dice = r.uni();
    if (n < (vl_size)cap && (n == 0 || dice < up)) {
      long me = (long)val.size();
      double k = hkey(r, kind);
      val.push_back(k); in.push_back(1); pos.push_back(n); h.pos = pos.data();
      key[n] = k; id[n] = me;
      long before = h.swaps;
      ha_push(&h, &n);
      if (h.swaps - before > 2 + log2((double)n + 1)) c.fail("depth", "push of element %llu took %ld swaps", (unsigned long long)n, h.swaps - before);
      mono = false;
    } else if (dice < up + (1 - up) * .5 && n) {
      long i = r.range(0, (long)n - 1);
      val[id[i]] = key[i] = hkey(r, kind);
      long before = h.swaps;
      ha_update(&h, n, i);
      if (h.swaps - before > 2 + log2((double)n + 1)) c.fail("depth", "update took %ld swaps", h.swaps - before);
      mono = false;
    } else if (n) {
      double least = INFINITY; for (vl_size i = 0; i < n; ++i) least = std::min(least, val[id[i]]);
      vl_size n0 = n;
      vl_uindex w = ha_pop(&h, &n);
      if (n != n0 - 1 || w != n) c.fail("pop-index", "pop returned %llu, size went from %llu to %llu", (unsigned long long)w, (unsigned long long)n0, (unsigned long long)n);
      if (key[w] != least) c.fail("pop-min", "popped %g, least is %g", key[w], least);
      if (val[id[w]] != key[w]) c.fail("payload", "key and payload separated");
      if (mono && key[w] < last) c.fail("pop-order", "popped %g after %g", key[w], last);
      in[id[w]] = 0; last = key[w]; mono = true;
    }
    // heap order, conservation, back references
    long cnt = 0; for (char b : in) cnt += b;
    if (cnt != (long)n) c.fail("conserve", "size %llu, %ld elements alive", (unsigned long long)n, cnt);
    for (vl_size i = 0; i < n; ++i) {
      if (i && key[(i - 1) / 2] > key[i]) c.fail("heap-order", "element %llu smaller than its parent", (unsigned long long)i);
      if (id[i] < 0 || !in[id[i]] || val[id[i]] != key[i]) c.fail("payload", "position %llu holds a foreign element", (unsigned long long)i);
      if (pos[id[i]] != (long)i) c.fail("back-reference", "element %ld believes to be at %ld, is at %llu", id[i], pos[id[i]], (unsigned long long)i);
    }
    c.count("heap operations");
  }
  for (long i = 0; i < 40; ++i) {
    vl_uindex k = (vl_uindex)r.range(1, 1000000);
    if (vl_heap_parent(vl_heap_left_child(k)) != k || vl_heap_parent(vl_heap_right_child(k)) != k || vl_heap_left_child(k) == vl_heap_right_child(k)) c.fail("links", "index arithmetic at %llu", (unsigned long long)k);
  }
  c.nontrivial(r.u64());
}
VT_GROUP(C07, heap_plain, 800, 20000) {
  Rng &r = c.rng;
  long cap = r.range(1, 100); int kind = (int)r.range(0, 3);
  Guarded<float> a(cap, 8, -1e9f); vl_size n = 0;
  std::vector<float> in, out;
  for (long i = 0; i < cap; ++i) { float k = (float)hkey(r, kind); a.data()[n] = k; in.push_back(k); hf_push(a.data(), &n); }
  while (n) { vl_uindex w = hf_pop(a.data(), &n); out.push_back(a.data()[w]); }
  if (!a.intact()) c.fail("bounds", "wrote outside the array");
  std::sort(in.begin(), in.end());
  if (in != out) c.fail("heap-sort", "popping %ld elements does not give them in order", cap);
  c.count("heap operations", 2 * cap);
  c.nontrivial(in);
}
#define VL_QSORT_type float
#define VL_QSORT_prefix qf
#include <vl/qsort-def.h>
struct QA { long *k; long *v; };
static long qa_cmp(QA *q, vl_uindex a, vl_uindex b) { return q->k[b] - q->k[a]; } // decreasing
static void qa_swap(QA *q, vl_uindex a, vl_uindex b) { std::swap(q->k[a], q->k[b]); std::swap(q->v[a], q->v[b]); }
#define VL_QSORT_array QA *
#define VL_QSORT_prefix qa
#define VL_QSORT_cmp qa_cmp
#define VL_QSORT_swap qa_swap
#include <vl/qsort-def.h>
VT_GROUP(C07, sort, 3000, 80000) {
  Rng &r = c.rng;
  long n = r.chance(.5) ? r.range(1, 12) : r.range(1, 400); int kind = (int)r.range(0, 5);
  Guarded<float> a(n, 8, -1e9f);
  for (long i = 0; i < n; ++i) a.data()[i] = kind == 4 ? (float)i : kind == 5 ? (float)(n - i) : (float)hkey(r, kind);
  std::vector<float> e(a.data(), a.data() + n);
  c.desc("n=%ld kind=%d", n, kind);
  qf_sort(a.data(), n);
  if (!a.intact()) c.fail("bounds", "wrote outside the array");
  std::sort(e.begin(), e.end());
  for (long i = 0; i < n; ++i) if (a.data()[i] != e[i]) c.fail("sort", "position %ld: %g, expected %g", i, a.data()[i], e[i]);
  std::vector<long> k(n), v(n), k0; for (long i = 0; i < n; ++i) { k[i] = kind == 1 ? r.range(0, 3) : r.range(-500, 500); v[i] = i; } k0 = k;
  QA q = {k.data(), v.data()};
  qa_sort(&q, n);
  std::vector<char> seen(n, 0);
  for (long i = 0; i < n; ++i) {
    if (i && k[i] > k[i - 1]) c.fail("sort-custom", "position %ld out of the caller's order", i);
    if (v[i] < 0 || v[i] >= n || seen[v[i]]++ || k0[v[i]] != k[i]) c.fail("sort-permutation", "position %ld", i);
  }
  c.count("sorts", 2);
  c.nontrivial(e);
}

// ------------------------------------------------------------------ C10
struct Str { char b[400]; long n; Str() : n(0) { b[0] = 0; } void add(char c) { b[n++] = c; b[n] = 0; } };
static Str rstr(Rng &r, char const *alpha, long maxn) { Str s; long n = r.range(0, maxn), k = (long)strlen(alpha); for (long i = 0; i < n; ++i) s.add(alpha[r.range(0, k - 1)]); return s; }
// checks a bounded write of `want` into a buffer of capacity cap
static void bounded(Ctx &c, char const *key, Guarded<char> &g, long cap, vl_size ret, Str const &want) {
  if (!g.intact()) c.fail(key, "wrote outside a buffer of %ld", cap);
  if (ret != (vl_size)want.n) c.fail(key, "returned %llu, full length %ld", (unsigned long long)ret, want.n);
  if (cap > 0) {
    long k = std::min(cap - 1, want.n);
    if (memcmp(g.data(), want.b, k) || g.data()[k] != 0) c.fail(key, "buffer of %ld holds '%.*s', expected '%.*s'", cap, (int)cap, g.data(), (int)k, want.b);
    for (long i = k + 1; i < cap; ++i) if (g.data()[i] != '~') c.fail(key, "wrote past the terminator at %ld", i);
  }
  c.count("bounded writes");
}
// the source in an exactly sized block, so that over-reads are seen
struct Exact { char *p; Exact(Str const &s) { p = (char *)malloc(s.n + 1); memcpy(p, s.b, s.n + 1); } ~Exact() { free(p); } };
VT_GROUP(C10, bounded, 4000, 120000) {
  Rng &r = c.rng;
  Str s = rstr(r, "ab/\\.%^\xe9 x..", 24); Exact e(s);
  long cap = r.chance(.2) ? r.range(0, 1) : r.chance(.3) ? s.n + r.range(0, 2) : r.range(0, 40);
  c.desc("source '%s' capacity %ld", s.b, cap);
  { Guarded<char> g(cap, 16, '~'); bounded(c, "copy", g, cap, vl_string_copy(cap || r.chance(.5) ? g.data() : 0, cap, e.p), s); }
  { long a = r.range(0, s.n), b = r.range(a, s.n); Str w; for (long i = a; i < b; ++i) w.add(s.b[i]);
    Guarded<char> g(cap, 16, '~'); bounded(c, "copy_sub", g, cap, vl_string_copy_sub(cap || r.chance(.5) ? g.data() : 0, cap, e.p + a, e.p + b), w);
    Str t = s; Exact et(t); // the terminator ends the substring
    Guarded<char> g2(cap, 16, '~'); Str w2; for (long i = a; i < s.n; ++i) w2.add(s.b[i]);
    bounded(c, "copy_sub", g2, cap, vl_string_copy_sub(g2.data(), cap, et.p + a, et.p + s.n + 1), w2); }
  { long ext = r.range(0, 4); long beg = 0, end = s.n; for (long i = 0; i < s.n; ++i) if (s.b[i] == '/' || s.b[i] == '\\') beg = i + 1;
    for (long k = 0; k < ext; ++k) { long d = -1; for (long i = beg; i < end; ++i) if (s.b[i] == '.') d = i; if (d < 0) break; end = d; }
    Str w; for (long i = beg; i < end; ++i) w.add(s.b[i]);
    Guarded<char> g(cap, 16, '~'); bounded(c, "basename", g, cap, vl_string_basename(cap || r.chance(.5) ? g.data() : 0, cap, e.p, ext), w); }
  { char wc = r.pick({'%', 'a', '.', 'x'}), es = r.pick({'^', '\\', (char)0, 'b'}); Str rep = rstr(r, "yz%^", 8); Exact er(rep);
    Str w; for (long i = 0; i < s.n; ++i) {
      if (es && s.b[i] == es) { if (++i < s.n) w.add(s.b[i]); }
      else if (s.b[i] == wc) for (long j = 0; j < rep.n; ++j) w.add(rep.b[j]);
      else w.add(s.b[i]); }
    Guarded<char> g(cap, 16, '~'); bounded(c, "replace_wildcard", g, cap, vl_string_replace_wildcard(cap || r.chance(.5) ? g.data() : 0, cap, e.p, wc, es, er.p), w); }
  { long a = r.range(0, s.n), b = r.range(a, s.n); char k = r.pick({'a', '.', '/', 'q'}); char *want = 0; for (long i = a; i < b; ++i) if (e.p[i] == k) want = e.p + i;
    if (vl_string_find_char_rev(e.p + a, e.p + b, k) != want) c.fail("find_char_rev", "last '%c' in [%ld,%ld)", k, a, b); }
  if (vl_string_length(e.p) != (vl_size)s.n) c.fail("length", "'%s'", s.b);
  c.nontrivial(fnv(s.b, s.n) ^ cap * 77);
}
VT_GROUP(C10, compare_and_lookup, 3000, 60000) {
  Rng &r = c.rng;
  auto low = [](unsigned char x) { return x >= 'A' && x <= 'Z' ? x + 32 : (int)x; };
  Str a = rstr(r, "aAbBzZ_@[\xe9", 5), b = r.chance(.5) ? rstr(r, "aAbBzZ_@[\xe9", 5) : a;
  if (r.chance(.5)) for (long i = 0; i < b.n; ++i) if (isalpha((unsigned char)b.b[i]) && (unsigned char)b.b[i] < 128 && r.chance(.5)) b.b[i] ^= 32;
  Exact ea(a), eb(b);
  int want = 0; for (long i = 0;; ++i) { int x = low(a.b[i]), y = low(b.b[i]); if (x != y) { want = x - y; break; } if (!x) break; }
  int got = vl_string_casei_cmp(ea.p, eb.p);
  c.desc("'%s' against '%s'", a.b, b.b);
  if ((got < 0) != (want < 0) || (got > 0) != (want > 0)) c.fail("casei_cmp", "sign of %d, expected that of %d", got, want);
  // enumerations
  long n = r.range(0, 6); std::vector<Str> names(n); std::vector<VlEnumerator> en(n + 1);
  for (long i = 0; i < n; ++i) { names[i] = r.chance(.2) ? a : rstr(r, "aAbB", 3); en[i].name = names[i].b; en[i].value = r.range(-3, 3); }
  en[n].name = 0; en[n].value = 0;
  VlEnumerator *w0 = 0, *w1 = 0, *w2 = 0; vl_index v = r.range(-4, 4);
  for (long i = n - 1; i >= 0; --i) {
    if (names[i].n == b.n && !memcmp(names[i].b, b.b, b.n)) w0 = &en[i];
    bool eq = names[i].n == b.n; for (long k = 0; eq && k < b.n; ++k) if (low(names[i].b[k]) != low(b.b[k])) eq = false;
    if (eq) w1 = &en[i];
    if (en[i].value == v) w2 = &en[i];
  }
  if (vl_enumeration_get(en.data(), eb.p) != w0) c.fail("enum-name", "lookup of '%s' among %ld", b.b, n);
  if (vl_enumeration_get_casei(en.data(), eb.p) != w1) c.fail("enum-casei", "lookup of '%s' among %ld", b.b, n);
  if (vl_enumeration_get_by_value(en.data(), v) != w2) c.fail("enum-value", "lookup of %lld among %ld", (long long)v, n);
  c.count("comparisons and lookups", 4);
  c.nontrivial(fnv(a.b, a.n) ^ fnv(b.b, b.n) * 3);
}
VT_GROUP(C10, protocols, 2000, 40000) {
  Rng &r = c.rng;
  Str s; static char const *heads[] = {"ascii", "bin", "binary", "", "asc", "asciix", "ASCII", "b", "a", "file", "bi", "binar", "binaryx", "ascii:", "://", "bin/"};
  char const *h = heads[r.range(0, 15)]; for (char const *q = h; *q; ++q) s.add(*q);
  if (r.chance(.8)) { s.add(':'); s.add('/'); s.add('/'); }
  Str t = rstr(r, "ab:/.", 8); for (long i = 0; i < t.n; ++i) s.add(t.b[i]);
  Exact e(s);
  char *m = strstr(e.p, "://"); long len = m ? m - e.p : 0;
  int want = VL_PROT_NONE; if (m) { want = VL_PROT_UNKNOWN; if (len == 5 && !memcmp(e.p, "ascii", 5)) want = VL_PROT_ASCII; if ((len == 3 && !memcmp(e.p, "bin", 3)) || (len == 6 && !memcmp(e.p, "binary", 6))) want = VL_PROT_BINARY; }
  c.desc("'%s'", s.b);
  int p = 12345; char *rest = vl_string_parse_protocol(e.p, &p);
  if (rest != (m ? m + 3 : e.p)) c.fail("protocol-rest", "rest starts at %ld", (long)(rest - e.p));
  if (p != want) c.fail("protocol-code", "code %d, expected %d", p, want);
  if (vl_string_parse_protocol(e.p, 0) != rest) c.fail("protocol-rest", "without a code");
  struct { int p; char const *n; } nm[] = {{VL_PROT_ASCII, "ascii"}, {VL_PROT_BINARY, "bin"}, {VL_PROT_NONE, ""}, {VL_PROT_UNKNOWN, ""}, {77, ""}};
  for (auto &x : nm) { char const *q = vl_string_protocol_name(x.p); if (!q) c.fail("protocol-name", "null name for %d", x.p); if (x.p == VL_PROT_BINARY ? strcmp(q, "bin") && strcmp(q, "binary") : strcmp(q, x.n)) c.fail("protocol-name", "'%s' for %d", q, x.p); }
  c.count("protocol strings");
  c.nontrivial(fnv(s.b, s.n));
}

// ------------------------------------------------------------------ C11
static int flagvar;
static struct option const table[] = {
  {"help", no_argument, 0, 'h'}, {"he", no_argument, 0, 1003}, {"fluoride", required_argument, 0, 'f'}, {"fl", required_argument, 0, 1004},
  {"spike", optional_argument, 0, 1002}, {"set", no_argument, &flagvar, 7}, {"put", required_argument, &flagvar, 9}, {0, 0, 0, 0}};
struct Ev { int ret; int arg; long argi; int off; int li; int opt; int flag; }; // arg: -1 none, else argv index and offset
VT_GROUP(C11, argv, 6000, 200000) {
  Rng &r = c.rng;
  static char const *words[] = {"-h", "-b", "-f", "-hb", "-hbf", "-fval", "-bfval", "-z", "-hzb", "--", "-", "--help", "--he", "--hel", "--fluoride", "--fluoride=3", "--fluoride=", "--fl", "--fl=x=y",
    "--spike", "--spike=1", "--set", "--put", "--put=q", "--nope", "--nope=1", "file", "a.txt", "", "x-y", "-f=3", "---", "-hh", "--=x", "-:", "-b:", "--help=x", "--set=", "--he=1"};
  bool colon = r.chance(.4); char const *optstring = colon ? ":hbf:" : "hbf:";
  long n = r.range(0, r.chance(.2) ? 20 : 9);
  std::vector<Str> store(n + 1); std::vector<char *> av(n + 2); std::vector<char *> orig;
  for (char q : {'p'}) store[0].add(q);
  bool mostlyFiles = r.chance(.2);
  for (long i = 1; i <= n; ++i) {
    if (mostlyFiles && r.chance(.6)) { store[i].add('a'); store[i].add((char)('a' + i)); continue; }
    if (r.chance(.25)) { // a cluster of short options, known, unknown and with attached values
      store[i].add('-');
      for (long k = r.range(1, 6); k > 0; --k) store[i].add(r.pick<char>({'h', 'b', 'f', 'h', 'b', 'z', '-', '=', '3', ':', 'F'}));
      if (!strncmp(store[i].b, "--", 2)) store[i].b[1] = 'h';
      continue;
    }
    char const *w = words[r.range(0, 38)]; for (; *w; ++w) store[i].add(*w);
  }
  char *blocks[24];
  Str d; for (long i = 0; i <= n; ++i) { Exact *e = new Exact(store[i]); blocks[i] = (char *)e; av[i] = e->p; for (char const *q = e->p; *q && d.n < 300; ++q) d.add(*q); d.add('|'); }
  av[n + 1] = 0; orig.assign(av.begin(), av.end());
  int argc = (int)n + 1;
  c.desc("optstring '%s' argv %s", optstring, d.b);
  // model: arguments in order; non-options are moved behind the options, in order
  std::vector<Ev> ev; std::vector<char *> opts, non; long i = 1; bool dash = false;
  while (i < argc) {
    char *a = orig[i];
    if (a[0] != '-' || !a[1]) { non.push_back(a); ++i; continue; }
    if (a[1] == '-' && !a[2]) { opts.push_back(a); ++i; dash = true; break; }
    opts.push_back(a);
    if (a[1] == '-') {
      char *nm = a + 2; size_t len = strcspn(nm, "="); int k; for (k = 0; table[k].name; ++k) if (strlen(table[k].name) == len && !memcmp(table[k].name, nm, len)) break;
      if (!table[k].name) { ev.push_back({'?', -1, 0, 0, -1, -1, -1}); ++i; continue; }
      if (!table[k].has_arg && nm[len] == '=') { ev.push_back({'?', -1, 0, 0, -2, -1, -1}); ++i; continue; }
      Ev e = {table[k].flag ? 0 : table[k].val, -1, 0, 0, k, -1, table[k].flag ? table[k].val : -1};
      if (table[k].has_arg && nm[len] == '=') { e.arg = 1; e.argi = i; e.off = (int)(nm + len + 1 - a); }
      else if (table[k].has_arg == required_argument) {
        if (i + 1 >= argc) { ev.push_back({colon ? ':' : '?', -1, 0, 0, -2, -1, -1}); ++i; continue; }
        ++i; opts.push_back(orig[i]); e.arg = 1; e.argi = i; e.off = 0;
      }
      ev.push_back(e); ++i; continue;
    }
    bool used = false;
    for (char *q = a + 1; *q; ++q) {
      char ch = *q;
      if (ch != 'h' && ch != 'b' && ch != 'f') { ev.push_back({'?', -2, 0, 0, -1, ch, -1}); continue; }
      if (ch != 'f') { ev.push_back({ch, -1, 0, 0, -1, ch, -1}); continue; }
      if (q[1]) { ev.push_back({ch, 1, i, (int)(q + 1 - a), -1, ch, -1}); break; }
      if (i + 1 >= argc) { ev.push_back({colon ? ':' : '?', -2, 0, 0, -1, ch, -1}); break; }
      used = true; ev.push_back({ch, 1, i + 1, 0, -1, ch, -1}); break;
    }
    ++i;
    if (used) { opts.push_back(orig[i]); ++i; }
  }
  std::vector<char *> fin; fin.push_back(orig[0]); for (char *o : opts) fin.push_back(o); long first = (long)fin.size(); for (char *o : non) fin.push_back(o); for (; i < argc; ++i) fin.push_back(orig[i]);
  // run
  char msg[4096]; memset(msg, 0, sizeof msg); FILE *save = stderr; FILE *mem = fmemopen(msg, sizeof msg - 1, "w"); setbuf(mem, 0);
  opterr = r.chance(.7); optreset = 1; optind = 1; optarg = 0; flagvar = -1;
  long expectMsgs = 0;
  stderr = mem;
  struct Restore { FILE *s, *m; ~Restore() { stderr = s; fclose(m); } } restore = {save, mem};
  auto cleanup = [&]() { for (long k = 0; k <= n; ++k) delete (Exact *)blocks[k]; };
  bool dbl = dash, sawcol = false; for (long k = 1; k <= n; ++k) if (strchr(orig[k], ':')) sawcol = true;
  bool lone = false; for (long k = 1; k <= n; ++k) if (!strcmp(orig[k], "-")) lone = true;
  (void)sawcol;
  char const *K = dbl ? "double-dash" : lone ? "lone-dash" : "parse";
  bool withIndex = r.chance(.7);
  for (size_t k = 0; k <= ev.size(); ++k) {
    int li = -1; flagvar = -1;
    int ret = getopt_long(argc, av.data(), optstring, table, withIndex ? &li : 0);
    if (k == ev.size()) { if (ret != -1) { c.note(K, "call %zu returned %d after the last option", k, ret); goto done; } break; }
    Ev &e = ev[k];
    if (ret != e.ret) { c.note(K, "call %zu returned %d, expected %d", k, ret, e.ret); goto done; }
    if (e.arg == 1 && optarg != orig[e.argi] + e.off) { c.note(K, "call %zu: option argument '%s', expected '%s'", k, optarg ? optarg : "(null)", orig[e.argi] + e.off); goto done; }
    if (e.arg == -1 && e.li >= 0 && optarg) { c.note(K, "call %zu: unexpected option argument", k); goto done; }
    if (withIndex && e.li >= 0 && li != e.li) { c.note(K, "call %zu: long option index %d, expected %d", k, li, e.li); goto done; }
    if (e.opt >= 0 && optopt != e.opt) { c.note(K, "call %zu: optopt %d, expected %d", k, optopt, e.opt); goto done; }
    if (e.flag != flagvar) { c.note(K, "call %zu: flag variable %d, expected %d", k, flagvar, e.flag); goto done; }
    if ((ret == '?') && !colon) ++expectMsgs;
    c.count("options parsed");
  }
  if (optind != first) { c.note(K, "ends at index %d, first non-option is %ld", optind, first); goto done; }
  for (int k = 0; k < argc; ++k) if (av[k] != fin[k]) { c.note(K, "argument %d is '%s', expected '%s'", k, av[k], fin[k]); goto done; }
  if (av[argc]) { c.note(K, "the null entry after the arguments was overwritten"); goto done; }
  { fflush(mem); long lines = 0; for (char *q = msg; *q; ++q) lines += *q == '\n'; if (lines != (opterr ? expectMsgs : 0)) { c.note("messages", "%ld diagnostics, expected %ld", lines, opterr ? expectMsgs : 0); goto done; } }
  c.nontrivial(fnv(d.b, d.n) ^ colon);
done:
  cleanup();
}
