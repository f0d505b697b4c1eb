// MSER (C33) and reuse of the filter (C42).
#include "vt.h"
#include "gen.h"
extern "C" {
#include <vl/mser.h>
}
using namespace vt;
typedef unsigned char pix;
struct Ms {
  VlMserFilt *f;
  Ms(std::vector<int> const &d) : f(vl_mser_new((int)d.size(), d.data())) {}
  ~Ms() { vl_mser_delete(f); }
  operator VlMserFilt *() { return f; }
};
struct Par { int delta; double maxA, minA, maxV, minD; };
static void setPar(VlMserFilt *f, Par const &p) {
  vl_mser_set_delta(f, (pix)p.delta); vl_mser_set_max_area(f, p.maxA); vl_mser_set_min_area(f, p.minA);
  vl_mser_set_max_variation(f, p.maxV); vl_mser_set_min_diversity(f, p.minD);
}
static bool sameSettings(VlMserFilt *f, Par const &p) {
  return vl_mser_get_delta(f) == p.delta && vl_mser_get_max_area(f) == p.maxA && vl_mser_get_min_area(f) == p.minA && vl_mser_get_max_variation(f) == p.maxV && vl_mser_get_min_diversity(f) == p.minD;
}
static Par params(Rng &r, long nel) {
  Par p;
  p.delta = r.chance(.4) ? 5 : r.chance(.3) ? r.range(0, 2) : r.chance(.1) ? r.range(0, 255) : r.range(1, 40);
  p.maxA = r.chance(.3) ? .75 : r.chance(.3) ? 1.1 : (r.range(0, nel) + .5) / nel;
  p.minA = r.chance(.5) ? 2.5 / nel : r.chance(.3) ? 0 : (r.range(0, nel / 8) + .5) / nel;
  p.maxV = r.chance(.3) ? .25 : r.chance(.5) ? 1e6 : r.uni(.01, 3);
  p.minD = r.chance(.3) ? .2 : r.chance(.3) ? 1 : r.chance(.2) ? 0 : r.uni(0, .99);
  return p;
}
static std::vector<int> dimensions(Rng &r, long most) {
  int nd = r.chance(.6) ? 2 : (int)r.range(1, 4);
  std::vector<int> d;
  long left = most;
  for (int k = 0; k < nd; ++k) {
    long hi = std::max(1L, (long)pow((double)left, 1. / (nd - k)));
    if (k + 1 < nd && r.chance(.3)) hi = std::min(left, hi * 3);
    int v = (int)r.range(r.chance(.15) ? 1 : std::min(hi, 3L), hi);
    d.push_back(v);
    left /= v;
    if (left < 1) left = 1;
  }
  return d;
}
static std::vector<pix> picture(Rng &r, std::vector<int> const &d) {
  long n = 1;
  for (int v : d) n *= v;
  std::vector<pix> x(n);
  if (d.size() == 2 && r.chance(.7)) {
    double lo = r.chance(.6) ? 0 : r.range(0, 200), hi = r.chance(.6) ? 255 : lo + r.range(1, 255 - (long)lo);
    return image<pix>(r, d[0], d[1], lo, hi + .99 > 255.99 ? 255 : hi);
  }
  int kind = (int)r.range(0, 4);
  long lv = r.range(1, 12), b = r.range(0, 255);
  std::vector<double> c(d.size()), q(d.size());
  for (size_t k = 0; k < d.size(); ++k) { c[k] = r.uni(0, d[k]); q[k] = r.uni(.3, 2); }
  for (long i = 0; i < n; ++i) {
    double dist = 0; long t = i, s = 0;
    for (size_t k = 0; k < d.size(); ++k) { long u = t % d[k]; t /= d[k]; dist += (u - c[k]) * (u - c[k]) * q[k]; s += u; }
    double v = kind == 0 ? r.range(0, 255) : kind == 1 ? r.range(0, lv) * 3 : kind == 2 ? 255 * (1 - exp(-.02 * dist)) + r.range(0, 3) : kind == 3 ? b : 20 * (s % 5) + r.range(0, lv);
    x[i] = (pix)std::min(255., std::max(0., v));
  }
  return x;
}
// one extremal region: the component of {I <= value} holding pixel rep
struct Reg0 { long rep; int value; long area, parent; float var; bool stable; };
// labels of the components of {I <= l}; returns their number
static long flood(std::vector<int> const &d, std::vector<pix> const &x, int l, std::vector<long> &lab, std::vector<long> &stack) {
  long n = (long)x.size(), k = 0;
  int nd = (int)d.size();
  std::fill(lab.begin(), lab.end(), -1);
  for (long s = 0; s < n; ++s) {
    if (x[s] > l || lab[s] >= 0) continue;
    lab[s] = k;
    stack.push_back(s);
    while (!stack.empty()) {
      long i = stack.back();
      stack.pop_back();
      int sub[4]; long t = i;
      for (int a = 0; a < nd; ++a) { sub[a] = (int)(t % d[a]); t /= d[a]; }
      int e[4] = {-1, -1, -1, -1};
      for (;;) {
        long j = 0, st = 1; bool in = true;
        for (int a = 0; a < nd; ++a) { int u = sub[a] + e[a]; if (u < 0 || u >= d[a]) in = false; j += u * st; st *= d[a]; }
        if (in && x[j] <= l && lab[j] < 0) { lab[j] = k; stack.push_back(j); }
        int a = 0;
        while (a < nd && ++e[a] > 1) e[a++] = -1;
        if (a == nd) break;
      }
    }
    ++k;
  }
  return k;
}
static std::vector<Reg0> tree(std::vector<int> const &d, std::vector<pix> const &x) {
  std::vector<Reg0> R;
  std::vector<long> lab(x.size()), stack, cur, top; // cur: region of each pixel so far
  cur.assign(x.size(), -1);
  bool has[256] = {0};
  for (pix v : x) has[v] = true;
  std::vector<long> area, rep; std::vector<char> fresh;
  for (int l = 0; l < 256; ++l) {
    if (!has[l]) continue;
    long k = flood(d, x, l, lab, stack);
    area.assign(k, 0); rep.assign(k, -1); fresh.assign(k, 0);
    for (size_t i = 0; i < x.size(); ++i) if (lab[i] >= 0) { long c = lab[i]; ++area[c]; if (rep[c] < 0) rep[c] = (long)i; if (x[i] == l) fresh[c] = 1; }
    std::vector<long> id(k, -1);
    for (long c = 0; c < k; ++c) if (fresh[c]) { id[c] = (long)R.size(); R.push_back(Reg0{rep[c], l, area[c], (long)R.size(), 0, true}); }
    for (size_t i = 0; i < x.size(); ++i) if (lab[i] >= 0 && id[lab[i]] >= 0) {
      if (cur[i] >= 0 && R[cur[i]].parent == cur[i] && cur[i] != id[lab[i]]) R[cur[i]].parent = id[lab[i]];
      cur[i] = id[lab[i]];
    }
  }
  return R;
}
struct Want { std::vector<Reg0> R; long unstable, left; bool sure; long bad, big, small, dup; };
static Want reference(std::vector<int> const &d, std::vector<pix> const &x, Par const &p) {
  Want w;
  w.R = tree(d, x);
  auto &R = w.R;
  long n = (long)R.size();
  w.sure = true;
  std::vector<long> num(n);
  for (long i = 0; i < n; ++i) {
    long t = i;
    while (R[t].parent != t && R[R[t].parent].value <= R[i].value + p.delta) t = R[t].parent;
    num[i] = R[t].area - R[i].area;
    R[i].var = (float)((double)num[i] / R[i].area);
  }
  w.unstable = 0;
  for (long i = 0; i < n; ++i) {
    long q = R[i].parent;
    if (R[q].value > R[i].value + 1) continue;
    long a = num[i] * R[q].area, b = num[q] * R[i].area; // num/area compared exactly
    if (a != b && fabs((double)(a - b)) < 1e-6 * std::max(a, b)) w.sure = false;
    R[a < b ? q : i].stable = false;                     // a tie leaves the larger; the root has no parent to beat
  }
  for (auto &q : R) w.unstable += !q.stable;
  w.bad = w.big = w.small = w.dup = 0;
  double nel = (double)x.size();
  auto near = [&](double a, double b) { return fabs(a - b) < 1e-5 * std::max(fabs(a), fabs(b)); };
  for (long i = n - 1; i >= 0; --i) {
    if (!R[i].stable) continue;
    double v = (double)num[i] / R[i].area;
    bool bad = v >= p.maxV, big = R[i].area > p.maxA * nel, small = R[i].area < p.minA * nel, dup = false;
    if (near(v, p.maxV) || near(R[i].area, p.maxA * nel) || near(R[i].area, p.minA * nel)) w.sure = false;
    if (p.minD < 1 && R[i].parent != i) {
      long q = R[i].parent;
      while (!R[q].stable && R[q].parent != q) q = R[q].parent;
      double dv = (double)(R[q].area - R[i].area) / R[q].area;
      if (near(dv, p.minD)) w.sure = false;
      dup = dv < p.minD;
    }
    w.bad += bad; w.big += big; w.small += small; w.dup += dup;
    if (bad || big || small || dup) R[i].stable = false;
  }
  w.left = 0;
  for (auto &q : R) w.left += q.stable;
  return w;
}
static void judge(Ctx &c, VlMserFilt *f, std::vector<int> const &d, std::vector<pix> const &x, Par const &p, uint64_t &hash) {
  std::vector<pix> copy = x;
  vl_mser_process(f, copy.data());
  if (copy != x) c.fail("input", "the image was modified");
  Want w = reference(d, x, p);
  if (!w.sure) { c.count("images decided by rounding"); return; }
  long n = (long)vl_mser_get_regions_num(f);
  vl_uint const *seed = vl_mser_get_regions(f);
  VlMserStats const *s = vl_mser_get_stats(f);
  if (s->num_extremal != (long)w.R.size()) c.fail("extremal", "%d extremal regions, expected %zu", s->num_extremal, w.R.size());
  if (s->num_unstable != w.unstable) c.fail("unstable", "%d unstable regions, expected %ld", s->num_unstable, w.unstable);
  if (n != w.left) c.fail("number", "%ld regions, expected %ld", n, w.left);
  if (s->num_extremal - s->num_unstable - s->num_abs_unstable - s->num_too_big - s->num_too_small - s->num_duplicates != n) c.fail("statistics", "%d-%d-%d-%d-%d-%d is not the %ld regions left", s->num_extremal, s->num_unstable, s->num_abs_unstable, s->num_too_big, s->num_too_small, s->num_duplicates, n);
  if (s->num_abs_unstable > w.bad || s->num_too_big > w.big || s->num_too_small > w.small || s->num_duplicates > w.dup || s->num_abs_unstable < 0 || s->num_too_big < 0 || s->num_too_small < 0 || s->num_duplicates < 0) c.fail("statistics", "%d %d %d %d of at most %ld %ld %ld %ld rejected", s->num_abs_unstable, s->num_too_big, s->num_too_small, s->num_duplicates, w.bad, w.big, w.small, w.dup);
  // each seed stands for the component of its level it lies in
  int nd = (int)d.size();
  std::vector<long> lab(x.size()), stack;
  std::vector<char> used(w.R.size(), 0);
  std::vector<long> which(n, -1);
  bool has[256] = {0};
  for (long i = 0; i < n; ++i) { if (seed[i] >= x.size()) c.fail("seed", "seed %u of %zu pixels", seed[i], x.size()); has[x[seed[i]]] = true; }
  vl_mser_ell_fit(f);
  long ne = (long)vl_mser_get_ell_num(f), dof = (long)vl_mser_get_ell_dof(f);
  float const *ell = vl_mser_get_ell(f);
  if (ne != n || dof != nd * (nd + 1) / 2 + nd) c.fail("ellipses", "%ld ellipses of %ld numbers for %ld regions", ne, dof, n);
  std::vector<float> keep;
  if (n) keep.assign(ell, ell + n * dof);
  for (int l = 0; l < 256; ++l) {
    if (!has[l]) continue;
    flood(d, x, l, lab, stack);
    for (long i = 0; i < n; ++i) {
      if (x[seed[i]] != l) continue;
      long rep = -1, area = 0;
      double m[4] = {0}, M[4][4] = {{0}}, big = 0;
      for (size_t j = 0; j < x.size(); ++j) if (lab[j] == lab[seed[i]]) {
        if (rep < 0) rep = (long)j;
        ++area;
        double u[4]; long t = (long)j;
        for (int a = 0; a < nd; ++a) { u[a] = (double)(t % d[a]); t /= d[a]; m[a] += u[a]; }
        for (int a = 0; a < nd; ++a) for (int b = 0; b <= a; ++b) M[a][b] += u[a] * u[b];
      }
      for (size_t k = 0; k < w.R.size(); ++k) if (w.R[k].value == l && w.R[k].rep == rep) which[i] = (long)k;
      long k = which[i];
      if (k < 0) c.fail("seed", "seed %u stands for no extremal region", seed[i]);
      if (!w.R[k].stable) c.fail("selection", "region of %ld pixels at level %d (variation %g) should not be selected", area, l, w.R[k].var);
      if (used[k]) c.fail("seed-twice", "region of %ld pixels at level %d returned twice", area, l);
      used[k] = 1;
      for (int a = 0; a < nd; ++a) { m[a] /= area; big = std::max(big, (double)d[a]); }
      float const *e = keep.data() + i * dof;
      // sums kept in single precision are exact up to 2^24
      double loose = area * big * big > 16e6 ? 2e-8 * area : 0, tm = big * (1e-6 + loose), tv = big * big * (2e-6 + loose);
      for (int a = 0; a < nd; ++a) if (!(fabs(e[a] - m[a]) <= tm)) c.fail("centre", "centre %d of region of %ld pixels is %g, expected %g", a, area, e[a], m[a]);
      long q = nd;
      for (int a = 0; a < nd; ++a) for (int b = 0; b <= a; ++b, ++q) {
        double v = M[a][b] / area - m[a] * m[b];
        if (!(fabs(e[q] - v) <= tv)) c.fail("moment", "moment (%d,%d) of region of %ld pixels is %g, expected %g", a, b, area, e[q], v);
      }
      c.count("regions judged");
    }
  }
  for (long i = 1; i < n; ++i) if (x[seed[i]] < x[seed[i - 1]]) c.fail("order", "regions are not sorted by level");
  vl_mser_ell_fit(f); // once more changes nothing
  if (n && memcmp(vl_mser_get_ell(f), keep.data(), keep.size() * 4)) c.fail("ellipses-again", "fitting twice changed the ellipses");
  c.count("extremal regions", (double)w.R.size());
  hash = fnv(seed, n * sizeof *seed, fnv(x.data(), x.size(), hash ^ n));
}
static void describe(Ctx &c, std::vector<int> const &d, Par const &p) {
  c.desc("%zu-d image %dx%dx%dx%d delta %d area %.17g..%.17g variation %.17g diversity %.17g", d.size(), d[0], d.size() > 1 ? d[1] : 1, d.size() > 2 ? d[2] : 1, d.size() > 3 ? d[3] : 1, p.delta, p.minA, p.maxA, p.maxV, p.minD);
}
VT_GROUP(C33, regions, 3000, 30000) {
  Rng &r = c.rng;
  std::vector<int> d = dimensions(r, r.chance(.05) ? 6000 : r.range(1, 500));
  std::vector<pix> x = picture(r, d);
  Ms f(d);
  Par p{5, .75, 3. / x.size(), .25, .2};
  if (vl_mser_get_delta(f) != 5 || vl_mser_get_max_area(f) != .75 || vl_mser_get_min_area(f) != 3. / (double)x.size() || vl_mser_get_max_variation(f) != .25 || vl_mser_get_min_diversity(f) != .2) c.fail("defaults", "delta %d area %g..%g variation %g diversity %g", vl_mser_get_delta(f), vl_mser_get_min_area(f), vl_mser_get_max_area(f), vl_mser_get_max_variation(f), vl_mser_get_min_diversity(f));
  p = params(r, (long)x.size());
  setPar(f, p);
  if (!sameSettings(f, p)) c.fail("settings", "not kept");
  describe(c, d, p);
  uint64_t h = 0;
  judge(c, f, d, x, p, h);
  if (!h) throw Skip();
  c.nontrivial(h);
}
// nested discs on a grey ramp: long branches with a known stable part
VT_GROUP(C33, nested, 800, 8000) {
  Rng &r = c.rng;
  std::vector<int> d = {(int)r.range(8, 48), (int)r.range(8, 48)};
  std::vector<pix> x(d[0] * d[1]);
  double cx = r.uni(0, d[0]), cy = r.uni(0, d[1]), an = r.uni(.4, 1);
  std::vector<double> rad;
  double q = 0;
  int levels = (int)r.range(2, 30), step = (int)r.range(1, 8);
  for (int i = 0; i < levels; ++i) { q += r.chance(.6) ? r.uni(0, .3) : r.uni(0, 3); rad.push_back(q); }
  for (int j = 0; j < d[1]; ++j) for (int i = 0; i < d[0]; ++i) {
    double s = hypot(i - cx, (j - cy) * an);
    int l = 0;
    while (l < levels && s > rad[l]) ++l;
    x[j * d[0] + i] = (pix)std::min(255, 2 + step * l);
  }
  Ms f(d);
  Par p = params(r, (long)x.size());
  p.delta = (int)r.range(1, 4 * step);
  setPar(f, p);
  describe(c, d, p);
  uint64_t h = 0;
  judge(c, f, d, x, p, h);
  if (!h) throw Skip();
  c.nontrivial(h);
}
// The result does not depend on where equal grey values stand, nor on a strictly
// monotone shift of the whole image; transposing transposes the regions
VT_GROUP(C33, symmetry, 800, 8000) {
  Rng &r = c.rng;
  std::vector<int> d = {(int)r.range(2, 30), (int)r.range(2, 30)}, dt = {d[1], d[0]};
  std::vector<pix> x = picture(r, d), y(x.size());
  int lo = 255, hi = 0;
  for (pix v : x) { lo = std::min(lo, (int)v); hi = std::max(hi, (int)v); }
  int sh = (int)r.range(-lo, 255 - hi);
  for (int j = 0; j < d[1]; ++j) for (int i = 0; i < d[0]; ++i) y[i * d[1] + j] = (pix)(x[j * d[0] + i] + sh);
  Par p = params(r, (long)x.size());
  describe(c, d, p);
  Ms f(d), g(dt);
  setPar(f, p); setPar(g, p);
  vl_mser_process(f, x.data()); vl_mser_process(g, y.data());
  vl_mser_ell_fit(f); vl_mser_ell_fit(g);
  long n = (long)vl_mser_get_regions_num(f);
  if ((long)vl_mser_get_regions_num(g) != n) c.fail("symmetry", "%ld regions, %u of the transposed image", n, vl_mser_get_regions_num(g));
  float const *a = vl_mser_get_ell(f), *b = vl_mser_get_ell(g);
  vl_uint const *sa = vl_mser_get_regions(f), *sb = vl_mser_get_regions(g);
  std::vector<char> used(n, 0);
  for (long i = 0; i < n; ++i) {
    bool hit = false;
    for (long j = 0; j < n && !hit; ++j) {
      float const *u = a + 5 * i, *v = b + 5 * j;
      if (!used[j] && x[sa[i]] + sh == y[sb[j]] && close(u[0], v[1], 1e-4, 1e-3) && close(u[1], v[0], 1e-4, 1e-3) && close(u[2], v[4], 1e-3, 2e-3) && close(u[3], v[3], 1e-3, 2e-3) && close(u[4], v[2], 1e-3, 2e-3)) used[j] = hit = true;
    }
    if (!hit) c.fail("symmetry", "region %ld has no counterpart in the transposed image", i);
  }
  if (!n) throw Skip();
  c.count("regions matched", (double)n);
  c.nontrivial(x, n);
}
VT_GROUP(C42, mser, 800, 8000) {
  Rng &r = c.rng;
  std::vector<int> d = dimensions(r, r.range(1, 500));
  Ms f(d);
  uint64_t h = 7;
  long n = r.range(2, 5);
  for (long t = 0; t < n; ++t) {
    std::vector<pix> x = picture(r, d);
    Par p = params(r, (long)x.size());
    if (t && r.chance(.3)) p = Par{vl_mser_get_delta(f), vl_mser_get_max_area(f), vl_mser_get_min_area(f), vl_mser_get_max_variation(f), vl_mser_get_min_diversity(f)};
    describe(c, d, p);
    setPar(f, p);
    Ms g(d);
    setPar(g, p);
    vl_mser_process(f, x.data()); vl_mser_process(g, x.data());
    bool fit = r.chance(.7);
    long k = (long)vl_mser_get_regions_num(g);
    if ((long)vl_mser_get_regions_num(f) != k) c.fail("mser-number", "use %ld gives %u regions, a new filter %ld", t, vl_mser_get_regions_num(f), k);
    if (k && memcmp(vl_mser_get_regions(f), vl_mser_get_regions(g), k * sizeof(vl_uint))) c.fail("mser-regions", "use %ld differs from a new filter", t);
    if (memcmp(vl_mser_get_stats(f), vl_mser_get_stats(g), sizeof(VlMserStats))) c.fail("mser-stats", "use %ld differs from a new filter", t);
    if (vl_mser_get_ell_num(f) != 0) c.fail("mser-stale", "ellipses of the previous image survive");
    if (!sameSettings(f, p)) c.fail("mser-settings", "not kept");
    if (fit) {
      vl_mser_ell_fit(f); vl_mser_ell_fit(g);
      if (vl_mser_get_ell_num(f) != vl_mser_get_ell_num(g) || (k && memcmp(vl_mser_get_ell(f), vl_mser_get_ell(g), k * vl_mser_get_ell_dof(g) * 4))) c.fail("mser-ell", "use %ld differs from a new filter", t);
    }
    h = fnv(x.data(), x.size(), h);
    c.count("mser reuses judged");
  }
  c.nontrivial(h);
}
