// Quick shift (C34), SLIC (C35) and reuse (C42).
#include "vt.h"
#include "gen.h"
extern "C" {
#include <vl/quickshift.h>
#include <vl/slic.h>
}
using namespace vt;
typedef std::vector<double> V;

// ------------------------------------------------------------- quick shift
struct Qs {
  VlQS *q;
  Qs(V const &x, int h, int w, int k) : q(vl_quickshift_new(x.data(), h, w, k)) {}
  ~Qs() { vl_quickshift_delete(q); }
  operator VlQS *() { return q; }
};
static V picture(Rng &r, int n1, int n2, int k) {
  V x((size_t)n1 * n2 * k);
  double s = r.chance(.2) ? 0 : r.chance(.2) ? 1 : pow(10, r.uni(-1, 1.5));
  for (int c = 0; c < k; ++c) {
    if (r.chance(.3)) { for (int i = 0; i < n1 * n2; ++i) x[c * n1 * n2 + i] = s * r.range(-2, 2); continue; }
    std::vector<double> p = image<double>(r, n1, n2, r.chance(.5) ? 0 : -s, s);
    std::copy(p.begin(), p.end(), x.begin() + (long)c * n1 * n2);
  }
  return x;
}
struct Geo { int n1, n2, k; V x; double *at(int i1, int i2, int c) { return &x[i1 + (long)n1 * i2 + (long)n1 * n2 * c]; } };
static double dist2(Geo &g, int i1, int i2, int j1, int j2) {
  double d = (double)(i1 - j1) * (i1 - j1) + (double)(i2 - j2) * (i2 - j2);
  for (int c = 0; c < g.k; ++c) { double t = *g.at(i1, i2, c) - *g.at(j1, j2, c); d += t * t; }
  return d;
}
static void judge(Ctx &c, VlQS *q, Geo &g, double sigma, double tau, bool medoid, uint64_t &hash) {
  int n = g.n1 * g.n2, R = (int)ceil(3 * sigma), T = (int)ceil(tau);
  int *par = vl_quickshift_get_parents(q);
  double *E = vl_quickshift_get_density(q), *D = vl_quickshift_get_dists(q);
  double t2 = tau * tau;
  bool whole = tau == floor(tau) && std::all_of(g.x.begin(), g.x.end(), [](double v) { return v == floor(v) && fabs(v) < 1e3; });
  double slack = whole ? 0 : 1e-12; // integers: no rounding, the maximum distance is included
  V mean(2 + g.k);
  double radius = 0;
  for (double v : g.x) radius = std::max(radius, v * v);
  radius = radius * g.k + (double)g.n1 * g.n1 + (double)g.n2 * g.n2;
  for (int i2 = 0; i2 < g.n2; ++i2) for (int i1 = 0; i1 < g.n1; ++i1) {
    int i = i1 + g.n1 * i2;
    double e = 0;
    std::fill(mean.begin(), mean.end(), 0);
    for (int j2 = std::max(0, i2 - R); j2 <= std::min(g.n2 - 1, i2 + R); ++j2) for (int j1 = std::max(0, i1 - R); j1 <= std::min(g.n1 - 1, i1 + R); ++j1) {
      double w = exp(-dist2(g, i1, i2, j1, j2) / (2 * sigma * sigma));
      e += w;
      mean[0] += w * j1; mean[1] += w * j2;
      for (int k = 0; k < g.k; ++k) mean[2 + k] += w * *g.at(j1, j2, k);
    }
    if (!close(E[i], e, 1e-9, 0)) c.fail("density", "pixel (%d,%d) of %dx%d: %.12g, expected %.12g", i1, i2, g.n1, g.n2, E[i], e);
    if (par[i] < 0 || par[i] >= n) c.fail("parent-range", "pixel %d has parent %d", i, par[i]);
    int p1 = par[i] % g.n1, p2 = par[i] / g.n1;
    if (!medoid) {
      double best = INFINITY;
      for (int j2 = 0; j2 < g.n2; ++j2) for (int j1 = 0; j1 < g.n1; ++j1) {
        if (abs(j1 - i1) > T || abs(j2 - i2) > T) continue;
        double d = dist2(g, i1, i2, j1, j2);
        if (E[j1 + g.n1 * j2] > E[i] && d <= t2 * (1 - slack)) best = std::min(best, d);
      }
      if (par[i] == i) {
        if (best < INFINITY) c.fail("root", "pixel (%d,%d) is a root although a denser pixel is at distance %g", i1, i2, sqrt(best));
        if (!(std::isinf(D[i]) && D[i] > 0)) c.fail("root-distance", "root at distance %g", D[i]);
        c.count("roots judged");
        continue;
      }
      double d = dist2(g, i1, i2, p1, p2);
      if (!(E[par[i]] > E[i])) c.fail("denser", "parent of (%d,%d) has density %.17g, not above %.17g", i1, i2, E[par[i]], E[i]);
      if (d > t2 * (1 + slack)) c.fail("too-far", "parent of (%d,%d) is at distance %g > %g", i1, i2, sqrt(d), tau);
      if (d > best * (1 + 1e-12)) c.fail("nearest", "parent of (%d,%d) is at distance %.17g, a denser one at %.17g", i1, i2, sqrt(d), sqrt(best));
      if (!close(D[i], sqrt(d), 1e-10, 0)) c.fail("distance", "distance %g, expected %g", D[i], sqrt(d));
      c.count("links judged");
    } else {
      // the window pixel nearest to the weighted mean
      auto score = [&](int j1, int j2) {
        double s = -((double)j1 * j1 + (double)j2 * j2) * e + 2 * (j1 * mean[0] + j2 * mean[1]);
        for (int k = 0; k < g.k; ++k) { double v = *g.at(j1, j2, k); s += -v * v * e + 2 * v * mean[2 + k]; }
        return s;
      };
      if (abs(p1 - i1) > R || abs(p2 - i2) > R) c.fail("medoid-window", "parent of (%d,%d) is (%d,%d), outside of the window", i1, i2, p1, p2);
      double tol = 1e-11 * radius * e + 1e-300, got = score(p1, p2);
      for (int j2 = std::max(0, i2 - R); j2 <= std::min(g.n2 - 1, i2 + R); ++j2) for (int j1 = std::max(0, i1 - R); j1 <= std::min(g.n1 - 1, i1 + R); ++j1)
        if (score(j1, j2) > got + tol) c.fail("medoid", "parent (%d,%d) of (%d,%d) scores %.12g, (%d,%d) scores %.12g", p1, p2, i1, i2, got, j1, j2, score(j1, j2));
      if (!(fabs(D[i] - got) <= tol)) c.fail("medoid-score", "score %.12g, expected %.12g", D[i], got);
      c.count("medoid links judged");
    }
  }
  if (!medoid) for (int i = 0; i < n; ++i) { // every path ends in a root
    int j = i, left = n;
    while (par[j] != j && left-- > 0) j = par[j];
    if (left < 0) c.fail("cycle", "no root above pixel %d", i);
  }
  hash = fnv(par, n * sizeof *par, fnv(E, n * sizeof *E, hash));
}
static void geometry(Rng &r, Geo &g) {
  g.n1 = (int)r.range(1, 20); g.n2 = (int)r.range(1, 20); g.k = (int)r.range(1, 4);
  if (r.chance(.1)) g.k = 0;
  g.x = picture(r, g.n1, g.n2, g.k);
}
VT_GROUP(C34, links, 1500, 15000) {
  Rng &r = c.rng;
  Geo g;
  geometry(r, g);
  double sigma = r.chance(.3) ? (double)r.range(1, 3) : r.uni(.3, 4), tau = r.chance(.3) ? (double)r.range(1, 8) : r.uni(.5, 12);
  bool medoid = r.chance(.35);
  c.desc("image %dx%dx%d sigma %.17g tau %.17g medoid %d", g.n1, g.n2, g.k, sigma, tau, medoid);
  V copy = g.x;
  Qs q(copy, g.n1, g.n2, g.k);
  int m = std::max(g.n1, g.n2);
  if (vl_quickshift_get_medoid(q)) c.fail("defaults", "medoid shift by default");
  if (!(vl_quickshift_get_kernel_size(q) >= 2) || vl_quickshift_get_max_dist(q) > m / 50.) c.fail("defaults", "sigma %g tau %g", vl_quickshift_get_kernel_size(q), vl_quickshift_get_max_dist(q));
  vl_quickshift_set_kernel_size(q, sigma); vl_quickshift_set_max_dist(q, tau); vl_quickshift_set_medoid(q, medoid);
  if (vl_quickshift_get_kernel_size(q) != sigma || vl_quickshift_get_max_dist(q) != tau || (vl_quickshift_get_medoid(q) != 0) != medoid) c.fail("settings", "not kept");
  vl_quickshift_process(q);
  if (copy != g.x) c.fail("input", "the image was modified");
  uint64_t h = 0;
  judge(c, q, g, sigma, tau, medoid, h);
  c.nontrivial(h);
}
VT_GROUP(C42, quickshift, 300, 3000) {
  Rng &r = c.rng;
  Geo g;
  geometry(r, g);
  Qs q(g.x, g.n1, g.n2, g.k);
  uint64_t h = 0;
  for (long t = 0, n = r.range(2, 5); t < n; ++t) {
    double sigma = r.chance(.3) ? vl_quickshift_get_kernel_size(q) : r.uni(.3, 4), tau = r.chance(.3) ? vl_quickshift_get_max_dist(q) : r.uni(.5, 12);
    bool medoid = r.chance(.4);
    c.desc("use %ld image %dx%dx%d sigma %.17g tau %.17g medoid %d", t, g.n1, g.n2, g.k, sigma, tau, medoid);
    if (r.chance(.3)) for (auto &v : g.x) v = r.normal(); // the object refers to the caller's image
    Qs f(g.x, g.n1, g.n2, g.k);
    for (VlQS *o : {q.q, f.q}) { vl_quickshift_set_kernel_size(o, sigma); vl_quickshift_set_max_dist(o, tau); vl_quickshift_set_medoid(o, medoid); vl_quickshift_process(o); }
    size_t k = (size_t)g.n1 * g.n2;
    if (memcmp(vl_quickshift_get_density(q), vl_quickshift_get_density(f), k * 8)) c.fail("quickshift-density", "use %ld differs from a new object", t);
    if (memcmp(vl_quickshift_get_parents(q), vl_quickshift_get_parents(f), k * 4)) c.fail("quickshift-parents", "use %ld differs from a new object", t);
    if (memcmp(vl_quickshift_get_dists(q), vl_quickshift_get_dists(f), k * 8)) c.fail("quickshift-distances", "use %ld differs from a new object", t);
    h = fnv(vl_quickshift_get_density(f), k * 8, h);
    c.count("quick shift reuses judged");
  }
  c.nontrivial(h);
}

// -------------------------------------------------------------------- SLIC
struct Sl { long w, h, k, rs; float reg; std::vector<float> x; long nx, ny; };
static Sl scene(Rng &r, Ctx &c, long most) {
  Sl s;
  s.w = r.range(1, most); s.h = r.range(1, most); s.k = r.range(1, 3);
  if (r.chance(.1)) { s.w = r.range(1, 3); }
  s.rs = r.chance(.1) ? r.range(1, 2 * most) : r.range(1, 12);
  s.reg = r.chance(.15) ? 0 : (float)pow(10, r.uni(-2, 3));
  double amp = pow(10, r.uni(-1, 2.4));
  for (long k = 0; k < s.k; ++k) { std::vector<float> p = image<float>(r, s.w, s.h, r.chance(.5) ? 0 : -amp, amp); s.x.insert(s.x.end(), p.begin(), p.end()); }
  s.nx = (s.w + s.rs - 1) / s.rs; s.ny = (s.h + s.rs - 1) / s.rs;
  c.desc("image %ldx%ldx%ld region %ld regulariser %.9g amplitude %g", s.w, s.h, s.k, s.rs, s.reg, amp);
  return s;
}
static std::vector<vl_uint32> run(Ctx &c, Sl const &s, long minsize) {
  Guarded<vl_uint32> out(s.w * s.h, 32, 0xabcdabcd);
  for (long i = 0; i < s.w * s.h; ++i) out.data()[i] = c.rng.chance(.5) ? 0xffffffff : (vl_uint32)c.rng.u64(); // whatever was there
  std::vector<float> x(s.x);
  vl_slic_segment(out.data(), x.data(), s.w, s.h, s.k, s.rs, s.reg, minsize);
  if (!out.intact()) c.fail("overrun", "labels written outside");
  if (memcmp(x.data(), s.x.data(), x.size() * 4)) c.fail("input", "the image was modified");
  return std::vector<vl_uint32>(out.data(), out.data() + s.w * s.h);
}
// 4-connected pieces: piece of each pixel, size of each piece
static std::vector<long> pieces(std::vector<vl_uint32> const &s, long w, long h, std::vector<long> &size) {
  std::vector<long> id(s.size(), -1), st;
  size.clear();
  for (size_t p = 0; p < s.size(); ++p) {
    if (id[p] >= 0) continue;
    long k = (long)size.size();
    size.push_back(0);
    id[p] = k; st.push_back((long)p);
    while (!st.empty()) {
      long q = st.back(); st.pop_back();
      ++size[k];
      long x = q % w, y = q / w;
      auto go = [&](long u, long v) { if (u >= 0 && v >= 0 && u < w && v < h && id[u + v * w] < 0 && s[u + v * w] == s[q]) { id[u + v * w] = k; st.push_back(u + v * w); } };
      go(x + 1, y); go(x - 1, y); go(x, y + 1); go(x, y - 1);
    }
  }
  return id;
}
VT_GROUP(C35, cleanup, 4000, 40000) {
  Rng &r = c.rng;
  Sl s = scene(r, c, 40);
  long ms = r.chance(.1) ? 0 : r.chance(.2) ? r.range(0, 2 * s.w * s.h) : r.range(1, 4 + s.rs * s.rs / 2);
  std::vector<vl_uint32> raw = run(c, s, r.range(0, 1)), S = run(c, s, ms);
  std::vector<long> size, size2;
  std::vector<long> id = pieces(raw, s.w, s.h, size), id2 = pieces(S, s.w, s.h, size2);
  for (size_t p = 0; p < S.size(); ++p) {
    long u = (long)raw[p] % s.nx, v = (long)raw[p] / s.nx, x = (long)p % s.w, y = (long)p / s.w;
    if ((long)raw[p] >= s.nx * s.ny || (long)S[p] >= s.nx * s.ny) c.fail("label", "label %u of %ld regions", raw[p], s.nx * s.ny);
    // only the centres of the tiles around the pixel compete
    double fu = (double)x / s.rs - .5, fv = (double)y / s.rs - .5;
    if (!(u <= fu + 1 && u >= fu - 1 && v <= fv + 1 && v >= fv - 1) && s.nx > 1 && s.ny > 1) c.fail("far", "pixel (%ld,%ld) has region (%ld,%ld) of tile size %ld", x, y, u, v, s.rs);
    if (size2[id2[p]] < ms && id2[p] != id2[0]) c.fail("small", "piece of %ld pixels at (%ld,%ld), minimum %ld", size2[id2[p]], x, y, ms);
  }
  // each piece keeps its label or, if too small, takes that of a piece met before
  std::vector<char> seen(size.size(), 0);
  for (size_t p = 0; p < S.size(); ++p) {
    long k = id[p];
    if (seen[k]) continue;
    vl_uint32 want = S[p];
    for (size_t q = p; q < S.size(); ++q) if (id[q] == k && S[q] != want) c.fail("torn", "a piece of %ld pixels was split", size[k]);
    if (size[k] >= ms) { if (want != raw[p]) c.fail("relabelled", "piece of %ld >= %ld pixels at %zu changed its label", size[k], ms, p); c.count("pieces kept"); }
    else {
      long x = (long)p % s.w, y = (long)p / s.w;
      bool any = false, hit = false;
      auto see = [&](long u, long v) { if (u < 0 || v < 0 || u >= s.w || v >= s.h) return; size_t q = u + v * s.w; if (!seen[id[q]]) return; any = true; if (S[q] == want) hit = true; };
      see(x + 1, y); see(x - 1, y); see(x, y + 1); see(x, y - 1);
      if (any ? !hit : want != raw[p]) c.fail("merged", "piece of %ld < %ld pixels at %zu took the label %u of no neighbour", size[k], ms, p, want);
      c.count("pieces merged");
    }
    seen[k] = 1;
  }
  c.nontrivial(S, fnv(raw.data(), raw.size() * 4));
}
// k-means of the grid, in double precision; only where no comparison is near a tie
VT_GROUP(C35, kmeans, 6000, 60000) {
  Rng &r = c.rng;
  Sl s = scene(r, c, 26);
  long w = s.w, h = s.h, N = w * h, M = s.nx * s.ny, D = 2 + s.k;
  std::vector<vl_uint32> S = run(c, s, 0);
  auto im = [&](long x, long y, long k) { return (double)s.x[x + y * w + k * N]; };
  double mag = 0;
  for (float v : s.x) mag = std::max(mag, (double)fabsf(v));
  V edge(N, 0.0), C(M * D);
  for (long k = 0; k < s.k; ++k) for (long y = 1; y < h - 1; ++y) for (long x = 1; x < w - 1; ++x) { double a = im(x - 1, y, k) - im(x + 1, y, k), b = im(x, y + 1, k) - im(x, y - 1, k); edge[x + y * w] += a * a + b * b; }
  bool sure = true;
  for (long v = 0; v < s.ny; ++v) for (long u = 0; u < s.nx; ++u) {
    long x = std::min((long)floor(s.rs * (u + .5) + .5), w - 1), y = std::min((long)floor(s.rs * (v + .5) + .5), h - 1), bx = -1, by = -1;
    double best = INFINITY;
    for (long q = std::max(0L, y - 1); q <= std::min(h - 1, y + 1); ++q) for (long p = std::max(0L, x - 1); p <= std::min(w - 1, x + 1); ++p) {
      double e = edge[p + q * w];
      if (e == best) continue; // exact ties: the first in scan order
      if (fabs(e - best) < 1e-6 * mag * mag) sure = false;
      if (e < best) { best = e; bx = p; by = q; }
    }
    double *o = &C[(u + v * s.nx) * D];
    o[0] = bx; o[1] = by;
    for (long k = 0; k < s.k; ++k) o[2 + k] = im(bx, by, k);
  }
  std::vector<long> lab(N);
  double prev = INFINITY, start = 0, fac = (double)s.reg / (s.rs * s.rs);
  long iters = 0;
  for (int it = 0; it < 100 && sure; ++it, ++iters) {
    double E = 0;
    for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) {
      long u = (long)floor((double)x / s.rs - .5), v = (long)floor((double)y / s.rs - .5), arg = -1;
      double best = INFINITY;
      for (long q = std::max(0L, v); q <= std::min(s.ny - 1, v + 1); ++q) for (long p = std::max(0L, u); p <= std::min(s.nx - 1, u + 1); ++p) {
        double *o = &C[(p + q * s.nx) * D], sp = (x - o[0]) * (x - o[0]) + (y - o[1]) * (y - o[1]), ap = 0;
        for (long k = 0; k < s.k; ++k) ap += (im(x, y, k) - o[2 + k]) * (im(x, y, k) - o[2 + k]);
        double d = ap + fac * sp, tol = 4e-6 * (mag * mag * s.k + fac * (double)(w * w + h * h));
        // exactly representable ties (small integers) are ties for everybody
        if (it == 0 && d == best && s.reg == 0) continue;
        if (arg >= 0 && fabs(d - best) < tol) { sure = false; }
        if (d < best) { best = d; arg = p + q * s.nx; }
      }
      lab[x + y * w] = arg;
      E += best;
    }
    if (it == 0) start = E;
    else {
      double a = prev - E, b = 1e-5 * (start - E), tol = 4e-6 * (start + prev);
      if (E == start && E == prev) tol = 0;
      if (fabs(a - b) < tol) {
        // the energies agree up to rounding: whether it stops here matters only if the labels still change
        V before = C;
        std::vector<long> l2 = lab;
        sure = sure && std::equal(lab.begin(), lab.end(), S.begin(), [](long p, vl_uint32 q) { return p == (long)q; });
        break;
      }
      if (a < b) break;
    }
    prev = E;
    std::fill(C.begin(), C.end(), 0);
    V mass(M, 0.0);
    for (long i = 0; i < N; ++i) { double *o = &C[lab[i] * D]; ++mass[lab[i]]; o[0] += i % w; o[1] += i / w; for (long k = 0; k < s.k; ++k) o[2 + k] += s.x[i + k * N]; }
    for (long m = 0; m < M; ++m) for (long t = 0; t < D; ++t) C[m * D + t] /= std::max(mass[m], 1e-8);
  }
  if (!sure) { c.count("images with near ties"); throw Skip(); }
  for (long i = 0; i < N; ++i) if (lab[i] != (long)S[i]) c.fail("kmeans", "pixel (%ld,%ld) has label %u, expected %ld after %ld iterations", i % w, i / w, S[i], lab[i], iters);
  c.count("pixels judged", (double)N);
  c.count("iterations", (double)iters);
  c.nontrivial(S, fnv(s.x.data(), s.x.size() * 4));
}
