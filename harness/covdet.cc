// Covariant feature detector (C32) and its reuse (C42).
#include "vt.h"
#include "gen.h"
extern "C" {
#include <vl/covdet.h>
#include <vl/mathop.h>
}
using namespace vt;
typedef std::vector<double> Img;
typedef VlFrameOrientedEllipse Frame;

struct Det {
  VlCovDet *d;
  Det(VlCovDetMethod m) : d(vl_covdet_new(m)) {}
  ~Det() { if (d) vl_covdet_delete(d); }
  operator VlCovDet *() { return d; }
};
static VlCovDetMethod const METHODS[] = {VL_COVDET_METHOD_DOG, VL_COVDET_METHOD_HESSIAN, VL_COVDET_METHOD_HESSIAN_LAPLACE, VL_COVDET_METHOD_HARRIS_LAPLACE, VL_COVDET_METHOD_MULTISCALE_HESSIAN, VL_COVDET_METHOD_MULTISCALE_HARRIS};
static bool isDog(int m) { return m == VL_COVDET_METHOD_DOG; }
static bool isHarris(int m) { return m == VL_COVDET_METHOD_HARRIS_LAPLACE || m == VL_COVDET_METHOD_MULTISCALE_HARRIS; }
static bool isSpace(int m) { return m != VL_COVDET_METHOD_DOG && m != VL_COVDET_METHOD_HESSIAN; }
static bool isLaplace(int m) { return m == VL_COVDET_METHOD_HESSIAN_LAPLACE || m == VL_COVDET_METHOD_HARRIS_LAPLACE; }
static VlCovDetFeature *feats(VlCovDet *d) { return (VlCovDetFeature *)vl_covdet_get_features(d); }
static std::vector<VlCovDetFeature> all(VlCovDet *d) {
  long n = (long)vl_covdet_get_num_features(d);
  if (!n) return {};
  return std::vector<VlCovDetFeature>(feats(d), feats(d) + n);
}
struct Setup { long w, h, first, num, res; double base, peak, edge, nes; VlCovDetMethod m; };
static Setup setup(Rng &r, long lo, long hi) {
  Setup s;
  s.m = METHODS[r.range(0, 5)];
  s.w = r.range(lo, hi); s.h = r.range(lo, hi);
  s.first = r.chance(.5) ? -1 : r.range(-1, 1);
  while (s.first > 0 && (std::min(s.w, s.h) >> s.first) < 1) --s.first;
  s.num = r.chance(.6) ? -1 : r.range(1, 3);
  s.res = r.chance(.5) ? 3 : r.range(1, 5);
  s.base = r.chance(.6) ? 1.6 : r.uni(.8, 2.5);
  s.peak = -1; s.edge = r.chance(.5) ? -1 : r.uni(1, 50);
  s.nes = r.chance(.5) ? .5 : r.chance(.5) ? 0 : r.uni(.01, 2);
  return s;
}
static void apply(Rng &r, Setup &s, VlCovDet *d) {
  if (s.first != -1 || r.chance(.2)) vl_covdet_set_first_octave(d, s.first);
  if (s.num > 0) vl_covdet_set_num_octaves(d, s.num);
  if (s.res != 3) vl_covdet_set_octave_resolution(d, s.res);
  if (s.base != 1.6) vl_covdet_set_base_scale(d, s.base);
  double def = vl_covdet_get_peak_threshold(d);
  if (s.peak < 0) s.peak = r.chance(.3) ? def : r.chance(.3) ? 0 : def * pow(10, r.uni(-3, 0));
  vl_covdet_set_peak_threshold(d, s.peak);
  if (s.edge > 0) vl_covdet_set_edge_threshold(d, s.edge);
  s.edge = vl_covdet_get_edge_threshold(d);
  vl_covdet_set_non_extrema_suppression_threshold(d, s.nes);
  if ((long)vl_covdet_get_first_octave(d) != s.first || (s.num > 0 && (long)vl_covdet_get_num_octaves(d) != s.num) || (long)vl_covdet_get_octave_resolution(d) != s.res ||
      vl_covdet_get_base_scale(d) != s.base || vl_covdet_get_peak_threshold(d) != s.peak || vl_covdet_get_non_extrema_suppression_threshold(d) != s.nes) throw Skip();
}
static void describe(Ctx &c, Setup const &s) {
  c.desc("method %d image %ldx%ld first %ld num %ld res %ld base %.17g peak %.17g edge %.17g nes %.17g", (int)s.m, s.w, s.h, s.first, s.num, s.res, s.base, s.peak, s.edge, s.nes);
}
static std::vector<float> picture(Rng &r, long w, long h) {
  if (r.chance(.3)) return image<float>(r, w, h, 0, 1);
  // smooth structure at several scales
  std::vector<float> x(w * h);
  double bg = r.uni(.2, .6);
  for (auto &v : x) v = (float)(bg + .01 * r.uni());
  long k = r.range(2, 14);
  while (k--) {
    double cx = r.uni(0, w), cy = r.uni(0, h), s = pow(2, r.uni(0, 3)), q = r.uni(.5, 2), a = r.uni(-.5, .5), th = r.uni(0, 3);
    bool corner = r.chance(.3);
    for (long j = 0; j < h; ++j) for (long i = 0; i < w; ++i) {
      double u = cos(th) * (i - cx) + sin(th) * (j - cy), v = -sin(th) * (i - cx) + cos(th) * (j - cy);
      if (corner) { if (u > 0 && v > 0 && u < 3 * s && v < 3 * s * q) x[j * w + i] += (float)(a * .5); }
      else x[j * w + i] += (float)(a * exp(-.5 * (u * u / (s * s) + v * v / (s * s * q * q))));
    }
  }
  return x;
}
static void geometryCheck(Ctx &c, VlCovDet *d, Setup const &s) {
  VlScaleSpace *g = vl_covdet_get_gss(d);
  VlScaleSpaceGeometry a = vl_scalespace_get_geometry(g);
  if ((long)a.width != s.w || (long)a.height != s.h || a.firstOctave != s.first || (long)a.octaveResolution != s.res) c.fail("gss", "scale space of another geometry");
  long n = a.lastOctave - a.firstOctave + 1;
  if (n < 1) c.fail("octaves-none", "%ld octaves", n);
  // (16 - 1) 2^last <= min(width,height) - 1 for the last octave, but for a single one
  auto fits = [&](long o) { return 15 * pow(2., (double)o) <= (double)std::min(s.w, s.h) - 1; };
  long want = 1;
  while (fits(s.first + want) && (s.num < 1 || want < s.num)) ++want;
  if (n != want) c.fail("octaves", "%ld octaves, expected %ld", n, want);
}
static void putRun(Ctx &c, VlCovDet *d, Setup const &s, std::vector<float> const &im) {
  std::vector<float> copy = im;
  if (vl_covdet_put_image(d, copy.data(), s.w, s.h)) c.fail("put", "put_image failed");
  if (memcmp(copy.data(), im.data(), im.size() * 4)) c.fail("input", "the image was modified");
  geometryCheck(c, d, s);
}

// ------------------------------------------------------------- reference
static Img smoothRef(Img const &a, long w, long h, double sx, double sy) {
  auto kern = [](double s) {
    long W = (long)ceil(3 * s);
    std::vector<double> k(2 * W + 1);
    double m = 0;
    for (long i = -W; i <= W; ++i) m += k[i + W] = i ? exp(-.5 * (i / s) * (i / s)) : 1;
    for (auto &v : k) v /= m;
    return k;
  };
  Img t(a), o(a);
  if (sy >= .01) { auto k = kern(sy); long W = (long)k.size() / 2; for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) { double v = 0; for (long i = -W; i <= W; ++i) v += k[i + W] * a[std::min(std::max(y + i, 0L), h - 1) * w + x]; t[y * w + x] = v; } }
  o = t;
  if (sx >= .01) { auto k = kern(sx); long W = (long)k.size() / 2; for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) { double v = 0; for (long i = -W; i <= W; ++i) v += k[i + W] * t[y * w + std::min(std::max(x + i, 0L), w - 1)]; o[y * w + x] = v; } }
  return o;
}
static bool kernelUndecided(double s) { double t = 3 * s; return fabs(t - floor(t + .5)) < 1e-5 || fabs(s - .01) < 1e-6; }
static void gradRef(Img const &a, long w, long h, Img &gx, Img &gy) {
  gx.assign(a.size(), 0); gy.assign(a.size(), 0);
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) {
    long x0 = std::max(x - 1, 0L), x1 = std::min(x + 1, w - 1), y0 = std::max(y - 1, 0L), y1 = std::min(y + 1, h - 1);
    gx[y * w + x] = (x1 - x0 == 2 ? .5 : 1) * (a[y * w + x1] - a[y * w + x0]);
    gy[y * w + x] = (y1 - y0 == 2 ? .5 : 1) * (a[y1 * w + x] - a[y0 * w + x]);
  }
}
static double maxAbs(float const *p, long n) { double m = 0; for (long i = 0; i < n; ++i) m = std::max(m, (double)fabsf(p[i])); return m; }

// The response of every level against its definition on the smoothed level
VT_GROUP(C32, responses, 800, 8000) {
  Rng &r = c.rng;
  Setup s = setup(r, 1, 48);
  if (r.chance(.1)) s.w = r.range(1, 4);
  while (s.first > 0 && (std::min(s.w, s.h) >> s.first) < 1) --s.first;
  Det d(s.m);
  apply(r, s, d);
  describe(c, s);
  std::vector<float> im = picture(r, s.w, s.h);
  putRun(c, d, s, im);
  vl_covdet_detect(d);
  VlScaleSpace *g = vl_covdet_get_gss(d), *cs = vl_covdet_get_css(d);
  VlScaleSpaceGeometry G = vl_scalespace_get_geometry(cs), GG = vl_scalespace_get_geometry(g);
  if (!close(G.baseScale, s.base * pow(2, 1. / s.res), 1e-12, 0)) c.fail("base", "base scale %g", G.baseScale);
  long f = isSpace(s.m) ? 0 : -1, l = isSpace(s.m) ? s.res - 1 : s.res;
  if (G.octaveFirstSubdivision != f || G.octaveLastSubdivision != l || GG.octaveLastSubdivision != l + (isDog(s.m) ? 1 : 0)) c.fail("subdivisions", "%lld..%lld", G.octaveFirstSubdivision, G.octaveLastSubdivision);
  uint64_t hash = 0;
  for (long o = G.firstOctave; o <= G.lastOctave; ++o) {
    VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(cs, o);
    long W = (long)og.width, H = (long)og.height;
    for (long q = f; q <= l; ++q) {
      float const *L = vl_scalespace_get_level(g, o, q), *R = vl_scalespace_get_level(cs, o, q);
      double sg = vl_scalespace_get_level_sigma(g, o, q), rel = sg / og.step, mag = maxAbs(L, W * H);
      double fac = pow(rel, 4);
      Img want(W * H, 0.0);
      double tol = 0;
      if (isDog(s.m)) {
        float const *N = vl_scalespace_get_level(g, o, q + 1);
        for (long i = 0; i < W * H; ++i) want[i] = (double)L[i] - N[i];
        tol = 1e-6 * mag;
      } else if (isHarris(s.m)) {
        double si = 1.4 * rel;
        if (kernelUndecided(si)) continue;
        Img a(L, L + W * H), gx, gy, xx(W * H), yy(W * H), xy(W * H);
        gradRef(a, W, H, gx, gy);
        double gm = 0;
        for (long i = 0; i < W * H; ++i) { xx[i] = gx[i] * gx[i]; yy[i] = gy[i] * gy[i]; xy[i] = gx[i] * gy[i]; gm = std::max(gm, std::max(fabs(gx[i]), fabs(gy[i]))); }
        xx = smoothRef(xx, W, H, si, si); yy = smoothRef(yy, W, H, si, si); xy = smoothRef(xy, W, H, si, si);
        for (long i = 0; i < W * H; ++i) want[i] = fac * (xx[i] * yy[i] - xy[i] * xy[i] - .05 * (xx[i] + yy[i]) * (xx[i] + yy[i]));
        tol = fac * (2e-5 * gm * gm * gm * gm + 1e-6 * mag * gm * gm * gm) + 1e-37;
      } else {
        if (W < 3 || H < 3) { // no pixel has all its neighbours
          for (long i = 0; i < W * H; ++i) if (!std::isfinite(R[i])) c.fail("tiny-octave", "octave %ld of %ldx%ld has response %g", o, W, H, R[i]);
          continue;
        }
        for (long y = 0; y < H; ++y) for (long x = 0; x < W; ++x) {
          long u = std::min(std::max(x, 1L), W - 2), v = std::min(std::max(y, 1L), H - 2);
          auto at = [&](long i, long j) { return (double)L[(v + j) * W + u + i]; };
          double xx = at(-1, 0) + at(1, 0) - 2 * at(0, 0), yy = at(0, -1) + at(0, 1) - 2 * at(0, 0), xy = .25 * (at(1, 1) + at(-1, -1) - at(1, -1) - at(-1, 1));
          want[y * W + x] = fac * (xx * yy - xy * xy);
          tol = std::max(tol, fac * (1e-6 * mag * (fabs(xx) + fabs(yy) + fabs(xy)) + 1e-12 * mag * mag));
        }
      }
      for (long i = 0; i < W * H; ++i) if (!(fabs(R[i] - want[i]) <= tol)) c.fail("response", "level (%ld,%ld) pixel (%ld,%ld) of %ldx%ld: %g, expected %g (tolerance %g)", o, q, i % W, i / W, W, H, R[i], want[i], tol);
      hash = fnv(R, W * H * 4, hash);
      c.count("response pixels compared", (double)W * H);
    }
  }
  c.nontrivial(hash);
}

// ------------------------------------------------- extrema, refined, judged
struct Cand { double x, y, sigma, peak, edge; bool sure, accepted, must; bool used; long xi, yi, zi; bool inside, edgeSure; double err, peakErr; };
struct Lim { double peak, edge; };
template <class F> static bool solve3(F A[3][3], F b[3], int n, double &cond) {
  // Gaussian elimination as the library documents: singular if a pivot is tiny
  double M[3][4];
  for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) M[i][j] = A[i][j]; M[i][n] = b[i]; }
  cond = 1e300;
  for (int k = 0; k < n; ++k) {
    int p = k;
    for (int i = k; i < n; ++i) if (fabs(M[i][k]) > fabs(M[p][k])) p = i;
    cond = std::min(cond, fabs(M[p][k]));
    if (fabs(M[p][k]) < 1e-10) return false;
    for (int j = 0; j <= n; ++j) std::swap(M[k][j], M[p][j]);
    for (int i = k + 1; i < n; ++i) { double t = M[i][k] / M[k][k]; for (int j = k; j <= n; ++j) M[i][j] -= t * M[k][j]; }
  }
  for (int k = n - 1; k >= 0; --k) { double v = M[k][n]; for (int j = k + 1; j < n; ++j) v -= M[k][j] * b[j]; b[k] = v / M[k][k]; }
  return true;
}
// refinement of the extremum (x,y,z) of a map; dims 2 or 3
static Cand refine(float const *map, long W, long H, long D, long x, long y, long z, int dims, Lim lim) {
  Cand k; memset(&k, 0, sizeof k);
  k.sure = true;
  double g[3] = {0, 0, 0}, A[3][3], b[3], v0 = 0, cond, scale = 0;
  long dx = 0, dy = 0;
  bool ok = true;
  double err = 0;
  for (int it = 0; it < 5; ++it) {
    x += dx; y += dy;
    auto at = [&](long i, long j, long l) { return (double)map[(x + i) + (y + j) * W + (z + l) * W * H]; };
    scale = 0;
    for (long l = dims == 3 ? -1 : 0; l <= (dims == 3 ? 1 : 0); ++l) for (long j = -1; j <= 1; ++j) for (long i = -1; i <= 1; ++i) scale = std::max(scale, fabs(at(i, j, l)));
    v0 = at(0, 0, 0);
    g[0] = .5 * (at(1, 0, 0) - at(-1, 0, 0)); g[1] = .5 * (at(0, 1, 0) - at(0, -1, 0));
    A[0][0] = at(1, 0, 0) + at(-1, 0, 0) - 2 * v0; A[1][1] = at(0, 1, 0) + at(0, -1, 0) - 2 * v0;
    A[0][1] = A[1][0] = .25 * (at(1, 1, 0) + at(-1, -1, 0) - at(-1, 1, 0) - at(1, -1, 0));
    if (dims == 3) {
      g[2] = .5 * (at(0, 0, 1) - at(0, 0, -1)); A[2][2] = at(0, 0, 1) + at(0, 0, -1) - 2 * v0;
      A[0][2] = A[2][0] = .25 * (at(1, 0, 1) + at(-1, 0, -1) - at(-1, 0, 1) - at(1, 0, -1));
      A[1][2] = A[2][1] = .25 * (at(0, 1, 1) + at(0, -1, -1) - at(0, -1, 1) - at(0, 1, -1));
    }
    for (int i = 0; i < 3; ++i) b[i] = -g[i];
    ok = solve3(A, b, dims, cond);
    double norm = 0;
    for (int i = 0; i < dims; ++i) for (int j = 0; j < dims; ++j) norm = std::max(norm, fabs(A[i][j]));
    if (cond < 1e-9 && cond > 1e-11) k.sure = false;
    if (!ok) { b[0] = b[1] = b[2] = 0; break; }
    double bm = 1;
    for (int i = 0; i < dims; ++i) bm = std::max(bm, fabs(b[i]));
    err = 3e-7 * scale / cond * bm * std::max(1., norm / cond);
    if (err > .02) k.sure = false;
    if (dims < 3) b[2] = 0;
    for (int i = 0; i < 2; ++i) if (fabs(fabs(b[i]) - .6) < 1e-6 + 2 * err) k.sure = false;
    dx = (b[0] > .6 && x < W - 2 ? 1 : 0) + (b[0] < -.6 && x > 1 ? -1 : 0);
    dy = (b[1] > .6 && y < H - 2 ? 1 : 0) + (b[1] < -.6 && y > 1 ? -1 : 0);
    if (!dx && !dy) break;
  }
  double det = A[0][0] * A[1][1] - A[0][1] * A[0][1], tr = A[0][0] + A[1][1], alpha = tr * tr / det;
  k.peak = v0 + .5 * (g[0] * b[0] + g[1] * b[1] + g[2] * b[2]);
  k.edge = alpha < 0 ? INFINITY : (.5 * alpha - 1) + sqrt(std::max(.25 * alpha - 1, 0.) * alpha);
  k.x = x + b[0]; k.y = y + b[1]; k.sigma = z + b[2];
  k.xi = x; k.yi = y; k.zi = z; k.err = err; k.peakErr = 1e-6 * scale + err * (fabs(g[0]) + fabs(g[1]) + fabs(g[2]));
  k.inside = ok && fabs(b[0]) < 1.5 && fabs(b[1]) < 1.5 && fabs(b[2]) < 1.5 && k.x >= 0 && k.x <= W - 1 && k.y >= 0 && k.y <= H - 1 && k.sigma >= 0 && k.sigma <= D - 1;
  k.accepted = ok && fabs(b[0]) < 1.5 && fabs(b[1]) < 1.5 && fabs(b[2]) < 1.5 && k.x >= 0 && k.x <= W - 1 && k.y >= 0 && k.y <= H - 1 && k.sigma >= 0 && k.sigma <= D - 1 &&
    fabs(k.peak) > lim.peak && k.edge < lim.edge;
  double e = 1e-5 + 2 * err;
  for (int i = 0; i < 3; ++i) if (fabs(fabs(b[i]) - 1.5) < e) k.sure = false;
  if (fabs(k.x) < e || fabs(k.x - (W - 1)) < e || fabs(k.y) < e || fabs(k.y - (H - 1)) < e || (dims == 3 && (fabs(k.sigma) < e || fabs(k.sigma - (D - 1)) < e))) k.sure = false;
  if (fabs(fabs(k.peak) - lim.peak) < 1e-6 * scale + 1e-5 * fabs(k.peak)) k.sure = false;
  double de = 1e-6 * scale * (fabs(A[0][0]) + fabs(A[1][1]) + fabs(A[0][1])) + 1e-13 * scale * scale;
  k.edgeSure = !(fabs(det) < 2000 * de);
  if (fabs(det) < 20 * de) k.sure = false;
  if (std::isfinite(k.edge) && fabs(k.edge - lim.edge) < 1e-4 * lim.edge + fabs(k.edge) * 10 * de / std::max(fabs(det), 1e-300)) k.sure = false;
  if (!std::isfinite(k.edge) && fabs(det) < 20 * de) k.sure = false;
  return k;
}
static bool extremum(float const *m, long W, long H, long x, long y, long z, int dims, double thr) {
  float v = m[x + y * W + z * W * H];
  int up = v >= thr, dn = v <= -thr;
  for (long l = dims == 3 ? -1 : 0; l <= (dims == 3 ? 1 : 0); ++l) for (long j = -1; j <= 1; ++j) for (long i = -1; i <= 1; ++i) {
    if (!i && !j && !l) continue;
    float u = m[(x + i) + (y + j) * W + (z + l) * W * H];
    if (!(v > u)) up = 0;
    if (!(v < u)) dn = 0;
  }
  return up || dn;
}
VT_GROUP(C32, extrema, 900, 9000) {
  Rng &r = c.rng;
  Setup s = setup(r, 8, 80);
  s.nes = 0;
  if (isLaplace(s.m)) s.m = isHarris(s.m) ? VL_COVDET_METHOD_MULTISCALE_HARRIS : VL_COVDET_METHOD_MULTISCALE_HESSIAN;
  Det d(s.m);
  apply(r, s, d);
  describe(c, s);
  std::vector<float> im = picture(r, s.w, s.h);
  putRun(c, d, s, im);
  vl_covdet_detect(d);
  VlScaleSpace *cs = vl_covdet_get_css(d);
  VlScaleSpaceGeometry G = vl_scalespace_get_geometry(cs);
  std::vector<Cand> cand;
  for (long o = G.firstOctave; o <= G.lastOctave; ++o) {
    VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(cs, o);
    long W = (long)og.width, H = (long)og.height, f = G.octaveFirstSubdivision, l = G.octaveLastSubdivision, D = l - f + 1;
    int dims = isSpace(s.m) ? 2 : 3;
    float const *base = vl_scalespace_get_level(cs, o, f);
    for (long z = dims == 3 ? 1 : 0; z < (dims == 3 ? D - 1 : D); ++z) for (long y = 1; y < H - 1; ++y) for (long x = 1; x < W - 1; ++x) {
      if (!extremum(base, W, H, x, y, z, dims, .8 * s.peak)) continue;
      Cand k = dims == 3 ? refine(base, W, H, D, x, y, z, 3, Lim{s.peak, s.edge}) : refine(base + z * W * H, W, H, 1, x, y, 0, 2, Lim{s.peak, s.edge});
      if (dims == 2) k.sigma = (double)z;
      k.must = !(dims == 2 && z == D - 1); // the last level of an octave may be left to the next one
      k.sigma = G.baseScale * pow(2, o + (k.sigma + f) / (double)G.octaveResolution);
      k.x *= og.step; k.y *= og.step;
      cand.push_back(k);
    }
  }
  std::vector<VlCovDetFeature> F = all(d);
  c.count("extrema judged", (double)cand.size());
  c.count("features judged", (double)F.size());
  auto like = [&](Cand const &k, VlCovDetFeature const &f, double t) {
    double sg = k.sigma;
    return fabs(k.x - f.frame.x) < t * sg && fabs(k.y - f.frame.y) < t * sg && fabs(log(f.frame.a11 / sg)) < t && close(k.peak, f.peakScore, t, 1e-7);
  };
  for (auto &f : F) {
    if (f.frame.a12 != 0 || f.frame.a21 != 0 || f.frame.a11 != f.frame.a22 || !(f.frame.a11 > 0)) c.fail("frame", "frame (%g %g; %g %g) is not a disc", f.frame.a11, f.frame.a12, f.frame.a21, f.frame.a22);
    if (!(f.frame.x >= 0 && f.frame.x <= s.w && f.frame.y >= 0 && f.frame.y <= s.h)) c.fail("inside", "feature at (%g,%g) of a %ldx%ld image", f.frame.x, f.frame.y, s.w, s.h);
    if (!(fabs(f.peakScore) >= s.peak * (1 - 1e-6)) || !(f.edgeScore <= s.edge * (1 + 1e-6))) c.fail("threshold", "scores %g, %g against %g, %g", f.peakScore, f.edgeScore, s.peak, s.edge);
    if (f.orientationScore != 0 || f.laplacianScaleScore != 0) c.fail("scores", "orientation score %g", f.orientationScore);
    bool found = false, near = false;
    for (auto &k : cand) {
      if (k.used) continue;
      if (k.accepted && like(k, f, .02)) { k.used = found = true; if (k.sure && !(close(k.edge, f.edgeScore, .01, 1e-3))) c.fail("edge-score", "edge score %g, expected %g", f.edgeScore, k.edge); break; }
    }
    if (!found) for (auto &k : cand) if (!k.used && !k.sure && fabs(k.x - f.frame.x) < 6 * k.sigma && fabs(k.y - f.frame.y) < 6 * k.sigma) { k.used = near = true; break; }
    if (!found && !near) c.fail("not-extremum", "feature (%g,%g) scale %g score %g edge %g is no accepted extremum", f.frame.x, f.frame.y, f.frame.a11, f.peakScore, f.edgeScore);
  }
  for (auto &k : cand) if (k.must && k.sure && k.accepted && !k.used) {
    bool dup = false; // two extrema can refine to one place
    for (auto &f : F) if (like(k, f, .02)) dup = true;
    if (!dup) c.fail("missed", "extremum (%g,%g) scale %g score %g edge %g was not returned", k.x, k.y, k.sigma, k.peak, k.edge);
  }
  if (cand.empty()) throw Skip();
  c.nontrivial(im, F.size());
}
VT_GROUP(C32, suppression, 500, 5000) {
  Rng &r = c.rng;
  Setup s = setup(r, 12, 80);
  Setup s0 = s;
  s0.nes = 0;
  Det a(s.m), b(s.m);
  apply(r, s0, a);
  s.peak = s0.peak; if (s.nes == 0) s.nes = .5;
  apply(r, s, b);
  describe(c, s);
  std::vector<float> im = picture(r, s.w, s.h);
  putRun(c, a, s, im); putRun(c, b, s, im);
  vl_covdet_detect(a); vl_covdet_detect(b);
  std::vector<VlCovDetFeature> A = all(a), B = all(b);
  long removed = (long)vl_covdet_get_num_non_extrema_suppressed(b);
  if (removed != (long)A.size() - (long)B.size()) c.fail("suppressed-count", "%ld reported, %ld of %ld left", removed, (long)B.size(), (long)A.size());
  auto dominates = [&](VlCovDetFeature const &p, VlCovDetFeature const &q, double e) {
    double u = p.frame.a11, v = q.frame.a11, t = s.nes;
    return u < (1 + t) * v * (1 + e) && v < (1 + t) * u * (1 + e) && fabs((double)q.frame.x - p.frame.x) < t * u * (1 + e) && fabs((double)q.frame.y - p.frame.y) < t * u * (1 + e) && fabsf(p.peakScore) > fabsf(q.peakScore);
  };
  size_t j = 0;
  std::vector<VlCovDetFeature> gone;
  for (auto &f : A) {
    if (j < B.size() && !memcmp(&f, &B[j], sizeof f)) ++j;
    else gone.push_back(f);
  }
  if (j != B.size()) c.fail("suppression-altered", "a surviving feature is not one of the detected ones");
  for (auto &p : B) for (auto &q : B) if (dominates(p, q, -1e-9)) c.fail("suppression", "both (%g,%g,%g) score %g and (%g,%g,%g) score %g survive", p.frame.x, p.frame.y, p.frame.a11, p.peakScore, q.frame.x, q.frame.y, q.frame.a11, q.peakScore);
  for (auto &q : gone) {
    bool ok = false;
    for (auto &p : A) if (dominates(p, q, 1e-9)) { ok = true; break; }
    if (!ok) c.fail("suppression-excess", "feature (%g,%g,%g) score %g was removed though none is stronger nearby", q.frame.x, q.frame.y, q.frame.a11, q.peakScore);
  }
  c.count("features suppressed", (double)gone.size());
  c.count("features kept", (double)B.size());
  if (A.empty()) throw Skip();
  c.nontrivial(im, B.size());
}

// ----------------------------------------------------------------- patches
struct Lev { long o, s; double sigma; bool sure; };
// the level to warp: the largest smoothing not above R in an octave as coarse
// as possible
static Lev level(VlScaleSpace *g, double R) {
  VlScaleSpaceGeometry G = vl_scalespace_get_geometry(g);
  Lev best{G.firstOctave, G.octaveFirstSubdivision, 0, true};
  for (long o = G.firstOctave; o <= G.lastOctave; ++o) for (long s = G.octaveFirstSubdivision; s <= G.octaveLastSubdivision; ++s) {
    double sg = G.baseScale * pow(2, o + (double)s / G.octaveResolution);
    if (fabs(sg / R - 1) < 1e-3) best.sure = false;
    if (sg <= R) { if (sg >= best.sigma * (1 - 1e-9)) { best.o = o; best.s = s; best.sigma = sg; } }
  }
  best.sigma = G.baseScale * pow(2, best.o + (double)best.s / G.octaveResolution);
  return best;
}
static Img warp(VlScaleSpace *g, long o, long s, long res, double ext, double const A_[4], double const T_[2]) {
  VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(g, o);
  long W = (long)og.width, H = (long)og.height, n = 2 * res + 1;
  float const *L = vl_scalespace_get_level(g, o, s);
  double A[4], T[2];
  for (int i = 0; i < 4; ++i) A[i] = A_[i] / og.step;
  for (int i = 0; i < 2; ++i) T[i] = T_[i] / og.step;
  Img p(n * n);
  auto px = [&](double xi, double yi) { return (double)L[(long)std::min(std::max(yi, 0.), H - 1.) * W + (long)std::min(std::max(xi, 0.), W - 1.)]; };
  for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) {
    double u = ext * (i - res) / res, v = ext * (j - res) / res;
    double x = A[0] * u + A[2] * v + T[0], y = A[1] * u + A[3] * v + T[1], xi = floor(x), yi = floor(y), wx = x - xi, wy = y - yi;
    p[j * n + i] = (1 - wy) * ((1 - wx) * px(xi, yi) + wx * px(xi + 1, yi)) + wy * ((1 - wx) * px(xi, yi + 1) + wx * px(xi + 1, yi + 1));
  }
  return p;
}
static Frame frame(Rng &r, long w, long h, double smin, double smax, bool out) {
  Frame f;
  double s = smin * pow(smax / smin, r.uni()), an = r.chance(.4) ? 1 : pow(2, r.uni(-2, 2)), th = r.uni(0, 6.3), ph = r.uni(0, 6.3);
  double d1 = s * sqrt(an), d2 = s / sqrt(an);
  if (r.chance(.3)) th = -ph; // upright
  double c1 = cos(th), s1 = sin(th), c2 = cos(ph), s2 = sin(ph);
  f.a11 = (float)(c1 * d1 * c2 - s1 * d2 * s2); f.a12 = (float)(-c1 * d1 * s2 - s1 * d2 * c2);
  f.a21 = (float)(s1 * d1 * c2 + c1 * d2 * s2); f.a22 = (float)(-s1 * d1 * s2 + c1 * d2 * c2);
  f.x = (float)r.uni(0, w - 1); f.y = (float)r.uni(0, h - 1);
  if (r.chance(.2)) { f.x = floorf(f.x); f.y = floorf(f.y); }
  if (r.chance(.15)) f.x = r.chance(.5) ? 0 : (float)(w - 1);
  if (r.chance(.15)) f.y = r.chance(.5) ? 0 : (float)(h - 1);
  if (out) { f.x += (float)(r.uni(-1, 1) * (w + 10 * s)); f.y += (float)(r.uni(-1, 1) * (h + 10 * s)); }
  return f;
}
static void singular(Frame const &f, double &hi, double &lo) {
  double a = f.a11, b = f.a12, cc = f.a21, d = f.a22, S = a * a + b * b + cc * cc + d * d, det = fabs(a * d - b * cc), q = sqrt(std::max(S * S - 4 * det * det, 0.));
  hi = sqrt((S + q) / 2);
  lo = hi > 0 ? det / hi : 0;
}
static void put(Ctx &c, Rng &r, Det &d, Setup &s, std::vector<float> &im) {
  apply(r, s, d);
  describe(c, s);
  im = picture(r, s.w, s.h);
  putRun(c, d, s, im);
}
VT_GROUP(C32, patches, 2500, 25000) {
  Rng &r = c.rng;
  Setup s = setup(r, 1, 60);
  Det d(s.m);
  std::vector<float> im;
  put(c, r, d, s, im);
  VlScaleSpace *g = vl_covdet_get_gss(d);
  double mag = maxAbs(im.data(), s.w * s.h);
  uint64_t hash = 0;
  for (int t = 0; t < 6; ++t) {
    Frame f = frame(r, s.w, s.h, .3, 12, r.chance(.3));
    bool mirrored = r.chance(.1);
    if (mirrored) { f.a12 = -f.a12; f.a22 = -f.a22; }
    long res = r.range(1, 20);
    double ext = r.uni(.5, 9), sg = r.chance(.3) ? 1 : r.uni(.2, 3);
    bool pad = r.chance(.8);
    vl_covdet_set_allow_padded_warping(d, pad);
    if ((vl_covdet_get_allow_padded_warping(d) != 0) != pad) c.fail("padded", "setting not kept");
    long n = (2 * res + 1) * (2 * res + 1);
    Guarded<float> p(n, 40, -77777.f);
    int e = vl_covdet_extract_patch_for_frame(d, p.data(), res, ext, sg, f);
    if (!p.intact()) c.fail("patch-overrun", "patch of resolution %ld written outside", res);
    double hi, lo;
    singular(f, hi, lo);
    Lev L = level(g, sg * lo);
    VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(g, L.o);
    double bx = ext * (fabs(f.a11) + fabs(f.a12)) / og.step, by = ext * (fabs(f.a21) + fabs(f.a22)) / og.step, X = f.x / og.step, Y = f.y / og.step, eps = 1e-4;
    double over = std::max(std::max(bx - X, by - Y), std::max(X + bx - (og.width - 1.), Y + by - (og.height - 1.)));
    if (!pad && L.sure && over > eps) {
      if (!e) c.fail("patch-outside", "patch reaching %g pixels outside was extracted though padding is off", over);
      continue;
    }
    if (e) {
      if (!pad && (!L.sure || over > -eps)) continue;
      c.fail("patch-error", "error %d", e);
    }
    double A[4] = {f.a11, f.a21, f.a12, f.a22}, T[2] = {f.x, f.y};
    double tol = 2e-6 * mag + 1e-9, worstBest = 1e300;
    VlScaleSpaceGeometry G = vl_scalespace_get_geometry(g);
    bool ok = false;
    long wi = 0; double wv = 0;
    for (long o = G.firstOctave; o <= G.lastOctave && !ok; ++o) for (long q = G.octaveFirstSubdivision; q <= G.octaveLastSubdivision; ++q) {
      double sq = G.baseScale * pow(2, o + (double)q / G.octaveResolution);
      bool cand = fabs(sq / L.sigma - 1) < 1e-6;
      if (!L.sure) cand = sq < L.sigma * 1.01 * pow(2, 1. / G.octaveResolution) && sq > L.sigma / 1.01 / pow(2, 1. / G.octaveResolution);
      if (!cand) continue;
      VlScaleSpaceOctaveGeometry h = vl_scalespace_get_octave_geometry(g, o);
      // rounding of the position, times the slope of the level
      double te = tol + 2 * mag * 1e-12 * (fabs(f.x) + fabs(f.y) + 10 * hi * ext) / h.step;
      Img want = warp(g, o, q, res, ext, A, T);
      double worst = 0; long at = 0;
      for (long i = 0; i < n; ++i) { double v = fabs(p.data()[i] - want[i]); if (!(v <= worst)) { worst = v; at = i; } }
      if (worst <= te) { ok = true; break; }
      if (worst < worstBest) { worstBest = worst; wi = at; wv = want[at]; }
    }
    if (!ok) c.fail(mirrored ? "patch-mirrored" : over > 0 ? "patch-padded" : "patch", "frame (%g,%g; %g %g %g %g) resolution %ld extent %g sigma %g: sample (%ld,%ld) is %g, expected %g from level (%ld,%ld)", f.x, f.y, f.a11, f.a12, f.a21, f.a22, res, ext, sg, wi % (2 * res + 1), wi / (2 * res + 1), p.data()[wi], wv, L.o, L.s);
    hash = fnv(p.data(), n * 4, hash);
    c.count("patch samples compared", (double)n);
    if (over > 0) c.count("patches reaching outside");
  }
  c.nontrivial(hash);
}

// ------------------------------------------------------------- orientations
struct Mat { double a[4]; }; // column major
static void svd(double const A[4], double U[4], double D[2], double V[4], bool &distinct) {
  // A = U diag(D) V', D[0] >= D[1]; rotations
  double E[4] = {A[0] * A[0] + A[1] * A[1], A[0] * A[2] + A[1] * A[3], 0, A[2] * A[2] + A[3] * A[3]};
  double th = .5 * atan2(2 * E[1], E[0] - E[3]);
  V[0] = cos(th); V[1] = sin(th); V[2] = -sin(th); V[3] = cos(th);
  double x0 = A[0] * V[0] + A[2] * V[1], y0 = A[1] * V[0] + A[3] * V[1], x1 = A[0] * V[2] + A[2] * V[3], y1 = A[1] * V[2] + A[3] * V[3];
  D[0] = hypot(x0, y0); D[1] = hypot(x1, y1);
  U[0] = x0 / D[0]; U[1] = y0 / D[0]; U[2] = x1 / D[1]; U[3] = y1 / D[1];
  distinct = D[0] > D[1] * 1.0001;
  if (!distinct) { // any axes will do: those the library's decomposition (C11) gives
    double S[4], u[4], v[4], a[4] = {A[0], A[1], A[2], A[3]};
    vl_svd2(S, u, v, a);
    memcpy(U, u, sizeof u); memcpy(V, v, sizeof v);
    D[0] = S[0]; D[1] = S[3];
    for (int k = 0; k < 2; ++k) if (D[k] < 0) D[k] = -D[k], U[2 * k] = -U[2 * k], U[2 * k + 1] = -U[2 * k + 1]; // mirrored
  }
}
VT_GROUP(C32, orientations, 1200, 12000) {
  Rng &r = c.rng;
  Setup s = setup(r, 8, 60);
  Det d(s.m);
  std::vector<float> im;
  put(c, r, d, s, im);
  bool tr = r.chance(.3);
  vl_covdet_set_transposed(d, tr);
  long maxo = r.chance(.6) ? 4 : r.range(1, 12);
  vl_covdet_set_max_num_orientations(d, maxo);
  VlScaleSpace *g = vl_covdet_get_gss(d);
  long const res = 20, side = 41;
  double const ext = 9;
  uint64_t hash = 1;
  for (int t = 0; t < 4; ++t) {
    Frame f = frame(r, s.w, s.h, .5, 10, r.chance(.1));
    vl_size n = 99;
    VlCovDetFeatureOrientation *o = vl_covdet_extract_orientations_for_frame(d, &n, f);
    if ((long)n > maxo) c.fail("orientations-max", "%llu orientations, at most %ld allowed", n, maxo);
    for (vl_size i = 0; i < n; ++i) {
      if (!std::isfinite(o[i].angle) || !std::isfinite(o[i].score) || (i && o[i].score > o[i - 1].score)) c.fail("orientations-order", "orientation %llu: angle %g score %g", i, o[i].angle, o[i].score);
    }
    double A[4] = {f.a11, f.a21, f.a12, f.a22}, T[2] = {f.x, f.y}, U[4], D[2], V[4];
    bool distinct;
    svd(A, U, D, V, distinct);
    Lev L = level(g, D[1]);
    if (!L.sure) { c.count("orientation frames undecided"); continue; }
    double A2[4] = {U[0] * D[0], U[1] * D[0], U[2] * D[1], U[3] * D[1]};
    double theta0 = atan2(V[1], V[0]);
    Img p = warp(g, L.o, L.s, res, ext, A2, T);
    double s1 = L.sigma / D[0], s2 = L.sigma / D[1], st = ext / res;
    double k1 = sqrt(std::max(1 - s1 * s1, 0.)) / st, k2 = sqrt(std::max(1 - s2 * s2, 0.)) / st;
    if (kernelUndecided(k1) || kernelUndecided(k2)) continue;
    Img q = smoothRef(p, side, side, k1, k2), gx, gy;
    gradRef(q, side, side, gx, gy);
    double hist[36] = {0}, total = 0, noise = 0, small = 0;
    double step = 2 * ext / side; // of the weighting mask
    for (long j = 0; j < side; ++j) for (long i = 0; i < side; ++i) {
      double mx = gx[j * side + i], my = gy[j * side + i], m = hypot(mx, my), a = atan2(my, mx);
      double u = (i - res) * step / 3, v = (j - res) * step / 3, wgt = (double)expf((float)(-.5 * (u * u + v * v)));
      if (a < 0) a += 2 * M_PI;
      if (m < 1e-4) { small += m * wgt; continue; } // the fast square root is null there
      double x = a / (M_PI / 18);
      long b = (long)floor(x);
      double w2 = x - b;
      hist[b % 36] += (1 - w2) * m * wgt; hist[(b + 1) % 36] += w2 * m * wgt;
      total += m * wgt; noise += wgt;
    }
    // rounding noise of the gradients of a flat patch decides nothing
    double mag = 0;
    for (double v : q) mag = std::max(mag, fabs(v));
    if (total < 1e-4 * mag * noise || total < 2e-3 * noise || small > .02 * total) {
      if (mag == 0 && n != 0) c.fail("orientation-flat", "%llu orientations of a zero patch", n);
      c.count("flat orientation patches");
      continue;
    }
    for (int it = 0; it < 6; ++it) { double h2[36]; for (int i = 0; i < 36; ++i) h2[i] = (hist[(i + 35) % 36] + hist[i] + hist[(i + 1) % 36]) / 3; memcpy(hist, h2, sizeof hist); }
    double mx = 0;
    for (double v : hist) mx = std::max(mx, v);
    struct Pk { double th, score, tol; bool sure, hit; } pk[36];
    int np = 0;
    double e = 8e-3 * mx + 2e-6 * mag * noise; // the polar gradient is approximate
    for (int i = 0; i < 36; ++i) {
      double h0 = hist[i], hm = hist[(i + 35) % 36], hp = hist[(i + 1) % 36];
      if (h0 > .8 * mx - e && h0 > hm - e && h0 > hp - e) {
        bool sure = h0 > .8 * mx + e && h0 > hm + e && h0 > hp + e;
        double di = -.5 * (hp - hm) / (hp + hm - 2 * h0), th = (M_PI / 18) * (i + di) + theta0 - (tr ? M_PI / 2 : 0);
        // a flat peak is located poorly
        double tol = .04 + (M_PI / 18) * std::min(1., .5 * e / std::max(1e-300, fabs(hp + hm - 2 * h0)));
        pk[np++] = Pk{th, h0, tol, sure, false};
      }
    }
    for (vl_size i = 0; i < n; ++i) {
      bool hit = false, maybe = false;
      for (int k = 0; k < np; ++k) {
        double dd = remainder(o[i].angle - pk[k].th, 2 * M_PI);
        // distinct directions only: the axes of V are signed arbitrarily
        if (!pk[k].sure && fabs(dd) < .4) maybe = true;
        if (fabs(dd) < pk[k].tol && fabs(o[i].score - pk[k].score) < 2 * e) pk[k].hit = hit = true;
      }
      if (!hit && !maybe) c.fail("orientation", "orientation %g (score %g) of frame (%g,%g; %g %g %g %g) is no peak of its histogram; %d peaks, first at %g score %g", o[i].angle, o[i].score, f.x, f.y, f.a11, f.a12, f.a21, f.a22, np, np ? pk[0].th : 0., np ? pk[0].score : 0.);
    }
    long better = 0, sures = 0;
    for (int k = 0; k < np; ++k) {
      if (!pk[k].sure) { ++better; continue; }
      ++sures;
      if (pk[k].hit) continue;
      // left out only for a stronger one
      long stronger = 0;
      for (int m = 0; m < np; ++m) stronger += m != k && pk[m].score >= pk[k].score - 2 * e;
      if (stronger < maxo) c.fail("orientation-missed", "peak at %g score %g (largest %g) was not returned among %llu", pk[k].th, pk[k].score, mx, n);
    }
    hash = fnv(o, n * sizeof *o, hash);
    c.count("orientation frames judged");
    c.count("orientation peaks judged", (double)sures);
  }
  c.nontrivial(hash);
}
// Whole-list operations equal their single-frame forms
static bool sameFrame(Frame const &a, Frame const &b, double e) {
  double m = fabs(a.a11) + fabs(a.a12) + fabs(a.a21) + fabs(a.a22);
  return a.x == b.x && a.y == b.y && fabs(a.a11 - b.a11) <= e * m && fabs(a.a12 - b.a12) <= e * m && fabs(a.a21 - b.a21) <= e * m && fabs(a.a22 - b.a22) <= e * m;
}
VT_GROUP(C32, lists, 500, 5000) {
  Rng &r = c.rng;
  Setup s = setup(r, 16, 70);
  Det d(s.m);
  std::vector<float> im;
  put(c, r, d, s, im);
  if (r.chance(.3)) vl_covdet_set_transposed(d, 1);
  if (r.chance(.2)) vl_covdet_set_allow_padded_warping(d, 0);
  bool own = r.chance(.5);
  if (!own) vl_covdet_detect(d);
  long extra = own ? r.range(1, 12) : r.range(0, 3);
  while (extra--) {
    VlCovDetFeature f;
    memset(&f, 0, sizeof f);
    f.frame = frame(r, s.w, s.h, .5, 8, false);
    f.peakScore = (float)r.uni(.1, 1); f.edgeScore = (float)r.uni();
    long before = (long)vl_covdet_get_num_features(d);
    if (vl_covdet_append_feature(d, &f)) c.fail("append", "failed");
    if ((long)vl_covdet_get_num_features(d) != before + 1 || memcmp(&feats(d)[before], &f, sizeof f)) c.fail("append", "feature not appended");
  }
  std::vector<VlCovDetFeature> F = all(d);
  if (F.empty()) throw Skip();
  if (F.size() > 300) throw Skip();
  int op = (int)r.range(0, 3);
  uint64_t hash = fnv(F.data(), F.size() * sizeof F[0], op);
  if (op == 0) {
    std::vector<VlCovDetFeature> want(F), more;
    for (size_t i = 0; i < F.size(); ++i) {
      vl_size n = 0;
      VlCovDetFeatureOrientation *o = vl_covdet_extract_orientations_for_frame(d, &n, F[i].frame);
      for (vl_size k = 0; k < n; ++k) {
        VlCovDetFeature f = F[i];
        double c1 = cos(o[k].angle), s1 = sin(o[k].angle);
        f.frame.a11 = (float)(F[i].frame.a11 * c1 + F[i].frame.a12 * s1); f.frame.a12 = (float)(-F[i].frame.a11 * s1 + F[i].frame.a12 * c1);
        f.frame.a21 = (float)(F[i].frame.a21 * c1 + F[i].frame.a22 * s1); f.frame.a22 = (float)(-F[i].frame.a21 * s1 + F[i].frame.a22 * c1);
        f.orientationScore = o[k].score;
        if (k) more.push_back(f); else want[i] = f;
      }
    }
    for (auto &f : more) want.push_back(f);
    vl_covdet_extract_orientations(d);
    std::vector<VlCovDetFeature> G = all(d);
    if (G.size() != want.size()) c.fail("orient-count", "%zu features, expected %zu", G.size(), want.size());
    for (size_t i = 0; i < G.size(); ++i) if (!sameFrame(G[i].frame, want[i].frame, 1e-5) || G[i].orientationScore != want[i].orientationScore || G[i].peakScore != want[i].peakScore || G[i].edgeScore != want[i].edgeScore) c.fail("orient-list", "feature %zu differs from its frame's orientation", i);
    c.count("features oriented", (double)G.size());
  } else if (op == 1) {
    std::vector<VlCovDetFeature> want;
    for (auto f : F) { Frame a; if (vl_covdet_extract_affine_shape_for_frame(d, &a, f.frame) == VL_ERR_OK) { f.frame = a; want.push_back(f); } }
    vl_covdet_extract_affine_shape(d);
    std::vector<VlCovDetFeature> G = all(d);
    if (G.size() != want.size()) c.fail("affine-count", "%zu features, expected %zu", G.size(), want.size());
    for (size_t i = 0; i < G.size(); ++i) if (memcmp(&G[i], &want[i], sizeof G[i])) c.fail("affine-list", "feature %zu differs from its frame's adaptation", i);
    c.count("features adapted", (double)G.size());
  } else if (op == 2) {
    long stat[5] = {0};
    std::vector<VlCovDetFeature> want, more;
    for (auto &f0 : F) {
      vl_size n = 0;
      VlCovDetFeatureLaplacianScale *o = vl_covdet_extract_laplacian_scales_for_frame(d, &n, f0.frame);
      if (n > 4) c.fail("scales-max", "%llu scales", n);
      stat[n]++;
      for (vl_size k = 0; k < n; ++k) {
        VlCovDetFeature f = f0;
        f.laplacianScaleScore = o[k].score;
        f.frame.a11 *= o[k].scale; f.frame.a12 *= o[k].scale; f.frame.a21 *= o[k].scale; f.frame.a22 *= o[k].scale;
        if (k) more.push_back(f); else want.push_back(f);
      }
    }
    for (auto &f : more) want.push_back(f);
    vl_covdet_extract_laplacian_scales(d);
    std::vector<VlCovDetFeature> G = all(d);
    if (G.size() != want.size()) c.fail("scales-count", "%zu features, expected %zu", G.size(), want.size());
    for (size_t i = 0; i < G.size(); ++i) if (!sameFrame(G[i].frame, want[i].frame, 1e-6) || G[i].laplacianScaleScore != want[i].laplacianScaleScore || G[i].peakScore != want[i].peakScore) c.fail("scales-list", "feature %zu differs from its frame's scale", i);
    vl_size ns = 0;
    vl_size const *st = vl_covdet_get_laplacian_scales_statistics(d, &ns);
    if (ns != 4) c.fail("scales-stat", "%llu", ns);
    for (int k = 0; k <= 4; ++k) if ((long)st[k] != stat[k]) c.fail("scales-stat", "%llu features with %d scales, expected %ld", st[k], k, stat[k]);
    c.count("features rescaled", (double)G.size());
  } else {
    double m = r.chance(.3) ? 0 : r.uni(0, 6);
    std::vector<VlCovDetFeature> sure;
    std::vector<char> must(F.size());
    vl_covdet_drop_features_outside(d, m);
    std::vector<VlCovDetFeature> G = all(d);
    size_t j = 0;
    for (auto &f : F) {
      double bx = m * (fabs((double)f.frame.a11) + fabs((double)f.frame.a12)), by = m * (fabs((double)f.frame.a21) + fabs((double)f.frame.a22)), e = 1e-5;
      double over = std::max(std::max(bx - f.frame.x, by - f.frame.y), std::max(f.frame.x + bx - (s.w - 1.), f.frame.y + by - (s.h - 1.)));
      bool kept = j < G.size() && !memcmp(&G[j], &f, sizeof f);
      if (kept) ++j;
      if (kept && over > e) c.fail("drop-kept", "feature reaching %g outside survives", over);
      if (!kept && over < -e) c.fail("drop-lost", "feature %g inside was dropped", -over);
    }
    if (j != G.size()) c.fail("drop-altered", "surviving features were changed or reordered");
    c.count("features kept inside", (double)G.size());
    c.count("features dropped", (double)F.size() - (double)G.size());
  }
  c.nontrivial(im, hash);
}
// Laplace detectors are the multi-scale ones with scale selection
VT_GROUP(C32, laplace, 250, 2500) {
  Rng &r = c.rng;
  Setup s = setup(r, 16, 70);
  bool har = r.chance(.5);
  s.m = har ? VL_COVDET_METHOD_HARRIS_LAPLACE : VL_COVDET_METHOD_HESSIAN_LAPLACE;
  s.nes = 0;
  Det a(s.m), b(har ? VL_COVDET_METHOD_MULTISCALE_HARRIS : VL_COVDET_METHOD_MULTISCALE_HESSIAN);
  std::vector<float> im;
  put(c, r, a, s, im);
  Setup s2 = s;
  apply(r, s2, b);
  double lp = r.chance(.5) ? .01 : r.chance(.5) ? 0 : r.uni(0, .1);
  vl_covdet_set_laplacian_peak_threshold(a, lp); vl_covdet_set_laplacian_peak_threshold(b, lp);
  putRun(c, b, s, im);
  vl_covdet_detect(a); vl_covdet_detect(b);
  long before = (long)vl_covdet_get_num_features(b);
  vl_covdet_extract_laplacian_scales(b);
  std::vector<VlCovDetFeature> A = all(a), B = all(b);
  if (A.size() != B.size()) c.fail("laplace-count", "%zu features, %zu expected of %ld", A.size(), B.size(), before);
  for (size_t i = 0; i < A.size(); ++i) if (memcmp(&A[i], &B[i], sizeof A[i])) c.fail("laplace", "feature %zu differs from the rescaled multi-scale one", i);
  if (!before) throw Skip();
  c.count("features compared", (double)A.size());
  c.nontrivial(im);
}
VT_GROUP(C32, scales, 1200, 12000) {
  Rng &r = c.rng;
  Setup s = setup(r, 12, 60);
  Det d(s.m);
  std::vector<float> im;
  put(c, r, d, s, im);
  double thr = r.chance(.4) ? .01 : r.chance(.5) ? 0 : r.uni(0, .2);
  vl_covdet_set_laplacian_peak_threshold(d, thr);
  VlScaleSpace *g = vl_covdet_get_gss(d);
  long const res = 16, side = 33;
  double const si = sqrt(.5), st = .5 * si;
  static std::vector<Img> bank;
  if (bank.empty()) for (int k = 0; k < 10; ++k) {
    double sl = pow(2, -.5 + k / 9.), dl = sqrt(std::max(sl * sl - si * si, 0.));
    Img f(side * side, 0.0);
    f[res * side + res] = -4; f[res * side + res - 1] = f[res * side + res + 1] = f[(res - 1) * side + res] = f[(res + 1) * side + res] = 1;
    bank.push_back(smoothRef(f, side, side, dl / st, dl / st));
  }
  uint64_t hash = 3;
  for (int t = 0; t < 6; ++t) {
    Frame f = frame(r, s.w, s.h, .8, 8, false);
    vl_size n = 99;
    VlCovDetFeatureLaplacianScale *o = vl_covdet_extract_laplacian_scales_for_frame(d, &n, f);
    double A[4] = {f.a11, f.a21, f.a12, f.a22}, T[2] = {f.x, f.y}, hi, lo;
    singular(f, hi, lo);
    Lev L = level(g, si * lo);
    if (!L.sure) continue;
    Img p = warp(g, L.o, L.s, res, st * res, A, T);
    double s1 = L.sigma / hi, s2 = L.sigma / lo, act2 = s1 * s2, sc[10], mag = 0;
    for (double v : p) mag = std::max(mag, fabs(v));
    auto lap = [&](double k) { double q = pow(2, -.5 + k / 9); return sqrt(q * q - si * si + act2); };
    double e = 0;
    for (int k = 0; k < 10; ++k) {
      double v = 0, w = 0;
      for (long i = 0; i < side * side; ++i) { v += bank[k][i] * p[i]; w += fabs(bank[k][i]); }
      double q = lap(k);
      sc[k] = v * q * q;
      e = std::max(e, 1e-6 * mag * w * q * q);
    }
    struct { double scale, score, loose; bool sure, hit; } pk[10];
    int np = 0, nsure = 0;
    for (int k = 1; k < 9; ++k) {
      double a = sc[k - 1], b = sc[k], cc = sc[k + 1];
      double margin = std::min(std::max(std::min(b - a, b - cc), std::min(a - b, cc - b)), fabs(b) - thr);
      if (margin < -2 * e) continue;
      double dk = -.5 * (cc - a) / (cc + a - 2 * b);
      pk[np].loose = std::min(.7, 2 * e / std::max(1e-300, fabs(cc + a - 2 * b))); // a flat extremum is located poorly
      pk[np].scale = lap(k + dk); pk[np].score = b + .25 * 2 * (cc - a) * dk; pk[np].sure = margin > 20 * e; pk[np].hit = false;
      nsure += pk[np].sure;
      ++np;
    }
    for (vl_size i = 0; i < n; ++i) {
      bool hit = false, maybe = false;
      for (int k = 0; k < np; ++k) {
        if (!pk[k].sure) maybe = true;
        if (!pk[k].hit && fabs(o[i].scale / pk[k].scale - 1) < .0002 + .2 * pk[k].loose && fabs(o[i].score - pk[k].score) < .0003 * fabs(pk[k].score) + 5 * e) { pk[k].hit = hit = true; break; }
      }
      if (!hit && !maybe) c.fail("scale", "scale %g score %g of frame (%g,%g; %g %g %g %g) is no extremum over scale; %d extrema, first %g score %g", o[i].scale, o[i].score, f.x, f.y, f.a11, f.a12, f.a21, f.a22, np, np ? pk[0].scale : 0., np ? pk[0].score : 0.);
    }
    if (np <= 4) for (int k = 0; k < np; ++k) if (pk[k].sure && !pk[k].hit) c.fail("scale-missed", "extremum at scale %g score %g was not returned among %llu", pk[k].scale, pk[k].score, n);
    c.count("scale frames judged");
    c.count("scale extrema judged", nsure);
    hash = fnv(o, n * sizeof *o, hash);
  }
  c.nontrivial(im, hash);
}
// Affine adaptation against the same iteration in double precision
VT_GROUP(C32, affine, 800, 8000) {
  Rng &r = c.rng;
  Setup s = setup(r, 12, 60);
  Det d(s.m);
  std::vector<float> im;
  put(c, r, d, s, im);
  bool tr = r.chance(.3), acc = r.chance(.3);
  vl_covdet_set_transposed(d, tr); vl_covdet_set_aa_accurate_smoothing(d, acc);
  if ((vl_covdet_get_transposed(d) != 0) != tr || (vl_covdet_get_aa_accurate_smoothing(d) != 0) != acc) c.fail("settings", "not kept");
  VlScaleSpace *g = vl_covdet_get_gss(d);
  long const res = 20, side = 41;
  double const ext = 9;
  uint64_t hash = 5;
  for (int t = 0; t < 3; ++t) {
    Frame f = frame(r, s.w, s.h, .8, 6, false), got;
    bool mirrored = r.chance(.2);
    if (mirrored) f.a12 = -f.a12, f.a22 = -f.a22;
    double A[4] = {f.a11, f.a21, f.a12, f.a22}, T[2] = {f.x, f.y}, B[4];
    int e = vl_covdet_extract_affine_shape_for_frame(d, &got, f);
    if (e) c.fail("affine-error", "error %d", e);
    if (got.x != f.x || got.y != f.y) c.fail("affine-centre", "the centre moved");
    double hi0, lo0, hi1, lo1;
    singular(f, hi0, lo0); singular(got, hi1, lo1);
    if (!(std::isfinite(hi1) && lo1 > 0 && ((double)got.a11 * got.a22 - (double)got.a12 * got.a21 > 0) != mirrored)) c.fail("affine-finite", "frame (%g %g; %g %g) from (%g %g; %g %g)", got.a11, got.a12, got.a21, got.a22, f.a11, f.a12, f.a21, f.a22);
    if (mirrored) c.count("mirrored frames");
    // upright: the vertical axis keeps its direction
    double off = tr ? got.a21 : got.a12, on = tr ? got.a11 : got.a22;
    if (!(fabs(off) <= 1e-5 * hi1 && on > 0)) c.fail("affine-upright", "frame (%g %g; %g %g) is not upright (transposed %d)", got.a11, got.a12, got.a21, got.a22, tr);
    if (hi1 > 5.001 * lo1 && hi0 <= 5 * lo0) c.fail("affine-anisotropy", "anisotropy %g", hi1 / lo1);
    if (fabs(lo1 / lo0 - 1) > 1e-4) c.fail("affine-scale", "smallest axis %g became %g", lo0, lo1);
    bool sure = true;
    auto adapt = [&](double const *A0, double *B) {
      double A[4], ref = 0;
      memcpy(A, A0, sizeof A); memcpy(B, A0, sizeof A);
      for (int iter = 0;;) {
        double U[4], D[2], V[4];
        bool distinct;
        svd(A, U, D, V, distinct);
        double an = D[0] / D[1];
        if (fabs(an / 5 - 1) < .03) sure = false;
        if (an > 5) break;
        if (iter == 0) ref = D[1];
        double k = ref / D[1];
        D[0] *= k; D[1] *= k;
        A[0] = U[0] * D[0]; A[1] = U[1] * D[0]; A[2] = U[2] * D[1]; A[3] = U[3] * D[1];
        memcpy(B, A, sizeof A);
        if (++iter >= 15) break;
        Lev L = level(g, ref);
        if (!L.sure) { sure = false; break; }
        Img p = warp(g, L.o, L.s, res, ext, A, T), gx, gy;
        if (acc) {
          double s1 = L.sigma / D[0], s2 = L.sigma / D[1], st = ext / res, k1 = sqrt(std::max(1 - s1 * s1, 0.)) / st, k2 = sqrt(std::max(1 - s2 * s2, 0.)) / st;
          if (kernelUndecided(k1) || kernelUndecided(k2)) { sure = false; break; }
          p = smoothRef(p, side, side, k1, k2);
        }
        gradRef(p, side, side, gx, gy);
        double xx = 0, yy = 0, xy = 0, mag = 0, wsum = 0;
        for (long j = 0; j < side; ++j) for (long i = 0; i < side; ++i) {
          double u = (i - res) * (2 * ext / side) / 3, v = (j - res) * (2 * ext / side) / 3, w = exp(-.5 * (u * u + v * v));
          long q = j * side + i;
          xx += w * gx[q] * gx[q]; yy += w * gy[q] * gy[q]; xy += w * gx[q] * gy[q]; mag = std::max(mag, fabs(p[q])); wsum += w;
        }
        if (xx == 0 || yy == 0) { memcpy(B, A0, 4 * sizeof *B); break; }
        double trc = xx + yy, dis = sqrt(std::max((xx - yy) * (xx - yy) + 4 * xy * xy, 0.)), q0 = (trc + dis) / 2, q1 = (trc - dis) / 2;
        if (q1 < 1e-9 * mag * mag * wsum || q1 <= 1e-6 * q0) { sure = false; break; } // rounding decides
        double ratio = q0 / q1;
        if (ratio < 1.001) break;
        double th = .5 * atan2(2 * xy, xx - yy), P[4] = {cos(th), sin(th), -sin(th), cos(th)};
        double a0 = (A[0] * P[0] + A[2] * P[1]) / sqrt(q0), a1 = (A[1] * P[0] + A[3] * P[1]) / sqrt(q0), a2 = (A[0] * P[2] + A[2] * P[3]) / sqrt(q1), a3 = (A[1] * P[2] + A[3] * P[3]) / sqrt(q1);
        A[0] = a0; A[1] = a1; A[2] = a2; A[3] = a3;
      }
    };
    adapt(A, B);
    double S[3] = {B[0] * B[0] + B[2] * B[2], B[0] * B[1] + B[2] * B[3], B[1] * B[1] + B[3] * B[3]}, spread = 0;
    for (int k = 0; k < 2 && sure; ++k) { // the iteration may amplify rounding
      double P[4], Q[4];
      for (int i = 0; i < 4; ++i) P[i] = A[i] * (1 + 1e-4 * r.uni(-1, 1));
      adapt(P, Q);
      spread = std::max(spread, std::max(std::max(fabs(Q[0] * Q[0] + Q[2] * Q[2] - S[0]), fabs(Q[0] * Q[1] + Q[2] * Q[3] - S[1])), fabs(Q[1] * Q[1] + Q[3] * Q[3] - S[2])));
    }
    if (spread > .005 * (S[0] + S[2])) sure = false;
    if (!sure) { c.count("affine frames undecided"); continue; }
    // compare the shapes A A', which the choice of axes does not change
    double w11 = B[0] * B[0] + B[2] * B[2], w12 = B[0] * B[1] + B[2] * B[3], w22 = B[1] * B[1] + B[3] * B[3];
    double g11 = (double)got.a11 * got.a11 + (double)got.a12 * got.a12, g12 = (double)got.a11 * got.a21 + (double)got.a12 * got.a22, g22 = (double)got.a21 * got.a21 + (double)got.a22 * got.a22;
    double m = w11 + w22;
    if (fabs(w11 - g11) > .03 * m || fabs(w12 - g12) > .03 * m || fabs(w22 - g22) > .03 * m) c.fail("affine", "shape (%g %g %g), expected (%g %g %g) for frame (%g,%g; %g %g %g %g)", g11, g12, g22, w11, w12, w22, f.x, f.y, f.a11, f.a12, f.a21, f.a22);
    c.count("affine frames judged");
    hash = fnv(&got, sizeof got, hash);
  }
  c.nontrivial(im, hash);
}
// A transposed image with the transposed convention gives transposed features
VT_GROUP(C32, transpose, 200, 2000) {
  Rng &r = c.rng;
  Setup s = setup(r, 16, 60);
  Det a(s.m), b(s.m);
  std::vector<float> im, it;
  put(c, r, a, s, im);
  Setup q = s;
  std::swap(q.w, q.h);
  apply(r, q, b);
  it.resize(im.size());
  for (long y = 0; y < s.h; ++y) for (long x = 0; x < s.w; ++x) it[x * s.h + y] = im[y * s.w + x];
  vl_covdet_set_transposed(b, 1);
  putRun(c, b, q, it);
  uint64_t hash = 7;
  for (int t = 0; t < 4; ++t) {
    Frame f = frame(r, s.w, s.h, .8, 8, false), g = f, p, v;
    g.x = f.y; g.y = f.x; g.a11 = f.a22; g.a22 = f.a11; g.a12 = f.a21; g.a21 = f.a12;
    double hi, lo;
    singular(f, hi, lo);
    Lev L = level(vl_covdet_get_gss(a), lo);
    if (!L.sure) continue;
    long res = r.range(1, 10), n = 2 * res + 1;
    std::vector<float> x(n * n), y(n * n);
    vl_covdet_extract_patch_for_frame(a, x.data(), res, 3, 1, f); vl_covdet_extract_patch_for_frame(b, y.data(), res, 3, 1, g);
    for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) if (fabsf(x[j * n + i] - y[i * n + j]) > 1e-5) c.fail("transposed-patch", "sample (%ld,%ld): %g and %g", i, j, x[j * n + i], y[i * n + j]);
    vl_size na, nb;
    VlCovDetFeatureOrientation *o = vl_covdet_extract_orientations_for_frame(a, &na, f), oa[4], ob[4];
    memcpy(oa, o, na * sizeof *o);
    o = vl_covdet_extract_orientations_for_frame(b, &nb, g);
    memcpy(ob, o, nb * sizeof *o);
    if (na == nb && na && oa[0].score > 1e-3 && (na < 2 || oa[0].score > 1.02 * oa[1].score)) {
      double e = remainder(oa[0].angle + ob[0].angle, 2 * M_PI);
      if (fabs(e) > .03) c.fail("transposed-orientation", "angles %g and %g", oa[0].angle, ob[0].angle);
      c.count("transposed orientations compared");
    }
    hash = fnv(x.data(), n * n * 4, hash);
  }
  c.nontrivial(hash);
}
// Any image size, including those too small for an octave, through everything
VT_GROUP(C32, hostile, 800, 8000) {
  Rng &r = c.rng;
  Setup s = setup(r, 1, r.chance(.5) ? 6 : 40);
  if (r.chance(.3)) { s.w = r.range(1, 3); while (s.first > 0 && (std::min(s.w, s.h) >> s.first) < 1) --s.first; }
  Det d(s.m);
  apply(r, s, d);
  describe(c, s);
  std::vector<float> im = picture(r, s.w, s.h);
  double k = r.chance(.7) ? 1 : pow(10, r.uni(-6, 6));
  for (auto &v : im) v *= (float)k;
  putRun(c, d, s, im);
  vl_covdet_detect(d);
  size_t n0 = vl_covdet_get_num_features(d);
  if (r.chance(.3)) {
    VlCovDetFeature f;
    memset(&f, 0, sizeof f);
    f.frame = frame(r, s.w, s.h, .2, 20, r.chance(.5));
    f.peakScore = 1;
    vl_covdet_append_feature(d, &f);
  }
  if (vl_covdet_get_num_features(d) > 200) throw Skip();
  if (r.chance(.5)) vl_covdet_extract_laplacian_scales(d);
  if (r.chance(.6)) vl_covdet_extract_affine_shape(d);
  if (r.chance(.6)) vl_covdet_extract_orientations(d);
  for (auto &f : all(d)) {
    Frame &q = f.frame;
    if (!(std::isfinite(q.x) && std::isfinite(q.y) && std::isfinite(q.a11) && std::isfinite(q.a12) && std::isfinite(q.a21) && std::isfinite(q.a22))) c.fail("finite", "frame (%g,%g; %g %g %g %g)", q.x, q.y, q.a11, q.a12, q.a21, q.a22);
    if (!((double)q.a11 * q.a22 - (double)q.a12 * q.a21 > 0)) c.fail("determinant", "frame (%g %g; %g %g)", q.a11, q.a12, q.a21, q.a22);
  }
  c.count("features through the pipeline", (double)vl_covdet_get_num_features(d));
  c.nontrivial(im, n0);
}
// the search and refinement of extrema as exported functions
extern "C" {
struct Ext2 { vl_index xi, yi; float x, y, peakScore, edgeScore; };
struct Ext3 { vl_index xi, yi, zi; float x, y, z, peakScore, edgeScore; };
vl_size vl_find_local_extrema_3(vl_index **, vl_size *, float const *, vl_size, vl_size, vl_size, double);
vl_size vl_find_local_extrema_2(vl_index **, vl_size *, float const *, vl_size, vl_size, double);
vl_bool vl_refine_local_extreum_3(Ext3 *, float const *, vl_size, vl_size, vl_size, vl_index, vl_index, vl_index);
vl_bool vl_refine_local_extreum_2(Ext2 *, float const *, vl_size, vl_size, vl_index, vl_index);
}
VT_GROUP(C32, refine, 4000, 40000) {
  Rng &r = c.rng;
  uint64_t hash = 0;
  for (int t = 0; t < 8; ++t) {
    int dims = r.chance(.5) ? 2 : 3;
    long W = r.range(3, 9), H = r.range(3, 9), D = dims == 3 ? r.range(3, 6) : 1;
    std::vector<float> m(W * H * D);
    int kind = (int)r.range(0, 2);
    float unit = (float)pow(10, r.range(-4, 3)), shift = r.chance(.3) ? (float)r.normal() * unit : 0;
    double cx = r.uni(0, W - 1), cy = r.uni(0, H - 1), cz = r.uni(0, D - 1), q[6];
    for (auto &v : q) v = r.normal();
    for (long z = 0; z < D; ++z) for (long y = 0; y < H; ++y) for (long x = 0; x < W; ++x) {
      double a = x - cx, b = y - cy, e = dims == 3 ? z - cz : 0; // noise, a quadric, a quadric and noise
      double v = kind ? q[0] * a * a + q[1] * b * b + q[2] * e * e + .4 * (q[3] * a * b + q[4] * a * e + q[5] * b * e) : 0;
      if (kind != 1) v += (kind ? .2 : 1) * r.normal();
      m[x + y * W + z * W * H] = (float)(unit * v + shift);
    }
    long x = r.range(1, W - 2), y = r.range(1, H - 2), z = dims == 3 ? r.range(1, D - 2) : 0;
    if (r.chance(.7)) { // start from the nearest sample to the middle of the quadric
      x = std::min(std::max(lround(cx), 1L), W - 2); y = std::min(std::max(lround(cy), 1L), H - 2);
      if (dims == 3) z = std::min(std::max(lround(cz), 1L), D - 2);
    }
    c.desc("%dd map %ldx%ldx%ld kind %d unit %g shift %g from (%ld,%ld,%ld)", dims, W, H, D, kind, unit, shift, x, y, z);
    Cand k = refine(m.data(), W, H, D, x, y, z, dims, Lim{-1, HUGE_VAL});
    Ext3 e3; Ext2 e2;
    memset(&e3, 0, sizeof e3); memset(&e2, 0, sizeof e2);
    bool ok;
    if (dims == 3) ok = vl_refine_local_extreum_3(&e3, m.data(), W, H, D, x, y, z);
    else { ok = vl_refine_local_extreum_2(&e2, m.data(), W, H, x, y); e3.xi = e2.xi; e3.yi = e2.yi; e3.x = e2.x; e3.y = e2.y; e3.peakScore = e2.peakScore; e3.edgeScore = e2.edgeScore; }
    hash = fnv(m.data(), m.size() * 4, hash);
    if (!k.sure) { c.count("unsure"); continue; }
    c.count(ok ? "extrema refined" : "extrema rejected");
    if (ok != k.inside) c.fail("refine-accept", "refinement returned %d, expected %d at (%g,%g,%g)", ok, k.inside, k.x, k.y, k.sigma);
    if (!ok) continue;
    if (e3.xi != k.xi || e3.yi != k.yi || (dims == 3 && e3.zi != k.zi)) c.fail("refine-sample", "settled at (%ld,%ld), expected (%ld,%ld)", (long)e3.xi, (long)e3.yi, k.xi, k.yi);
    double tol = 1e-5 + 3 * k.err;
    if (!(fabs(e3.x - k.x) < tol) || !(fabs(e3.y - k.y) < tol) || (dims == 3 && !(fabs(e3.z - k.sigma) < tol))) c.fail("refine-place", "refined to (%g,%g,%g), expected (%g,%g,%g)", e3.x, e3.y, e3.z, k.x, k.y, k.sigma);
    if (!(fabs(e3.peakScore - k.peak) < 1e-5 * fabs(k.peak) + 3 * k.peakErr)) c.fail("refine-peak", "peak score %g, expected %g", e3.peakScore, k.peak);
    if (k.edgeSure && (std::isfinite(k.edge) ? !close(e3.edgeScore, k.edge, .01, 1e-3) : std::isfinite(e3.edgeScore))) c.fail("refine-edge", "edge score %g, expected %g", e3.edgeScore, k.edge);
  }
  c.nontrivial(hash);
}
VT_GROUP(C32, search, 1500, 15000) {
  Rng &r = c.rng;
  vl_index *ex = 0;
  vl_size bs = 0;
  uint64_t hash = 0;
  struct Free { vl_index **p; ~Free() { if (*p) vl_free(*p); } } fr{&ex};
  for (int t = 0; t < 4; ++t) {
    int dims = r.chance(.5) ? 2 : 3;
    long W = r.range(1, 14), H = r.range(1, 14), D = dims == 3 ? r.range(1, 6) : 1;
    if (t == 3 && r.chance(.05)) { dims = 2; W = 200; H = 200; D = 1; }
    std::vector<float> m(W * H * D);
    bool ties = r.chance(.4);
    for (auto &v : m) v = ties ? (float)r.range(-3, 3) : (float)r.normal();
    double thr = r.chance(.3) ? 0 : ties ? (double)r.range(0, 3) : r.uni(0, 1);
    c.desc("%dd map %ldx%ldx%ld threshold %g ties %d", dims, W, H, D, thr, ties);
    long n = (long)(dims == 3 ? vl_find_local_extrema_3(&ex, &bs, m.data(), W, H, D, thr) : vl_find_local_extrema_2(&ex, &bs, m.data(), W, H, thr));
    std::vector<long> want;
    for (long z = dims == 3 ? 1 : 0; z < (dims == 3 ? D - 1 : D); ++z) for (long y = 1; y < H - 1; ++y) for (long x = 1; x < W - 1; ++x)
      if (extremum(m.data(), W, H, x, y, z, dims, thr)) { want.push_back(x); want.push_back(y); if (dims == 3) want.push_back(z); }
    if (n * dims != (long)want.size()) c.fail("search-count", "%ld extrema, expected %zu", n, want.size() / dims);
    for (size_t i = 0; i < want.size(); ++i) if (ex[i] != want[i]) c.fail("search", "extremum %zu differs", i / dims);
    hash = fnv(m.data(), m.size() * 4, hash);
    c.count("extrema searched", (double)n);
  }
  c.nontrivial(hash);
}
// ------------------------------------------------------------------- reuse
VT_GROUP(C42, covdet, 400, 4000) {
  Rng &r = c.rng;
  Setup s = setup(r, 4, 50);
  Det d(s.m);
  apply(r, s, d);
  uint64_t hash = 0;
  long steps = r.range(2, 6);
  bool tr = false, acc = false, pad = true;
  long mo = 4;
  double lp = vl_covdet_get_edge_threshold(d) > 0 ? -1 : -1;
  for (long t = 0; t < steps; ++t) {
    if (r.chance(.4)) { s.w = r.range(4, 50); s.h = r.range(4, 50); }
    if (r.chance(.2)) { s.first = r.range(-1, 0); vl_covdet_set_first_octave(d, s.first); }
    if (r.chance(.2)) { s.res = r.range(1, 4); vl_covdet_set_octave_resolution(d, s.res); }
    if (r.chance(.2)) { s.num = r.range(1, 3); vl_covdet_set_num_octaves(d, s.num); }
    if (r.chance(.2)) { s.base = r.uni(.8, 2); vl_covdet_set_base_scale(d, s.base); }
    if (r.chance(.2)) { s.nes = r.chance(.5) ? 0 : r.uni(0, 1); vl_covdet_set_non_extrema_suppression_threshold(d, s.nes); }
    if (r.chance(.2)) { s.peak *= r.uni(.3, 2); vl_covdet_set_peak_threshold(d, s.peak); }
    if (r.chance(.2)) { s.edge = r.uni(1, 30); vl_covdet_set_edge_threshold(d, s.edge); }
    if (r.chance(.2)) { tr = !tr; vl_covdet_set_transposed(d, tr); }
    if (r.chance(.2)) { acc = !acc; vl_covdet_set_aa_accurate_smoothing(d, acc); }
    if (r.chance(.2)) { pad = !pad; vl_covdet_set_allow_padded_warping(d, pad); }
    if (r.chance(.2)) { mo = r.range(1, 4); vl_covdet_set_max_num_orientations(d, mo); }
    if (r.chance(.2)) { lp = r.uni(0, .1); vl_covdet_set_laplacian_peak_threshold(d, lp); }
    if (r.chance(.2)) vl_covdet_reset(d);
    describe(c, s);
    Det f(s.m);
    vl_covdet_set_first_octave(f, s.first); vl_covdet_set_octave_resolution(f, s.res); if (s.num > 0) vl_covdet_set_num_octaves(f, s.num);
    vl_covdet_set_base_scale(f, s.base); vl_covdet_set_non_extrema_suppression_threshold(f, s.nes); vl_covdet_set_peak_threshold(f, s.peak); vl_covdet_set_edge_threshold(f, s.edge);
    vl_covdet_set_transposed(f, tr); vl_covdet_set_aa_accurate_smoothing(f, acc); vl_covdet_set_allow_padded_warping(f, pad); vl_covdet_set_max_num_orientations(f, mo);
    if (lp >= 0) vl_covdet_set_laplacian_peak_threshold(f, lp);
    if ((vl_covdet_get_transposed(d) != 0) != tr || (vl_covdet_get_aa_accurate_smoothing(d) != 0) != acc || (vl_covdet_get_allow_padded_warping(d) != 0) != pad || (long)vl_covdet_get_max_num_orientations(d) != mo ||
        vl_covdet_get_edge_threshold(d) != s.edge || vl_covdet_get_peak_threshold(d) != s.peak || vl_covdet_get_first_octave(d) != s.first || (long)vl_covdet_get_octave_resolution(d) != s.res || vl_covdet_get_base_scale(d) != s.base) c.fail("covdet-settings", "a setting reads back differently");
    std::vector<float> im = picture(r, s.w, s.h);
    bool det = r.chance(.8);
    putRun(c, d, s, im); putRun(c, f, s, im);
    if (det) { vl_covdet_detect(d); vl_covdet_detect(f); }
    else {
      vl_covdet_reset(d);
      if (vl_covdet_get_num_features(d)) c.fail("covdet-reset", "%llu features after a reset", vl_covdet_get_num_features(d));
      putRun(c, d, s, im);
    }
    long ex = r.range(0, 2);
    while (ex--) { VlCovDetFeature q; memset(&q, 0, sizeof q); q.frame = frame(r, s.w, s.h, .5, 6, false); q.peakScore = 1; vl_covdet_append_feature(d, &q); vl_covdet_append_feature(f, &q); }
    if (vl_covdet_get_num_features(f) > 300) continue;
    int ops = (int)r.range(0, 15);
    for (VlCovDet *z : {(VlCovDet *)d, (VlCovDet *)f}) {
      if (ops & 1) vl_covdet_extract_laplacian_scales(z);
      if (ops & 2) vl_covdet_extract_affine_shape(z);
      if (ops & 4) vl_covdet_extract_orientations(z);
      if (ops & 8) vl_covdet_drop_features_outside(z, 2);
    }
    std::vector<VlCovDetFeature> A = all(d), B = all(f);
    if (A.size() != B.size()) c.fail("covdet-count", "%zu features, a new object gives %zu", A.size(), B.size());
    for (size_t i = 0; i < A.size(); ++i) if (memcmp(&A[i], &B[i], sizeof A[i])) c.fail("covdet", "feature %zu of %zu differs from a new object's", i, A.size());
    c.count("covdet features compared", (double)A.size());
    hash = fnv(A.data(), A.size() * sizeof(VlCovDetFeature), hash);
  }
  c.nontrivial(hash);
}
