// HOG, LBP and LIOP features (C28, C29, C30) and reuse of their objects (C42).
#include "vt.h"
#include "gen.h"
extern "C" {
#include <vl/hog.h>
#include <vl/lbp.h>
#include <vl/liop.h>
}
using namespace vt;
static double const PI = 3.14159265358979323846;

// ------------------------------------------------------------------ HOG model
// Every histogram entry is an interval: the nominal value and how far rounding
// (or a tie between two equally good assignments) may move it either way.
struct Hist {
  long w, h, D;
  std::vector<double> lo, hi;
  Hist(long w_, long h_, long D_) : w(w_), h(h_), D(D_), lo(w_ * h_ * D_, 0.), hi(w_ * h_ * D_, 0.) {}
  size_t at(long x, long y, long k) const { return (size_t)(x + w * (y + h * k)); }
};
struct Vote { long bin; double lo, hi; };
// one pixel's votes (several alternatives: one of them happened)
static void cast(Hist &H, std::vector<std::vector<Vote>> const &alts, double g, long x, long y, long cell) {
  if (!(g > 0) || alts.empty()) return;
  std::vector<double> lo(H.D, 1e300), hi(H.D, 0.);
  for (auto &a : alts) {
    std::vector<double> l(H.D, 0.), u(H.D, 0.);
    for (auto &v : a) { l[v.bin] += v.lo; u[v.bin] += v.hi; }
    for (long k = 0; k < H.D; ++k) { lo[k] = std::min(lo[k], l[k]); hi[k] = std::max(hi[k], u[k]); }
  }
  double hx = (x + .5) / cell - .5, hy = (y + .5) / cell - .5;
  long bx = (long)floor(hx), by = (long)floor(hy);
  double e = 4e-7 * (1 + std::max(fabs(hx), fabs(hy)));
  for (long dy = -1; dy <= 2; ++dy) for (long dx = -1; dx <= 2; ++dx) {
    long cx = bx + dx, cy = by + dy;
    if (cx < 0 || cy < 0 || cx >= H.w || cy >= H.h) continue;
    double wx = std::max(0., 1 - fabs(hx - cx)), wy = std::max(0., 1 - fabs(hy - cy)), wt = wx * wy;
    for (long k = 0; k < H.D; ++k) if (hi[k] > 0) {
      size_t i = H.at(cx, cy, k);
      H.lo[i] += g * lo[k] * std::max(0., wt - e);
      H.hi[i] += g * hi[k] * (wt + e);
    }
  }
}
// orientation votes of a gradient among 2K directed orientations
static std::vector<Vote> assign(double gx, double gy, long K, bool bilinear, bool &amb, long &altBin) {
  double a = atan2(gy, gx);
  if (a < 0) a += 2 * PI;
  double u = a / (PI / K);
  long b = (long)floor(u + .5);
  double d = u - b;              // [-.5,.5]
  long b0 = b % (2 * K), b1 = (d >= 0 ? b + 1 : b - 1 + 2 * K) % (2 * K);
  amb = false;
  altBin = b1;
  double ang = fabs(d) * PI / K;
  if (bilinear) {
    double da = std::min(8e-7 / std::max(sin(ang), 1e-12), 1.5e-3) + 1e-6, w = ang / (PI / K), dw = da / (PI / K);
    amb = dw > .01 * w || w < 1e-3;   // which neighbour comes second may be undecided
    return {{b0, 1 - w - dw, 1 - w + dw}, {b1, std::max(0., w - dw), w + dw}};
  }
  amb = fabs(d) > .5 - 1e-5 * K;
  return {{b0, 1, 1}};
}
static void imageHist(Hist &H, std::vector<float> const &im, long w, long h, long ch, long cell, long K, bool bil, bool transposed, double &ties) {
  for (long y = 1; y < h - 1; ++y) for (long x = 1; x < w - 1; ++x) {
    double best = 0;
    std::vector<double> gx(ch), gy(ch), n(ch);
    double scale = 0;
    for (long k = 0; k < ch; ++k) {
      float const *p = &im[k * w * h + y * w + x];
      gx[k] = (double)p[1] - p[-1]; gy[k] = (double)p[w] - p[-w];
      if (transposed) std::swap(gx[k], gy[k]);
      n[k] = gx[k] * gx[k] + gy[k] * gy[k];
      best = std::max(best, n[k]);
      scale = std::max(scale, (double)std::max(std::max(fabsf(p[1]), fabsf(p[-1])), std::max(fabsf(p[w]), fabsf(p[-w]))));
    }
    if (!(best > 0)) continue;
    // float differences: exact relative to the operands' rounding
    std::vector<std::vector<Vote>> alts;
    double g = sqrt(best);
    double rel = 1e-6;
    (void)scale;
    for (long k = 0; k < ch; ++k) if (n[k] >= best * (1 - rel)) {
      bool amb; long alt;
      std::vector<Vote> v = assign(gx[k], gy[k], K, bil, amb, alt);
      for (auto &q : v) { q.lo *= 1 - 3e-6; q.hi *= 1 + 3e-6; }
      alts.push_back(v);
      if (amb) {
        ++ties;
        if (bil) { std::vector<Vote> u = v; u[1].bin = (2 * v[0].bin - v[1].bin + 4 * K) % (2 * K); alts.push_back(u); }
        else { std::vector<Vote> u = v; u[0].bin = alt; alts.push_back(u); }
      }
    }
    cast(H, alts, g, x, y, cell);
  }
}
static void polarHist(Hist &H, std::vector<float> const &mod, std::vector<float> const &ang, bool directed, long w, long h, long cell, long K, bool bil, double &ties) {
  long period = directed ? 2 * K : K;
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) {
    double m = mod[y * w + x];
    if (!(m > 0)) continue;
    double u = (double)ang[y * w + x] / (PI / K), e = 1e-6 * (1 + fabs(u));
    long b = (long)floor(u);
    double d = u - b;
    auto P = [&](long k) { return ((k % period) + period) % period; };
    std::vector<std::vector<Vote>> alts;
    if (bil) {
      // near an integer the vote may spill into the bin beyond by the rounding
      alts.push_back({{P(b), std::max(0., 1 - d - e), 1 - d + e}, {P(b + 1), std::max(0., d - e), d + e}});
      if (d < 2 * e) alts.push_back({{P(b), 1 - d - e, 1}, {P(b - 1), 0, 2 * e}});
      if (d > 1 - 2 * e) alts.push_back({{P(b + 1), d - e, 1}, {P(b + 2), 0, 2 * e}});
    } else {
      alts.push_back({{P(d < .5 ? b : b + 1), 1, 1}});
      if (fabs(d - .5) < 2 * e) { ++ties; alts.push_back({{P(d < .5 ? b + 1 : b), 1, 1}}); }
    }
    cast(H, alts, m, x, y, cell);
  }
}
// block normalisation of the interval histogram
static void features(Hist const &H, long K, bool uoctti, bool transposed, std::vector<double> &lo, std::vector<double> &hi) {
  long w = H.w, h = H.h, n = w * h, dim = uoctti ? 3 * K + 4 : 4 * K;
  lo.assign(n * dim, 0.); hi.assign(n * dim, 0.);
  std::vector<double> nl(n, 0.), nh(n, 0.);
  for (long k = 0; k < K; ++k) for (long i = 0; i < n; ++i) {
    double a = H.lo[i + n * k] + H.lo[i + n * (k + K)], b = H.hi[i + n * k] + H.hi[i + n * (k + K)];
    nl[i] += a * a; nh[i] += b * b;
  }
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) {
    double fl[4], fh[4];
    for (int q = 0; q < 4; ++q) {
      // blocks from left to right and top to bottom, in the image's own frame
      int bx = q % 2, by = q / 2;
      if (transposed) std::swap(bx, by);
      double sl = 0, sh = 0;
      for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) {
        long cx = std::min(std::max(x - 1 + bx + i, 0L), w - 1), cy = std::min(std::max(y - 1 + by + j, 0L), h - 1);
        sl += nl[cx + w * cy]; sh += nh[cx + w * cy];
      }
      fl[q] = (1 - 3e-5) / sqrt(sh + 1e-4); fh[q] = (1 + 3e-5) / sqrt(sl + 1e-4);
    }
    double tl[4] = {0, 0, 0, 0}, th[4] = {0, 0, 0, 0};
    long c = x + w * y;
    auto put = [&](long d, double a, double b) { lo[c + n * d] = a; hi[c + n * d] = b; };
    for (long k = 0; k < K; ++k) {
      double al = H.lo[c + n * k], ah = H.hi[c + n * k], bl = H.lo[c + n * (k + K)], bh = H.hi[c + n * (k + K)];
      double s[6] = {0, 0, 0, 0, 0, 0};
      for (int q = 0; q < 4; ++q) {
        double ul = std::min(.2, fl[q] * (al + bl)), uh = std::min(.2, fh[q] * (ah + bh));
        tl[q] += ul; th[q] += uh;
        if (!uoctti) put(k + q * K, ul, uh);
        s[0] += .5 * std::min(.2, fl[q] * al); s[1] += .5 * std::min(.2, fh[q] * ah);
        s[2] += .5 * std::min(.2, fl[q] * bl); s[3] += .5 * std::min(.2, fh[q] * bh);
        s[4] += .5 * ul; s[5] += .5 * uh;
      }
      if (uoctti) { put(k, s[0], s[1]); put(k + K, s[2], s[3]); put(k + 2 * K, s[4], s[5]); }
    }
    if (uoctti) for (int q = 0; q < 4; ++q) put(3 * K + q, tl[q] / sqrt(18.), th[q] / sqrt(18.));
  }
}
struct HogCase {
  long w, h, ch, cell, K;
  bool uoctti, bil, transposed;
  VlHog *g = 0;
  HogCase(Rng &r, bool big) {
    K = r.chance(.3) ? 9 : r.range(r.chance(.1) ? 1 : 2, 12);
    cell = r.chance(.3) ? r.pick<long>({4, 8, 16}) : r.range(1, 12);
    long lo = std::max(4L, cell);
    w = r.range(lo, lo + (big ? 40 : 16)); h = r.range(lo, lo + (big ? 40 : 16));
    ch = r.chance(.5) ? 1 : r.range(2, r.chance(.8) ? 4 : 8);
    uoctti = r.chance(.5); bil = K > 1 && r.chance(.5); transposed = r.chance(.4);
  }
  VlHog *make() { VlHog *x = vl_hog_new(uoctti ? VlHogVariantUoctti : VlHogVariantDalalTriggs, K, transposed); vl_hog_set_use_bilinear_orientation_assignments(x, bil); return x; }
  void open() { g = make(); }
  ~HogCase() { if (g) vl_hog_delete(g); }
  void describe(Ctx &c) { c.desc("image %ldx%ldx%ld cell %ld orientations %ld %s%s%s", w, h, ch, cell, K, uoctti ? "uoctti" : "dalal", bil ? " bilinear" : "", transposed ? " transposed" : ""); }
  long cw() const { return (w + cell / 2) / cell; }
  long chh() const { return (h + cell / 2) / cell; }
  long dim() const { return uoctti ? 3 * K + 4 : 4 * K; }
};
static std::vector<float> channels(Rng &r, long w, long h, long ch) {
  std::vector<float> im;
  double s = r.chance(.7) ? 1 : pow(10, r.uni(-3, 3));
  for (long k = 0; k < ch; ++k) { std::vector<float> a = image<float>(r, w, h, 0, s); im.insert(im.end(), a.begin(), a.end()); }
  return im;
}
static void extract(VlHog *g, HogCase const &s, Ctx &c, std::vector<float> &out) {
  if ((long)vl_hog_get_width(g) != s.cw() || (long)vl_hog_get_height(g) != s.chh() || (long)vl_hog_get_dimension(g) != s.dim())
    c.fail("hog-size", "%llu x %llu x %llu, expected %ld x %ld x %ld", (unsigned long long)vl_hog_get_width(g), (unsigned long long)vl_hog_get_height(g), (unsigned long long)vl_hog_get_dimension(g), s.cw(), s.chh(), s.dim());
  Guarded<float> b(s.cw() * s.chh() * s.dim(), 8, -7.25f);
  vl_hog_extract(g, b.data());
  if (!b.intact()) c.fail("hog-canary", "features written outside their array");
  out.assign(b.data(), b.data() + b.n);
}
static void judgeHog(Ctx &c, HogCase const &s, Hist const &H, std::vector<float> const &out, char const *key) {
  std::vector<double> lo, hi;
  features(H, s.K, s.uoctti, s.transposed, lo, hi);
  double wide = 0;
  for (size_t i = 0; i < out.size(); ++i) {
    double e = 1e-5;
    wide += hi[i] - lo[i] > .01;
    if (!(out[i] >= lo[i] - e && out[i] <= hi[i] + e)) {
      long n = H.w * H.h, cellI = (long)i % n;
      c.fail(key, "cell (%ld,%ld) element %ld is %.9g, defined as [%.9g, %.9g]", cellI % H.w, cellI / H.w, (long)i / n, out[i], lo[i], hi[i]);
    }
  }
  c.count("hog elements judged", (double)out.size());
  c.count("hog elements left wide by ties", wide);
}
static std::vector<float> transpose(std::vector<float> const &a, long w, long h, long ch) {
  std::vector<float> b(a.size());
  for (long k = 0; k < ch; ++k) for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) b[k * w * h + x * h + y] = a[k * w * h + y * w + x];
  return b;
}
static std::vector<float> mirror(std::vector<float> const &a, long w, long h, long ch, bool rows) {
  std::vector<float> b(a.size());
  for (long k = 0; k < ch; ++k) for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) b[k * w * h + (rows ? h - 1 - y : y) * w + (rows ? x : w - 1 - x)] = a[k * w * h + y * w + x];
  return b;
}
VT_GROUP(C28, image, 6000, 60000) {
  Rng &r = c.rng;
  HogCase s(r, c.thorough || r.chance(.2));
  s.describe(c);
  s.open();
  if (!!vl_hog_get_use_bilinear_orientation_assignments(s.g) != s.bil) c.fail("hog-get", "bilinear setting read back differs");
  std::vector<float> im = channels(r, s.w, s.h, s.ch), in = im, out;
  vl_hog_put_image(s.g, in.data(), s.w, s.h, s.ch, s.cell);
  if (memcmp(in.data(), im.data(), im.size() * 4)) c.fail("hog-input", "the image was modified");
  extract(s.g, s, c, out);
  Hist H(s.cw(), s.chh(), 2 * s.K);
  double ties = 0;
  imageHist(H, im, s.w, s.h, s.ch, s.cell, s.K, s.bil, s.transposed, ties);
  judgeHog(c, s, H, out, "hog-image");
  c.count("ambiguous pixels", ties);
  c.nontrivial(im, s.K * 100 + s.cell * 7 + s.bil);
}
VT_GROUP(C28, polar, 5000, 50000) {
  Rng &r = c.rng;
  HogCase s(r, c.thorough || r.chance(.2));
  s.describe(c);
  s.open();
  bool directed = r.chance(.5);
  long n = s.w * s.h;
  std::vector<float> m = image<float>(r, s.w, s.h, r.chance(.2) ? -.3 : 0, pow(10, r.uni(-2, 2))), a(n);
  int kind = (int)r.range(0, 3);
  for (long i = 0; i < n; ++i) a[i] = (float)(kind == 0 ? r.uni(-PI, PI) : kind == 1 ? r.uni(0, 2 * PI) : kind == 2 ? r.uni(-20, 20) : r.range(-4, 8) * PI / s.K + (r.chance(.5) ? 0 : PI / 2 / s.K));
  vl_hog_put_polar_field(s.g, m.data(), a.data(), directed, s.w, s.h, s.cell);
  std::vector<float> out;
  extract(s.g, s, c, out);
  Hist H(s.cw(), s.chh(), 2 * s.K);
  double ties = 0;
  polarHist(H, m, a, directed, s.w, s.h, s.cell, s.K, s.bil, ties);
  judgeHog(c, s, H, out, directed ? "hog-polar-directed" : "hog-polar-undirected");
  c.nontrivial(m, s.K * 100 + s.cell * 7 + s.bil);
}
// mirrored images, transposed images, and the polar field of an image
VT_GROUP(C28, symmetry, 3000, 30000) {
  Rng &r = c.rng;
  HogCase s(r, r.chance(.3));
  s.w = s.cell * std::max(r.range(1, 5), (4 + s.cell - 1) / s.cell);
  s.h = s.cell * std::max(r.range(1, 5), (4 + s.cell - 1) / s.cell);
  s.describe(c);
  s.open();
  std::vector<float> im = channels(r, s.w, s.h, s.ch), a, b;
  for (auto &v : im) v += (float)r.uni(0, .01); // no exact ties
  long W = s.cw(), Hh = s.chh(), n = W * Hh, D = s.dim();
  Hist H(W, Hh, 2 * s.K);
  double ties = 0;
  imageHist(H, im, s.w, s.h, s.ch, s.cell, s.K, s.bil, s.transposed, ties);
  std::vector<double> lo, hi;
  features(H, s.K, s.uoctti, s.transposed, lo, hi);
  vl_hog_put_image(s.g, im.data(), s.w, s.h, s.ch, s.cell);
  extract(s.g, s, c, a);
  // horizontal flip: for transposed images the horizontal axis is the rows'
  std::vector<float> fl = mirror(im, s.w, s.h, s.ch, s.transposed);
  vl_hog_put_image(s.g, fl.data(), s.w, s.h, s.ch, s.cell);
  extract(s.g, s, c, b);
  vl_index const *p = vl_hog_get_permutation(s.g);
  std::vector<int> hit(D, 0);
  for (long d = 0; d < D; ++d) { if (p[d] < 0 || p[d] >= D || hit[p[d]]++) c.fail("hog-permutation", "entry %ld is %ld", d, (long)p[d]); }
  for (long d = 0; d < D; ++d) for (long y = 0; y < Hh; ++y) for (long x = 0; x < W; ++x) {
    size_t i = x + W * y + n * d, j = (s.transposed ? x + W * (Hh - 1 - y) : (W - 1 - x) + W * y) + n * p[d];
    double e = 2e-5 + (hi[j] - lo[j]);
    if (!(fabs(b[i] - a[j]) <= e)) c.fail("hog-flip", "mirrored cell (%ld,%ld) element %ld is %.9g, permuted %.9g", x, y, d, b[i], a[j]);
  }
  // transposition
  std::vector<float> tr = transpose(im, s.w, s.h, s.ch);
  VlHog *t = vl_hog_new(s.uoctti ? VlHogVariantUoctti : VlHogVariantDalalTriggs, s.K, !s.transposed);
  struct G { VlHog *t; ~G() { vl_hog_delete(t); } } g{t};
  vl_hog_set_use_bilinear_orientation_assignments(t, s.bil);
  vl_hog_put_image(t, tr.data(), s.h, s.w, s.ch, s.cell);
  if ((long)vl_hog_get_width(t) != Hh || (long)vl_hog_get_height(t) != W) c.fail("hog-transpose", "transposed size");
  b.assign(a.size(), 0);
  vl_hog_extract(t, b.data());
  for (long d = 0; d < D; ++d) for (long y = 0; y < Hh; ++y) for (long x = 0; x < W; ++x) {
    size_t i = x + W * y + n * d, j = y + Hh * x + n * d;
    double e = 2e-5 + (hi[i] - lo[i]);
    if (!(fabs(a[i] - b[j]) <= e)) c.fail("hog-transpose", "cell (%ld,%ld) element %ld is %.9g, transposed %.9g", x, y, d, a[i], b[j]);
  }
  for (long d = 0; d < D; ++d) if (vl_hog_get_permutation(t)[d] != p[d]) c.fail("hog-permutation", "depends on transposition");
  c.count("flipped and transposed arrays", 1);
  c.nontrivial(im, s.K);
}
VT_GROUP(C28, render, 600, 6000) {
  Rng &r = c.rng;
  HogCase s(r, false);
  long W = r.range(1, 6), Hh = r.range(1, 6), D = s.dim(), K = s.K;
  s.describe(c);
  s.open();
  long G = (long)vl_hog_get_glyph_size(s.g);
  if (G < 1 || G > 1000) c.fail("hog-glyph", "size %ld", G);
  // glyph k: a bar through the centre orthogonal to orientation k
  std::vector<float> glyph((size_t)G * G * K);
  for (long k = 0; k < K; ++k) {
    std::vector<float> f(D, 0.f), im(G * G, 0.f);
    f[k] = 1;
    vl_hog_render(s.g, im.data(), f.data(), 1, 1);
    double th = k * PI / K + PI / 2, on = 0, far = 0;
    for (long y = 0; y < G; ++y) for (long x = 0; x < G; ++x) {
      double v = im[x + G * y];
      glyph[(k * G + y) * G + x] = (float)v;
      if (v != 0 && v != 1) c.fail("hog-glyph", "orientation %ld: value %g", k, v);
      if (v == 0) continue;
      double px = x - (G - 1) / 2., py = y - (G - 1) / 2.;
      if (s.transposed) std::swap(px, py);
      double dist = fabs(px * sin(th) - py * cos(th)), len = px * cos(th) + py * sin(th);
      if (dist > .75) c.fail("hog-glyph", "orientation %ld: pixel (%ld,%ld) is %g off the bar", k, x, y, dist);
      ++on; far = std::max(far, fabs(len));
    }
    if (on < .55 * G || far > .75 * G || far < .35 * G) c.fail("hog-glyph", "orientation %ld: %g pixels, reach %g", k, on, far);
  }
  std::vector<float> f((size_t)W * Hh * D);
  int kind = (int)r.range(0, 2);
  for (auto &v : f) v = (float)(kind == 0 ? r.uni() : kind == 1 ? r.normal() : r.range(0, 2));
  // the documentation renders into a newly allocated buffer
  Guarded<float> b((size_t)W * G * Hh * G, 64, 3.5f);
  for (size_t i = 0; i < b.n; ++i) b.data()[i] = (float)r.uni(-5, 5);
  vl_hog_render(s.g, b.data(), f.data(), W, Hh);
  if (!b.intact()) c.fail("hog-render-canary", "rendering left its image");
  for (long y = 0; y < Hh; ++y) for (long x = 0; x < W; ++x) {
    std::vector<double> wt(K);
    double mn = 0, mx = 0, mag = 0;
    for (long k = 0; k < K; ++k) {
      double v = 0;
      for (int q = 0; q < (s.uoctti ? 3 : 4); ++q) { v += f[x + W * y + W * Hh * (k + q * K)]; mag += fabs(f[x + W * y + W * Hh * (k + q * K)]); }
      wt[k] = v; mn = std::min(mn, v); mx = std::max(mx, v);
    }
    for (long j = 0; j < G; ++j) for (long i = 0; i < G; ++i) {
      double v = 0;
      for (long k = 0; k < K; ++k) v += wt[k] * glyph[(k * G + j) * G + i];
      v = std::max(mn, std::min(mx, v));
      double o = b.data()[(y * G + j) * W * G + x * G + i];
      if (!(fabs(o - v) <= 1e-5 * (1 + mag))) c.fail("hog-render", "cell (%ld,%ld) pixel (%ld,%ld) is %g, expected %g", x, y, i, j, o, v);
    }
  }
  c.count("glyph pixels judged", (double)(W * Hh * G * G));
  c.nontrivial(f);
}
VT_GROUP(C42, hog, 800, 8000) {
  Rng &r = c.rng;
  HogCase s(r, false);
  s.describe(c);
  s.open();
  uint64_t seen = 1;
  std::vector<float> a, b;
  for (int q = 0; q < 5; ++q) {
    if (q && r.chance(.6)) { HogCase t(r, false); s.w = t.w; s.h = t.h; s.ch = t.ch; s.cell = t.cell; }
    if (r.chance(.3)) { s.bil = s.K > 1 && !s.bil; vl_hog_set_use_bilinear_orientation_assignments(s.g, s.bil); }
    bool polar = r.chance(.4);
    std::vector<float> im = channels(r, s.w, s.h, std::max(2L, s.ch));
    VlHog *f = s.make();
    struct G { VlHog *t; ~G() { vl_hog_delete(t); } } g{f};
    for (VlHog *o : {s.g, f}) {
      if (polar) vl_hog_put_polar_field(o, im.data(), im.data() + s.w * s.h, s.ch & 1, s.w, s.h, s.cell);
      else vl_hog_put_image(o, im.data(), s.w, s.h, s.ch, s.cell);
    }
    extract(f, s, c, b);
    int times = (int)r.range(1, 3);   // features may be extracted more than once
    for (int k = 0; k < times; ++k) {
      extract(s.g, s, c, a);
      if (memcmp(a.data(), b.data(), a.size() * 4)) {
        for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) c.fail(k ? "hog-extract-again" : "hog-reuse", "image %d extraction %d: element %zu is %g, %g from a new object", q, k, i, a[i], b[i]);
      }
    }
    if (q) { seen = fnv(im.data(), im.size() * 4, seen); c.count("reuses judged"); }
  }
  c.nontrivial(seen);
}

// ------------------------------------------------------------------ LBP
// quantised code of the eight comparisons, clockwise from east on screen
static int lbpCode(int const *bit) {
  int ones = 0, trans = 0, start = -1;
  for (int i = 0; i < 8; ++i) {
    ones += bit[i];
    if (bit[i] != bit[(i + 7) % 8]) ++trans;
    if (bit[i] && !bit[(i + 7) % 8]) start = i;
  }
  if (ones == 0 || ones == 8) return 56;
  if (trans != 2) return 57;
  return start * 7 + ones - 1;
}
static int const NX[8] = {1, 1, 0, -1, -1, -1, 0, 1}, NY[8] = {0, 1, 1, 1, 0, -1, -1, -1};
static void lbpHist(std::vector<float> const &im, long w, long h, long cell, bool transposed, Hist &H) {
  for (long y = 1; y < h - 1; ++y) for (long x = 1; x < w - 1; ++x) {
    int bit[8];
    for (int k = 0; k < 8; ++k) {
      long dx = NX[k], dy = NY[k];
      if (transposed) std::swap(dx, dy); // the image's x runs along the buffer's rows
      bit[k] = im[(y + dy) * w + x + dx] > im[y * w + x];
    }
    cast(H, {{{lbpCode(bit), 1, 1}}}, 1, x, y, cell);
  }
}
static void judgeLbp(Ctx &c, Hist const &H, float const *f) {
  long n = H.w * H.h;
  for (long i = 0; i < n; ++i) {
    double tl = 0, th = 0, s = 0;
    for (long k = 0; k < 58; ++k) { tl += H.lo[i + n * k]; th += H.hi[i + n * k]; double v = f[i + n * k]; s += v * v; if (!(v >= 0)) c.fail("lbp-value", "cell %ld bin %ld is %g", i, k, v); }
    if (tl > .01 && !(fabs(s - 1) < 1e-4)) c.fail("lbp-norm", "cell (%ld,%ld): squared norm %g", i % H.w, i / H.w, s);
    if (th == 0 && s != 0) c.fail("lbp-empty", "cell (%ld,%ld) sees no pixel but is not zero", i % H.w, i / H.w);
    if (tl <= .01) continue;
    for (long k = 0; k < 58; ++k) {
      double q = (double)f[i + n * k] * f[i + n * k];
      if (!(q >= H.lo[i + n * k] / th - 1e-5 && q <= H.hi[i + n * k] / tl + 1e-5)) c.fail("lbp-cell", "cell (%ld,%ld) bin %ld: square %.9g, share of the votes [%.9g, %.9g]", i % H.w, i / H.w, k, q, H.lo[i + n * k] / th, H.hi[i + n * k] / tl);
    }
    c.count("lbp cells judged");
  }
}
static std::vector<float> lbpImage(Rng &r, long w, long h) {
  int kind = (int)r.range(0, 3);
  std::vector<float> im = image<float>(r, w, h, r.uni(-1, 0), r.uni(.1, 2));
  if (kind == 0) for (auto &v : im) v = (float)r.range(0, 2);
  if (kind == 1) for (auto &v : im) v = (float)r.normal();
  return im;
}
VT_GROUP(C29, cells, 5000, 50000) {
  Rng &r = c.rng;
  long cell = r.range(1, 12), w = r.range(1, c.thorough ? 60 : 40), h = r.range(1, c.thorough ? 60 : 40);
  bool tr = r.chance(.5);
  c.desc("image %ldx%ld cell %ld%s", w, h, cell, tr ? " transposed" : "");
  std::vector<float> im = lbpImage(r, w, h), in = im;
  VlLbp *L = vl_lbp_new(VlLbpUniform, tr);
  struct G { VlLbp *t; ~G() { vl_lbp_delete(t); } } g{L};
  if (vl_lbp_get_dimension(L) != 58) c.fail("lbp-dimension", "%llu", (unsigned long long)vl_lbp_get_dimension(L));
  long W = w / cell, Hh = h / cell;
  Guarded<float> f((size_t)W * Hh * 58, 16, -3.f);
  vl_lbp_process(L, f.data(), in.data(), w, h, cell);
  if (!f.intact()) c.fail("lbp-canary", "features written outside their array");
  if (memcmp(in.data(), im.data(), im.size() * 4)) c.fail("lbp-input", "the image was modified");
  Hist H(W, Hh, 58);
  lbpHist(im, w, h, cell, tr, H);
  judgeLbp(c, H, f.data());
  if (W * Hh) c.nontrivial(im, cell);
}
// all 256 patterns in a single cell, flips and transposition
VT_GROUP(C29, patterns, 256, 256) {
  int s = (int)(c.idx % 256);
  c.desc("pattern %d", s);
  for (int tr = 0; tr < 2; ++tr) {
    std::vector<float> im(9, 0.f);
    int bit[8];
    for (int k = 0; k < 8; ++k) { bit[k] = s >> k & 1; im[(1 + (tr ? NX[k] : NY[k])) * 3 + 1 + (tr ? NY[k] : NX[k])] = (float)bit[k]; }
    im[4] = .5f;
    VlLbp *L = vl_lbp_new(VlLbpUniform, tr);
    struct G { VlLbp *t; ~G() { vl_lbp_delete(t); } } g{L};
    std::vector<float> f(58, -1.f);
    vl_lbp_process(L, f.data(), im.data(), 3, 3, 3);
    int code = lbpCode(bit);
    for (int k = 0; k < 58; ++k) if (!(fabs(f[k] - (k == code)) < 1e-5)) c.fail("lbp-pattern", "%s pattern %d: bin %d is %g, expected bin %d", tr ? "transposed" : "plain", s, k, f[k], code);
  }
  c.count("patterns judged", 2);
  c.nontrivial((uint64_t)s + 1);
}
VT_GROUP(C29, flip, 1500, 15000) {
  Rng &r = c.rng;
  long cell = r.range(1, 8), w = cell * r.range(1, 6), h = cell * r.range(1, 6);
  bool tr = r.chance(.5);
  c.desc("image %ldx%ld cell %ld%s", w, h, cell, tr ? " transposed" : "");
  std::vector<float> im = lbpImage(r, w, h), fl = mirror(im, w, h, 1, tr);
  VlLbp *L = vl_lbp_new(VlLbpUniform, tr);
  struct G { VlLbp *t; ~G() { vl_lbp_delete(t); } } g{L};
  long W = w / cell, Hh = h / cell, n = W * Hh;
  std::vector<float> a(n * 58, -1.f), b(n * 58, -1.f);
  vl_lbp_process(L, a.data(), im.data(), w, h, cell);
  vl_lbp_process(L, b.data(), fl.data(), w, h, cell);
  for (long k = 0; k < 58; ++k) {
    long q = k;
    if (k < 56) { long i = k / 7, j = k % 7 + 1; q = ((4 - i - j + 1 + 16) % 8) * 7 + j - 1; }
    for (long y = 0; y < Hh; ++y) for (long x = 0; x < W; ++x) {
      double u = b[x + W * y + n * k], v = a[(tr ? x + W * (Hh - 1 - y) : W - 1 - x + W * y) + n * q];
      if (!(fabs(u * u - v * v) <= 2e-4)) c.fail("lbp-flip", "mirrored cell (%ld,%ld) bin %ld is %g, flipped %g", x, y, k, u, v);
    }
  }
  c.nontrivial(im, cell);
}

// ------------------------------------------------------------------ LIOP
struct LiopCase {
  long n, m, L;
  double rad;
  float thr;
  VlLiopDesc *d = 0;
  LiopCase(Rng &r, bool big) {
    n = r.chance(.4) ? 4 : r.range(1, 5);
    m = r.range(1, 8);
    L = 2 * r.range(1, big ? 20 : 9) + 1;
    double mx = (double)(L / 2);
    rad = r.chance(.6) ? (double)r.range(1, (long)mx) : r.uni(.3, mx);
    rad = (float)rad;
    thr = r.chance(.4) ? -5.f / 255 : r.chance(.5) ? (float)r.uni(0, .3) : -(float)r.uni(0, .5);
    if (r.chance(.1)) thr = 0;
  }
  void open() { d = vl_liopdesc_new((vl_int)n, (vl_int)m, (float)rad, L); vl_liopdesc_set_intensity_threshold(d, thr); }
  ~LiopCase() { if (d) vl_liopdesc_delete(d); }
  long fact() const { long f = 1; for (long k = 2; k <= n; ++k) f *= k; return f; }
  void describe(Ctx &c) { c.desc("side %ld neighbours %ld bins %ld radius %g threshold %g", L, n, m, rad, thr); }
};
static std::vector<float> liopPatch(Rng &r, long L) {
  double s = r.chance(.6) ? 1 : pow(10, r.uni(-3, 3));
  std::vector<float> p = image<float>(r, L, L, r.chance(.5) ? 0 : r.uni(-1, 1), s);
  if (r.chance(.5)) for (auto &v : p) v += (float)(.05 * s * r.normal());
  return p;
}
static void judgeLiop(Ctx &c, LiopCase const &s, std::vector<float> const &p, float const *out, bool mark = true) {
  long L = s.L, ce = (L - 1) / 2, n = s.n, F = s.fact();
  double t = ce - s.rad + .6;
  // the circular region: a margin of one radius stays inside the patch
  std::vector<long> px;
  for (long y = 0; y < L; ++y) for (long x = 0; x < L; ++x) {
    long dx = x - ce, dy = y - ce;
    if (std::max(labs(dx), labs(dy)) + s.rad > ce + 1e-9) continue;
    if (dx * dx + dy * dy <= (long)(t * t)) px.push_back(x + y * L);
  }
  long N = (long)px.size();
  if (!N) throw Skip();
  double mag = 0, mn = 1e300, mx = -1e300;
  for (float v : p) mag = std::max(mag, (double)fabsf(v));
  for (long i : px) { mn = std::min(mn, (double)p[i]); mx = std::max(mx, (double)p[i]); }
  double thr = s.thr < 0 ? -(double)s.thr * (mx - mn) : s.thr, te = 1e-6 * mag + 1e-6 * fabs(thr), eps = 4e-7 * mag;
  std::vector<std::vector<long>> perms;
  { std::vector<long> q(n); for (long i = 0; i < n; ++i) q[i] = i; do perms.push_back(q); while (std::next_permutation(q.begin(), q.end())); }
  std::vector<double> lo(F * s.m, 0.), hi(F * s.m, 0.), sorted(N);
  for (long i = 0; i < N; ++i) sorted[i] = p[px[i]];
  std::sort(sorted.begin(), sorted.end());
  long area = N / s.m;
  auto binOf = [&](long rank) { return area ? std::min(rank / area, s.m - 1) : s.m - 1; };
  double ties = 0;
  for (long i : px) {
    long r0 = std::lower_bound(sorted.begin(), sorted.end(), (double)p[i]) - sorted.begin(), r1 = std::upper_bound(sorted.begin(), sorted.end(), (double)p[i]) - sorted.begin() - 1;
    long b0 = binOf(r0), b1 = binOf(r1);
    double x = i % L - ce, y = i / L - ce, a0 = atan2(y, x), I[8];
    for (long k = 0; k < n; ++k) {
      double X = x + s.rad * cos(a0 + 2 * PI * k / n) + ce, Y = y + s.rad * sin(a0 + 2 * PI * k / n) + ce;
      X = std::min(std::max(X, 0.), L - 1.); Y = std::min(std::max(Y, 0.), L - 1.);
      long ix = std::min((long)X, L - 2), iy = std::min((long)Y, L - 2);
      double wx = X - ix, wy = Y - iy;
      I[k] = (1 - wy) * ((1 - wx) * p[ix + iy * L] + wx * p[ix + 1 + iy * L]) + wy * ((1 - wx) * p[ix + (iy + 1) * L] + wx * p[ix + 1 + (iy + 1) * L]);
    }
    double wl = 0, wh = 0;
    for (long a = 0; a < n; ++a) for (long b = a + 1; b < n; ++b) { double d = fabs(I[a] - I[b]); wl += d > thr + te; wh += d > thr - te; }
    if (wh == 0) continue;
    std::vector<long> ok;
    for (long q = 0; q < F; ++q) {
      bool fine = true;
      for (long a = 0; fine && a + 1 < n; ++a) for (long b = a + 1; b < n; ++b) if (I[perms[q][a]] > I[perms[q][b]] + eps) { fine = false; break; }
      if (fine) ok.push_back(q);
    }
    bool sure = ok.size() == 1 && b0 == b1;
    ties += !sure;
    for (long b = b0; b <= b1; ++b) for (long q : ok) { hi[b * F + q] += wh; if (sure) lo[b * F + q] += wl; }
  }
  // the norm: at least that of the sure votes, at most all of them
  double nl = 0, nh = 0;
  for (size_t i = 0; i < lo.size(); ++i) { nl += lo[i] * lo[i]; nh += hi[i] * hi[i]; }
  nl = sqrt(nl); nh = sqrt(nh);
  double sum = 0;
  for (long i = 0; i < F * s.m; ++i) {
    if (!std::isfinite(out[i]) || out[i] < 0) c.fail("liop-finite", "component %ld is %g", i, out[i]);
    sum += (double)out[i] * out[i];
    double a = nh > 0 ? lo[i] / nh : 0, b = nl > 0 ? hi[i] / nl : (hi[i] > 0 ? 1 : 0);
    if (!(out[i] >= a - 2e-5 && out[i] <= b + 2e-5)) c.fail("liop-value", "bin %ld pattern %ld is %.9g, defined as [%.9g, %.9g] (%ld pixels)", i / F, i % F, out[i], a, b, N);
  }
  if (nl > 0 && !(fabs(sum - 1) < 1e-4)) c.fail("liop-norm", "squared norm %g", sum);
  if (nh == 0 && sum != 0) c.fail("liop-norm", "no vote but squared norm %g", sum);
  c.count("liop components judged", (double)F * s.m);
  c.count("liop pixels", (double)N);
  c.count("liop pixels with ties", ties);
  if (mark) c.nontrivial(p, n * 10 + s.m);
}
VT_GROUP(C30, value, 4000, 40000) {
  Rng &r = c.rng;
  LiopCase s(r, c.thorough || r.chance(.1));
  s.describe(c);
  s.open();
  if ((long)vl_liopdesc_get_dimension(s.d) != s.fact() * s.m || (long)vl_liopdesc_get_num_neighbours(s.d) != s.n || (long)vl_liopdesc_get_num_spatial_bins(s.d) != s.m || vl_liopdesc_get_neighbourhood_radius(s.d) != s.rad || vl_liopdesc_get_intensity_threshold(s.d) != s.thr)
    c.fail("liop-get", "a parameter read back differs");
  std::vector<float> p = liopPatch(r, s.L);
  Guarded<float> o(s.fact() * s.m, 8, -2.f);
  vl_liopdesc_process(s.d, o.data(), p.data());
  if (!o.intact()) c.fail("liop-canary", "descriptor written outside its array");
  judgeLiop(c, s, p, o.data());
}
// exact invariance: scaling by powers of two keeps every comparison
VT_GROUP(C30, invariance, 2000, 20000) {
  Rng &r = c.rng;
  LiopCase s(r, false);
  if (s.thr > 0) s.thr = -s.thr;
  s.describe(c);
  s.open();
  std::vector<float> p = liopPatch(r, s.L), q = p;
  long D = s.fact() * s.m;
  std::vector<float> a(D), b(D);
  vl_liopdesc_process(s.d, a.data(), p.data());
  float k = ldexpf(1, (int)r.range(-6, 6));
  for (auto &v : q) v *= k;
  vl_liopdesc_process(s.d, b.data(), q.data());
  for (long i = 0; i < D; ++i) if (!(a[i] == b[i])) c.fail("liop-scale", "component %ld is %g, %g after scaling intensities by %g", i, a[i], b[i], k);
  // a shift of integer intensities moves interpolated values only by rounding:
  // patches without near ties keep their descriptor
  for (auto &v : p) v = (float)r.range(0, 4000);
  double sh = (double)r.range(-3000, 3000);
  q = p;
  for (auto &v : q) v += (float)sh;
  vl_liopdesc_process(s.d, a.data(), p.data());
  vl_liopdesc_process(s.d, b.data(), q.data());
  judgeLiop(c, s, p, a.data());
  judgeLiop(c, s, q, b.data(), false);
  c.count("liop invariances judged", 2);
}
VT_GROUP(C30, basic, 60, 400) {
  Rng &r = c.rng;
  long L = r.range(6, 20) * 2 + 1;
  c.desc("default object, side %ld", L);
  LiopCase s(r, false);
  s.n = 4; s.m = 6; s.rad = 6; s.L = L;
  s.d = vl_liopdesc_new_basic(L);
  s.thr = vl_liopdesc_get_intensity_threshold(s.d);
  if (vl_liopdesc_get_dimension(s.d) != 144 || vl_liopdesc_get_neighbourhood_radius(s.d) != 6 || !(fabs(s.thr + 5. / 255) < 1e-6)) c.fail("liop-basic", "default parameters");
  std::vector<float> p = liopPatch(r, L), o(144);
  vl_liopdesc_process(s.d, o.data(), p.data());
  judgeLiop(c, s, p, o.data());
}
VT_GROUP(C42, liop, 400, 4000) {
  Rng &r = c.rng;
  LiopCase s(r, false);
  s.describe(c);
  s.open();
  long D = s.fact() * s.m;
  std::vector<float> a(D), b(D);
  uint64_t seen = 1;
  for (int q = 0; q < 4; ++q) {
    std::vector<float> p = liopPatch(r, s.L);
    if (r.chance(.4)) { s.thr = r.chance(.5) ? (float)r.uni(0, .2) : -(float)r.uni(0, .2); vl_liopdesc_set_intensity_threshold(s.d, s.thr); }
    vl_liopdesc_process(s.d, a.data(), p.data());
    VlLiopDesc *f = vl_liopdesc_new((vl_int)s.n, (vl_int)s.m, (float)s.rad, s.L);
    vl_liopdesc_set_intensity_threshold(f, s.thr);
    vl_liopdesc_process(f, b.data(), p.data());
    vl_liopdesc_delete(f);
    if (memcmp(a.data(), b.data(), D * 4)) c.fail("liop-reuse", "patch %d differs from a new object", q);
    if (q) { seen = fnv(p.data(), p.size() * 4, seen); c.count("reuses judged"); }
  }
  c.nontrivial(seen);
}
