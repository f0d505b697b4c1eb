// sift.cc - C25 SIFT detector, C26 SIFT descriptors, C27 dense SIFT, C42 filter reuse.
#include "gen.h"
extern "C" {
#include <vl/sift.h>
#include <vl/dsift.h>
#include <vl/mathop.h>
}
using namespace vt;
static double const PI = 3.14159265358979323846;

// ---------------------------------------------------------- reference scale space
typedef std::vector<double> Img;
static Img smooth(Img const &a, long w, long h, double sigma) {
  long W = std::max(1L, (long)ceil(4 * sigma));
  std::vector<double> k(2 * W + 1);
  double s = 0;
  for (long i = -W; i <= W; ++i) s += k[i + W] = exp(-.5 * i * i / (sigma * sigma));
  for (auto &v : k) v /= s;
  Img t(a.size()), o(a.size());
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) { double v = 0; for (long i = -W; i <= W; ++i) v += k[i + W] * a[std::min(std::max(y + i, 0L), h - 1) * w + x]; t[y * w + x] = v; }
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) { double v = 0; for (long i = -W; i <= W; ++i) v += k[i + W] * t[y * w + std::min(std::max(x + i, 0L), w - 1)]; o[y * w + x] = v; }
  return o;
}
static Img upsample(Img const &a, long w, long h) {
  Img b(4 * w * h);
  for (long y = 0; y < 2 * h; ++y) for (long x = 0; x < 2 * w; ++x) {
    long x0 = x / 2, x1 = std::min(x0 + (x & 1), w - 1), y0 = y / 2, y1 = std::min(y0 + (y & 1), h - 1);
    b[y * 2 * w + x] = .25 * (a[y0 * w + x0] + a[y0 * w + x1] + a[y1 * w + x0] + a[y1 * w + x1]);
  }
  return b;
}
static Img downsample(Img const &a, long w, long h, long d, long w2, long h2) {
  Img b(w2 * h2);
  for (long y = 0; y < h2; ++y) for (long x = 0; x < w2; ++x) b[y * w2 + x] = a[y * d * w + x * d];
  (void)h;
  return b;
}
static long shifted(long n, int o) { return o >= 0 ? n >> o : n << -o; }

struct RefSpace {
  int S, o_min;
  long w0, h0, w, h;
  int o;
  std::vector<Img> lev; // s = -1 .. S+1
  double sigma0() const { return 1.6 * pow(2., 1. / S); }
  double abs(double s) const { return sigma0() * pow(2., s / S); } // scale of level s, octave units
  void fill() {
    for (int s = 0; s <= S + 1; ++s) lev.push_back(smooth(lev.back(), w, h, sqrt(pow(abs(s), 2) - pow(abs(s - 1), 2))));
  }
  void first(Img const &im, long W, long H, int S_, int omin) {
    S = S_; o = o_min = omin; w0 = W; h0 = H;
    lev.clear();
    Img b = im;
    w = W; h = H;
    for (int q = 0; q > omin; --q) { b = upsample(b, w, h); w *= 2; h *= 2; }
    if (omin > 0) { w = W >> omin; h = H >> omin; b = downsample(im, W, H, 1 << omin, w, h); }
    double sa = abs(-1), sb = .5 * pow(2., -omin);
    lev.push_back(sa > sb ? smooth(b, w, h, sqrt(sa * sa - sb * sb)) : b);
    fill();
  }
  void next() {
    ++o;
    long w2 = shifted(w0, o), h2 = shifted(h0, o);
    Img b = downsample(lev[S], w, h, 2, w2, h2); // level S-1 has twice the scale of level -1
    w = w2; h = h2;
    lev.assign(1, b);
    fill();
  }
};

struct Setup {
  long w, h;
  int O, S, o_min;
  double scale, tp, te;
  std::vector<float> im;
  VlSiftFilt *f;
  Setup(Ctx &c, bool big = false) : f(0) {
    Rng &r = c.rng;
    w = r.range(2, big ? 60 : 28); h = r.range(2, big ? 60 : 28);
    if (r.chance(.03)) w = 1;
    if (r.chance(.03)) h = 1;
    S = (int)(r.chance(.6) ? 3 : r.range(1, 5));
    o_min = r.chance(.5) ? 0 : r.chance(.6) ? -1 : r.chance(.4) ? -2 : (int)r.range(1, 2);
    if (o_min == -2 && w * h > 500) { w = r.range(2, 16); h = r.range(2, 16); }
    while (shifted(w, o_min) < 1 || shifted(h, o_min) < 1) --o_min;
    O = r.chance(.4) ? -1 : (int)r.range(1, 5);
    scale = r.chance(.4) ? 255 : r.chance(.7) ? 1 : pow(10, r.uni(-4, 4));
    tp = r.chance(.4) ? 0 : scale * pow(10, r.uni(-4, -1));
    te = r.chance(.4) ? 10 : r.uni(1, 30);
    im = image<float>(r, w, h, 0, scale);
  }
  Setup(Setup const &) = delete;
  ~Setup() { if (f) vl_sift_delete(f); }
  void make() { f = vl_sift_new((int)w, (int)h, O, S, o_min); vl_sift_set_peak_thresh(f, tp); vl_sift_set_edge_thresh(f, te); }
  void describe(Ctx &c) { c.desc("%ldx%ld O=%d S=%d o_min=%d scale=%g tp=%g te=%g", w, h, O, S, o_min, scale, tp, te); }
};
static int octavesOf(long w, long h, int o_min) { // default number of octaves
  int l = 0;
  while ((2L << l) <= std::min(w, h)) ++l;
  return std::max(l - o_min - 3, 1);
}

VT_GROUP(C25, scalespace, 2500, 30000) {
  Setup s(c, c.thorough);
  s.describe(c);
  s.make();
  int O = s.O < 0 ? octavesOf(s.w, s.h, s.o_min) : s.O;
  if (vl_sift_get_noctaves(s.f) != O || vl_sift_get_octave_first(s.f) != s.o_min || vl_sift_get_nlevels(s.f) != s.S) c.fail("dims", "octaves %d (expected %d) first %d levels %d", vl_sift_get_noctaves(s.f), O, vl_sift_get_octave_first(s.f), vl_sift_get_nlevels(s.f));
  RefSpace ref;
  Img im(s.im.begin(), s.im.end());
  ref.first(im, s.w, s.h, s.S, s.o_min);
  int err = vl_sift_process_first_octave(s.f, s.im.data());
  for (int o = 0; o < O; ++o) {
    if (err && o && (ref.w < 2 || ref.h < 2)) { c.count("octaves without pixels"); break; }
    if (err) c.fail("eof", "octave %d of %d refused", o, O);
    if (shifted(s.w, s.o_min + o) < 1 || shifted(s.h, s.o_min + o) < 1) break;
    if (o) ref.next();
    if (vl_sift_get_octave_index(s.f) != s.o_min + o || vl_sift_get_octave_width(s.f) != ref.w || vl_sift_get_octave_height(s.f) != ref.h)
      c.fail("octave", "octave %d is %dx%d index %d, expected %ldx%ld index %d", o, vl_sift_get_octave_width(s.f), vl_sift_get_octave_height(s.f), vl_sift_get_octave_index(s.f), ref.w, ref.h, s.o_min + o);
    for (int l = -1; l <= s.S + 1; ++l) {
      float const *p = vl_sift_get_octave(s.f, l);
      Img const &q = ref.lev[l + 1];
      for (long i = 0; i < ref.w * ref.h; ++i)
        if (!close(p[i], q[i], 0, 1e-5 * s.scale)) c.fail("level", "octave %d level %d pixel (%ld,%ld): %.8g, smoothing to the nominal scale gives %.8g", s.o_min + o, l, i % ref.w, i / ref.w, p[i], q[i]);
      c.count("levels compared");
    }
    if (c.rng.chance(.3)) vl_sift_detect(s.f);
    err = vl_sift_process_next_octave(s.f);
    if (o == O - 1 && !err) c.fail("eof", "octave %d beyond the last of %d", o + 1, O);
  }
  c.nontrivial(s.im, (uint64_t)(s.S * 64 + s.o_min * 8 + s.O));
}

// ---------------------------------------------------------- keypoints
struct RefKey { long ix, iy; int is; double x, y, s, sigma; double tol; bool sure, ok; long x0, y0; bool used; };

// the strict extrema of the difference of the levels of the filter, refined
static void refKeys(VlSiftFilt *f, double tp, double te, std::vector<RefKey> &out) {
  long w = vl_sift_get_octave_width(f), h = vl_sift_get_octave_height(f);
  int S = vl_sift_get_nlevels(f);
  double xper = pow(2., vl_sift_get_octave_index(f));
  std::vector<std::vector<float>> D; // s = -1 .. S
  for (int s = -1; s <= S; ++s) {
    float const *a = vl_sift_get_octave(f, s), *b = vl_sift_get_octave(f, s + 1);
    std::vector<float> d(w * h);
    for (long i = 0; i < w * h; ++i) d[i] = b[i] - a[i];
    D.push_back(d);
  }
  for (int s = 0; s <= S - 1; ++s)
    for (long y = 1; y < h - 1; ++y)
      for (long x = 1; x < w - 1; ++x) {
        float v = D[s + 1][y * w + x];
        bool gt = true, lt = true;
        for (int ds = -1; ds <= 1; ++ds) for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) if (ds || dy || dx) {
          float u = D[s + 1 + ds][(y + dy) * w + x + dx];
          if (!(v > u)) gt = false;
          if (!(v < u)) lt = false;
        }
        if (!((gt && v >= .8 * tp * (1 - 1e-9)) || (lt && v <= -.8 * tp * (1 - 1e-9)))) continue;
        RefKey k;
        k.sure = !(fabs(fabs(v) - .8 * tp) < 1e-9 * fabs(v)) || tp == 0;
        k.ok = true; k.used = false; k.x0 = x; k.y0 = y;
        long cx = x, cy = y;
        double b[3] = {0, 0, 0}, Dx = 0, Dy = 0, Ds = 0, Dxx = 0, Dyy = 0, Dss = 0, Dxy = 0, Dxs = 0, Dys = 0, err = 1e-9, dl = 0; // dl: float rounding of the differences; err: its effect on b
        for (int it = 0; it < 5; ++it) {
          auto at = [&](long i, long j, int q) { return (double)D[s + 1 + q][(cy + j) * w + cx + i]; };
          Dx = .5 * (at(1, 0, 0) - at(-1, 0, 0)); Dy = .5 * (at(0, 1, 0) - at(0, -1, 0)); Ds = .5 * (at(0, 0, 1) - at(0, 0, -1));
          Dxx = at(1, 0, 0) + at(-1, 0, 0) - 2 * at(0, 0, 0); Dyy = at(0, 1, 0) + at(0, -1, 0) - 2 * at(0, 0, 0); Dss = at(0, 0, 1) + at(0, 0, -1) - 2 * at(0, 0, 0);
          Dxy = .25 * (at(1, 1, 0) + at(-1, -1, 0) - at(-1, 1, 0) - at(1, -1, 0));
          Dxs = .25 * (at(1, 0, 1) + at(-1, 0, -1) - at(-1, 0, 1) - at(1, 0, -1));
          Dys = .25 * (at(0, 1, 1) + at(0, -1, -1) - at(0, -1, 1) - at(0, 1, -1));
          double c00 = Dyy * Dss - Dys * Dys, c01 = Dys * Dxs - Dxy * Dss, c02 = Dxy * Dys - Dyy * Dxs;
          double c11 = Dxx * Dss - Dxs * Dxs, c12 = Dxy * Dxs - Dxx * Dys, c22 = Dxx * Dyy - Dxy * Dxy;
          double det = Dxx * c00 + Dxy * c01 + Dxs * c02;
          double m = std::max(std::max(fabs(Dxx), fabs(Dyy)), std::max(fabs(Dss), std::max(fabs(Dxy), std::max(fabs(Dxs), fabs(Dys)))));
          // ill conditioned or close to the absolute pivot threshold: the outcome is not judged
          double ms = std::min(1., fabs(det) / (m * m * m + 1e-300));
          double vmax = 0;
          for (int q = -1; q <= 1; ++q) for (int j = -1; j <= 1; ++j) for (int i = -1; i <= 1; ++i) vmax = std::max(vmax, fabs(at(i, j, q)));
          dl = 2.5e-7 * vmax;
          err = std::max(err, dl / (m * ms + 1e-300));
          if (!(m * ms > 1e-7) || !(ms > 1e-5) || err > 1e-2) { k.sure = false; }
          b[0] = -(c00 * Dx + c01 * Dy + c02 * Ds) / det; b[1] = -(c01 * Dx + c11 * Dy + c12 * Ds) / det; b[2] = -(c02 * Dx + c12 * Dy + c22 * Ds) / det;
          if (!std::isfinite(b[0] + b[1] + b[2])) { b[0] = b[1] = b[2] = 0; k.sure = false; }
          for (int q = 0; q < 2; ++q) if (fabs(fabs(b[q]) - .6) < err) k.sure = false;
          long mx = b[0] > .6 && cx < w - 2 ? 1 : b[0] < -.6 && cx > 1 ? -1 : 0, my = b[1] > .6 && cy < h - 2 ? 1 : b[1] < -.6 && cy > 1 ? -1 : 0;
          if (!mx && !my) break;
          if (it == 4) break; // the last displacement is not applied
          cx += mx; cy += my;
        }
        double val = D[s + 1][cy * w + cx] + .5 * (Dx * b[0] + Dy * b[1] + Ds * b[2]);
        double tr = (Dxx + Dyy) * (Dxx + Dyy), dt = Dxx * Dyy - Dxy * Dxy, lim = (te + 1) * (te + 1) / te;
        double eps = std::max(err, 1e-9);
        auto cmp = [&](double a, double bb, double sc) { if (fabs(a - bb) <= eps * sc) k.sure = false; return a < bb; };
        bool ok = true;
        // refused unless all hold
        if (!cmp(tp, fabs(val), fabs(val) + tp)) ok = false;
        if (dt == 0) { k.sure = false; ok = false; }
        else {
          if (fabs(dt) < 4 * dl * (fabs(Dxx) + fabs(Dyy) + fabs(Dxy))) k.sure = false;
          if (tr < 16 * dl * dl) k.sure = false; // the score is a zero of either sign
          if (!(dt > 0)) ok = false;
          else if (!cmp(tr / dt, lim, lim)) ok = false;
        }
        for (int q = 0; q < 3; ++q) if (!cmp(fabs(b[q]), 1.5, 1)) ok = false;
        double xn = cx + b[0], yn = cy + b[1], sn = s + b[2];
        if (!cmp(-xn, 0, w) && xn != 0) ok = false;
        if (!cmp(xn, w - 1, w)) ok = false;
        if (!cmp(-yn, 0, h) && yn != 0) ok = false;
        if (!cmp(yn, h - 1, h)) ok = false;
        if (!cmp(-1, sn, S)) ok = false;
        if (!cmp(sn, S + 1, S)) ok = false;
        k.ok = ok;
        if (!ok && k.sure) continue;
        k.ix = cx; k.iy = cy; k.is = s;
        k.x = xn * xper; k.y = yn * xper; k.s = sn;
        k.sigma = 1.6 * pow(2., 1. / S) * pow(2., sn / S) * xper;
        k.tol = std::min(1e-6 + err, 1e-2);
        out.push_back(k);
      }
}
static void judgeKeys(Ctx &c, Setup &s) {
  s.describe(c);
  s.make();
  int err = vl_sift_process_first_octave(s.f, s.im.data());
  long total = 0;
  for (; !err; err = vl_sift_process_next_octave(s.f)) {
    if (vl_sift_get_octave_width(s.f) < 1 || vl_sift_get_octave_height(s.f) < 1) break;
    if (vl_sift_get_nkeypoints(s.f) != 0) c.fail("stale", "%d keypoints before detection", vl_sift_get_nkeypoints(s.f));
    if (c.rng.chance(.1)) { vl_sift_set_peak_thresh(s.f, s.tp * .5); vl_sift_detect(s.f); vl_sift_set_peak_thresh(s.f, s.tp); }
    vl_sift_detect(s.f);
    std::vector<RefKey> ref;
    refKeys(s.f, s.tp, s.te, ref);
    long n = vl_sift_get_nkeypoints(s.f);
    VlSiftKeypoint const *k = vl_sift_get_keypoints(s.f);
    double xper = pow(2., vl_sift_get_octave_index(s.f));
    double W = vl_sift_get_octave_width(s.f), H = vl_sift_get_octave_height(s.f);
    for (int pass = 0; pass < 3; ++pass)
      for (long i = 0; i < n; ++i) {
        bool found = false;
        if (k[i].o == -1000) continue; // taken
        if (pass == 0) {
          if (k[i].o != vl_sift_get_octave_index(s.f)) c.fail("octave-field", "keypoint octave %d, current %d", k[i].o, vl_sift_get_octave_index(s.f));
          if (!(k[i].x >= -1e-5 * W * xper && k[i].x <= (W - 1) * xper * (1 + 1e-6) && k[i].y >= -1e-5 * H * xper && k[i].y <= (H - 1) * xper * (1 + 1e-6) && k[i].sigma > 0)) c.fail("outside", "keypoint at (%g,%g) scale %g", k[i].x, k[i].y, k[i].sigma);
        }
        for (auto &q : ref) if (!q.used) {
          if (pass < 2 && q.sure == (pass == 0)) {
            if (q.ix == k[i].ix && q.iy == k[i].iy && q.is == k[i].is && close(k[i].x, q.x, 1e-6, q.tol * xper) && close(k[i].y, q.y, 1e-6, q.tol * xper) && close(k[i].s, q.s, 1e-6, q.tol) && close(k[i].sigma, q.sigma, 1e-6, q.tol * 4 * xper)) found = true;
          } else if (pass == 2 && !q.sure && labs(k[i].ix - q.x0) <= 5 && labs(k[i].iy - q.y0) <= 5 && k[i].is == q.is) found = true;
          if (found) { q.used = true; break; }
        }
        if (found) { const_cast<VlSiftKeypoint *>(k)[i].o = -1000; continue; }
        if (pass == 2) c.fail("spurious", "keypoint (%g,%g) level %g (%d,%d,%d) of octave %g is no accepted extremum", k[i].x, k[i].y, k[i].s, k[i].ix, k[i].iy, k[i].is, log2(xper));
      }
    for (auto &q : ref) if (q.sure && !q.used) c.fail("missed", "the extremum at (%ld,%ld,%d) refined to (%g,%g,%g) is not reported", q.ix, q.iy, q.is, q.x, q.y, q.s);
    c.count("keypoints judged", n);
    for (auto &q : ref) if (!q.sure) c.count("borderline extrema");
    total += n;
    if (n > 500) c.count(n > 1500 ? "octaves with more than 1500 keypoints" : n > 1000 ? "octaves with 1001-1500 keypoints" : "octaves with 501-1000 keypoints");
    for (long i = 0; i < n; ++i) const_cast<VlSiftKeypoint *>(k)[i].o = vl_sift_get_octave_index(s.f);
  }
  if (total) c.nontrivial(s.im, (uint64_t)(s.S * 64 + s.o_min * 8 + s.O));
}
VT_GROUP(C25, keypoints, 4000, 40000) {
  Setup s(c, true);
  judgeKeys(c, s);
}
// more extrema in an octave than any initial capacity
VT_GROUP(C25, many, 24, 400) {
  Setup s(c, true);
  Rng &r = c.rng;
  s.w = r.range(150, 400); s.h = r.range(250, 400);
  s.S = (int)r.range(3, 5); s.o_min = 0; s.O = 2; s.tp = 0; s.te = r.uni(10, 100);
  s.im.resize(s.w * s.h);
  double a = 2 * PI / r.uni(12, 16), b = 2 * PI / r.uni(12, 16), e = r.uni(0, .3), pa = r.uni(0, 6), pb = r.uni(0, 6);
  for (long y = 0; y < s.h; ++y) for (long x = 0; x < s.w; ++x) s.im[y * s.w + x] = (float)(s.scale * (cos(a * x + pa) * cos(b * y + pb) + e * r.uni()));
  judgeKeys(c, s);
}

// gradient of a level in polar form; exact: libm instead of the library's fast approximations
static void gradient(float const *p, long w, long h, std::vector<double> &mod, std::vector<double> &ang, bool exact) {
  mod.resize(w * h); ang.resize(w * h);
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) {
    long a = std::max(x - 1, 0L), b = std::min(x + 1, w - 1), u = std::max(y - 1, 0L), v = std::min(y + 1, h - 1);
    float gx = b > a ? (float)((p[y * w + b] - p[y * w + a]) / (double)(b - a)) : 0, gy = v > u ? (float)((p[v * w + x] - p[u * w + x]) / (double)(v - u)) : 0;
    if (exact) { mod[y * w + x] = hypot((double)gx, gy); double t = atan2((double)gy, gx); ang[y * w + x] = t < 0 ? t + 2 * PI : t; }
    else { mod[y * w + x] = vl_fast_sqrt_f(gx * gx + gy * gy); ang[y * w + x] = vl_mod_2pi_f(vl_fast_atan2_f(gy, gx) + 2 * VL_PI); }
  }
}
static double expTable(double x, bool exact) { // exp(-x), by linear interpolation of 256 cells over [0,25]
  if (exact) return exp(-x);
  if (x >= 25) return 0;
  double u = x * 256 / 25, i = floor(u);
  double a = exp(-i * 25 / 256), b = exp(-(i + 1) * 25 / 256);
  return a + (u - i) * (b - a);
}
static VlSiftKeypoint randomKey(Rng &r, VlSiftFilt *f, Setup &s) {
  VlSiftKeypoint k;
  double X = s.w, Y = s.h, e = pow(2., s.o_min);
  double x, y, sg;
  if (r.chance(.3)) { x = (double)r.range(0, s.w - 1); y = (double)r.range(0, s.h - 1); }
  else if (r.chance(.2)) { x = r.uni(X - 2, X); y = r.uni(Y - 2, Y); }
  else { x = r.uni(-.4 * e, X); y = r.uni(-.4 * e, Y); }
  sg = r.chance(.2) ? e * r.pick({.5, 1., 2., 4.}) : e * pow(2, r.uni(-1, 6));
  vl_sift_keypoint_init(f, &k, x, y, sg);
  return k;
}
VT_GROUP(C25, keypoint_init, 20000, 200000) {
  Setup s(c);
  s.describe(c);
  s.make();
  int O = vl_sift_get_noctaves(s.f);
  for (int q = 0; q < 20; ++q) {
    double x = c.rng.uni(0, s.w), y = c.rng.uni(0, s.h), sg = pow(2, c.rng.uni(-4, 8));
    VlSiftKeypoint k;
    memset(&k, 0x55, sizeof k);
    vl_sift_keypoint_init(s.f, &k, x, y, sg);
    double s0 = 1.6 * pow(2., 1. / s.S), phi = log2(sg / s0);
    if (k.x != (float)x || k.y != (float)y || k.sigma != (float)sg) c.fail("init-copy", "(%g,%g,%g) became (%g,%g,%g)", x, y, sg, k.x, k.y, k.sigma);
    if (k.o < s.o_min || k.o > s.o_min + O - 1 || k.is < 0 || k.is > s.S - 1) c.fail("init-range", "octave %d level %d", k.o, k.is);
    if (!close(k.s, s.S * (phi - k.o), 1e-5, 1e-4)) c.fail("init-level", "level %g of octave %d for scale %g, expected %g", k.s, k.o, sg, s.S * (phi - k.o));
    // the octave whose level range [-1/2, S-1/2) contains the scale, clamped to those available
    double of = phi + .5 / s.S;
    int o = (int)floor(of);
    if (fabs(of - floor(of + .5)) > 1e-9) {
      o = std::max(std::min(o, s.o_min + O - 1), s.o_min);
      if (k.o != o) c.fail("init-octave", "octave %d for scale %g, expected %d", k.o, sg, o);
      double e = s.S * (phi - o), ft = e + .5;
      int is = (int)ft; is = std::max(std::min(is, s.S - 1), 0);
      if (fabs(ft - floor(ft + .5)) > 1e-6 && k.is != is) c.fail("init-slevel", "level %d for level %g", k.is, e);
      double ex = x / pow(2., o) + .5, ey = y / pow(2., o) + .5;
      if (fabs(ex - floor(ex + .5)) > 1e-9 && k.ix != (int)ex) c.fail("init-ix", "ix %d for %g", k.ix, ex);
      if (fabs(ey - floor(ey + .5)) > 1e-9 && k.iy != (int)ey) c.fail("init-iy", "iy %d for %g", k.iy, ey);
    }
    c.count("keypoints initialised");
  }
  c.nontrivial((uint64_t)(s.w * 100000 + s.h * 1000 + s.S * 100 + s.o_min * 10 + s.O));
}

struct Peak { double th, tol; bool sure, used; };
static void orientPeaks(VlSiftFilt *f, VlSiftKeypoint const &k, bool exact, std::vector<Peak> &out) {
  long w = vl_sift_get_octave_width(f), h = vl_sift_get_octave_height(f);
  double xper = pow(2., vl_sift_get_octave_index(f));
  double x = k.x / xper, y = k.y / xper, sw = 1.5 * (k.sigma / xper);
  long W = std::max((long)floor(3 * sw), 1L);
  std::vector<double> mod, ang;
  gradient(vl_sift_get_octave(f, k.is), w, h, mod, ang, exact);
  double H[36] = {0}, total = 0;
  long xi = (long)(x + .5), yi = (long)(y + .5);
  for (long v = std::max(yi - W, 0L); v <= std::min(yi + W, h - 1); ++v) for (long u = std::max(xi - W, 0L); u <= std::min(xi + W, w - 1); ++u) {
    double r2 = (u - x) * (u - x) + (v - y) * (v - y);
    if (r2 >= W * W + .6) continue;
    double m = mod[v * w + u] * expTable(r2 / (2 * sw * sw), exact), fb = 36 * ang[v * w + u] / (2 * PI) - .5;
    long b = (long)floor(fb);
    double rb = fb - b;
    H[(b + 36) % 36] += (1 - rb) * m;
    H[(b + 37) % 36] += rb * m;
    total += m;
  }
  for (int it = 0; it < 6; ++it) { double G[36]; for (int i = 0; i < 36; ++i) G[i] = (H[(i + 35) % 36] + H[i] + H[(i + 1) % 36]) / 3; memcpy(H, G, sizeof G); }
  double mx = 0;
  for (double v : H) mx = std::max(mx, v);
  double e = (exact ? 3e-3 : 3e-6) * mx + 1e-12 * total;
  for (int i = 0; i < 36; ++i) {
    double a = H[(i + 35) % 36], b = H[i], d = H[(i + 1) % 36];
    double margin = std::min(b - .8 * mx, std::min(b - a, b - d));
    if (margin < -e || !(mx > 0)) continue;
    double den = 2 * b - a - d, di = den > 0 ? .5 * (d - a) / den : 0;
    out.push_back(Peak{2 * PI * (i + di + .5) / 36, den > 0 ? .2 * std::min(1., 2 * e / den) + 1e-6 : .2, margin > e, false});
  }
}
static bool matchAngles(double const *a, int n, std::vector<Peak> P) {
  for (int i = 0; i < n; ++i) {
    bool ok = false;
    for (int pass = 0; pass < 2 && !ok; ++pass) for (auto &p : P) if (!p.used && p.sure == (pass == 0)) {
      double d = fabs(a[i] - p.th); d = std::min(d, 2 * PI - d);
      if (d <= p.tol) { p.used = ok = true; break; }
    }
    if (!ok) return false;
  }
  if (n < 4) for (auto &p : P) if (p.sure && !p.used) return false;
  return true;
}
VT_GROUP(C25, orientations, 3000, 30000) {
  Setup s(c, true);
  s.describe(c);
  s.make();
  Rng &r = c.rng;
  long total = 0;
  for (int err = vl_sift_process_first_octave(s.f, s.im.data()); !err; err = vl_sift_process_next_octave(s.f)) {
    long w = vl_sift_get_octave_width(s.f), h = vl_sift_get_octave_height(s.f);
    if (w < 1 || h < 1) break;
    vl_sift_detect(s.f);
    long n = vl_sift_get_nkeypoints(s.f);
    double xper = pow(2., vl_sift_get_octave_index(s.f));
    for (long q = 0; q < std::min(n, 8L) + 6; ++q) {
      VlSiftKeypoint k = q < std::min(n, 8L) ? vl_sift_get_keypoints(s.f)[n <= 8 ? q : r.range(0, n - 1)] : randomKey(r, s.f, s);
      double an[6] = {-7, -7, -7, -7, -7, -7};
      int m = vl_sift_calc_keypoint_orientations(s.f, an + 1, &k);
      if (m < 0 || m > 4 || an[0] != -7 || an[5] != -7) c.fail("count", "%d orientations", m);
      for (int i = 0; i < m; ++i) if (!(an[1 + i] >= 0 && an[1 + i] < 2 * PI)) c.fail("range", "orientation %g", an[1 + i]);
      double fx = k.x / xper, fy = k.y / xper;
      bool in = k.o == vl_sift_get_octave_index(s.f) && (int)(fx + .5) >= 0 && (int)(fy + .5) >= 0 && (int)(fx + .5) <= w - 1 && (int)(fy + .5) <= h - 1;
      if (w < 2 || h < 2) continue; // gradients need two pixels in each direction
      if (!in) { if (m) c.fail("out", "%d orientations for a keypoint outside the octave", m); continue; }
      std::vector<Peak> P, Q;
      orientPeaks(s.f, k, false, P);
      if (matchAngles(an + 1, m, P)) { c.count("orientations judged", m); total += m; continue; }
      orientPeaks(s.f, k, true, Q);
      if (matchAngles(an + 1, m, Q)) { c.count("orientations judged", m); total += m; continue; }
      char buf[200]; int l = 0; buf[0] = 0;
      for (auto &p : P) l += snprintf(buf + l, sizeof buf - l < 40 ? 0 : 40, " %.6g%s", p.th, p.sure ? "" : "?");
      c.fail("angles", "keypoint (%g,%g) scale %g octave %d level %d: %d orientations %.6g %.6g %.6g %.6g, expected%s", k.x, k.y, k.sigma, k.o, k.is, m, an[1], an[2], an[3], an[4], buf);
    }
  }
  if (total) c.nontrivial(s.im, (uint64_t)(s.S * 64 + s.o_min * 8 + s.O));
}

// ------------------------------------------------------------------ C26
// returns the norm before normalisation
static double normalise(std::vector<double> &d) {
  double n = 0;
  for (double v : d) n += v * v;
  n = sqrt(n) + VL_EPSILON_F;
  for (auto &v : d) v /= n;
  return n;
}
struct RefDescr { std::vector<double> d; double norm; bool border; };
static RefDescr refDescr(double const *mod, double const *ang, long w, long h, long m, double x, double y, double sigma, double a0, double magnif, double win, double thr, bool perSample, bool exact) {
  RefDescr R;
  R.d.assign(128, 0);
  double SBP = magnif * sigma + VL_EPSILON_D, ct = cos(a0), sn = sin(a0);
  for (long v = m; v < h - m; ++v) for (long u = m; u < w - m; ++u) {
    double dx = u - x, dy = v - y, nx = (ct * dx + sn * dy) / SBP, ny = (-sn * dx + ct * dy) / SBP;
    if (fabs(nx) >= 2.5 || fabs(ny) >= 2.5) continue;
    double t = fmod(ang[v * w + u] - a0, 2 * PI); if (t < 0) t += 2 * PI;
    double nt = 8 * t / (2 * PI), W = expTable((nx * nx + ny * ny) / (2 * win * win), exact) * mod[v * w + u];
    for (int j = 0; j < 4; ++j) { double wy = 1 - fabs(ny - (j - 1.5)); if (wy <= 0) continue;
      for (int i = 0; i < 4; ++i) { double wx = 1 - fabs(nx - (i - 1.5)); if (wx <= 0) continue;
        for (int q = 0; q < 8; ++q) { double dt = fabs(nt - q); dt = std::min(dt, 8 - dt); if (dt < 1) R.d[(j * 4 + i) * 8 + q] += W * wx * wy * (1 - dt); } } }
  }
  double n = normalise(R.d);
  R.norm = n;
  R.border = false;
  if (thr) {
    if (perSample) {
      long Wd = (long)floor(sqrt(2.) * SBP * 2.5 + .5), xi = (long)(x + .5), yi = (long)(y + .5);
      thr *= (double)((std::min(Wd, w - xi - 1) - std::max(-Wd, -xi) + 1) * (std::min(Wd, h - yi - 1) - std::max(-Wd, -yi) + 1));
    }
    R.border = fabs(n - thr) < 1e-3 * thr;
    if (n < thr) { R.d.assign(128, 0); return R; }
  }
  for (auto &v : R.d) v = std::min(v, .2);
  normalise(R.d);
  return R;
}
static double maxDiff(float const *a, std::vector<double> const &b) {
  double m = 0;
  for (size_t i = 0; i < b.size(); ++i) { double d = fabs(a[i] - b[i]); if (!(d <= m)) m = d; }
  return m;
}
static void judgeDescr(Ctx &c, char const *key, float const *d, RefDescr const &A, RefDescr const &B, float canary) {
  for (int i = 0; i < 128; ++i) if (!(d[i] >= 0 && d[i] <= 1.00001f)) c.fail("range", "%s: component %d is %g%s", key, i, d[i], d[i] == canary ? " (never written)" : "");
  if (A.border || B.border) return;
  double a = maxDiff(d, A.d), b = maxDiff(d, B.d);
  // float coordinates and values; the exact variant differs by the table of exponentials only
  double tol = 3e-4;
  if (!(std::min(a, b) <= tol)) {
    int q = 0; for (int i = 0; i < 128; ++i) if (fabs(d[i] - A.d[i]) > fabs(d[q] - A.d[q])) q = i;
    c.fail(key, "component %d is %.6g, the histogram gives %.6g (norm %g)", q, d[q], A.d[q], A.norm);
  }
}
static double pickAngle(Rng &r) { return r.chance(.3) ? r.range(-8, 16) * PI / 4 : r.chance(.1) ? r.uni(-20, 20) : r.uni(0, 2 * PI); }
static void descSettings(Rng &r, VlSiftFilt *f, double *magnif, double *win, double *thr, double scale) {
  *magnif = r.chance(.5) ? 3 : r.chance(.3) ? (double)r.range(1, 4) : r.uni(.5, 6);
  *win = r.chance(.5) ? 2 : r.chance(.4) ? r.pick({.25, .5, 1., 4., 50.}) : r.uni(.3, 5);
  *thr = r.chance(.7) ? 0 : scale * pow(10, r.uni(-4, 0));
  vl_sift_set_magnif(f, *magnif); vl_sift_set_window_size(f, *win); vl_sift_set_norm_thresh(f, *thr);
}
VT_GROUP(C26, keypoint, 3000, 30000) {
  Setup s(c, true);
  s.make();
  Rng &r = c.rng;
  double magnif, win, thr;
  descSettings(r, s.f, &magnif, &win, &thr, s.scale);
  c.desc("%ldx%ld O=%d S=%d o_min=%d scale=%g magnif=%g window=%g norm_thresh=%g", s.w, s.h, s.O, s.S, s.o_min, s.scale, magnif, win, thr);
  long total = 0;
  for (int err = vl_sift_process_first_octave(s.f, s.im.data()); !err; err = vl_sift_process_next_octave(s.f)) {
    long w = vl_sift_get_octave_width(s.f), h = vl_sift_get_octave_height(s.f);
    if (w < 1 || h < 1) break;
    vl_sift_detect(s.f);
    long n = vl_sift_get_nkeypoints(s.f);
    double xper = pow(2., vl_sift_get_octave_index(s.f));
    std::vector<double> m0, a0, m1, a1;
    int lastLevel = -9;
    for (long q = 0; q < std::min(n, 4L) + 5; ++q) {
      VlSiftKeypoint k = q < std::min(n, 4L) ? vl_sift_get_keypoints(s.f)[r.range(0, n - 1)] : randomKey(r, s.f, s);
      double an = pickAngle(r);
      float buf[160];
      for (auto &v : buf) v = -55;
      vl_sift_calc_keypoint_descriptor(s.f, buf + 16, &k, an);
      for (int i = 0; i < 16; ++i) if (buf[i] != -55 || buf[144 + i] != -55) c.fail("outside", "wrote outside the descriptor");
      double x = k.x / xper, y = k.y / xper;
      bool in = k.o == vl_sift_get_octave_index(s.f) && (int)(x + .5) >= 0 && (int)(y + .5) >= 0 && (int)(x + .5) <= w - 1 && (int)(y + .5) <= h - 1;
      if (!in || w < 2 || h < 2) continue; // gradients need two pixels in each direction
      if (magnif * k.sigma / xper * 3.6 > 4 * (w + h)) c.count("windows larger than the image");
      if (lastLevel != k.is) { gradient(vl_sift_get_octave(s.f, k.is), w, h, m0, a0, false); gradient(vl_sift_get_octave(s.f, k.is), w, h, m1, a1, true); lastLevel = k.is; }
      double sg = k.sigma / xper;
      char key[64];
      snprintf(key, sizeof key, "keypoint%s", (int)(y + .5) == h - 1 ? "-lastrow" : (int)(x + .5) == w - 1 ? "-lastcol" : "");
      RefDescr A = refDescr(m0.data(), a0.data(), w, h, 1, x, y, sg, an, magnif, win, thr, false, false), B = refDescr(m1.data(), a1.data(), w, h, 1, x, y, sg, an, magnif, win, thr, false, true);
      judgeDescr(c, key, buf + 16, A, B, -55);
      c.count("descriptors judged");
      if (A.norm > 1e-3) ++total;
    }
  }
  if (total) c.nontrivial(s.im, (uint64_t)(s.S * 64 + s.o_min * 8 + s.O));
}
VT_GROUP(C26, raw, 6000, 60000) {
  Rng &r = c.rng;
  long w = r.range(1, 30), h = r.range(1, 30);
  double scale = r.chance(.5) ? 1 : pow(10, r.uni(-3, 3));
  VlSiftFilt *f = vl_sift_new(16, 16, 1, 3, 0);
  double magnif, win, thr;
  descSettings(r, f, &magnif, &win, &thr, scale);
  if (thr) vl_sift_set_norm_thresh(f, thr /= 100);
  std::vector<float> g(2 * w * h);
  int kind = (int)r.range(0, 3);
  double ca = r.uni(0, 2 * PI);
  for (long i = 0; i < w * h; ++i) {
    g[2 * i] = (float)(kind == 3 ? (r.chance(.1) ? scale : 0) : scale * r.uni());
    g[2 * i + 1] = (float)(kind == 0 ? ca : kind == 1 ? (double)r.range(0, 7) * PI / 4 : r.uni(0, 2 * PI));
  }
  if (r.chance(.1)) for (long i = 0; i < w * h; ++i) g[2 * i] = 0;
  double x = r.uni(0, w - .6), y = r.uni(0, h - .6), sg = r.chance(.3) ? r.pick({.5, 1., 2., 4.}) : pow(2, r.uni(-1, 4)), an = pickAngle(r);
  if (r.chance(.4)) { x = floor(x); y = floor(y); }
  if (r.chance(.2)) { x = x - floor(x) + w - 1; if (x >= w - .5) x = w - 1; }
  if (r.chance(.2)) { y = y - floor(y) + h - 1; if (y >= h - .5) y = h - 1; }
  if (r.chance(.05)) an = 0;
  c.desc("field %ldx%ld kind %d scale %g at (%.9g,%.9g) sigma %g angle %g magnif %g window %g norm_thresh %g", w, h, kind, scale, x, y, sg, an, magnif, win, thr);
  float buf[160];
  for (auto &v : buf) v = -55;
  vl_sift_calc_raw_descriptor(f, g.data(), buf + 16, (int)w, (int)h, x, y, sg, an);
  vl_sift_delete(f);
  for (int i = 0; i < 16; ++i) if (buf[i] != -55 || buf[144 + i] != -55) c.fail("outside", "wrote outside the descriptor");
  std::vector<double> m(w * h), a(w * h);
  double gs = 0;
  for (long i = 0; i < w * h; ++i) { m[i] = g[2 * i]; a[i] = g[2 * i + 1]; gs += m[i]; }
  char key[64];
  snprintf(key, sizeof key, "raw%s", (int)(y + .5) == h - 1 ? "-lastrow" : (int)(x + .5) == w - 1 ? "-lastcol" : "");
  RefDescr A = refDescr(m.data(), a.data(), w, h, 0, x, y, sg, an, magnif, win, thr, true, false), B = refDescr(m.data(), a.data(), w, h, 0, x, y, sg, an, magnif, win, thr, true, true);
  judgeDescr(c, key, buf + 16, A, B, -55);
  c.count("descriptors judged");
  if (gs > 0) c.nontrivial(g);
}
// windows whose edge falls exactly on the pixel lattice
VT_GROUP(C26, lattice, 3000, 20000) {
  Rng &r = c.rng;
  long w = 24, h = 24;
  VlSiftFilt *f = vl_sift_new(16, 16, 1, 3, 0);
  double magnif = (double)r.range(1, 3), sg = r.pick({1., 2., 3., .5}), win = r.pick({.125, .25, .5, .75, 1., 2.});
  vl_sift_set_magnif(f, magnif); vl_sift_set_window_size(f, win);
  std::vector<float> g(2 * w * h);
  for (long i = 0; i < w * h; ++i) { g[2 * i] = (float)r.range(0, 3); g[2 * i + 1] = (float)(r.range(0, 7) * PI / 4); }
  double x = (double)r.range(0, w - 1), y = (double)r.range(0, h - 1), an = r.range(0, 3) * PI / 2;
  c.desc("at (%g,%g) sigma %g angle %g magnif %g window %g", x, y, sg, an, magnif, win);
  float buf[160];
  for (auto &v : buf) v = -55;
  vl_sift_calc_raw_descriptor(f, g.data(), buf + 16, (int)w, (int)h, x, y, sg, an);
  vl_sift_delete(f);
  std::vector<double> m(w * h), a(w * h);
  for (long i = 0; i < w * h; ++i) { m[i] = g[2 * i]; a[i] = g[2 * i + 1]; }
  char key[64];
  snprintf(key, sizeof key, "lattice%s", y == h - 1 ? "-lastrow" : "");
  RefDescr A = refDescr(m.data(), a.data(), w, h, 0, x, y, sg, an, magnif, win, 0, true, false), B = refDescr(m.data(), a.data(), w, h, 0, x, y, sg, an, magnif, win, 0, true, true);
  judgeDescr(c, key, buf + 16, A, B, -55);
  c.nontrivial(g);
}
VT_GROUP(C26, invariance, 1500, 15000) {
  Setup s(c, true);
  Rng &r = c.rng;
  // strong gradients: those below 1e-4 are treated as null
  s.scale = 255; s.tp = 0;
  s.im = image<float>(r, s.w, s.h, 0, 255);
  s.describe(c);
  s.make();
  double gain = pow(2., (double)r.range(-2, 10)), off = r.chance(.5) ? 0 : r.uni(-255, 255);
  std::vector<float> im2(s.im);
  for (auto &v : im2) v = (float)(gain * (v + off));
  VlSiftFilt *g = vl_sift_new((int)s.w, (int)s.h, s.O, s.S, s.o_min);
  long judged = 0;
  int e1 = vl_sift_process_first_octave(s.f, s.im.data()), e2 = vl_sift_process_first_octave(g, im2.data());
  char msg[300]; msg[0] = 0;
  while (!e1 && !e2 && vl_sift_get_octave_width(g) > 0 && vl_sift_get_octave_height(g) > 0) {
    long w = vl_sift_get_octave_width(g), h = vl_sift_get_octave_height(g);
    for (int q = 0; q < 4; ++q) {
      VlSiftKeypoint k = randomKey(r, s.f, s);
      double an = pickAngle(r), xper = pow(2., vl_sift_get_octave_index(s.f));
      if (k.o != vl_sift_get_octave_index(s.f) || k.x < 0 || k.y < 0 || k.x / xper > w - 1.5 || k.y / xper > h - 1.5) continue;
      float a[128], b[128];
      for (int i = 0; i < 128; ++i) a[i] = b[i] = -55;
      vl_sift_calc_keypoint_descriptor(s.f, a, &k, an);
      vl_sift_calc_keypoint_descriptor(g, b, &k, an);
      std::vector<double> m, t;
      gradient(vl_sift_get_octave(s.f, k.is), w, h, m, t, false);
      RefDescr A = refDescr(m.data(), t.data(), w, h, 1, k.x / xper, k.y / xper, k.sigma / xper, an, 3, 2, 0, false, false);
      if (A.norm < 5) continue;
      double d = 0;
      for (int i = 0; i < 128; ++i) d = std::max(d, (double)fabs(a[i] - b[i]));
      if (!(d < 3e-3)) snprintf(msg, sizeof msg, "descriptor at (%g,%g,%g) changes by %g under gain %g offset %g", k.x, k.y, k.sigma, d, gain, off);
      ++judged;
    }
    e1 = vl_sift_process_next_octave(s.f); e2 = vl_sift_process_next_octave(g);
  }
  vl_sift_delete(g);
  if (msg[0]) c.fail("invariance", "%s", msg);
  c.count("pairs judged", judged);
  if (judged) c.nontrivial(s.im, fnv(&gain, 8));
}

// ------------------------------------------------------------------ C27
struct DSetup {
  long w, h; int sx, sy, x0, y0, x1, y1; bool flat; double win;
  VlDsiftDescriptorGeometry g;
  DSetup(Rng &r) {
    w = r.range(2, 34); h = r.range(2, 34);
    if (r.chance(.03)) w = 1;
    if (r.chance(.03)) h = 1;
    set(r);
  }
  void set(Rng &r) {
    sx = (int)r.range(1, 6); sy = (int)r.range(1, 6);
    x0 = 0; y0 = 0; x1 = (int)w - 1; y1 = (int)h - 1;
    if (r.chance(.5)) { x0 = (int)r.range(0, w - 1); x1 = (int)r.range(x0, w - 1); y0 = (int)r.range(0, h - 1); y1 = (int)r.range(y0, h - 1); }
    if (r.chance(.3)) { x0 /= 4; y0 /= 4; }
    flat = r.chance(.5);
    win = r.chance(.5) ? 2 : r.uni(.2, 6);
    if (r.chance(.4)) { g.numBinX = g.numBinY = 4; g.numBinT = 8; } else { g.numBinX = (int)r.range(1, 5); g.numBinY = (int)r.range(1, 5); g.numBinT = (int)r.range(1, 12); }
    g.binSizeX = (int)r.range(1, 7); g.binSizeY = r.chance(.4) ? g.binSizeX : (int)r.range(1, 7);
  }
  void apply(VlDsiftFilter *f) {
    vl_dsift_set_steps(f, sx, sy); vl_dsift_set_bounds(f, x0, y0, x1, y1); vl_dsift_set_geometry(f, &g); vl_dsift_set_flat_window(f, flat); vl_dsift_set_window_size(f, win);
  }
  void describe(Ctx &c) { c.desc("%ldx%ld steps %d,%d bounds [%d,%d]x[%d,%d] bins %dx%dx%d size %dx%d flat %d window %g", w, h, sx, sy, x0, x1, y0, y1, g.numBinT, g.numBinX, g.numBinY, g.binSizeX, g.binSizeY, flat, win); }
};
// one descriptor whose first bin is at (fx,fy), before normalisation
static void refDsift(DSetup const &s, std::vector<double> const &mod, std::vector<double> const &ang, long fx, long fy, std::vector<double> &d) {
  int T = s.g.numBinT;
  d.assign((size_t)T * s.g.numBinX * s.g.numBinY, 0);
  auto gw = [&](double off, int size) { double z = off / (size * s.win); return exp(-.5 * z * z); };
  auto mean = [&](double delta, int size) { double a = 0; for (int u = -size + 1; u < size; ++u) a += gw(u + delta, size); return a / (2 * size - 1); };
  for (int j = 0; j < s.g.numBinY; ++j) for (int i = 0; i < s.g.numBinX; ++i) {
    double dX = s.g.binSizeX * (i - .5 * (s.g.numBinX - 1)), dY = s.g.binSizeY * (j - .5 * (s.g.numBinY - 1));
    long cx = fx + i * s.g.binSizeX, cy = fy + j * s.g.binSizeY;
    double mm = s.flat ? mean(dX, s.g.binSizeX) * mean(dY, s.g.binSizeY) : 1;
    for (long v = -s.g.binSizeY + 1; v < s.g.binSizeY; ++v) for (long u = -s.g.binSizeX + 1; u < s.g.binSizeX; ++u) {
      double wt = (1 - fabs((double)u) / s.g.binSizeX) * (1 - fabs((double)v) / s.g.binSizeY) * (s.flat ? mm : gw(u + dX, s.g.binSizeX) * gw(v + dY, s.g.binSizeY));
      long px = std::min(std::max(cx + u, 0L), s.w - 1), py = std::min(std::max(cy + v, 0L), s.h - 1);
      double nt = T * ang[py * s.w + px] / (2 * PI), b = floor(nt), m = wt * mod[py * s.w + px];
      d[(size_t)(j * s.g.numBinX + i) * T + (long)b % T] += m * (1 - (nt - b));
      d[(size_t)(j * s.g.numBinX + i) * T + ((long)b + 1) % T] += m * (nt - b);
    }
  }
}
static void judgeDsift(Ctx &c, DSetup const &s, VlDsiftFilter *f, std::vector<float> const &im, double scale) {
  std::vector<double> m[2], a[2];
  gradient(im.data(), s.w, s.h, m[0], a[0], false);
  gradient(im.data(), s.w, s.h, m[1], a[1], true);
  long fsx = s.g.binSizeX * (s.g.numBinX - 1) + 1, fsy = s.g.binSizeY * (s.g.numBinY - 1) + 1, n = 0;
  long D = (long)s.g.numBinT * s.g.numBinX * s.g.numBinY;
  if (vl_dsift_get_descriptor_size(f) != D) c.fail("dsize", "descriptor size %d", vl_dsift_get_descriptor_size(f));
  long N = vl_dsift_get_keypoint_num(f);
  VlDsiftKeypoint const *k = vl_dsift_get_keypoints(f);
  float const *p = vl_dsift_get_descriptors(f);
  for (long y = s.y0; y + fsy - 1 <= s.y1; y += s.sy) for (long x = s.x0; x + fsx - 1 <= s.x1; x += s.sx, ++n) {
    if (n >= N) c.fail("grid", "only %ld keypoints", N);
    if (k[n].x != x + .5 * (fsx - 1) || k[n].y != y + .5 * (fsy - 1)) c.fail("grid-position", "keypoint %ld at (%g,%g), expected (%g,%g)", n, k[n].x, k[n].y, x + .5 * (fsx - 1), y + .5 * (fsy - 1));
    bool good = false;
    char msg[200] = "";
    for (int v = 0; v < 2 && !good; ++v) {
      std::vector<double> d;
      refDsift(s, m[v], a[v], x, y, d);
      double mass = 0, mx = 0;
      for (double q : d) mass += q;
      mass /= fsx * fsy;
      double abstol = s.flat ? 1e-6 * scale * s.g.binSizeX * s.g.binSizeY : 1e-9 * scale; // running sums accumulate over whole lines
      if (!close(k[n].norm, mass, 1e-4, abstol * D / (fsx * fsy))) { if (!v) snprintf(msg, sizeof msg, "norm of keypoint %ld is %g, expected %g", n, k[n].norm, mass); else { size_t l = strlen(msg); snprintf(msg + l, sizeof msg - l, " or %g", mass); } continue; }
      double nr = normalise(d);
      if (nr < 1e3 * abstol) { good = true; c.count("too faint to judge"); break; }
      for (auto &q : d) q = std::min(q, .2);
      normalise(d);
      good = true;
      for (long i = 0; i < D; ++i) { double e = fabs(p[n * D + i] - d[i]); if (!(e < 1e-3)) { good = false; if (!v) snprintf(msg, sizeof msg, "keypoint %ld component %ld is %g, expected %g", n, i, p[n * D + i], d[i]); } mx = std::max(mx, e); }
    }
    if (!good) c.fail(strstr(msg, "norm of") ? "norm" : "dense", "%s", msg);
    for (long i = 0; i < D; ++i) if (!(p[n * D + i] >= -1e-5 && p[n * D + i] <= 1.00001)) c.fail("drange", "keypoint %ld component %ld is %g", n, i, p[n * D + i]);
    c.count("dense descriptors judged");
  }
  if (n != N) c.fail("grid", "%ld keypoints, the grid has %ld", N, n);
}
VT_GROUP(C27, dense, 2500, 25000) {
  Rng &r = c.rng;
  DSetup s(r);
  double scale = r.chance(.5) ? 1 : pow(10, r.uni(-2, 3));
  s.describe(c);
  { size_t l = strlen(c.desc_); snprintf(c.desc_ + l, sizeof c.desc_ - l, " scale %g", scale); }
  std::vector<float> im = image<float>(r, s.w, s.h, 0, scale);
  VlDsiftFilter *f = vl_dsift_new((int)s.w, (int)s.h);
  s.apply(f);
  int q[4], st[2];
  vl_dsift_get_bounds(f, q, q + 1, q + 2, q + 3); vl_dsift_get_steps(f, st, st + 1);
  if (q[0] != s.x0 || q[1] != s.y0 || q[2] != s.x1 || q[3] != s.y1 || st[0] != s.sx || st[1] != s.sy || memcmp(vl_dsift_get_geometry(f), &s.g, sizeof s.g) || !vl_dsift_get_flat_window(f) != !s.flat || vl_dsift_get_window_size(f) != s.win) { vl_dsift_delete(f); c.fail("settings", "settings read back differ"); }
  vl_dsift_process(f, im.data());
  struct G { VlDsiftFilter *f; ~G() { vl_dsift_delete(f); } } guard{f};
  judgeDsift(c, s, f, im, scale);
  if (vl_dsift_get_keypoint_num(f)) c.nontrivial(im, (uint64_t)(s.flat + 2 * s.g.numBinT + 64 * s.g.binSizeX));
}
VT_GROUP(C27, transpose, 3000, 30000) {
  Rng &r = c.rng;
  DSetup s(r);
  s.g.numBinT = 4 * (int)r.range(1, 3);
  s.describe(c);
  std::vector<float> im = image<float>(r, s.w, s.h, 0, 1), it(im.size());
  for (long y = 0; y < s.h; ++y) for (long x = 0; x < s.w; ++x) it[x * s.h + y] = im[y * s.w + x];
  DSetup t = s;
  std::swap(t.w, t.h); std::swap(t.sx, t.sy); std::swap(t.x0, t.y0); std::swap(t.x1, t.y1); std::swap(t.g.numBinX, t.g.numBinY); std::swap(t.g.binSizeX, t.g.binSizeY);
  VlDsiftFilter *f = vl_dsift_new((int)s.w, (int)s.h), *g = vl_dsift_new((int)t.w, (int)t.h);
  struct G { VlDsiftFilter *f; ~G() { vl_dsift_delete(f); } } g1{f}, g2{g};
  s.apply(f); t.apply(g);
  vl_dsift_process(f, im.data()); vl_dsift_process(g, it.data());
  long n = vl_dsift_get_keypoint_num(f), D = vl_dsift_get_descriptor_size(f);
  if (vl_dsift_get_keypoint_num(g) != n) c.fail("tgrid", "%ld and %d keypoints", n, vl_dsift_get_keypoint_num(g));
  std::vector<float> tr(D);
  for (long i = 0; i < n; ++i) {
    VlDsiftKeypoint const &k = vl_dsift_get_keypoints(f)[i];
    for (long j = 0; j < n; ++j) {
      VlDsiftKeypoint const &l = vl_dsift_get_keypoints(g)[j];
      if (l.x != k.y || l.y != k.x) continue;
      if (!close(k.norm, l.norm, 5e-3, 1e-4)) c.fail("tnorm", "norm %g, transposed %g", k.norm, l.norm);
      if (k.norm < 1e-2) break;
      for (auto &v : tr) v = -9;
      vl_dsift_transpose_descriptor(tr.data(), vl_dsift_get_descriptors(f) + i * D, s.g.numBinT, s.g.numBinX, s.g.numBinY);
      for (long q = 0; q < D; ++q) if (!close(tr[q], vl_dsift_get_descriptors(g)[j * D + q], 0, 1.5e-2)) c.fail("transpose", "component %ld of the transposed descriptor is %g, of the transposed image %g", q, tr[q], vl_dsift_get_descriptors(g)[j * D + q]);
      c.count("transposed descriptors judged");
      break;
    }
  }
  // twice is the identity
  std::vector<float> a(D), b(D), d(D);
  for (auto &v : a) v = (float)r.uni();
  vl_dsift_transpose_descriptor(b.data(), a.data(), s.g.numBinT, s.g.numBinX, s.g.numBinY);
  vl_dsift_transpose_descriptor(d.data(), b.data(), s.g.numBinT, s.g.numBinY, s.g.numBinX);
  if (a != d) c.fail("involution", "transposing twice changes the descriptor");
  if (n) c.nontrivial(im);
}

// ------------------------------------------------------------------ C42
static void fullRun(VlSiftFilt *f, std::vector<float> const &im, long octaves, uint64_t hist, std::vector<float> &out) {
  out.clear();
  int err = vl_sift_process_first_octave(f, im.data());
  for (long o = 0; !err && o < octaves; ++o) {
    if (vl_sift_get_octave_width(f) < 2 || vl_sift_get_octave_height(f) < 2) break;
    vl_sift_detect(f);
    long n = vl_sift_get_nkeypoints(f);
    out.push_back((float)n);
    for (long i = 0; i < n; ++i) {
      VlSiftKeypoint k = vl_sift_get_keypoints(f)[i];
      out.push_back(k.x); out.push_back(k.y); out.push_back(k.sigma); out.push_back(k.s);
      double an[4];
      if (!(hist >> (i & 31) & 1)) {
        int m = vl_sift_calc_keypoint_orientations(f, an, &k);
        for (int q = 0; q < m; ++q) { out.push_back((float)an[q]); size_t z = out.size(); out.resize(z + 128); vl_sift_calc_keypoint_descriptor(f, &out[z], &k, an[q]); }
      } else { size_t z = out.size(); out.resize(z + 128); vl_sift_calc_keypoint_descriptor(f, &out[z], &k, .3); }
    }
    VlSiftKeypoint k;
    vl_sift_keypoint_init(f, &k, .4 * vl_sift_get_octave_width(f) * pow(2., vl_sift_get_octave_index(f)), .4 * vl_sift_get_octave_height(f) * pow(2., vl_sift_get_octave_index(f)), 1.9 * pow(2., vl_sift_get_octave_index(f)));
    if (k.o == vl_sift_get_octave_index(f)) { size_t z = out.size(); out.resize(z + 128); vl_sift_calc_keypoint_descriptor(f, &out[z], &k, .3); }
    err = vl_sift_process_next_octave(f);
  }
}
VT_GROUP(C42, sift, 800, 8000) {
  Setup s(c);
  Rng &r = c.rng;
  s.describe(c);
  s.make();
  long runs = r.range(2, 4);
  std::vector<float> out, ref;
  uint64_t seen = 1;
  for (long q = 0; q < runs; ++q) {
    std::vector<float> im = image<float>(r, s.w, s.h, 0, s.scale);
    if (r.chance(.3)) { s.tp = r.chance(.5) ? 0 : s.scale * .01; s.te = r.uni(1, 20); vl_sift_set_peak_thresh(s.f, s.tp); vl_sift_set_edge_thresh(s.f, s.te); }
    double mg = r.uni(1, 4), wn = r.uni(.5, 3), nt = r.chance(.7) ? 0 : .01 * s.scale;
    vl_sift_set_magnif(s.f, mg); vl_sift_set_window_size(s.f, wn); vl_sift_set_norm_thresh(s.f, nt);
    if (vl_sift_get_magnif(s.f) != mg || vl_sift_get_window_size(s.f) != wn || vl_sift_get_norm_thresh(s.f) != nt || vl_sift_get_peak_thresh(s.f) != s.tp || vl_sift_get_edge_thresh(s.f) != s.te) c.fail("sift-get", "a setting read back differs");
    long oct = r.chance(.5) ? 99 : r.range(1, 2); // stop after a few octaves
    uint64_t hist = r.u64();
    fullRun(s.f, im, oct, hist, out);
    VlSiftFilt *g = vl_sift_new((int)s.w, (int)s.h, s.O, s.S, s.o_min);
    vl_sift_set_peak_thresh(g, s.tp); vl_sift_set_edge_thresh(g, s.te);
    vl_sift_set_magnif(g, mg); vl_sift_set_window_size(g, wn); vl_sift_set_norm_thresh(g, nt);
    fullRun(g, im, oct, hist, ref);
    vl_sift_delete(g);
    if (out.size() != ref.size()) c.fail("sift-reuse", "image %ld: %zu values, %zu from a new filter", q, out.size(), ref.size());
    for (size_t i = 0; i < out.size(); ++i) if (memcmp(&out[i], &ref[i], 4)) c.fail("sift-reuse", "image %ld: value %zu is %g, %g from a new filter", q, i, out[i], ref[i]);
    if (q && out.size() > 20) { seen = fnv(im.data(), im.size() * 4, seen); c.count("reuses judged"); }
  }
  if (seen != 1) c.nontrivial(seen);
}
VT_GROUP(C42, dsift, 800, 8000) {
  Rng &r = c.rng;
  DSetup s(r);
  VlDsiftFilter *f = vl_dsift_new((int)s.w, (int)s.h), *g = 0;
  struct G { VlDsiftFilter *&f, *&g; ~G() { vl_dsift_delete(f); if (g) vl_dsift_delete(g); } } guard{f, g};
  uint64_t seen = 1;
  for (int q = 0; q < 4; ++q) {
    if (q && r.chance(.8)) {
      DSetup o = s;
      s.set(r);
      if (r.chance(.3)) { s.g = o.g; if (r.chance(.5)) { std::swap(s.g.numBinX, s.g.numBinY); } }
    }
    s.describe(c);
    s.apply(f);
    std::vector<float> im = image<float>(r, s.w, s.h, 0, 1);
    vl_dsift_process(f, im.data());
    g = vl_dsift_new((int)s.w, (int)s.h);
    s.apply(g);
    vl_dsift_process(g, im.data());
    long n = vl_dsift_get_keypoint_num(f), D = vl_dsift_get_descriptor_size(f);
    if (vl_dsift_get_keypoint_num(g) != n || vl_dsift_get_descriptor_size(g) != D) c.fail("dsift-reuse", "%ld x %ld, new filter %d x %d", n, D, vl_dsift_get_keypoint_num(g), vl_dsift_get_descriptor_size(g));
    for (long i = 0; i < n * D; ++i) if (vl_dsift_get_descriptors(f)[i] != vl_dsift_get_descriptors(g)[i]) c.fail("dsift-reuse", "image %d component %ld is %g, %g from a new filter", q, i, vl_dsift_get_descriptors(f)[i], vl_dsift_get_descriptors(g)[i]);
    for (long i = 0; i < n; ++i) if (vl_dsift_get_keypoints(f)[i].x != vl_dsift_get_keypoints(g)[i].x || vl_dsift_get_keypoints(f)[i].norm != vl_dsift_get_keypoints(g)[i].norm) c.fail("dsift-reuse", "image %d keypoint %ld differs", q, i);
    vl_dsift_delete(g); g = 0;
    if (q && n) { seen = fnv(im.data(), im.size() * 4, seen); c.count("reuses judged"); }
  }
  if (seen != 1) c.nontrivial(seen);
}
