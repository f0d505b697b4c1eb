// Gaussian scale space (C31) and its reuse (C42).
#include "vt.h"
#include "gen.h"
extern "C" {
#include <vl/scalespace.h>
}
using namespace vt;
typedef std::vector<double> Img;

static Img smoothRef(Img const &a, long w, long h, double sigma) {
  long W = (long)ceil(3 * sigma);
  std::vector<double> k(2 * W + 1);
  double m = 0;
  for (long i = -W; i <= W; ++i) m += k[i + W] = i ? exp(-.5 * (i / sigma) * (i / sigma)) : 1;
  for (auto &v : k) v /= m;
  Img t(a.size()), o(a.size());
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) { double v = 0; for (long i = -W; i <= W; ++i) v += k[i + W] * a[std::min(std::max(y + i, 0L), h - 1) * w + x]; t[y * w + x] = v; }
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) { double v = 0; for (long i = -W; i <= W; ++i) v += k[i + W] * t[y * w + std::min(std::max(x + i, 0L), w - 1)]; o[y * w + x] = v; }
  return o;
}
static Img up(Img const &a, long w, long h) {
  Img b(4 * w * h);
  for (long y = 0; y < 2 * h; ++y) for (long x = 0; x < 2 * w; ++x) {
    long x0 = x / 2, x1 = std::min(x0 + (x & 1), w - 1), y0 = y / 2, y1 = std::min(y0 + (y & 1), h - 1);
    b[y * 2 * w + x] = .25 * (a[y0 * w + x0] + a[y0 * w + x1] + a[y1 * w + x0] + a[y1 * w + x1]);
  }
  return b;
}
static Img down(Img const &a, long w, long h, long o) {
  long w2 = w >> o, h2 = h >> o;
  Img b(w2 * h2);
  for (long y = 0; y < h2; ++y) for (long x = 0; x < w2; ++x) b[y * w2 + x] = a[(y << o) * w + (x << o)];
  return b;
}
static long sh(long n, long o) { return o >= 0 ? n >> o : n << -o; }
static VlScaleSpaceGeometry geometry(Rng &r, bool fine) {
  VlScaleSpaceGeometry g;
  g.width = r.range(1, 40); g.height = r.range(1, 40);
  if (r.chance(.1)) g.width = r.range(1, 3);
  g.firstOctave = r.range(-2, 1);
  if (r.chance(.1)) g.firstOctave = -3;
  if (g.firstOctave <= -2) { g.width = 1 + g.width / 3; g.height = 1 + g.height / 3; }
  long most = 0;
  while ((2L << most) <= (long)std::min(g.width, g.height)) ++most;
  if (g.firstOctave > most) g.firstOctave = most;
  g.lastOctave = r.range(g.firstOctave, most);
  g.octaveResolution = r.range(1, fine ? 3 : 5);
  if (!fine && r.chance(.1)) g.octaveResolution = r.range(6, 24);
  g.octaveFirstSubdivision = r.range(-2, 2);
  g.octaveLastSubdivision = g.octaveFirstSubdivision + r.range(0, (long)g.octaveResolution + 3);
  g.baseScale = r.chance(.3) ? 1.6 * pow(2., 1. / g.octaveResolution) : r.uni(.3, 3);
  g.nominalScale = r.chance(.4) ? .5 : r.chance(.3) ? 0 : r.uni(0, 1.5);
  return g;
}
static void describe(Ctx &c, VlScaleSpaceGeometry const &g) {
  c.desc("image %llux%llu octaves %lld..%lld resolution %llu subdivisions %lld..%lld base %.17g nominal %.17g", g.width, g.height, g.firstOctave, g.lastOctave, g.octaveResolution, g.octaveFirstSubdivision, g.octaveLastSubdivision, g.baseScale, g.nominalScale);
}
struct Space {
  VlScaleSpace *s;
  Space(VlScaleSpace *s_) : s(s_) {}
  ~Space() { if (s) vl_scalespace_delete(s); }
  operator VlScaleSpace *() { return s; }
};
static bool same(VlScaleSpaceGeometry const &a, VlScaleSpaceGeometry const &b) {
  return a.width == b.width && a.height == b.height && a.firstOctave == b.firstOctave && a.lastOctave == b.lastOctave && a.octaveResolution == b.octaveResolution &&
    a.octaveFirstSubdivision == b.octaveFirstSubdivision && a.octaveLastSubdivision == b.octaveLastSubdivision && a.baseScale == b.baseScale && a.nominalScale == b.nominalScale;
}
static void octaveChecks(Ctx &c, VlScaleSpace *s, VlScaleSpaceGeometry const &g) {
  if (!same(vl_scalespace_get_geometry(s), g)) c.fail("geometry", "geometry read back differs");
  for (long o = g.firstOctave; o <= g.lastOctave; ++o) {
    VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(s, o);
    if ((long)og.width != sh((long)g.width, o) || (long)og.height != sh((long)g.height, o) || og.step != pow(2., (double)o)) c.fail("octave", "octave %ld is %llu x %llu step %g", o, og.width, og.height, og.step);
    for (long q = g.octaveFirstSubdivision; q <= g.octaveLastSubdivision; ++q) {
      double sg = vl_scalespace_get_level_sigma(s, o, q), want = g.baseScale * pow(2., o + (double)q / g.octaveResolution);
      if (!close(sg, want, 1e-12, 0)) c.fail("sigma", "level (%ld,%ld) reports %g, expected %g", o, q, sg, want);
      if (vl_scalespace_get_level_const(s, o, q) != vl_scalespace_get_level(s, o, q)) c.fail("level", "const level differs");
    }
  }
}
// the pyramid built by incremental smoothing, in double precision
VT_GROUP(C31, levels, 2500, 25000) {
  Rng &r = c.rng;
  VlScaleSpaceGeometry g = geometry(r, false);
  describe(c, g);
  long w = (long)g.width, h = (long)g.height;
  std::vector<float> im = image<float>(r, w, h, 0, r.chance(.7) ? 1 : pow(10, r.uni(-3, 3))), in = im;
  Space s(vl_scalespace_new_with_geometry(g));
  vl_scalespace_put_image(s, in.data());
  if (memcmp(in.data(), im.data(), im.size() * 4)) c.fail("input", "the image was modified");
  octaveChecks(c, s, g);
  double mag = 0;
  for (float v : im) mag = std::max(mag, (double)fabsf(v));
  Img a(im.begin(), im.end()), prev;
  double prevSigma = 0;
  uint64_t hash = 1;
  auto sigma = [&](long o, long q) { return g.baseScale * pow(2., o + (double)q / g.octaveResolution); };
  long f = (long)g.octaveFirstSubdivision, l = (long)g.octaveLastSubdivision, R = (long)g.octaveResolution;
  for (long o = g.firstOctave; o <= g.lastOctave; ++o) {
    long W = sh(w, o), H = sh(h, o);
    double step = pow(2., (double)o);
    Img cur, keep;
    if (o == g.firstOctave) {
      cur = a;
      for (long q = 0, cw = w, chh = h; q > o; --q, cw *= 2, chh *= 2) cur = up(cur, cw, chh);
      if (o > 0) cur = down(a, w, h, o);
      prevSigma = g.nominalScale;
    } else {
      cur = down(prev, sh(w, o - 1), sh(h, o - 1), 1);
    }
    long pick = std::min(f + R, l);
    for (long q = f; q <= l; ++q) {
      double sg = sigma(o, q), d2 = sg * sg - prevSigma * prevSigma;
      if (q > f || sg > prevSigma * (1 + 1e-12)) {
        if (d2 > 0) {
          double d = sqrt(d2) / step;
          if (fabs(3 * d - floor(3 * d + .5)) < 1e-5 && d > .1) throw Skip(); // kernel width undecided
          cur = smoothRef(cur, W, H, d);
        }
        prevSigma = sg;
      } else if (q == f) prevSigma = sg; // finer than the input: left as it is
      float const *lev = vl_scalespace_get_level(s, o, q);
      for (long i = 0; i < W * H; ++i) if (!(fabs(lev[i] - cur[i]) <= 2e-5 * mag)) c.fail("level", "octave %ld level %ld pixel (%ld,%ld) is %.9g, expected %.9g", o, q, i % W, i / W, lev[i], cur[i]);
      c.count("levels judged"); c.count("pixels judged", (double)W * H);
      hash = fnv(cur.data(), cur.size() * 8, hash);
      if (q == pick) keep = cur;
    }
    prev = keep;
    prevSigma = sigma(o, pick);
  }
  c.nontrivial(hash);
}
// sinusoids are attenuated as a Gaussian of the reported scale attenuates them
VT_GROUP(C31, attenuation, 400, 4000) {
  Rng &r = c.rng;
  VlScaleSpaceGeometry g = geometry(r, true);
  g.width = r.range(60, 110); g.height = r.range(60, 110);
  g.firstOctave = r.range(-1, 0); g.lastOctave = r.range(g.firstOctave, 2);
  g.octaveFirstSubdivision = r.range(-1, 0);
  g.octaveLastSubdivision = (long)g.octaveResolution + r.range(-1, 1);
  if (g.octaveLastSubdivision < g.octaveFirstSubdivision) g.octaveLastSubdivision = g.octaveFirstSubdivision;
  g.baseScale = r.uni(1.8, 3); g.nominalScale = .5;
  describe(c, g);
  long w = (long)g.width, h = (long)g.height;
  double top = g.baseScale * pow(2., g.lastOctave + (double)g.octaveLastSubdivision / g.octaveResolution);
  double om = std::min(.3, r.uni(.3, 1.3) / top), th = r.uni(0, 6.2832), ox = om * cos(th), oy = om * sin(th), ph = r.uni(0, 6.28);
  std::vector<float> im(w * h);
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) im[y * w + x] = (float)(.5 + cos(ox * x + oy * y + ph));
  Space s(vl_scalespace_new_with_geometry(g));
  vl_scalespace_put_image(s, im.data());
  double pts = 0;
  for (long o = g.firstOctave; o <= g.lastOctave; ++o) for (long q = g.octaveFirstSubdivision; q <= g.octaveLastSubdivision; ++q) {
    VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(s, o);
    double sg = vl_scalespace_get_level_sigma(s, o, q), att = exp(-.5 * om * om * (sg * sg - .25)), m = 4 * sg + 3;
    float const *lev = vl_scalespace_get_level(s, o, q);
    for (long y = 0; y < (long)og.height; ++y) for (long x = 0; x < (long)og.width; ++x) {
      double X = x * og.step, Y = y * og.step;
      if (X < m || Y < m || X > w - 1 - m || Y > h - 1 - m) continue;
      double want = .5 + att * cos(ox * X + oy * Y + ph), got = lev[y * og.width + x];
      ++pts;
      if (!(fabs(got - want) <= .03)) c.fail("attenuation", "octave %ld level %ld (sigma %g) pixel (%ld,%ld) is %g, a Gaussian gives %g", o, q, sg, x, y, got, want);
    }
  }
  c.count("attenuation pixels judged", pts);
  if (pts) c.nontrivial(im);
}
VT_GROUP(C31, geometry, 1500, 15000) {
  Rng &r = c.rng;
  long w = r.range(1, 300), h = r.range(1, 300);
  if (r.chance(.3)) { w = 1L << r.range(0, 8); h = 1L << r.range(0, 8); }
  c.desc("default %ldx%ld", w, h);
  VlScaleSpaceGeometry d = vl_scalespace_get_default_geometry(w, h);
  long lg = 0;
  while ((2L << lg) <= std::min(w, h)) ++lg;
  if ((long)d.width != w || (long)d.height != h || d.firstOctave != 0 || d.lastOctave != std::max(lg - 3, 0L) || d.octaveResolution != 3 || d.octaveFirstSubdivision != 0 || d.octaveLastSubdivision != 2 || !close(d.baseScale, 1.6 * pow(2., 1. / 3), 1e-12, 0) || d.nominalScale != .5)
    c.fail("default-geometry", "last octave %lld", d.lastOctave);
  if (w * h < 20000) {
    Space s(vl_scalespace_new(w, h));
    octaveChecks(c, s, d);
  }
  // equality of geometries is equality of every field
  VlScaleSpaceGeometry a = geometry(r, false), b = a;
  long k = r.range(0, 9);
  switch (k) {
  case 0: b.width++; break; case 1: b.height++; break; case 2: b.firstOctave--; break; case 3: b.lastOctave++; break;
  case 4: b.octaveResolution++; break; case 5: b.octaveFirstSubdivision--; break; case 6: b.octaveLastSubdivision++; break;
  case 7: b.baseScale *= 1.5; break; case 8: b.nominalScale += .25; break; default: break;
  }
  if (!!vl_scalespacegeometry_is_equal(a, b) != same(a, b)) c.fail("geometry-equal", "geometries %s but compare %s (field %ld)", same(a, b) ? "are equal" : "differ", same(a, b) ? "different" : "equal", k);
  c.nontrivial(w * 1000 + h * 10 + k);
}
VT_GROUP(C31, copies, 600, 6000) {
  Rng &r = c.rng;
  VlScaleSpaceGeometry g = geometry(r, false);
  describe(c, g);
  std::vector<float> im = image<float>(r, (long)g.width, (long)g.height, 0, 1), im2 = image<float>(r, (long)g.width, (long)g.height, 0, 1);
  VlScaleSpace *s = vl_scalespace_new_with_geometry(g);
  vl_scalespace_put_image(s, im.data());
  Space t(vl_scalespace_new_copy(s)), u(vl_scalespace_new_shallow_copy(s));
  octaveChecks(c, t, g);
  octaveChecks(c, u, g);
  vl_scalespace_put_image(u, im.data());
  std::vector<float> all;
  size_t at = 0;
  for (int pass = 0; pass < 2; ++pass) {
    for (long o = g.firstOctave; o <= g.lastOctave; ++o) for (long q = g.octaveFirstSubdivision; q <= g.octaveLastSubdivision; ++q) {
      size_t n = sh((long)g.width, o) * sh((long)g.height, o);
      if (!pass) {
        float const *p = vl_scalespace_get_level(s, o, q);
        all.insert(all.end(), p, p + n);
      } else at += n;
      float const *a = pass ? &all[at - n] : &all[all.size() - n];
      if (memcmp(a, vl_scalespace_get_level(t, o, q), n * 4)) c.fail("copy", "copy differs at octave %ld level %ld (pass %d)", o, q, pass);
      if (memcmp(a, vl_scalespace_get_level(u, o, q), n * 4)) c.fail("copy", "shallow copy of the geometry differs at octave %ld level %ld (pass %d)", o, q, pass);
    }
    if (!pass) { vl_scalespace_put_image(s, im2.data()); vl_scalespace_delete(s); } // the copies are independent
  }
  c.nontrivial(all);
}
VT_GROUP(C42, scalespace, 400, 4000) {
  Rng &r = c.rng;
  VlScaleSpaceGeometry g = geometry(r, false);
  describe(c, g);
  Space s(vl_scalespace_new_with_geometry(g));
  uint64_t seen = 1;
  for (int k = 0; k < 3; ++k) {
    std::vector<float> im = image<float>(r, (long)g.width, (long)g.height, 0, 1);
    vl_scalespace_put_image(s, im.data());
    Space t(vl_scalespace_new_with_geometry(g));
    vl_scalespace_put_image(t, im.data());
    for (long o = g.firstOctave; o <= g.lastOctave; ++o) for (long q = g.octaveFirstSubdivision; q <= g.octaveLastSubdivision; ++q) {
      size_t n = sh((long)g.width, o) * sh((long)g.height, o);
      if (memcmp(vl_scalespace_get_level(s, o, q), vl_scalespace_get_level(t, o, q), n * 4)) c.fail("scalespace-reuse", "image %d octave %ld level %ld differs from a new space", k, o, q);
    }
    if (k) { seen = fnv(im.data(), im.size() * 4, seen); c.count("reuses judged"); }
    // user code may scribble on the levels between images
    for (long o = g.firstOctave; o <= g.lastOctave; ++o) for (long q = g.octaveFirstSubdivision; q <= g.octaveLastSubdivision; ++q) {
      size_t n = sh((long)g.width, o) * sh((long)g.height, o);
      if (r.chance(.5)) for (size_t i = 0; i < n; ++i) vl_scalespace_get_level(s, o, q)[i] = -9;
    }
  }
  c.nontrivial(seen);
}
