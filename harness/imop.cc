// C12 column convolution, C13 smoothing, gradients, integral images, distance transforms.
#include "gen.h"
extern "C" {
#include <vl/imopv.h>
#include <vl/mathop.h>
}
using namespace vt;

template <class T> struct F;
template <> struct F<float> {
  static double eps() { return 1.2e-7; }
  static void conv(float *d, vl_size ds, float const *s, vl_size w, vl_size h, vl_size ss, float const *f, vl_index b, vl_index e, int st, unsigned fl) { vl_imconvcol_vf(d, ds, s, w, h, ss, f, b, e, st, fl); }
  static void tri(float *d, vl_size ds, float const *s, vl_size w, vl_size h, vl_size ss, vl_size n, vl_size st, unsigned fl) { vl_imconvcoltri_f(d, ds, s, w, h, ss, n, st, fl); }
  static void smooth(float *d, vl_size ds, float const *s, vl_size w, vl_size h, vl_size ss, double x, double y) { vl_imsmooth_f(d, ds, s, w, h, ss, x, y); }
  static void grad(float *a, float *b, vl_size ws, vl_size hs, float const *s, vl_size w, vl_size h, vl_size ss) { vl_imgradient_f(a, b, ws, hs, s, w, h, ss); }
  static void polar(float *a, float *b, vl_size ws, vl_size hs, float const *s, vl_size w, vl_size h, vl_size ss) { vl_imgradient_polar_f(a, b, ws, hs, s, w, h, ss); }
  static void dt(float const *i, vl_size c, vl_size r, vl_size cs, vl_size rs, float *d, vl_uindex *x, float k, float o) { vl_image_distance_transform_f(i, c, r, cs, rs, d, x, k, o); }
};
template <> struct F<double> {
  static double eps() { return 2.3e-16; }
  static void conv(double *d, vl_size ds, double const *s, vl_size w, vl_size h, vl_size ss, double const *f, vl_index b, vl_index e, int st, unsigned fl) { vl_imconvcol_vd(d, ds, s, w, h, ss, f, b, e, st, fl); }
  static void tri(double *d, vl_size ds, double const *s, vl_size w, vl_size h, vl_size ss, vl_size n, vl_size st, unsigned fl) { vl_imconvcoltri_d(d, ds, s, w, h, ss, n, st, fl); }
  static void smooth(double *d, vl_size ds, double const *s, vl_size w, vl_size h, vl_size ss, double x, double y) { vl_imsmooth_d(d, ds, s, w, h, ss, x, y); }
  static void grad(double *a, double *b, vl_size ws, vl_size hs, double const *s, vl_size w, vl_size h, vl_size ss) { vl_imgradient_d(a, b, ws, hs, s, w, h, ss); }
  static void polar(double *a, double *b, vl_size ws, vl_size hs, double const *s, vl_size w, vl_size h, vl_size ss) { vl_imgradient_polar_d(a, b, ws, hs, s, w, h, ss); }
  static void dt(double const *i, vl_size c, vl_size r, vl_size cs, vl_size rs, double *d, vl_uindex *x, double k, double o) { vl_image_distance_transform_d(i, c, r, cs, rs, d, x, k, o); }
};

// n elements that end exactly at the end of a heap block, at a chosen offset
// from 16-byte alignment: reads past the end are seen by the sanitizer
template <class T> struct Exact {
  T *base, *p;
  long n;
  Exact(long n_, long off) : n(n_) { base = (T *)malloc((n + off) * sizeof(T)); p = base + off; for (long i = 0; i < off; ++i) base[i] = 0; }
  ~Exact() { free(base); }
  Exact(Exact const &) = delete;
};

template <class T> static void fillImage(Rng &r, T *p, long w, long h, long stride, double *mx, bool ints = false) {
  std::vector<T> im = image<T>(r, w, h, 0, 1);
  double lo = 0, s = 1;
  if (r.chance(.3)) { s = 255; }
  if (r.chance(.2)) lo = -100;
  *mx = 0;
  for (long i = 0; i < (h - 1) * stride + w; ++i) p[i] = (T)77777; // padding
  for (long y = 0; y < h; ++y)
    for (long x = 0; x < w; ++x) {
      double v = lo + s * im[y * w + x];
      if (ints) v = floor(v * 8);
      p[y * stride + x] = (T)v;
      *mx = std::max(*mx, fabs((double)p[y * stride + x]));
    }
}

// ------------------------------------------------------------------ C12
template <class T> static void conv(Ctx &c) {
  Rng &r = c.rng;
  long w = r.range(1, 21), h = r.chance(.2) ? r.range(1, 3) : r.range(1, 26), step = r.chance(.6) ? 1 : r.range(2, 6);
  if (r.chance(.05)) w = r.range(40, 140);
  long ss = w + (r.chance(.5) ? r.range(0, 9) : 0);
  if (r.chance(.6)) ss = (ss + 3) / 4 * 4;
  long fb, fe;
  switch (r.range(0, 4)) {
  case 0: fe = r.range(0, 8); fb = -fe; break;
  case 1: fb = r.range(-12, 0); fe = r.range(0, 12); break;
  case 2: fb = r.range(-40, 40); fe = fb + r.range(0, 12); break;
  case 3: fe = r.range(10, 50); fb = -r.range(10, 50); break;
  default: fb = fe = r.range(-3, 3);
  }
  bool tr = r.chance(.4), cont = r.chance(.5), simd = r.chance(.6);
  long soff = r.chance(.6) ? 0 : r.range(0, 3), doff = r.range(0, 3), foff = r.range(0, 3);
  long dh = (h - 1) / step + 1, dw = w;
  long ow = tr ? dh : dw, oh = tr ? dw : dh, ds = ow + (r.chance(.5) ? r.range(0, 5) : 0);
  c.desc("conv<%s> %ldx%ld stride %ld filter [%ld,%ld] step %ld transpose %d pad %s simd %d offsets %ld %ld %ld dstStride %ld", sizeof(T) == 4 ? "float" : "double", w, h, ss, fb, fe, step, tr, cont ? "continuity" : "zero", simd, soff, doff, foff, ds);
  Exact<T> src((h - 1) * ss + w, soff), flt(fe - fb + 1, foff);
  double mx;
  fillImage(r, src.p, w, h, ss, &mx, r.chance(.3));
  double fs = 0;
  for (long i = 0; i < flt.n; ++i) { flt.p[i] = (T)(r.chance(.1) ? 0 : r.normal()); fs += fabs((double)flt.p[i]); }
  T const can = (T)-12345.5;
  Guarded<T> dst((oh - 1) * ds + ow, 16 + doff, can);
  vl_set_simd_enabled(simd);
  F<T>::conv(dst.data(), ds, src.p, w, h, ss, flt.p, fb, fe, (int)step, (tr ? VL_TRANSPOSE : 0) | (cont ? VL_PAD_BY_CONTINUITY : VL_PAD_BY_ZERO));
  vl_set_simd_enabled(1);
  if (!dst.intact()) c.fail("conv-outside", "wrote outside the destination");
  double tol = F<T>::eps() * (4 + flt.n) * mx * fs + 1e-300;
  for (long y = 0; y < oh; ++y)
    for (long x = 0; x < ds && y * ds + x < (long)dst.n; ++x) {
      double got = dst.data()[y * ds + x];
      if (x >= ow) { if (got != (double)can) c.fail("conv-stride", "wrote into the row padding at row %ld column %ld", y, x); continue; }
      long sx = tr ? y : x, sy = (tr ? x : y) * step;
      long double s = 0;
      for (long t = fb; t <= fe; ++t) {
        long p = sy - t;
        if (p < 0 || p >= h) { if (!cont) continue; p = p < 0 ? 0 : h - 1; }
        s += (long double)src.p[p * ss + sx] * flt.p[t - fb];
      }
      if (!close((double)s, got, 0, tol)) c.fail("conv-value", "at column %ld row %ld: %.9g, definition %.9g", sx, sy, got, (double)s);
    }
  c.count("convolved_pixels", (double)ow * oh);
  if (simd && !(soff * sizeof(T) % 16) && !(ss * sizeof(T) % 16)) c.count("simd_eligible");
  if (fb > 0 || fe < 0) c.count("support_without_origin");
  c.nontrivial(fnv(src.p, src.n * sizeof(T), fnv(flt.p, flt.n * sizeof(T), (uint64_t)(step * 64 + tr * 4 + cont * 2 + simd))));
}
VT_GROUP(C12, conv_f, 12000, 200000) { conv<float>(c); }
VT_GROUP(C12, conv_d, 12000, 200000) { conv<double>(c); }

template <class T> static void tri(Ctx &c) {
  Rng &r = c.rng;
  long w = r.range(1, 12), h = r.range(1, 30), step = r.chance(.6) ? 1 : r.range(2, 6);
  if (r.chance(.02)) h = 0;
  long ss = w + (r.chance(.5) ? r.range(0, 5) : 0), n = r.chance(.8) ? r.range(1, 9) : r.range(10, 60);
  bool tr = r.chance(.4), cont = r.chance(.5);
  long dh = h ? (h - 1) / step + 1 : 0, ow = tr ? dh : w, oh = tr ? w : dh, ds = ow + (r.chance(.5) ? r.range(0, 5) : 0);
  c.desc("tri<%s> %ldx%ld stride %ld size %ld step %ld transpose %d pad %s dstStride %ld", sizeof(T) == 4 ? "float" : "double", w, h, ss, n, step, tr, cont ? "continuity" : "zero", ds);
  Exact<T> src(h ? (h - 1) * ss + w : 0, 0);
  double mx = 0;
  if (h) fillImage(r, src.p, w, h, ss, &mx);
  T const can = (T)-12345.5;
  Guarded<T> dst(h ? (oh - 1) * ds + ow : 0, 16, can);
  F<T>::tri(dst.data(), ds, src.p, w, h, ss, n, step, (tr ? VL_TRANSPOSE : 0) | (cont ? VL_PAD_BY_CONTINUITY : VL_PAD_BY_ZERO));
  if (!dst.intact()) c.fail("tri-outside", "wrote outside the destination");
  if (!h) return;
  double tol = F<T>::eps() * (4 + h + 2 * n) * (h + 2 * n) * (h + 2. * n) * mx / ((double)n * n) + 1e-300;
  for (long y = 0; y < oh; ++y)
    for (long x = 0; x < ds && y * ds + x < (long)dst.n; ++x) {
      double got = dst.data()[y * ds + x];
      if (x >= ow) { if (got != (double)can) c.fail("tri-stride", "wrote into the row padding at row %ld column %ld", y, x); continue; }
      long sx = tr ? y : x, sy = (tr ? x : y) * step;
      long double s = 0;
      for (long t = -n + 1; t < n; ++t) {
        long p = sy - t;
        if (p < 0 || p >= h) { if (!cont) continue; p = p < 0 ? 0 : h - 1; }
        s += (long double)src.p[p * ss + sx] * (n - labs(t));
      }
      s /= (long double)n * n;
      if (!close((double)s, got, 0, tol)) c.fail("tri-value", "at column %ld row %ld: %.9g, definition %.9g", sx, sy, got, (double)s);
    }
  c.count("triangular_pixels", (double)ow * oh);
  c.nontrivial(fnv(src.p, src.n * sizeof(T), (uint64_t)(n * 1024 + step * 64 + tr * 4 + cont)));
}
VT_GROUP(C12, tri_f, 5000, 100000) { tri<float>(c); }
VT_GROUP(C12, tri_d, 5000, 100000) { tri<double>(c); }

// ------------------------------------------------------------------ C13
static std::vector<long double> gauss(double sigma) {
  long w = (long)ceil(sigma * 3.0);
  std::vector<long double> f(2 * w + 1);
  long double m = 0;
  for (long i = -w; i <= w; ++i) { f[i + w] = i == 0 ? 1 : expl(-.5L * ((long double)i / sigma) * ((long double)i / sigma)); m += f[i + w]; }
  for (auto &v : f) v /= m;
  return f;
}
template <class T> static void smooth(Ctx &c) {
  Rng &r = c.rng;
  long w = r.range(1, 24), h = r.range(1, 24), ss = w + (r.chance(.5) ? r.range(0, 5) : 0);
  if (r.chance(.5)) ss = (ss + 3) / 4 * 4;
  bool inplace = r.chance(.2), simd = r.chance(.7);
  long ds = inplace ? ss : w + (r.chance(.5) ? r.range(0, 5) : 0);
  double sx = r.chance(.1) ? 0 : r.uni(.05, r.chance(.2) ? 8 : 2.5), sy = r.chance(.6) ? sx : r.chance(.1) ? 0 : r.uni(.05, 3);
  c.desc("smooth<%s> %ldx%ld stride %ld dst %ld sigma %.17g %.17g inplace %d simd %d", sizeof(T) == 4 ? "float" : "double", w, h, ss, ds, sx, sy, inplace, simd);
  Exact<T> src((h - 1) * ss + w, 0);
  double mx;
  fillImage(r, src.p, w, h, ss, &mx);
  std::vector<T> orig(src.p, src.p + src.n);
  T const can = (T)-12345.5;
  Guarded<T> dst((h - 1) * ds + w, 16, can);
  T *d = inplace ? src.p : dst.data();
  vl_set_simd_enabled(simd);
  F<T>::smooth(d, ds, src.p, w, h, ss, sx, sy);
  vl_set_simd_enabled(1);
  if (!dst.intact()) c.fail("smooth-outside", "wrote outside the destination");
  std::vector<long double> fx = gauss(sx), fy = gauss(sy), tmp(w * h);
  long rx = (long)fx.size() / 2, ry = (long)fy.size() / 2;
  auto cl = [](long v, long n) { return v < 0 ? 0 : v >= n ? n - 1 : v; };
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) { long double s = 0; for (long t = -ry; t <= ry; ++t) s += fy[t + ry] * orig[cl(y - t, h) * ss + x]; tmp[y * w + x] = s; }
  double tol = F<T>::eps() * (16 + 2 * (fx.size() + fy.size())) * mx + 1e-300;
  for (long y = 0; y < h; ++y)
    for (long x = 0; x < ds && y * ds + x < (h - 1) * ds + w; ++x) {
      double got = d[y * ds + x];
      if (x >= w) { if (got != (inplace ? 77777. : (double)can)) c.fail("smooth-stride", "wrote into the row padding"); continue; }
      long double s = 0;
      for (long t = -rx; t <= rx; ++t) s += fx[t + rx] * tmp[y * w + cl(x - t, w)];
      if (!close((double)s, got, 0, tol)) c.fail("smooth-value", "at %ld,%ld: %.9g, definition %.9g", x, y, got, (double)s);
    }
  c.count("smoothed_pixels", (double)w * h);
  c.nontrivial(orig, fnv(&sx, 8, fnv(&sy, 8)));
}
VT_GROUP(C13, smooth_f, 3000, 60000) { smooth<float>(c); }
VT_GROUP(C13, smooth_d, 3000, 60000) { smooth<double>(c); }

template <class T> static void grad(Ctx &c) {
  Rng &r = c.rng;
  long w = r.chance(.15) ? r.range(1, 2) : r.range(1, 14), h = r.chance(.15) ? r.range(1, 2) : r.range(1, 14), ss = w + (r.chance(.5) ? r.range(0, 5) : 0);
  bool polar = r.chance(.5), inter = r.chance(.4);
  long ws = inter ? 2 : r.chance(.8) ? 1 : 3, hs = w * ws + (r.chance(.5) ? r.range(0, 6) : 0);
  if (r.chance(.15)) { hs = ws; ws = h * hs; } // transposed output
  c.desc("grad<%s> polar %d %ldx%ld stride %ld out strides %ld %ld interleaved %d", sizeof(T) == 4 ? "float" : "double", polar, w, h, ss, ws, hs, inter);
  Exact<T> src((h - 1) * ss + w, 0);
  double mx;
  fillImage(r, src.p, w, h, ss, &mx);
  T const can = (T)-12345.5;
  long n = (h - 1) * hs + (w - 1) * ws + 1;
  Guarded<T> a(n + 1, 16, can), b(n, 16, can);
  T *pa = a.data(), *pb = inter ? a.data() + 1 : b.data();
  if (polar) F<T>::polar(pa, pb, ws, hs, src.p, w, h, ss); else F<T>::grad(pa, pb, ws, hs, src.p, w, h, ss);
  if (!a.intact() || !b.intact()) c.fail("grad-outside", "wrote outside the gradient planes");
  double tol = F<T>::eps() * 4 * mx;
  std::vector<char> used(n + 1, 0);
  for (long y = 0; y < h; ++y)
    for (long x = 0; x < w; ++x) {
      auto I = [&](long i, long j) { return (double)src.p[j * ss + i]; };
      double gx = w < 2 ? 0 : x == 0 ? I(1, y) - I(0, y) : x == w - 1 ? I(x, y) - I(x - 1, y) : .5 * (I(x + 1, y) - I(x - 1, y));
      double gy = h < 2 ? 0 : y == 0 ? I(x, 1) - I(x, 0) : y == h - 1 ? I(x, y) - I(x, y - 1) : .5 * (I(x, y + 1) - I(x, y - 1));
      double A = pa[x * ws + y * hs], B = pb[x * ws + y * hs];
      used[x * ws + y * hs] = 1;
      if (inter) used[x * ws + y * hs + 1] = 1;
      if (!polar) {
        if (!close(gx, A, 0, tol) || !close(gy, B, 0, tol)) c.fail("grad-value", "at %ld,%ld: (%g,%g), definition (%g,%g)", x, y, A, B, gx, gy);
      } else {
        double m = hypot(gx, gy), an = atan2(gy, gx);
        if (!(fabs(A - m) <= 2e-4 + 1e-5 * m + tol)) c.fail("grad-modulus", "at %ld,%ld: modulus %g, definition %g", x, y, A, m);
        if (!(B >= 0 && B <= 2 * VL_PI + 1e-6)) c.fail("grad-angle-range", "at %ld,%ld: angle %g", x, y, B);
        double e = fabs(remainder(B - an, 2 * VL_PI));
        if (m > 1e-4 + 100 * tol && !(e < 0.012)) c.fail("grad-angle", "at %ld,%ld: angle %g, definition %g", x, y, B, an);
      }
    }
  for (long i = 0; i < n; ++i) if (!used[i] && pa[i] != can) c.fail("grad-stride", "wrote between the pixels of the plane");
  c.count(polar ? "polar_pixels" : "gradient_pixels", (double)w * h);
  c.nontrivial(fnv(src.p, src.n * sizeof(T), polar));
}
VT_GROUP(C13, grad_f, 6000, 100000) { grad<float>(c); }
VT_GROUP(C13, grad_d, 6000, 100000) { grad<double>(c); }

template <class T> static void integral(Ctx &c, void (*f)(T *, vl_size, T const *, vl_size, vl_size, vl_size), int kind) {
  Rng &r = c.rng;
  long w = r.range(1, 20), h = r.range(1, 20), ss = w + (r.chance(.5) ? r.range(0, 5) : 0), ds = w + (r.chance(.5) ? r.range(0, 5) : 0);
  if (r.chance(.03)) h = 0;
  if (r.chance(.03)) w = 0;
  c.desc("integral kind %d %ldx%ld stride %ld dst %ld", kind, w, h, ss, ds);
  long sn = w && h ? (h - 1) * ss + w : 0;
  Exact<T> src(sn, 0);
  for (long i = 0; i < sn; ++i) src.p[i] = (T)(kind == 0 ? r.normal() : kind == 1 ? (double)r.range(-100000, 100000) : kind == 2 ? (double)r.range(0, 1l << 31) : r.uni());
  T const can = (T)12345;
  Guarded<T> dst(w && h ? (h - 1) * ds + w : 0, 16, can);
  f(dst.data(), ds, src.p, w, h, ss);
  if (!dst.intact()) c.fail("integral-outside", "wrote outside the destination");
  if (!w || !h) return;
  double eps = sizeof(T) == 4 ? 1.2e-7 : 2.3e-16;
  for (long y = 0; y < h; ++y)
    for (long x = 0; x < ds && y * ds + x < (long)dst.n; ++x) {
      T got = dst.data()[y * ds + x];
      if (x >= w) { if (got != can) c.fail("integral-stride", "wrote into the row padding"); continue; }
      if (kind == 2) {
        uint32_t s = 0;
        for (long j = 0; j <= y; ++j) for (long i = 0; i <= x; ++i) s += (uint32_t)src.p[j * ss + i];
        if (s != (uint32_t)got) c.fail("integral-value", "at %ld,%ld", x, y);
      } else {
        long double s = 0, m = 0;
        for (long j = 0; j <= y; ++j) for (long i = 0; i <= x; ++i) { s += src.p[j * ss + i]; m += fabsl((long double)src.p[j * ss + i]); }
        double tol = kind == 1 ? 0 : (double)m * eps * (w + h + 4);
        if (!close((double)s, (double)got, 0, tol)) c.fail("integral-value", "at %ld,%ld: %g, definition %g", x, y, (double)got, (double)s);
      }
    }
  c.count("integral_pixels", (double)w * h);
  c.nontrivial(fnv(src.p, sn * sizeof(T), kind));
}
VT_GROUP(C13, integral_f, 1500, 20000) { integral<float>(c, vl_imintegral_f, 0); }
VT_GROUP(C13, integral_d, 1500, 20000) { integral<double>(c, vl_imintegral_d, 0); }
VT_GROUP(C13, integral_i32, 1500, 20000) { integral<vl_int32>(c, vl_imintegral_i32, 1); }
VT_GROUP(C13, integral_ui32, 1500, 20000) { integral<vl_uint32>(c, vl_imintegral_ui32, 2); }

template <class T> static void distance(Ctx &c) {
  Rng &r = c.rng;
  long w = r.range(1, 24), h = r.range(1, 12), pad = r.chance(.4) ? r.range(0, 4) : 0;
  bool colmajor = r.chance(.3), inplace = r.chance(.3), useidx = r.chance(.7);
  long cs = colmajor ? h + pad : 1, rs = colmajor ? 1 : w + pad;
  int ck = (int)r.range(0, 5), vk = (int)r.range(0, 5), ok = (int)r.range(0, 3);
  T coeff = (T)(ck == 0 ? 0 : ck == 1 ? 1 : ck == 2 ? r.uni(0, 5) : ck == 3 ? pow(10, r.uni(-6, 3)) : ck == 4 ? (double)r.range(1, 4) : 1e-9);
  T off = (T)(ok == 0 ? r.uni(-5, 5) : ok == 1 ? (double)r.range(-5, 5) : 0);
  c.desc("dt<%s> %ldx%ld strides %ld %ld coeff %.9g offset %.9g values %d inplace %d indexes %d", sizeof(T) == 4 ? "float" : "double", w, h, cs, rs, (double)coeff, (double)off, vk, inplace, useidx);
  long n = (w - 1) * cs + (h - 1) * rs + 1;
  std::vector<T> im(n, (T)55555);
  std::vector<vl_uindex> idx(n, 987654321), idx0;
  double mx = 0;
  T inf = std::numeric_limits<T>::infinity();
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) {
    double v = vk == 0 ? r.normal() : vk == 1 ? (double)r.range(0, 3) : vk == 2 ? (r.chance(.8) ? (double)inf : r.uni()) : vk == 3 ? (r.chance(.15) ? 0 : (double)inf) : vk == 4 ? (r.chance(.1) ? -(double)inf : r.normal()) : 100 * r.normal();
    im[x * cs + y * rs] = (T)v;
    if (std::isfinite(v)) mx = std::max(mx, fabs(v));
    idx[x * cs + y * rs] = 1000 + x + 100 * y;
  }
  std::vector<T> orig = im;
  idx0 = idx;
  T const can = (T)-12345.5;
  Guarded<T> out(n, 8, can);
  T *d = inplace ? im.data() : out.data();
  F<T>::dt(im.data(), w, h, cs, rs, d, useidx ? idx.data() : 0, coeff, off);
  if (!out.intact()) c.fail("dt-outside", "wrote outside the destination");
  double tol = F<T>::eps() * 8 * (w + 4) * (mx + (double)coeff * (w + fabs((double)off)) * (w + fabs((double)off))) + 2 * F<T>::eps() * (w + 8) * (w + 8) ;
  std::vector<char> used(n, 0);
  for (long y = 0; y < h; ++y)
    for (long x = 0; x < w; ++x) {
      long double best = INFINITY;
      auto cost = [&](long u) { long double t = (long double)x - u - (long double)off; return (long double)orig[u * cs + y * rs] + (long double)coeff * t * t; };
      for (long u = 0; u < w; ++u) best = std::min(best, cost(u));
      double got = d[x * cs + y * rs];
      used[x * cs + y * rs] = 1;
      if (!close((double)best, got, 0, tol)) c.fail("dt-value", "at %ld,%ld: %.9g, minimum is %.9g", x, y, got, (double)best);
      if (useidx) {
        long k = (long)idx[x * cs + y * rs] - 1000 - 100 * y;
        if (k < 0 || k >= w) c.fail("dt-index-range", "at %ld,%ld: index of no pixel of the line", x, y);
        if (!close((double)cost(k), (double)best, 0, tol)) c.fail("dt-index", "at %ld,%ld: indexed pixel %ld costs %.9g, minimum is %.9g", x, y, k, (double)cost(k), (double)best);
      }
    }
  for (long i = 0; i < n; ++i) if (!used[i]) {
    if (!inplace && d[i] != can) c.fail("dt-stride", "wrote between the pixels");
    if (idx[i] != idx0[i]) c.fail("dt-stride", "wrote between the indexes");
  }
  c.count("distance_pixels", (double)w * h);
  if (coeff == 0) c.count("flat_cost");
  c.nontrivial(orig, fnv(&coeff, sizeof coeff, fnv(&off, sizeof off)));
}
VT_GROUP(C13, dt_f, 6000, 100000) { distance<float>(c); }
VT_GROUP(C13, dt_d, 6000, 100000) { distance<double>(c); }

// the documented use along both dimensions
VT_GROUP(C13, dt2, 1500, 20000) {
  Rng &r = c.rng;
  long w = r.range(1, 12), h = r.range(1, 12);
  double a = r.uni(0, 3), b = r.uni(0, 3), oa = r.chance(.5) ? 0 : r.uni(-2, 2), ob = r.chance(.5) ? 0 : r.uni(-2, 2);
  c.desc("dt2 %ldx%ld %.9g %.9g %.9g %.9g", w, h, a, b, oa, ob);
  std::vector<double> im(w * h), d(w * h);
  for (auto &v : im) v = r.chance(.3) ? INFINITY : 3 * r.normal();
  std::vector<vl_uindex> idx(w * h);
  for (long i = 0; i < w * h; ++i) idx[i] = i;
  vl_image_distance_transform_d(im.data(), w, h, 1, w, d.data(), idx.data(), a, oa);
  vl_image_distance_transform_d(d.data(), h, w, w, 1, d.data(), idx.data(), b, ob);
  for (long y = 0; y < h; ++y) for (long x = 0; x < w; ++x) {
    double best = INFINITY;
    auto cost = [&](long u, long v) { double p = x - u - oa, q = y - v - ob; return im[v * w + u] + a * p * p + b * q * q; };
    for (long v = 0; v < h; ++v) for (long u = 0; u < w; ++u) best = std::min(best, cost(u, v));
    if (!close(best, d[y * w + x], 1e-9, 1e-9)) c.fail("dt2-value", "at %ld,%ld: %.9g, minimum is %.9g", x, y, d[y * w + x], best);
    vl_uindex k = idx[y * w + x];
    if (k >= (vl_uindex)(w * h)) c.fail("dt2-index", "index out of the image");
    if (!close(cost(k % w, k / w), best, 1e-9, 1e-9)) c.fail("dt2-index", "at %ld,%ld: indexed pixel is not at the minimum", x, y);
  }
  c.count("distance2_pixels", (double)w * h);
  c.nontrivial(im, fnv(&a, 8, fnv(&b, 8)));
}
