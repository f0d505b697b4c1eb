// C05 vector comparisons, C08 scalar math, C09 small linear algebra.
#include "gen.h"
#include <vl/mathop.h>
#include <vl/rodrigues.h>
using namespace vt;

// ------------------------------------------------------------------ C05
static long double term(int type, long double a, long double b, long double *mag) {
  long double d = a - b, s = a + b;
  switch (type) {
  case VlDistanceL1: *mag = fabsl(a) + fabsl(b); return fabsl(d);
  case VlDistanceL2: *mag = d * d; return d * d;
  case VlDistanceChi2: *mag = s ? d * d / s : 0; return *mag;
  case VlDistanceHellinger: *mag = s; return s - 2 * sqrtl(a * b);
  case VlDistanceJS: {
    long double u = a > 0 ? a * log2l(1 + b / a) : 0, v = b > 0 ? b * log2l(1 + a / b) : 0;
    *mag = s + u + v; return s - u - v; }
  case VlKernelL1: *mag = fabsl(a) + fabsl(b); return (fabsl(a) + fabsl(b) - fabsl(d)) / 2;
  case VlKernelL2: *mag = fabsl(a * b); return a * b;
  case VlKernelChi2: *mag = s ? 2 * a * b / s : 0; return *mag;
  case VlKernelHellinger: *mag = sqrtl(a * b); return *mag;
  case VlKernelJS: {
    long double u = a > 0 ? a * log2l(1 + b / a) : 0, v = b > 0 ? b * log2l(1 + a / b) : 0;
    *mag = s + u + v; return (u + v) / 2; }
  }
  *mag = 0; return NAN;
}
static int const types[] = {VlDistanceL1, VlDistanceL2, VlDistanceChi2, VlDistanceHellinger, VlDistanceJS,
                            VlKernelL1, VlKernelL2, VlKernelChi2, VlKernelHellinger, VlKernelJS};
static bool nonneg(int t) { return !(t == VlDistanceL1 || t == VlDistanceL2 || t == VlKernelL1 || t == VlKernelL2); }

template <class T> struct Fn;
template <> struct Fn<float> {
  typedef VlFloatVectorComparisonFunction F; typedef VlFloatVector3ComparisonFunction F3;
  static F get(int t) { return vl_get_vector_comparison_function_f((VlVectorComparisonType)t); }
  static F3 get3() { return vl_get_vector_3_comparison_function_f(VlDistanceMahalanobis); }
  static void all(float *r, vl_size d, float const *x, vl_size n, float const *y, vl_size m, F f) { vl_eval_vector_comparison_on_all_pairs_f(r, d, x, n, y, m, f); }
  static double eps() { return 1.2e-7; }
};
template <> struct Fn<double> {
  typedef VlDoubleVectorComparisonFunction F; typedef VlDoubleVector3ComparisonFunction F3;
  static F get(int t) { return vl_get_vector_comparison_function_d((VlVectorComparisonType)t); }
  static F3 get3() { return vl_get_vector_3_comparison_function_d(VlDistanceMahalanobis); }
  static void all(double *r, vl_size d, double const *x, vl_size n, double const *y, vl_size m, F f) { vl_eval_vector_comparison_on_all_pairs_d(r, d, x, n, y, m, f); }
  static double eps() { return 2.3e-16; }
};

template <class T> static void fillv(Rng &r, T *p, long n, bool nn, int kind) {
  double s = kind == 4 ? pow(10, r.uni(-4, 4)) : 1;
  for (long i = 0; i < n; ++i) {
    double v = kind == 0 ? r.normal() : kind == 1 ? (double)r.range(-2, 2) : kind == 2 ? (r.chance(.7) ? 0 : r.normal()) : kind == 3 ? 1000 + r.normal() : s * r.uni(-1, 1);
    if (nn) { v = fabs(v); if (v < 1e-5 * s) v = 0; }
    p[i] = (T)v;
  }
}
template <class T> static double reference(int t, long d, T const *x, T const *y, double *tol) {
  long double s = 0, m = 0;
  for (long i = 0; i < d; ++i) { long double g; s += term(t, x[i], y[i], &g); m += g; }
  *tol = (double)m * Fn<T>::eps() * (8 + d) + 1e-300;
  return (double)s;
}
// an array starting at a chosen misalignment inside an exactly sized block
template <class T> struct Mis {
  std::vector<char> b; T *p;
  static const size_t A = 64;
  char *raw;
  Mis(long n, long off) {
    raw = (char *)malloc(A + off * sizeof(T) + n * sizeof(T) + 0);
    uintptr_t u = ((uintptr_t)raw + A - 1) / A * A;
    // keep the end of the array at the end of the block
    p = (T *)u + off;
    size_t used = (char *)(p + n) - raw;
    if (used > A + off * sizeof(T) + n * sizeof(T)) abort();
    char *q = (char *)malloc(used ? used : 1);
    if (((uintptr_t)q & (A - 1)) == ((uintptr_t)raw & (A - 1))) { free(raw); p = (T *)(q + ((char *)p - raw)); raw = q; }
    else free(q);
  }
  ~Mis() { free(raw); }
};

template <class T> static void pairwise(Ctx &c) {
  Rng &r = c.rng;
  long d = r.chance(.6) ? r.range(1, 20) : r.range(1, 200);
  long ox = r.range(0, 8), oy = r.chance(.3) ? ox : r.range(0, 8);
  Mis<T> x(d, ox), y(d, oy);
  int kx = (int)r.range(0, 4), ky = r.chance(.5) ? kx : (int)r.range(0, 4);
  bool simd = r.chance(.7);
  vl_set_simd_enabled(simd);
  if (vl_get_simd_enabled() != (vl_bool)simd) c.fail("simd-flag", "SIMD flag not kept");
  c.desc("dim=%ld offsets=%ld,%ld simd=%d %s kinds=%d,%d", d, ox, oy, simd, sizeof(T) == 4 ? "float" : "double", kx, ky);
  for (int nn = 0; nn < 2; ++nn) {
    fillv(r, x.p, d, nn, kx); fillv(r, y.p, d, nn, ky);
    if (r.chance(.1)) memcpy(y.p, x.p, d * sizeof(T));
    if (r.chance(.1)) memset(y.p, 0, d * sizeof(T));
    for (int t : types) {
      if (nonneg(t) != (bool)nn) continue;
      double tol, ref = reference(t, d, x.p, y.p, &tol), v = Fn<T>::get(t)(d, x.p, y.p), w = Fn<T>::get(t)(d, y.p, x.p);
      if (!(fabs(v - ref) <= tol)) c.fail("value", "type %d: %.17g, definition %.17g (tolerance %g)", t, v, ref, tol);
      if (!(fabs(v - w) <= 2 * tol)) c.fail("symmetry", "type %d: %.17g one way, %.17g the other", t, v, w);
      c.count("pairwise values checked", 2);
    }
    if (!nn) {
      Mis<T> z(d, r.chance(.4) ? ox : r.range(0, 8));
      for (long i = 0; i < d; ++i) z.p[i] = (T)r.uni(0, 3);
      long double s = 0;
      for (long i = 0; i < d; ++i) { long double q = (long double)x.p[i] - y.p[i]; s += q * q * z.p[i]; }
      double v = Fn<T>::get3()(d, x.p, y.p, z.p);
      if (!(fabs(v - (double)s) <= (double)s * Fn<T>::eps() * (8 + d))) c.fail("mahalanobis", "%.17g, definition %.17g", v, (double)s);
      c.count("mahalanobis values checked");
    }
  }
  c.nontrivial(fnv(x.p, d * sizeof(T)) ^ (ox * 64 + oy * 8 + simd));
}
VT_GROUP(C05, pairwise_f, 4000, 120000) { pairwise<float>(c); }
VT_GROUP(C05, pairwise_d, 4000, 120000) { pairwise<double>(c); }

template <class T> static void allpairs(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, 33), n = r.range(1, 14), m = r.range(1, 14);
  int t = types[r.range(0, 9)];
  bool simd = r.chance(.5), self = r.chance(.4);
  if (self) m = n;
  vl_set_simd_enabled(simd);
  std::vector<T> x(d * n), y(d * m);
  fillv(r, x.data(), d * n, nonneg(t), (int)r.range(0, 4));
  fillv(r, y.data(), d * m, nonneg(t), (int)r.range(0, 4));
  c.desc("dim=%ld %ldx%ld type=%d simd=%d self=%d", d, n, m, t, simd, self);
  typename Fn<T>::F f = Fn<T>::get(t);
  Guarded<T> g(n * m, 16, (T)-12345);
  for (long i = 0; i < n * m; ++i) g.data()[i] = (T)NAN;
  Fn<T>::all(g.data(), d, x.data(), n, self ? 0 : y.data(), self ? (r.chance(.5) ? 0 : n) : m, f);
  if (!g.intact()) c.fail("all-pairs-bounds", "wrote outside the %ldx%ld result", n, m);
  T const *Y = self ? x.data() : y.data();
  for (long j = 0; j < m; ++j) for (long i = 0; i < n; ++i) {
    double tol, ref = reference(t, d, &x[i * d], Y + j * d, &tol), v = g.data()[i + j * n];
    if (!(fabs(v - ref) <= tol)) c.fail("all-pairs", "entry (%ld,%ld): %.17g, definition %.17g", i, j, v, ref);
    c.count("matrix entries checked");
  }
  // nothing to do: result untouched
  Guarded<T> e(4, 4, (T)-5); for (int i = 0; i < 4; ++i) e.data()[i] = 7;
  Fn<T>::all(e.data(), d, x.data(), 0, y.data(), m, f);
  for (int i = 0; i < 4; ++i) if (e.data()[i] != 7) c.fail("all-pairs-empty", "wrote a result for no data");
  c.nontrivial(x, t * 4 + self * 2 + simd);
}
VT_GROUP(C05, all_pairs_f, 1200, 40000) { allpairs<float>(c); }
VT_GROUP(C05, all_pairs_d, 1200, 40000) { allpairs<double>(c); }

// ------------------------------------------------------------------ C08
VT_GROUP(C08, atan2, 600, 20000) {
  Rng &r = c.rng;
  for (int i = 0; i < 200; ++i) {
    double a = r.chance(.3) ? r.range(-8, 8) * M_PI / 4 + (r.chance(.5) ? r.normal() * 1e-6 : 0) : r.uni(-M_PI, M_PI), m = pow(10, r.uni(-1, 6));
    double x = m * cos(a), y = m * sin(a);
    if (r.chance(.1)) x = 0; if (r.chance(.1)) y = 0;
    if (hypot(x, y) < .05) continue;
    auto ck = [&](double v, double yy, double xx, char const *w) {
      double e = fabs(v - atan2(yy, xx)); if (yy == 0 && xx < 0) e = std::min(e, 2 * M_PI - e);
      if (fabs(yy) < 1e-6 * fabs(xx) && xx < 0) e = std::min(e, fabs(2 * M_PI - e));
      if (!(e < 0.0062)) c.fail("atan2", "%s(%.9g,%.9g) = %.9g, exact %.9g", w, yy, xx, v, atan2(yy, xx));
    };
    ck(vl_fast_atan2_f((float)y, (float)x), (float)y, (float)x, "fast_atan2_f");
    ck(vl_fast_atan2_d(y, x), y, x, "fast_atan2_d");
    if (y > 1e-3 * m && (vl_fast_atan2_d(y, x) < 0 || vl_fast_atan2_f(y, x) < 0)) c.fail("atan2-sign", "y>0 gives a negative angle");
    c.count("atan2 values", 2);
  }
  c.nontrivial(r.u64());
}
VT_GROUP(C08, sqrt, 600, 20000) {
  Rng &r = c.rng;
  for (int i = 0; i < 200; ++i) {
    double x = pow(10, r.chance(.5) ? r.uni(-7.9, 30) : r.uni(-3, 3)), xd = pow(10, r.chance(.5) ? r.uni(-7.9, 290) : r.uni(-3, 3));
    if (r.chance(.1)) x = ldexp(1, (int)r.range(-20, 40)), xd = ldexp(1, (int)r.range(-20, 200));
    float xf = (float)x;
    auto ck = [&](double v, double e, double arg, char const *w) { if (!(fabs(v - e) <= 6e-6 * e)) c.fail(w, "%s(%.17g) = %.17g, exact %.17g", w, arg, v, e); };
    ck(vl_fast_sqrt_f(xf), sqrt((double)xf), xf, "fast_sqrt_f");
    ck(vl_fast_sqrt_d(xd), sqrt(xd), xd, "fast_sqrt_d");
    ck(vl_fast_resqrt_f(xf), 1 / sqrt((double)xf), xf, "fast_resqrt_f");
    ck(vl_fast_resqrt_d(xd), 1 / sqrt(xd), xd, "fast_resqrt_d");
    c.count("square roots", 4);
  }
  for (double z : {0., 1e-12, 9e-9}) if (!(vl_fast_sqrt_f((float)z) >= 0 && vl_fast_sqrt_f((float)z) <= 1.1e-4 && vl_fast_sqrt_d(z) >= 0 && vl_fast_sqrt_d(z) <= 1.1e-4)) c.fail("fast_sqrt_tiny", "at %g", z);
  c.nontrivial(r.u64());
}
VT_GROUP(C08, rounding, 600, 20000) {
  Rng &r = c.rng;
  for (int i = 0; i < 200; ++i) {
    double x = r.chance(.3) ? (double)r.range(-1000, 1000) : r.chance(.3) ? r.range(-1000, 1000) + .5 : r.normal() * pow(10, r.uni(-8, 8));
    if (r.chance(.05)) x = r.pick({0., -0., 1e-30, -1e-30, .49999999999999994, -.49999999999999994, 2147483647.5, -2147483648.25});
    float f = (float)x;
#define CK(e, v) if ((v) != (e)) c.fail(#v, #v " at %.17g gives %.17g, expected %.17g", x, (double)(v), (double)(e))
    CK((long)std::floor(f), vl_floor_f(f)); CK((long)std::floor(x), vl_floor_d(x));
    CK((long)std::ceil(f), vl_ceil_f(f)); CK((long)std::ceil(x), vl_ceil_d(x));
    CK(lroundf(f), vl_round_f(f)); CK(lround(x), vl_round_d(x));
    CK(fabsf(f), vl_abs_f(f)); CK(fabs(x), vl_abs_d(x));
    if (x > 0) {
      if (!close(vl_log2_d(x), std::log2(x), 1e-14, 1e-15)) c.fail("log2", "log2(%g)", x);
      if (f > 0 && !close(vl_log2_f(f), std::log2((double)f), 1e-6, 1e-7)) c.fail("log2", "log2f(%g)", f);
      CK(std::sqrt(x), vl_sqrt_d(x)); CK(std::sqrt(f), vl_sqrt_f(f));
    }
    double b = r.chance(.2) ? r.range(-6, 6) * 2 * M_PI : r.chance(.3) ? r.range(-12, 12) * M_PI : r.uni(-60, 60);
    double md = vl_mod_2pi_d(b); float bf = (float)b, mf = vl_mod_2pi_f(bf);
    auto congr = [](double u, double v, double tol) { double e = fmod(fabs(u - v), 2 * M_PI); return std::min(e, 2 * M_PI - e) <= tol; };
    if (!(md >= 0 && md <= 2 * M_PI + 1e-15 && congr(md, b, 1e-13))) c.fail("mod_2pi_d", "%.17g -> %.17g", b, md);
    if (!(mf >= 0 && mf <= (float)(2 * M_PI) && congr(mf, bf, 5e-5))) c.fail("mod_2pi_f", "%.9g -> %.9g", bf, mf);
    c.count("rounding values", 12);
  }
  if (!vl_is_nan_f(NAN) || !vl_is_nan_d(NAN) || vl_is_nan_f(INFINITY) || vl_is_nan_d(1) || !vl_is_inf_f(INFINITY) || !vl_is_inf_d(-INFINITY) || vl_is_inf_d(NAN) || vl_is_inf_f(3)) c.fail("classify", "nan/inf classification");
  if (!std::isnan(VL_NAN_F) || !std::isnan(VL_NAN_D) || !std::isinf(VL_INFINITY_F) || !std::isinf(VL_INFINITY_D) || VL_INFINITY_D < 0) c.fail("constants", "nan/inf constants");
  c.nontrivial(r.u64());
}
static bool isroot(uint64_t x, uint64_t s) {
  __uint128_t q = (__uint128_t)s * s, q1 = (__uint128_t)(s + 1) * (s + 1);
  return q <= x && x < q1;
}
VT_GROUP(C08, isqrt_narrow, 1, 1, MEM | SERIAL) {
  for (unsigned x = 0; x < 256; ++x) if (!isroot(x, vl_fast_sqrt_ui8((vl_uint8)x))) c.fail("isqrt8", "sqrt(%u)=%u", x, (unsigned)vl_fast_sqrt_ui8((vl_uint8)x));
  for (unsigned x = 0; x < 65536; ++x) if (!isroot(x, vl_fast_sqrt_ui16((vl_uint16)x))) c.fail("isqrt16", "sqrt(%u)=%u", x, (unsigned)vl_fast_sqrt_ui16((vl_uint16)x));
  c.count("narrow integer roots (all)", 256 + 65536);
  c.nontrivial(1);
}
VT_GROUP(C08, isqrt_wide, 64, 2000) {
  Rng &r = c.rng;
  long lo = c.idx % 64 * 1024;
  for (long k = lo; k < lo + 1024; ++k) {
    for (int d = -1; d <= 1; ++d) {
      uint32_t x = (uint32_t)((uint64_t)k * k + d);
      if (!isroot(x, vl_fast_sqrt_ui32(x))) c.fail("isqrt32", "sqrt(%u)=%u", x, vl_fast_sqrt_ui32(x));
    }
    uint64_t s = r.u64() >> r.range(32, 62);
    for (int d = -1; d <= 1; ++d) {
      uint64_t x = s * s + d;
      if (!isroot(x, vl_fast_sqrt_ui64(x))) c.fail("isqrt64", "sqrt(%llu)=%llu", (unsigned long long)x, (unsigned long long)vl_fast_sqrt_ui64(x));
    }
    uint64_t y = r.u64() >> r.range(0, 63);
    if (!isroot(y, vl_fast_sqrt_ui64(y))) c.fail("isqrt64", "sqrt(%llu)", (unsigned long long)y);
    uint32_t z = (uint32_t)y;
    if (!isroot(z, vl_fast_sqrt_ui32(z))) c.fail("isqrt32", "sqrt(%u)", z);
    c.count("wide integer roots", 8);
  }
  if (c.idx < 64) c.count("32-bit square boundaries (of 65536)", 1024);
  c.nontrivial(r.u64());
}

// ------------------------------------------------------------------ C09
VT_GROUP(C09, svd2, 8000, 300000) {
  Rng &r = c.rng;
  double M[4], S[4], U[4], V[4];
  int kind = (int)r.range(0, 9);
  for (auto &m : M) m = r.normal();
  switch (kind) {
  case 1: M[0] = M[1] = 0; break;
  case 2: M[2] = M[3] = 0; break;
  case 3: for (auto &m : M) m = (double)r.range(-2, 2); break;
  case 4: { double a = r.normal(), b = r.normal(), p = r.normal(), q = r.normal(); M[0] = a * p; M[1] = b * p; M[2] = a * q; M[3] = b * q; break; }
  case 5: { double a = r.uni(0, 7), s = r.normal(); M[0] = s * cos(a); M[1] = s * sin(a); M[2] = -s * sin(a); M[3] = s * cos(a); if (r.chance(.5)) M[2] = -M[2], M[3] = -M[3]; break; }
  case 6: for (auto &m : M) m *= pow(10, r.uni(-40, 40)); break;
  case 7: M[1] = 0; break;
  case 8: for (auto &m : M) m = 0; if (r.chance(.7)) M[r.range(0, 3)] = r.normal(); break;
  case 9: for (auto &m : M) if (r.chance(.5)) m *= pow(10, r.uni(-25, 25)); break;
  }
  c.desc("M=[%.17g %.17g; %.17g %.17g] kind=%d", M[0], M[2], M[1], M[3], kind);
  for (auto &m : U) m = NAN; for (auto &m : V) m = NAN; for (auto &m : S) m = NAN;
  vl_svd2(S, U, V, M);
  double sc = 0; for (double m : M) sc = std::max(sc, fabs(m));
  char const *k = M[0] == 0 && M[1] == 0 ? "svd2-zero-column" : "svd2";
  for (double m : S) if (!std::isfinite(m)) c.fail(k, "S is not finite");
  for (int i = 0; i < 4; ++i) if (!std::isfinite(U[i]) || !std::isfinite(V[i])) c.fail(k, "U or V is not finite");
  if (S[1] != 0 || S[2] != 0) c.fail(k, "S is not diagonal");
  if (fabs(S[0]) < fabs(S[3]) * (1 - 1e-14)) c.fail(k, "singular values %g, %g not in decreasing order of modulus", S[0], S[3]);
  auto orth = [&](double *Q) { return fabs(Q[0] * Q[0] + Q[1] * Q[1] - 1) < 1e-13 && fabs(Q[2] * Q[2] + Q[3] * Q[3] - 1) < 1e-13 && fabs(Q[0] * Q[2] + Q[1] * Q[3]) < 1e-13; };
  if (!orth(U)) c.fail(k, "U=[%g %g; %g %g] is not orthogonal", U[0], U[2], U[1], U[3]);
  if (!orth(V)) c.fail(k, "V=[%g %g; %g %g] is not orthogonal", V[0], V[2], V[1], V[3]);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
    double v = U[i] * S[0] * V[j] + U[i + 2] * S[3] * V[j + 2];
    if (!(fabs(v - M[i + 2 * j]) <= 1e-13 * sc)) c.fail(k, "(U S V')(%d,%d) = %.17g, M has %.17g", i, j, v, M[i + 2 * j]);
  }
  double S2[4]; vl_svd2(S2, 0, 0, M);
  if (S2[0] != S[0] || S2[3] != S[3]) c.fail(k, "values differ when the factors are not requested");
  c.count("svd2 decompositions");
  c.nontrivial(fnv(M, sizeof M));
}
VT_GROUP(C09, dlasv2, 6000, 300000) {
  Rng &r = c.rng;
  double f = r.normal(), g = r.normal(), h = r.normal();
  int kind = (int)r.range(0, 6);
  if (kind == 1) g *= pow(10, r.uni(0, 25));
  if (kind == 2) { f *= pow(10, r.uni(-20, 20)); g *= pow(10, r.uni(-20, 20)); h *= pow(10, r.uni(-20, 20)); }
  if (kind == 3) { f = (double)r.range(-1, 1); g = (double)r.range(-1, 1); h = (double)r.range(-1, 1); }
  if (kind == 4) { g = r.pick({1e17, -1e17, 1e20, 3e25}); }
  if (kind == 5) h = f;
  if (f == 0 && h == 0 && g == 0) throw Skip();
  c.desc("f=%.17g g=%.17g h=%.17g", f, g, h);
  double smin = NAN, smax = NAN, sv = NAN, cv = NAN, su = NAN, cu = NAN;
  vl_lapack_dlasv2(&smin, &smax, &sv, &cv, &su, &cu, f, g, h);
  bool glarge = fabs(g) > std::max(fabs(f), fabs(h)) && std::max(fabs(f), fabs(h)) / fabs(g) < VL_EPSILON_D;
  char const *k = glarge ? "dlasv2-glarge" : "dlasv2";
  if (!std::isfinite(smin + smax + sv + cv + su + cu)) c.fail(k, "not finite");
  if (fabs(cv * cv + sv * sv - 1) > 1e-13 || fabs(cu * cu + su * su - 1) > 1e-13) c.fail(k, "(cu,su)=(%g,%g) (cv,sv)=(%g,%g) not unit", cu, su, cv, sv);
  if (fabs(smin) > fabs(smax) * (1 + 1e-14)) c.fail(k, "|smin|=%g > |smax|=%g", smin, smax);
  // [cu su; -su cu] [f g; 0 h] [cv -sv; sv cv] = diag(smax, smin)
  double sc = std::max(std::max(fabs(f), fabs(g)), fabs(h));
  double a11 = cu * f, a12 = cu * g + su * h, a21 = -su * f, a22 = -su * g + cu * h;
  double d11 = a11 * cv + a12 * sv, d12 = -a11 * sv + a12 * cv, d21 = a21 * cv + a22 * sv, d22 = -a21 * sv + a22 * cv;
  if (!(fabs(d11 - smax) <= 1e-13 * sc && fabs(d12) <= 1e-13 * sc && fabs(d21) <= 1e-13 * sc && fabs(d22 - smin) <= 1e-13 * sc))
    c.fail(k, "rotated matrix [%g %g; %g %g], singular values %g %g", d11, d12, d21, d22, smax, smin);
  c.count("dlasv2 decompositions");
  c.nontrivial(fnv(&f, 8) ^ fnv(&g, 8) ^ fnv(&h, 8));
}
VT_GROUP(C09, linear_systems, 4000, 120000) {
  Rng &r = c.rng;
  long n = r.range(1, 8), m = r.range(1, 4);
  std::vector<double> A(n * n), B(n * m), W;
  int kind = (int)r.range(0, 3);
  for (auto &v : A) v = kind == 0 ? (double)r.range(-3, 3) : r.normal();
  if (kind == 1) for (long i = 0; i < n; ++i) { long j = r.range(0, n - 1); A[i + j * n] *= 10; }
  if (kind == 2) { std::fill(A.begin(), A.end(), 0); std::vector<long> p(n); for (long i = 0; i < n; ++i) p[i] = i; for (long i = n - 1; i > 0; --i) std::swap(p[i], p[r.range(0, i)]); for (long i = 0; i < n; ++i) A[i + p[i] * n] = r.uni(.5, 2) * (r.chance(.5) ? 1 : -1); }
  bool singular = r.chance(.15);
  if (singular) {
    long j = r.range(0, n - 1);
    if (n > 1 && r.chance(.5)) { long l = (j + 1) % n; for (long i = 0; i < n; ++i) A[i + j * n] = 2 * A[i + l * n]; }
    else for (long i = 0; i < n; ++i) A[i + j * n] = 0;
  }
  for (auto &v : B) v = r.normal();
  c.desc("n=%ld rhs=%ld kind=%d singular=%d", n, m, kind, singular);
  // determinant-free conditioning estimate: full-pivot elimination in long double
  std::vector<long double> L(A.begin(), A.end());
  long double minp = 1e30L; long rank = 0; std::vector<long double> X;
  {
    std::vector<long> rows(n), cols(n); for (long i = 0; i < n; ++i) rows[i] = cols[i] = i;
    for (long k = 0; k < n; ++k) {
      long bi = k, bj = k; long double b = -1;
      for (long i = k; i < n; ++i) for (long j = k; j < n; ++j) if (fabsl(L[rows[i] + cols[j] * n]) > b) { b = fabsl(L[rows[i] + cols[j] * n]); bi = i; bj = j; }
      std::swap(rows[k], rows[bi]); std::swap(cols[k], cols[bj]);
      minp = std::min(minp, b);
      if (b > 1e-9L) ++rank; else break;
      for (long i = k + 1; i < n; ++i) { long double f = L[rows[i] + cols[k] * n] / L[rows[k] + cols[k] * n]; for (long j = k; j < n; ++j) L[rows[i] + cols[j] * n] -= f * L[rows[k] + cols[j] * n]; }
    }
  }
  bool well = minp > 1e-3L, sing = minp < 1e-13L;
  W = A; W.insert(W.end(), B.begin(), B.end());
  Guarded<double> g(W.size(), 8, -777.0);
  std::copy(W.begin(), W.end(), g.data());
  vl_bool err = vl_gaussian_elimination(g.data(), n, n + m);
  if (!g.intact()) c.fail("gauss-bounds", "wrote outside the matrix");
  if (sing && err == VL_ERR_OK) c.fail("gauss-singular", "singular system reported as solved");
  if (well && err != VL_ERR_OK) c.fail("gauss-regular", "regular system (pivot %Lg) reported as singular", minp);
  auto resid = [&](double const *x, long col, char const *k) {
    double xs = 1; for (long j = 0; j < n; ++j) xs = std::max(xs, fabs(x[j]));
    for (long i = 0; i < n; ++i) {
      long double s = -B[i + col * n];
      for (long j = 0; j < n; ++j) s += (long double)A[i + j * n] * x[j];
      if (!(fabsl(s) < 1e-9L * xs)) c.fail(k, "row %ld of A x - b is %Lg", i, s);
    }
  };
  if (well) for (long j = 0; j < m; ++j) resid(g.data() + n * n + j * n, j, "gauss-solution");
  if (n == 2 || n == 3) {
    Guarded<double> x(n, 4, -777.0);
    int e = n == 2 ? vl_solve_linear_system_2(x.data(), A.data(), B.data()) : vl_solve_linear_system_3(x.data(), A.data(), B.data());
    if (!x.intact()) c.fail("solve-bounds", "wrote outside the solution");
    if (sing && e == VL_ERR_OK) c.fail("solve-singular", "singular system reported as solved");
    if (well) { if (e != VL_ERR_OK) c.fail("solve-regular", "regular system reported as singular"); resid(x.data(), 0, "solve-solution"); }
    c.count("2x2 and 3x3 systems");
  }
  c.count(sing ? "singular systems" : "regular systems");
  c.nontrivial(A, m);
}
static void rodref(double *R, double const *w) {
  double th = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
  double a = th > 1e-4 ? sin(th) / th : 1 - th * th / 6, b = th > 1e-4 ? (1 - cos(th)) / (th * th) : .5 - th * th / 24;
  double K[9] = {0, w[2], -w[1], -w[2], 0, w[0], w[1], -w[0], 0};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double k2 = 0; for (int k = 0; k < 3; ++k) k2 += K[i + 3 * k] * K[k + 3 * j];
    R[i + 3 * j] = (i == j) + a * K[i + 3 * j] + b * k2;
  }
}
VT_GROUP(C09, rodrigues, 6000, 200000) {
  Rng &r = c.rng;
  double w[3], R[9], D[27], R0[9], Q[9], om[3], dom[27];
  for (auto &v : w) v = r.normal();
  int kind = (int)r.range(0, 7);
  double n = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
  if (kind == 4) { int k = (int)r.range(0, 2); for (int i = 0; i < 3; ++i) w[i] = i == k ? (r.chance(.5) ? 1 : -1) : 0; n = 1; }
  if (kind == 5) { w[r.range(0, 2)] = 0; n = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]); }
  double th = kind == 0 ? 0 : kind == 1 ? pow(10, r.uni(-9, -3)) : kind == 2 ? M_PI - pow(10, r.uni(-9, -2)) : kind == 3 ? M_PI : kind == 6 ? r.uni(0, 12) : r.uni(0, M_PI);
  if ((kind == 4 || kind == 5) && r.chance(.4)) th = r.pick({M_PI, M_PI / 2, M_PI / 3});
  for (auto &v : w) v *= th / n;
  c.desc("om=[%.17g %.17g %.17g]", w[0], w[1], w[2]);
  for (auto &v : D) v = NAN; for (auto &v : dom) v = NAN;
  bool deriv = r.chance(.7);
  vl_rodrigues(R, deriv ? D : 0, w);
  rodref(Q, w);
  for (int i = 0; i < 9; ++i) if (!(fabs(R[i] - Q[i]) <= (th < 1e-6 ? 2e-6 : 1e-12))) c.fail("rodrigues", "R[%d]=%.17g, formula %.17g", i, R[i], Q[i]);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double s = 0; for (int k = 0; k < 3; ++k) s += R[k + 3 * i] * R[k + 3 * j];
    if (fabs(s - (i == j)) > 1e-12) c.fail("rodrigues-rotation", "R'R(%d,%d)=%.17g", i, j, s);
  }
  if (deriv) {
    double hh = 1e-5;
    for (int k = 0; k < 3; ++k) {
      double a[3] = {w[0], w[1], w[2]}, b[3] = {w[0], w[1], w[2]}, Ra[9], Rb[9];
      a[k] += hh; b[k] -= hh; rodref(Ra, a); rodref(Rb, b);
      for (int i = 0; i < 9; ++i) { double e = (Ra[i] - Rb[i]) / (2 * hh);
        if (!(fabs(D[i + 9 * k] - e) <= 1e-6 + (th < 1e-6 ? 2e-6 : 0))) c.fail("rodrigues-derivative", "dR[%d]/dom[%d]=%.9g, numeric %.9g", i, k, D[i + 9 * k], e); }
    }
    c.count("rodrigues jacobians");
  }
  // inverse, from the exact matrix with rounding noise
  double noise = r.chance(.5) ? 0 : pow(10, r.uni(-16, -14));
  for (int i = 0; i < 9; ++i) R0[i] = Q[i] + noise * r.uni(-1, 1);
  vl_irodrigues(om, deriv ? dom : 0, R0);
  double thr = fmod(th, 2 * M_PI); if (thr > M_PI) thr = 2 * M_PI - thr;
  bool nearpi = M_PI - thr < 1e-2, nearzero = thr < 1e-2;
  char const *ki = nearzero ? "irodrigues-near-zero" : nearpi ? "irodrigues-near-pi" : "irodrigues";
  for (double v : om) if (!std::isfinite(v)) c.fail(ki, "not finite for angle %.17g (noise %g)", thr, noise);
  rodref(Q, om);
  // the formula loses (rounding / sin^2) relative accuracy close to pi
  double s = sin(thr), tol = nearzero ? 1e-8 : nearpi ? (s < 1e-7 ? 5e-6 : 5e-6 + (3e-15 + 8 * noise) / std::max(s * s, 1e-12)) : 1e-9;
  for (int i = 0; i < 9; ++i) if (!(fabs(Q[i] - R0[i]) <= tol)) c.fail(ki, "R(irodrigues(R))[%d]=%.12g, R has %.12g (angle %.17g, tolerance %g)", i, Q[i], R0[i], thr, tol);
  double nn = sqrt(om[0] * om[0] + om[1] * om[1] + om[2] * om[2]);
  if (nn > M_PI + 1e-2 + 8 * tol) c.fail(ki, "angle %g exceeds pi", nn);
  if (deriv && thr > .1 && thr < M_PI - .1) {
    double hh = 1e-6;
    for (int k = 0; k < 9; ++k) {
      double Ra[9], Rb[9], oa[3], ob[3]; memcpy(Ra, R0, sizeof R0); memcpy(Rb, R0, sizeof R0);
      Ra[k] += hh; Rb[k] -= hh; vl_irodrigues(oa, 0, Ra); vl_irodrigues(ob, 0, Rb);
      for (int i = 0; i < 3; ++i) { double e = (oa[i] - ob[i]) / (2 * hh);
        if (!(fabs(dom[i + 3 * k] - e) <= 1e-5 * (1 + fabs(e)) )) c.fail("irodrigues-derivative", "dom[%d]/dR[%d]=%.9g, numeric %.9g", i, k, dom[i + 3 * k], e); }
    }
    c.count("irodrigues jacobians");
  }
  c.count("rotations");
  c.nontrivial(fnv(w, sizeof w));
}
