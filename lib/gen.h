// gen.h - input generators shared by the harnesses.
#ifndef VT_GEN_H
#define VT_GEN_H
#include "vt.h"
namespace vt {
// point clouds of many shapes: d x n, column per point
template <class T> std::vector<T> points(Rng &r, long d, long n, int *kindOut = 0, bool nonneg = false) {
  std::vector<T> x((size_t)d * n);
  int kind = (int)r.range(0, 8);
  if (kindOut) *kindOut = kind;
  double s = pow(10, r.uni(-3, 3));
  if (r.chance(.5)) s = 1;
  auto nn = [&](double v) { return (T)(nonneg ? fabs(v) : v); };
  switch (kind) {
  case 0: for (auto &v : x) v = nn(s * r.normal()); break;
  case 1: for (auto &v : x) v = nn(s * r.uni()); break;
  case 2: for (auto &v : x) v = nn((double)r.range(-3, 3)); break;             // many ties
  case 3: {                                                                    // clusters
    long k = r.range(1, 6);
    std::vector<double> c(k * d);
    for (auto &v : c) v = 10 * s * r.normal();
    for (long i = 0; i < n; ++i) { long j = r.range(0, k - 1); for (long t = 0; t < d; ++t) x[i * d + t] = nn(c[j * d + t] + s * r.normal()); }
    break; }
  case 4: {                                                                    // duplicates
    long k = r.range(1, 1 + n / 4);
    std::vector<double> c(k * d);
    for (auto &v : c) v = s * r.normal();
    for (long i = 0; i < n; ++i) { long j = r.range(0, k - 1); for (long t = 0; t < d; ++t) x[i * d + t] = nn(c[j * d + t]); }
    break; }
  case 5: for (long i = 0; i < n; ++i) for (long t = 0; t < d; ++t) x[i * d + t] = nn(t == i % d ? s * r.normal() : 0); break; // sparse
  case 6: for (long i = 0; i < n; ++i) { double a = s * r.normal(); for (long t = 0; t < d; ++t) x[i * d + t] = nn(a * (t + 1)); } break; // line
  case 7: { std::vector<double> sc(d); for (auto &v : sc) v = pow(10, r.uni(-2, 2)); // anisotropic, some constant
    for (long t = 0; t < d; ++t) if (r.chance(.2)) sc[t] = 0;
    for (long i = 0; i < n; ++i) for (long t = 0; t < d; ++t) x[i * d + t] = nn(3 + sc[t] * r.normal()); break; }
  default: { T v0 = nn(s); for (auto &v : x) v = v0; if (r.chance(.5)) x[r.range(0, (long)x.size() - 1)] += (T)s; break; } // all equal
  }
  return x;
}
// grey images of many shapes
template <class T> std::vector<T> image(Rng &r, long w, long h, double lo, double hi, int *kindOut = 0) {
  std::vector<double> x((size_t)w * h);
  int kind = (int)r.range(0, 9);
  if (kindOut) *kindOut = kind;
  switch (kind) {
  case 0: for (auto &v : x) v = r.uni(); break;
  case 1: { double k = r.uni(); for (auto &v : x) v = k; break; }                       // constant
  case 2: { double a = r.normal(), b = r.normal(); for (long j = 0; j < h; ++j) for (long i = 0; i < w; ++i) x[j * w + i] = .5 + .5 * sin(.3 * a * i + .3 * b * j); break; }
  case 3: for (auto &v : x) v = 0; x[r.range(0, w * h - 1)] = 1; break;                 // impulse
  case 4: { long s = r.range(1, 5); for (long j = 0; j < h; ++j) for (long i = 0; i < w; ++i) x[j * w + i] = ((i / s + j / s) & 1); break; } // checkerboard
  case 5: for (auto &v : x) v = (double)r.range(0, 3) / 3; break;                       // quantised
  case 6: { double a = r.normal(), b = r.normal(); for (long j = 0; j < h; ++j) for (long i = 0; i < w; ++i) x[j * w + i] = a * i / (w + 1.) + b * j / (h + 1.); // ramp
    break; }
  default: {                                                                            // blobs + noise
    long k = r.range(1, 12);
    for (auto &v : x) v = .3 + .02 * r.uni();
    while (k--) { double cx = r.uni(0, w), cy = r.uni(0, h), s = r.uni(.8, 1 + std::min(w, h) / 6.), s2 = s * r.uni(.6, 1.6), a = r.uni(-.6, .8);
      for (long j = 0; j < h; ++j) for (long i = 0; i < w; ++i) { double dx = (i - cx) / s, dy = (j - cy) / s2; x[j * w + i] += a * exp(-.5 * (dx * dx + dy * dy)); } }
    break; }
  }
  double mn = 1e300, mx = -1e300;
  for (double v : x) { mn = std::min(mn, v); mx = std::max(mx, v); }
  if (mx > 1 || mn < 0) for (auto &v : x) v = mx > mn ? (v - mn) / (mx - mn) : .5;
  std::vector<T> y(x.size());
  for (size_t i = 0; i < x.size(); ++i) y[i] = (T)(lo + (hi - lo) * x[i]);
  return y;
}
} // namespace vt
#endif
