// The MEX gateways of the toolbox under a host that watches them.
// C38: the numeric functions against their definitions, and every argument
// list, sensible or not, without leaving the arrays.
#include "mexshim.h"
extern "C" {
#include <vl/generic.h>
#include <vl/homkermap.h>
#include <vl/lbp.h>
#include <vl/mathop.h>
#include <vl/random.h>
}
using namespace vt;
using mx::arr;
using mx::call;
using mx::data;
using mx::numel;
using mx::Res;
typedef std::vector<long> Dims;

#define GATEWAYS(X)                                                                              \
  X(vl_alldist) X(vl_alldist2) X(vl_binsearch) X(vl_binsum) X(vl_cummax) X(vl_ihashsum)          \
  X(vl_ihashfind) X(vl_inthist) X(vl_sampleinthist) X(vl_localmax) X(vl_ubcmatch)                \
  X(vl_imwbackwardmx) X(vl_imsmooth) X(vl_imdisttf) X(vl_imintegral) X(vl_tpsumx) X(vl_rodr)     \
  X(vl_irodr) X(vl_lbp) X(vl_homkermap) X(vl_aibhist) X(vl_erfill) X(vl_twister)
#define DECL(n) extern "C" void vtmex_##n(int, mxArray **, int, mxArray const **);
GATEWAYS(DECL)
#define CALL(n, nout, ...) call(c, #n, vtmex_##n, nout, __VA_ARGS__)

static Res good(Ctx &c, char const *name, Res r) {
  if (r.err) c.fail("refused", "%s refused valid arguments: %s", name, r.msg);
  return r;
}
static long prod(Dims const &d) { long n = 1; for (long x : d) n *= x; return n; }
static Dims shape(Rng &r, int maxDims, long maxSide, double empty = .03) {
  Dims d;
  int n = (int)r.range(2, maxDims);
  for (int i = 0; i < n; ++i) d.push_back(r.chance(empty) ? 0 : r.chance(.15) ? 1 : r.range(1, maxSide));
  return d;
}
static char const *str(Dims const &d) {
  static char b[4][96];
  static int k;
  char *p = b[k = (k + 1) % 4];
  int o = 0;
  p[0] = 0;
  for (size_t i = 0; i < d.size(); ++i) o += snprintf(p + o, 96 - o, "%s%ld", i ? "x" : "", d[i]);
  return p;
}
static void needDims(Ctx &c, char const *f, mxArray *m, mxClassID cls, Dims const &d) {
  if (mxGetClassID(m) != cls) c.fail("output class", "%s: output is %s", f, mx::describe(m));
  if (!mx::isDims(m, d)) c.fail("output size", "%s: output is %s rather than %s", f, mx::describe(m), str(d));
}
// a value for a comparison: small integers make the result exact
template <class T> static T value(Rng &r, int kind) {
  if (kind == 0) return (T)r.range(0, 7);
  if (std::numeric_limits<T>::is_integer) {
    if (kind == 1) return (T)r.range(std::numeric_limits<T>::is_signed ? -90 : 0, 90);
    return (T)r.range(0, 120);
  }
  if (kind == 1) return (T)r.normal();
  return (T)fabs(r.normal());
}

// ------------------------------------------------------------- vl_alldist
static double termRef(int m, double x, double y) {
  switch (m) {
    case 0: return (x - y) * (x - y);
    case 1: return fabs(x - y);
    case 2: return x + y == 0 ? 0 : (x - y) * (x - y) / (x + y);
    case 3: return x + y - 2 * sqrt(x * y);
    case 4: return (x ? x - x * log2(1 + y / x) : 0) + (y ? y - y * log2(1 + x / y) : 0);
    case 5: return x * y;
    case 6: return std::min(x, y);
    case 7: return x + y == 0 ? 0 : 2 * x * y / (x + y);
    case 8: return sqrt(x * y);
    case 9: return .5 * ((x ? x * log2(1 + y / x) : 0) + (y ? y * log2(1 + x / y) : 0));
    case 10: return fabs(x - y); // maximum
    default: return x != y;
  }
}
static char const *metricNames[] = {"l2", "l1", "chi2", "hell", "js", "kl2", "kl1", "kchi2", "khell", "kjs", "linf", "l0"};
static bool needsPositive(int m) { return m == 2 || m == 3 || m == 4 || m == 7 || m == 8 || m == 9; }
static char const *randomCase(Rng &r, char const *s) {
  static char b[4][32];
  static int k;
  char *p = b[k = (k + 1) % 4];
  int i = 0;
  for (; s[i]; ++i) p[i] = r.chance(.3) ? (char)toupper(s[i]) : s[i];
  p[i] = 0;
  return p;
}
template <class T> static void alldist(Ctx &c, MexFn f, char const *name, bool two) {
  Rng &r = c.rng;
  long L = r.chance(.05) ? 0 : r.range(1, r.chance(.2) ? 40 : 6), n1 = r.chance(.05) ? 0 : r.range(1, 7), n2 = r.chance(.05) ? 0 : r.range(1, 7);
  bool self = r.chance(.4);
  int m = r.chance(.1) ? -1 : (int)r.range(0, 11), kind = (int)r.range(0, 2);
  if (two && (m == 4 || m == 9)) m = 0;
  if (!two && m >= 10) m = 1;
  int mm = m < 0 ? 0 : m;
  if (needsPositive(mm) && kind == 1) kind = 2;
  std::vector<T> x(L * n1), y(L * n2);
  for (T &v : x) v = value<T>(r, kind);
  for (T &v : y) v = value<T>(r, kind);
  if (!y.empty() && !x.empty()) for (long i = 0; i < std::min((long)x.size(), (long)y.size()); ++i) if (r.chance(.1)) y[i] = x[i];
  c.desc("%s %ldx%ld vs %ld%s metric=%s kind=%d bytes=%zu", name, L, n1, n2, self ? " self" : "", m < 0 ? "default" : metricNames[m], kind, sizeof(T));
  std::vector<mxArray *> in = {arr(x, {L, n1})};
  if (!self) in.push_back(arr(y, {L, n2}));
  if (m >= 0) in.push_back(mx::str(randomCase(r, metricNames[m])));
  Res o = good(c, name, call(c, name, f, (int)r.range(0, 1), in));
  if (!o.out[0]) c.fail("no output", "%s set no output", name);
  needDims(c, name, o.out[0], mx::Cls<T>::id, {n1, self ? n1 : n2});
  T *d = data<T>(o.out[0]);
  std::vector<T> const &Y = self ? x : y;
  long N2 = self ? n1 : n2;
  for (long j = 0; j < N2; ++j)
    for (long i = 0; i < n1; ++i) {
      double acc = 0, mag = 0;
      for (long l = 0; l < L; ++l) {
        double a = (double)x[l + i * L], b = (double)Y[l + j * L], t = mm == 6 && !two ? (fabs(a) + fabs(b) - fabs(a - b)) / 2 : termRef(mm, a, b);
        acc = mm == 10 ? std::max(acc, t) : acc + t;
        mag += fabs(t) + fabs(a) + fabs(b);
      }
      double tol = (sizeof(T) == 4 ? 3e-6 : 1e-13) * (mag + 1);
      if (!(fabs((double)d[i + j * n1] - acc) <= tol))
        c.fail("distance", "%s %s: D(%ld,%ld) = %g rather than %g", name, metricNames[mm], i, j, (double)d[i + j * n1], acc);
    }
  if (d && n1 * N2 * L) c.nontrivial(fnv(d, n1 * N2 * sizeof(T), mm));
  c.count("comparisons", (double)(n1 * N2));
}
VT_GROUP(C38, alldist, 6000, 60000) {
  mx::Scope s;
  if (c.rng.chance(.5)) alldist<double>(c, vtmex_vl_alldist, "vl_alldist", false);
  else alldist<float>(c, vtmex_vl_alldist, "vl_alldist", false);
}
// integer classes use integer arithmetic in a wider class
template <class T, class AC> static void alldistInt(Ctx &c) {
  Rng &r = c.rng;
  long L = r.chance(.05) ? 0 : r.range(1, 9), n1 = r.range(1, 6), n2 = r.range(1, 6);
  bool self = r.chance(.4);
  int m = (int)r.pick({0, 1, 2, 3, 5, 6, 7, 8, 10, 11});
  int kind = needsPositive(m) ? (int)r.pick({0, 2}) : (int)r.range(0, 2);
  std::vector<T> x(L * n1), y(L * n2);
  for (T &v : x) v = value<T>(r, kind);
  for (T &v : y) v = value<T>(r, kind);
  c.desc("vl_alldist2 %ldx%ld vs %ld%s metric=%s kind=%d integers of %zu bytes, signed=%d", L, n1, n2, self ? " self" : "", metricNames[m], kind, sizeof(T), (int)std::numeric_limits<T>::is_signed);
  std::vector<mxArray *> in = {arr(x, {L, n1})};
  if (!self) in.push_back(arr(y, {L, n2}));
  in.push_back(mx::str(metricNames[m]));
  Res o = good(c, "vl_alldist2", CALL(vl_alldist2, 1, in));
  long N2 = self ? n1 : n2;
  needDims(c, "vl_alldist2", o.out[0], mx::Cls<AC>::id, {n1, N2});
  AC *d = data<AC>(o.out[0]);
  std::vector<T> const &Y = self ? x : y;
  for (long j = 0; j < N2; ++j)
    for (long i = 0; i < n1; ++i) {
      int64_t acc = 0;
      for (long l = 0; l < L; ++l) {
        int64_t a = (int64_t)x[l + i * L], b = (int64_t)Y[l + j * L], t;
        switch (m) {
          case 0: t = (a - b) * (a - b); break;
          case 1: case 10: t = llabs(a - b); break;
          case 2: t = a + b ? (a - b) * (a - b) / (a + b) : 0; break;
          case 3: t = a + b - 2 * (int64_t)floor(sqrt((double)(a * b))); break;
          case 5: t = a * b; break;
          case 6: t = std::min(a, b); break;
          case 7: t = (a + b) / 2 ? a * b / ((a + b) / 2) : 0; break;
          case 8: t = (int64_t)floor(sqrt((double)(a * b))); break;
          default: t = a != b;
        }
        acc = m == 10 ? std::max(acc, t) : acc + t;
      }
      if ((int64_t)d[i + j * n1] != acc && (AC)acc != d[i + j * n1])
        c.fail("integer distance", "vl_alldist2 %s: D(%ld,%ld) = %lld rather than %lld", metricNames[m], i, j, (long long)d[i + j * n1], (long long)acc);
    }
  if (n1 * N2 * L) c.nontrivial(fnv(d, n1 * N2 * sizeof(AC), m));
}
VT_GROUP(C38, alldist2, 9000, 90000) {
  mx::Scope s;
  switch (c.rng.range(0, 9)) {
    case 0: case 1: alldist<double>(c, vtmex_vl_alldist2, "vl_alldist2", true); break;
    case 2: case 3: alldist<float>(c, vtmex_vl_alldist2, "vl_alldist2", true); break;
    case 4: alldistInt<uint8_t, uint32_t>(c); break;
    case 5: alldistInt<int8_t, int32_t>(c); break;
    case 6: alldistInt<uint16_t, uint32_t>(c); break;
    case 7: alldistInt<int16_t, int32_t>(c); break;
    case 8: alldistInt<uint32_t, uint32_t>(c); break;
    default: alldistInt<int32_t, int32_t>(c);
  }
}
VT_GROUP(C38, alldist2_sparse, 3000, 30000) {
  mx::Scope s;
  Rng &r = c.rng;
  long L = r.range(1, 9), n1 = r.range(1, 6), n2 = r.range(1, 6);
  bool self = r.chance(.4);
  int m = (int)r.pick({0, 1, 2, 3, 5, 6, 7, 8, 10, 11});
  double fill = r.pick({0., .1, .5, 1.});
  std::vector<double> x(L * n1), y(L * n2);
  for (double &v : x) v = r.chance(fill) ? fabs(r.normal()) : 0;
  for (double &v : y) v = r.chance(fill) ? fabs(r.normal()) : 0;
  c.desc("vl_alldist2 sparse %ldx%ld vs %ld%s metric=%s fill=%g", L, n1, n2, self ? " self" : "", metricNames[m], fill);
  std::vector<mxArray *> in = {mx::sparse(L, n1, x)};
  if (!self) in.push_back(mx::sparse(L, n2, y));
  in.push_back(mx::str(metricNames[m]));
  Res o = good(c, "vl_alldist2", CALL(vl_alldist2, 1, in));
  std::vector<double> const &Y = self ? x : y;
  long N2 = self ? n1 : n2;
  needDims(c, "vl_alldist2", o.out[0], mxDOUBLE_CLASS, {n1, N2});
  double *d = data<double>(o.out[0]);
  for (long j = 0; j < N2; ++j)
    for (long i = 0; i < n1; ++i) {
      double acc = 0;
      for (long l = 0; l < L; ++l) {
        double t = termRef(m, x[l + i * L], Y[l + j * L]);
        acc = m == 10 ? std::max(acc, t) : acc + t;
      }
      if (!close(d[i + j * n1], acc, 1e-12, 1e-12 * L))
        c.fail("sparse distance", "vl_alldist2 %s: D(%ld,%ld) = %g rather than %g", metricNames[m], i, j, d[i + j * n1], acc);
    }
  c.nontrivial(fnv(d, n1 * N2 * 8, m));
}

// ----------------------------------------------------------- vl_binsearch
VT_GROUP(C38, binsearch, 6000, 60000) {
  mx::Scope s;
  Rng &r = c.rng;
  long m = r.chance(.06) ? 0 : r.range(1, r.chance(.2) ? 300 : 8);
  bool ints = r.chance(.5);
  std::vector<double> b(m);
  long half = std::max<long>(5, m / 2);
  for (double &v : b) v = ints ? r.range(-half, half) : r.normal();
  std::sort(b.begin(), b.end());
  if (m && r.chance(.2)) b[0] = -INFINITY;
  if (m && r.chance(.2)) b[m - 1] = INFINITY;
  Dims d = shape(r, 4, 5);
  std::vector<double> x(prod(d));
  for (double &v : x) v = r.chance(.05) ? INFINITY : r.chance(.05) ? -INFINITY : m && r.chance(.3) ? b[r.range(0, m - 1)] : m && r.chance(.1) ? nextafter(b[r.range(0, m - 1)], r.chance(.5) ? 1e9 : -1e9) : ints ? r.range(-6, 6) : 1.5 * r.normal();
  c.desc("vl_binsearch %ld bins, data %s", m, str(d));
  Res o = good(c, "vl_binsearch", CALL(vl_binsearch, 1, {arr(b, r.chance(.5) ? Dims{m, 1} : Dims{1, m}), arr(x, d)}));
  needDims(c, "vl_binsearch", o.out[0], mxDOUBLE_CLASS, d);
  double *q = data<double>(o.out[0]);
  for (size_t i = 0; i < x.size(); ++i) {
    long k = 0;
    for (double v : b) k += v <= x[i];
    if (q[i] != k) c.fail("bin", "vl_binsearch: %g put in bin %g rather than %ld of %ld", x[i], q[i], k, m);
  }
  if (!x.empty() && m) c.nontrivial(fnv(q, x.size() * 8));
}

// -------------------------------------------------------------- vl_binsum
template <class V, class I> static void binsum(Ctx &c) {
  Rng &r = c.rng;
  bool along = r.chance(.6), scalar = r.chance(.3);
  int expect = 0; // 1: must be refused
  Dims hd, bd;
  long dim = 0;
  if (along) {
    hd = shape(r, 4, 4, .02);
    dim = r.range(1, (long)hd.size());
    bd = hd;
    bd[dim - 1] = r.chance(.1) ? 1 : r.range(1, 6);
  } else {
    hd = shape(r, 3, 5, .02);
    bd = shape(r, 3, 5, .03);
  }
  long range = along ? hd[dim - 1] : prod(hd);
  // what the host makes of trailing singletons
  if (along && (long)hd.size() > 2 && hd.back() == 1 && dim > 2) {
    Dims t = hd;
    while (t.size() > 2 && t.back() == 1) t.pop_back();
    if (dim > (long)t.size()) throw Skip();
  }
  std::vector<V> h(prod(hd)), v(scalar ? 1 : prod(bd));
  std::vector<I> b(prod(bd));
  for (V &x : h) x = (V)r.range(0, 20);
  for (V &x : v) x = std::numeric_limits<V>::is_integer && !std::numeric_limits<V>::is_signed ? (V)r.range(0, 250) : (V)r.range(-9, 9);
  for (I &x : b) x = (I)(range ? r.range(0, range) : 0);
  if (!b.empty() && r.chance(.08)) {
    long q = r.range(0, (long)b.size() - 1);
    bool neg = std::numeric_limits<I>::is_signed && r.chance(.5);
    b[q] = neg ? (I)-1 : (I)(range + r.range(1, 3));
    expect = 1;
  }
  c.desc("vl_binsum H %s B %s%s dim=%ld value bytes=%zu index bytes=%zu%s", str(hd), str(bd), scalar ? " scalar" : "", dim, sizeof(V), sizeof(I), expect ? " index out of range" : "");
  std::vector<mxArray *> in = {arr(h, hd), arr(v, scalar ? Dims{1, 1} : bd), arr(b, bd)};
  if (along) in.push_back(mx::scalar((double)dim));
  Res o = CALL(vl_binsum, (int)r.range(0, 1), in);
  if (expect) {
    if (!o.err) c.fail("bad index accepted", "vl_binsum accepted an index out of range");
    c.count("bad indexes refused");
    c.nontrivial(b);
    return;
  }
  good(c, "vl_binsum", o);
  needDims(c, "vl_binsum", o.out[0], mx::Cls<V>::id, hd);
  std::vector<V> ref = h;
  long stride = 1;
  if (along) for (long k = 0; k < dim - 1; ++k) stride *= hd[k];
  for (size_t i = 0; i < b.size(); ++i) {
    long j = (long)b[i] - 1;
    if (j < 0) continue;
    long q = j;
    if (along) {
      long lo = (long)i % stride, hi = (long)i / (stride * bd[dim - 1]);
      q = lo + stride * (j + hd[dim - 1] * hi);
    }
    ref[q] = (V)(ref[q] + v[scalar ? 0 : i]);
  }
  if (!ref.empty() && memcmp(ref.data(), data<V>(o.out[0]), ref.size() * sizeof(V))) {
    size_t i = 0;
    while (!memcmp(&ref[i], data<V>(o.out[0]) + i, sizeof(V))) ++i;
    c.fail("bin sum", "vl_binsum: element %zu is %g rather than %g", i, (double)data<V>(o.out[0])[i], (double)ref[i]);
  }
  if (!b.empty() && range) c.nontrivial(ref, b.size());
}
template <class V> static void binsumI(Ctx &c) {
  switch (c.rng.range(0, 9)) {
    case 0: binsum<V, double>(c); break;
    case 1: binsum<V, float>(c); break;
    case 2: binsum<V, int64_t>(c); break;
    case 3: binsum<V, uint64_t>(c); break;
    case 4: binsum<V, int32_t>(c); break;
    case 5: binsum<V, uint32_t>(c); break;
    case 6: binsum<V, int16_t>(c); break;
    case 7: binsum<V, uint16_t>(c); break;
    case 8: binsum<V, int8_t>(c); break;
    default: binsum<V, uint8_t>(c);
  }
}
VT_GROUP(C38, binsum, 12000, 120000) {
  mx::Scope s;
  switch (c.rng.range(0, 9)) {
    case 0: binsumI<double>(c); break;
    case 1: binsumI<float>(c); break;
    case 2: binsumI<int64_t>(c); break;
    case 3: binsumI<uint64_t>(c); break;
    case 4: binsumI<int32_t>(c); break;
    case 5: binsumI<uint32_t>(c); break;
    case 6: binsumI<int16_t>(c); break;
    case 7: binsumI<uint16_t>(c); break;
    case 8: binsumI<int8_t>(c); break;
    default: binsumI<uint8_t>(c);
  }
}

// -------------------------------------------------------------- vl_cummax
template <class T> static void cummax(Ctx &c) {
  Rng &r = c.rng;
  Dims d = shape(r, 4, 6);
  std::vector<T> x(prod(d));
  for (T &v : x) {
    if (std::numeric_limits<T>::is_integer) v = (T)(r.u64() >> r.range(0, 63));
    else v = r.chance(.05) ? (T)INFINITY : r.chance(.1) ? -(T)INFINITY : (T)r.normal();
  }
  Dims t = d;
  while (t.size() > 2 && t.back() == 1) t.pop_back();
  long dim = r.chance(.5) ? 0 : r.range(1, (long)t.size());
  c.desc("vl_cummax %s dim=%ld bytes=%zu", str(d), dim, sizeof(T));
  std::vector<mxArray *> in = {arr(x, d)};
  if (dim) in.push_back(mx::scalar((double)dim));
  Res o = good(c, "vl_cummax", CALL(vl_cummax, 1, in));
  needDims(c, "vl_cummax", o.out[0], mx::Cls<T>::id, d);
  if (!dim) { dim = 1; while (dim < (long)t.size() && t[dim - 1] == 1) ++dim; }
  long stride = 1;
  for (long k = 0; k < dim - 1; ++k) stride *= t[k];
  T *y = data<T>(o.out[0]);
  for (long i = 0; i < (long)x.size(); ++i) {
    T m = x[i];
    long at = i / stride % t[dim - 1];
    for (long k = 1; k <= at; ++k) m = std::max(m, x[i - k * stride]);
    if (y[i] != m) c.fail("cumulative maximum", "vl_cummax: element %ld is %g rather than %g", i, (double)y[i], (double)m);
  }
  if (!x.empty()) c.nontrivial(x, dim);
}
VT_GROUP(C38, cummax, 6000, 60000) {
  mx::Scope s;
  switch (c.rng.range(0, 9)) {
    case 0: cummax<double>(c); break;
    case 1: cummax<float>(c); break;
    case 2: cummax<int64_t>(c); break;
    case 3: cummax<uint64_t>(c); break;
    case 4: cummax<int32_t>(c); break;
    case 5: cummax<uint32_t>(c); break;
    case 6: cummax<int16_t>(c); break;
    case 7: cummax<uint16_t>(c); break;
    case 8: cummax<int8_t>(c); break;
    default: cummax<uint8_t>(c);
  }
}

// ------------------------------------------------------------ hash tables
VT_GROUP(C38, ihash, 6000, 50000) {
  mx::Scope s;
  Rng &r = c.rng;
  long D = r.range(1, 4), K = r.chance(.15) ? 1 : r.range(1, 12), alphabet = r.pick({1L, 2L, 3L, 255L});
  c.desc("vl_ihashsum %ld-dimensional labels of %ld values, table of %ld", D, alphabet + 1, K);
  mxArray *h = mx::make(mxUINT32_CLASS, {1, K}), *id = mx::make(mxUINT8_CLASS, {D, K}), *nx = mx::make(mxUINT32_CLASS, {1, K});
  std::vector<uint8_t> all;
  int batches = (int)r.range(1, 4);
  auto label = [&](uint8_t *p) {
    bool null = true;
    for (long i = 0; i < D; ++i) { p[i] = (uint8_t)r.range(0, alphabet); null &= !p[i]; }
    if (null) p[r.range(0, D - 1)] = (uint8_t)r.range(1, alphabet);
  };
  for (int b = 0; b < batches; ++b) {
    long N = r.chance(.1) ? 0 : r.range(1, r.chance(.2) ? 60 : 12);
    std::vector<uint8_t> x(D * N);
    for (long i = 0; i < N; ++i) label(&x[i * D]);
    all.insert(all.end(), x.begin(), x.end());
    Res o = good(c, "vl_ihashsum", CALL(vl_ihashsum, 3, {h, id, nx, mx::scalar((double)K), arr(x, {D, N})}));
    h = o.out[0], id = o.out[1], nx = o.out[2];
    long C = (long)mxGetN(h);
    if (C < K) c.fail("hash table shrunk", "vl_ihashsum: the table has %ld entries, less than K=%ld", C, K);
    needDims(c, "vl_ihashsum", h, mxUINT32_CLASS, {1, C});
    needDims(c, "vl_ihashsum", id, mxUINT8_CLASS, {D, C});
    needDims(c, "vl_ihashsum", nx, mxUINT32_CLASS, {1, C});
    // counts of every label, once each
    long total = 0;
    for (long k = 0; k < C; ++k) {
      uint8_t *p = data<uint8_t>(id) + k * D;
      bool null = true;
      for (long i = 0; i < D; ++i) null &= !p[i];
      uint32_t n = data<uint32_t>(h)[k], cnt = 0;
      for (size_t q = 0; q < all.size() / D; ++q) cnt += !memcmp(&all[q * D], p, D);
      if (null ? n != 0 : n != cnt) c.fail("hash count", "vl_ihashsum: entry %ld counts %u labels rather than %u", k, n, null ? 0 : cnt);
      if (data<uint32_t>(nx)[k] > C) c.fail("hash link", "vl_ihashsum: NEXT(%ld) = %u > %ld", k, data<uint32_t>(nx)[k], C);
      total += n;
    }
    if (total != (long)all.size() / D) c.fail("hash total", "vl_ihashsum: counted %ld of %zu labels", total, all.size() / D);
    // retrieval, of labels counted and of others
    long Q = r.range(1, 10);
    std::vector<uint8_t> q(D * Q);
    for (long i = 0; i < Q; ++i) {
      if (!all.empty() && r.chance(.6)) memcpy(&q[i * D], &all[D * r.range(0, (long)(all.size() / D) - 1)], D);
      else if (r.chance(.8)) label(&q[i * D]);
    }
    Res f = good(c, "vl_ihashfind", CALL(vl_ihashfind, 1, {id, nx, mx::scalar((double)K), arr(q, {D, Q})}));
    needDims(c, "vl_ihashfind", f.out[0], mxUINT32_CLASS, {1, Q});
    for (long i = 0; i < Q; ++i) {
      uint32_t k = data<uint32_t>(f.out[0])[i];
      bool there = false;
      for (size_t p = 0; p < all.size() / D; ++p) there |= !memcmp(&all[p * D], &q[i * D], D);
      if (there ? !(k >= 1 && k <= C && !memcmp(data<uint8_t>(id) + (k - 1) * D, &q[i * D], D)) : k != 0)
        c.fail("hash find", "vl_ihashfind: a label %s was found at %u", there ? "of the table" : "not in the table", k);
    }
    c.count("labels looked up", (double)Q);
    c.count("tables extended", C > K);
  }
  if (!all.empty()) c.nontrivial(all, K);
}

// ----------------------------------------------------- integral histograms
VT_GROUP(C38, inthist, 6000, 50000) {
  mx::Scope s;
  Rng &r = c.rng;
  long M = r.chance(.03) ? 0 : r.range(1, 7), N = r.chance(.03) ? 0 : r.range(1, 7), L = r.chance(.5) ? 1 : r.range(1, 3), K = r.range(1, r.chance(.2) ? 24 : 5);
  std::vector<uint32_t> lab(M * N * L);
  uint32_t top = 0;
  for (uint32_t &v : lab) { v = (uint32_t)r.range(0, K); top = std::max(top, v); }
  int mass = (int)r.range(0, 2);
  bool given = r.chance(.5);
  long KK = given ? K + r.range(0, 2) : top;
  std::vector<double> md(M * N * L, 1);
  std::vector<uint32_t> mi(M * N * L, 1);
  if (mass) for (size_t i = 0; i < lab.size(); ++i) md[i] = mi[i] = (uint32_t)r.range(0, 9);
  if (mass == 2) for (double &v : md) v -= 4;
  c.desc("vl_inthist %ldx%ldx%ld labels up to %u, mass=%d, NumLabels=%ld", M, N, L, top, mass, given ? KK : 0);
  std::vector<mxArray *> in = {arr(lab, {M, N, L})};
  auto opts = [&](int which) {
    if (which == 0 && mass) { in.push_back(mx::str(randomCase(r, "mass"))); in.push_back(mass == 1 ? arr(mi, {M, N, L}) : arr(md, {M, N, L})); }
    if (which == 1 && given) { in.push_back(mx::str(randomCase(r, "numlabels"))); in.push_back(mx::scalar((double)KK)); }
  };
  int first = (int)r.range(0, 1);
  opts(first), opts(1 - first);
  Res o = good(c, "vl_inthist", CALL(vl_inthist, 1, in));
  bool dbl = mass == 2;
  needDims(c, "vl_inthist", o.out[0], dbl ? mxDOUBLE_CLASS : mxUINT32_CLASS, {M, N, KK});
  std::vector<double> ref(M * N * KK);
  for (long k = 0; k < KK; ++k)
    for (long j = 0; j < N; ++j)
      for (long i = 0; i < M; ++i) {
        double a = 0;
        for (long q = 0; q < L; ++q)
          for (long jj = 0; jj <= j; ++jj)
            for (long ii = 0; ii <= i; ++ii) {
              long p = ii + M * (jj + N * q);
              if (lab[p] == k + 1) a += md[p];
            }
        long p = i + M * (j + N * k);
        ref[p] = a;
        double got = dbl ? data<double>(o.out[0])[p] : data<uint32_t>(o.out[0])[p];
        if (got != a) c.fail("integral histogram", "vl_inthist(%ld,%ld,%ld) = %g rather than %g", i, j, k, got, a);
      }
  // sampling it gives the histograms of the boxes
  long B = r.chance(.05) ? 0 : r.range(1, 6);
  std::vector<uint32_t> box(4 * B);
  bool bad = false;
  for (long b = 0; b < B; ++b) {
    uint32_t *p = &box[4 * b];
    if (M && N) {
      p[0] = (uint32_t)r.range(1, M), p[2] = (uint32_t)r.range(1, M), p[1] = (uint32_t)r.range(1, N), p[3] = (uint32_t)r.range(1, N);
      if (r.chance(.6)) { if (p[0] > p[2]) std::swap(p[0], p[2]); if (p[1] > p[3]) std::swap(p[1], p[3]); }
    } else p[0] = p[1] = 2, p[2] = p[3] = 1;
    if (r.chance(.03)) p[r.range(2, 3)] = (uint32_t)(8 + r.range(0, 1000000));
    if (r.chance(.03)) p[r.range(0, 1)] = 0;
    bad |= p[0] <= p[2] && p[1] <= p[3] && (p[0] < 1 || p[1] < 1 || p[2] > M || p[3] > N);
  }
  Res h = CALL(vl_sampleinthist, 1, {o.out[0], arr(box, {4, B})});
  if (bad) {
    if (!h.err) c.fail("box out of range accepted", "vl_sampleinthist accepted a box out of the histogram");
    return;
  }
  good(c, "vl_sampleinthist", h);
  needDims(c, "vl_sampleinthist", h.out[0], dbl ? mxDOUBLE_CLASS : mxUINT32_CLASS, {KK, B});
  for (long b = 0; b < B; ++b)
    for (long k = 0; k < KK; ++k) {
      double a = 0;
      for (long q = 0; q < L; ++q)
        for (long j = box[4 * b + 1]; j <= (long)box[4 * b + 3]; ++j)
          for (long i = box[4 * b]; i <= (long)box[4 * b + 2]; ++i) {
            long p = i - 1 + M * (j - 1 + N * q);
            if (lab[p] == k + 1) a += md[p];
          }
      double got = dbl ? data<double>(h.out[0])[k + KK * b] : data<uint32_t>(h.out[0])[k + KK * b];
      if (got != a) c.fail("box histogram", "vl_sampleinthist: bin %ld of box %ld is %g rather than %g", k, b, got, a);
    }
  if (!ref.empty()) c.nontrivial(ref, B);
}

// ------------------------------------------------------------ vl_localmax
VT_GROUP(C38, localmax, 6000, 60000) {
  mx::Scope s;
  Rng &r = c.rng;
  Dims d = r.chance(.1) ? shape(r, 5, 4, .02) : shape(r, r.chance(.5) ? 2 : 4, 7, .02);
  std::vector<double> f(prod(d));
  bool ties = r.chance(.4);
  for (double &v : f) v = ties ? r.range(0, 3) : r.normal();
  Dims t = d;
  while (t.size() > 2 && t.back() == 1) t.pop_back();
  double th = r.chance(.4) ? -INFINITY : !f.empty() && r.chance(.4) ? *std::max_element(f.begin(), f.end()) : ties ? r.range(0, 3) : r.normal();
  long P = r.chance(.5) ? -1 : r.range(1, (long)t.size());
  c.desc("vl_localmax %s threshold=%g P=%ld", str(d), th, P);
  std::vector<mxArray *> in = {arr(f, d)};
  if (P >= 0 || r.chance(.5)) in.push_back(mx::scalar(th)); else th = -INFINITY;
  if (P >= 0) in.push_back(mx::scalar((double)P));
  Res o = good(c, "vl_localmax", CALL(vl_localmax, (int)r.range(0, 1), in));
  if (P < 0) {
    if (t.size() == 2 && (t[0] == 1 || t[1] == 1)) t = {std::max(t[0], t[1]) * (t[0] && t[1]), 1}, P = 1;
    else P = (long)t.size();
  }
  std::vector<double> ref;
  std::vector<long> sub(t.size());
  for (long i = 0; i < (long)f.size(); ++i) {
    long q = i;
    for (size_t k = 0; k < t.size(); ++k) { sub[k] = q % t[k]; q /= t[k]; }
    bool in = true;
    for (long k = 0; k < P; ++k) in &= sub[k] > 0 && sub[k] < t[k] - 1;
    if (!in || !(f[i] >= th)) continue;
    long total = 1;
    for (long k = 0; k < P; ++k) total *= 3;
    bool max = true;
    for (long z = 0; z < total && max; ++z) {
      long y = z, off = 0, st = 1;
      for (long k = 0; k < P; ++k) { off += (y % 3 - 1) * st; y /= 3; st *= t[k]; }
      if (off) max = f[i] > f[i + off];
    }
    if (max) ref.push_back((double)i + 1);
  }
  needDims(c, "vl_localmax", o.out[0], mxDOUBLE_CLASS, {1, (long)numel(o.out[0])});
  std::vector<double> got(data<double>(o.out[0]), data<double>(o.out[0]) + numel(o.out[0]));
  std::sort(got.begin(), got.end());
  if (got != ref) c.fail("local maxima", "vl_localmax found %zu maxima rather than %zu (or others)", got.size(), ref.size());
  c.count("maxima", (double)ref.size());
  if (!f.empty()) c.nontrivial(f, P);
}

// ------------------------------------------------------------ vl_ubcmatch
template <class T> static void ubcmatch(Ctx &c) {
  Rng &r = c.rng;
  long D = r.chance(.04) ? 0 : r.range(1, r.chance(.2) ? 128 : 8), k1 = r.chance(.04) ? 0 : r.range(1, 8), k2 = r.chance(.04) ? 0 : r.range(1, 8);
  std::vector<T> a(D * k1), b(D * k2);
  bool small = r.chance(.5);
  auto gen = [&]() -> T {
    if (small) return (T)r.range(0, 3);
    if (sizeof(T) == 1) return (T)r.range(std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
    return (T)r.range(-300, 300);
  };
  for (T &v : a) v = gen();
  for (T &v : b) v = gen();
  for (long j = 0; j < k2; ++j) if (k1 && D && r.chance(.4)) {
    memcpy(&b[j * D], &a[D * r.range(0, k1 - 1)], D * sizeof(T));
    if (r.chance(.7)) b[j * D + r.range(0, D - 1)] = gen();
  }
  double th = r.chance(.3) ? 1.5 : r.pick({1., 1.25, 2., 4., .5});
  bool pass = th != 1.5 || r.chance(.5);
  c.desc("vl_ubcmatch %ld: %ld vs %ld threshold=%g bytes=%zu", D, k1, k2, th, sizeof(T));
  std::vector<mxArray *> in = {arr(a, {D, k1}), arr(b, {D, k2})};
  if (pass) in.push_back(mx::scalar(th));
  int nout = (int)r.range(0, 2);
  Res o = good(c, "vl_ubcmatch", CALL(vl_ubcmatch, nout, in));
  std::vector<double> m, sc;
  for (long i = 0; i < k1; ++i) {
    double best = INFINITY, second = INFINITY;
    long at = -1;
    for (long j = 0; j < k2; ++j) {
      double d = 0;
      for (long l = 0; l < D; ++l) { double e = (double)a[i * D + l] - (double)b[j * D + l]; d += e * e; }
      if (d < best) second = best, best = d, at = j;
      else if (d < second) second = d;
    }
    if (at >= 0 && th * best < second) { m.push_back((double)i + 1); m.push_back((double)at + 1); sc.push_back(best); }
  }
  needDims(c, "vl_ubcmatch", o.out[0], mxDOUBLE_CLASS, {2, (long)m.size() / 2});
  if (!m.empty() && memcmp(m.data(), data<double>(o.out[0]), m.size() * 8)) c.fail("matches", "vl_ubcmatch: other matches than the unambiguous nearest descriptors");
  if (nout > 1) {
    needDims(c, "vl_ubcmatch", o.out[1], mxDOUBLE_CLASS, {1, (long)sc.size()});
    if (!sc.empty() && memcmp(sc.data(), data<double>(o.out[1]), sc.size() * 8)) c.fail("match scores", "vl_ubcmatch: the scores are not the squared distances");
  }
  c.count("matches", (double)sc.size());
  if (k1 && k2 && D) c.nontrivial(a, fnv(b.data(), b.size() * sizeof(T)));
}
VT_GROUP(C38, ubcmatch, 6000, 60000) {
  mx::Scope s;
  switch (c.rng.range(0, 3)) {
    case 0: ubcmatch<double>(c); break;
    case 1: ubcmatch<float>(c); break;
    case 2: ubcmatch<int8_t>(c); break;
    default: ubcmatch<uint8_t>(c);
  }
}

// ------------------------------------------------------- vl_imwbackwardmx
VT_GROUP(C38, imwbackward, 6000, 50000) {
  mx::Scope s;
  Rng &r = c.rng;
  long M = r.range(1, 6), N = r.range(1, 6), Mp = r.chance(.03) ? 0 : r.range(1, 5), Np = r.range(1, 5);
  bool unit = r.chance(.6);
  std::vector<double> X(N), Y(M), I(M * N), x(Mp * Np), y(Mp * Np);
  double at = unit ? 1 : r.normal();
  for (double &v : X) v = at, at += unit ? 1 : .1 + fabs(r.normal());
  at = unit ? 1 : r.normal();
  for (double &v : Y) v = at, at += unit ? 1 : .1 + fabs(r.normal());
  for (double &v : I) v = r.normal();
  for (size_t i = 0; i < x.size(); ++i) {
    x[i] = r.chance(.3) ? X[r.range(0, N - 1)] : r.uni(X[0] - .5, X[N - 1] + .5);
    y[i] = r.chance(.3) ? Y[r.range(0, M - 1)] : r.uni(Y[0] - .5, Y[M - 1] + .5);
    if (r.chance(.02)) x[i] = NAN;
    if (r.chance(.02)) y[i] = INFINITY;
  }
  int nout = (int)r.range(0, 3);
  c.desc("vl_imwbackwardmx %ldx%ld image, %ldx%ld points, %s grid, %d outputs", M, N, Mp, Np, unit ? "unit" : "other", nout);
  Res o = good(c, "vl_imwbackwardmx", CALL(vl_imwbackwardmx, nout, {arr(X, {1, N}), arr(Y, {M, 1}), arr(I, {M, N}), arr(x, {Mp, Np}), arr(y, {Mp, Np})}));
  for (int k = 0; k < std::max(1, nout); ++k) needDims(c, "vl_imwbackwardmx", o.out[k], mxDOUBLE_CLASS, {Mp, Np});
  for (size_t p = 0; p < x.size(); ++p) {
    double got = data<double>(o.out[0])[p];
    bool in = x[p] >= X[0] && x[p] <= X[N - 1] && y[p] >= Y[0] && y[p] <= Y[M - 1];
    if (!in) {
      for (int k = 0; k < std::max(1, nout); ++k)
        if (!std::isnan(data<double>(o.out[k])[p])) c.fail("outside value", "vl_imwbackwardmx: output %d is %g outside of the image", k + 1, data<double>(o.out[k])[p]);
      continue;
    }
    long j = 0, i = 0;
    while (j + 1 < N && X[j + 1] <= x[p]) ++j;
    while (i + 1 < M && Y[i + 1] <= y[p]) ++i;
    bool lastJ = j == N - 1, lastI = i == M - 1;
    double wx = lastJ ? 0 : (x[p] - X[j]) / (X[j + 1] - X[j]), wy = lastI ? 0 : (y[p] - Y[i]) / (Y[i + 1] - Y[i]);
    auto at2 = [&](long a, long b) { return a < M && b < N ? I[a + M * b] : 0.; };
    double ref = (1 - wy) * ((1 - wx) * at2(i, j) + wx * at2(i, j + 1)) + wy * ((1 - wx) * at2(i + 1, j) + wx * at2(i + 1, j + 1));
    if (!close(got, ref, 1e-12, 1e-12)) c.fail("warped value", "vl_imwbackwardmx: %g at (%g,%g) rather than %g", got, x[p], y[p], ref);
    if (unit && !lastI && !lastJ && nout >= 2) {
      double dx = (1 - wy) * (at2(i, j + 1) - at2(i, j)) + wy * (at2(i + 1, j + 1) - at2(i + 1, j));
      double dy = (1 - wx) * (at2(i + 1, j) - at2(i, j)) + wx * (at2(i + 1, j + 1) - at2(i, j + 1));
      if (!close(data<double>(o.out[1])[p], dx, 1e-12, 1e-12)) c.fail("x derivative", "vl_imwbackwardmx: derivative %g rather than %g", data<double>(o.out[1])[p], dx);
      if (nout >= 3 && !close(data<double>(o.out[2])[p], dy, 1e-12, 1e-12)) c.fail("y derivative", "vl_imwbackwardmx: derivative %g rather than %g", data<double>(o.out[2])[p], dy);
      c.count("derivatives");
    }
    c.count("points");
  }
  if (!x.empty()) c.nontrivial(x, fnv(I.data(), I.size() * 8));
}

// ------------------------------------------------------------ vl_imsmooth
template <class T> static void imsmooth(Ctx &c) {
  Rng &r = c.rng;
  long M = r.range(1, 12), N = r.range(1, 12), K = r.chance(.5) ? 1 : r.range(1, 3), step = r.chance(.5) ? 1 : r.range(1, 5);
  double sigma = r.chance(.1) ? 0 : r.chance(.1) ? r.uni(0, .02) : r.uni(.05, 4);
  int kernel = (int)r.range(0, 2), pad = (int)r.range(0, 2); // 0: default
  bool tri = kernel == 2, zero = pad == 2;
  bool simd = r.chance(.5);
  vl_set_simd_enabled(simd);
  std::vector<T> I(M * N * K);
  for (T &v : I) v = (T)r.normal();
  c.desc("vl_imsmooth %ldx%ldx%ld sigma=%g kernel=%d padding=%d step=%ld bytes=%zu simd=%d", M, N, K, sigma, kernel, pad, step, sizeof(T), simd);
  std::vector<mxArray *> in = {arr(I, {M, N, K}), mx::scalar(sigma)};
  if (kernel) { in.push_back(mx::str(randomCase(r, "kernel"))); in.push_back(mx::str(randomCase(r, tri ? "triangular" : "gaussian"))); }
  if (pad) { in.push_back(mx::str(randomCase(r, "padding"))); in.push_back(mx::str(randomCase(r, zero ? "zero" : "continuity"))); }
  if (step > 1 || r.chance(.2)) { in.push_back(mx::str(randomCase(r, "subsample"))); in.push_back(mx::scalar((double)step)); }
  if (r.chance(.1)) in.push_back(mx::str("verbose"));
  Res o = good(c, "vl_imsmooth", CALL(vl_imsmooth, 1, in));
  vl_set_simd_enabled(1);
  long M_ = (M - 1) / step + 1, N_ = (N - 1) / step + 1;
  needDims(c, "vl_imsmooth", o.out[0], mx::Cls<T>::id, {M_, N_, K});
  std::vector<double> f;
  long W;
  if (sigma < .01 && step == 1) f = {1}, W = 0;
  else if (tri) {
    W = std::max((long)sigma, 1L) - 1;
    for (long i = -W; i <= W; ++i) f.push_back((double)(W + 1 - labs(i)) / ((W + 1) * (W + 1)));
  } else {
    W = (long)ceil(4 * sigma);
    double acc = 0;
    for (long i = -W; i <= W; ++i) { double z = i / (sigma + 1.19209290e-7); f.push_back(exp(-.5 * z * z)); acc += f.back(); }
    for (double &v : f) v /= acc;
  }
  double tol = sizeof(T) == 4 ? 3e-6 : 1e-12;
  if (sigma < .05 && sigma > .005) tol = 1; // the filter is one sample: judged below through its mass only
  for (long k = 0; k < K; ++k)
    for (long j = 0; j < N_; ++j)
      for (long i = 0; i < M_; ++i) {
        double a = 0;
        for (long q = -W; q <= W; ++q)
          for (long p = -W; p <= W; ++p) {
            long y = i * step + p, x = j * step + q;
            if (zero && (y < 0 || x < 0 || y >= M || x >= N)) continue;
            y = std::min(std::max(y, 0L), M - 1), x = std::min(std::max(x, 0L), N - 1);
            a += f[q + W] * f[p + W] * (double)I[y + M * (x + N * k)];
          }
        double got = (double)data<T>(o.out[0])[i + M_ * (j + N_ * k)];
        if (!(fabs(got - a) <= tol * 4)) c.fail("smoothed value", "vl_imsmooth(%ld,%ld,%ld) = %g rather than %g", i, j, k, got, a);
      }
  c.nontrivial(I, (uint64_t)(sigma * 1e6) + step);
}
VT_GROUP(C38, imsmooth, 3600, 30000) {
  mx::Scope s;
  if (c.rng.chance(.5)) imsmooth<double>(c); else imsmooth<float>(c);
}

// ------------------------------------------------------------ vl_imdisttf
template <class T> static void imdisttf(Ctx &c) {
  Rng &r = c.rng;
  long M = r.range(1, 7), N = r.range(1, 7);
  std::vector<T> I(M * N);
  bool sparse = r.chance(.3);
  for (T &v : I) v = sparse && r.chance(.8) ? (T)1e4 : (T)(5 * r.normal());
  std::vector<double> p = {1, 0, 1, 0};
  bool given = r.chance(.6);
  if (given) p = {r.uni(.05, 3), r.chance(.5) ? 0 : 2 * r.normal(), r.uni(.05, 3), r.chance(.5) ? 0 : 2 * r.normal()};
  int nout = (int)r.range(0, 2);
  c.desc("vl_imdisttf %ldx%ld parameters %g %g %g %g, bytes=%zu", M, N, p[0], p[1], p[2], p[3], sizeof(T));
  std::vector<mxArray *> in = {arr(I, {M, N})};
  if (given) in.push_back(arr(p, r.chance(.5) ? Dims{1, 4} : Dims{4, 1}));
  Res o = good(c, "vl_imdisttf", CALL(vl_imdisttf, nout, in));
  needDims(c, "vl_imdisttf", o.out[0], mx::Cls<T>::id, {M, N});
  if (nout > 1) needDims(c, "vl_imdisttf", o.out[1], mxDOUBLE_CLASS, {M, N});
  double big = 0;
  for (T v : I) big = std::max(big, fabs((double)v));
  double tol = (sizeof(T) == 4 ? 1e-5 : 1e-11) * (big + 300);
  for (long x = 0; x < N; ++x)
    for (long y = 0; y < M; ++y) {
      auto cost = [&](long u, long v) {
        double a = x - u - (double)(T)p[1], b = y - v - (double)(T)p[3];
        return (double)I[v + M * u] + p[0] * a * a + p[2] * b * b;
      };
      double best = INFINITY;
      for (long u = 0; u < N; ++u) for (long v = 0; v < M; ++v) best = std::min(best, cost(u, v));
      double got = (double)data<T>(o.out[0])[y + M * x];
      if (!(fabs(got - best) <= tol)) c.fail("distance transform", "vl_imdisttf(%ld,%ld) = %g rather than %g", y, x, got, best);
      if (nout > 1) {
        double k = data<double>(o.out[1])[y + M * x];
        if (!(k >= 1 && k <= M * N && k == floor(k))) c.fail("transform index", "vl_imdisttf: index %g", k);
        long q = (long)k - 1;
        if (!(cost(q / M, q % M) <= best + 2 * tol)) c.fail("transform index", "vl_imdisttf(%ld,%ld): index %g costs %g rather than %g", y, x, k, cost(q / M, q % M), best);
      }
    }
  c.nontrivial(I, nout);
}
VT_GROUP(C38, imdisttf, 3600, 30000) {
  mx::Scope s;
  if (c.rng.chance(.5)) imdisttf<double>(c); else imdisttf<float>(c);
}

// ---------------------------------------------------------- vl_imintegral
template <class T> static void imintegral(Ctx &c) {
  Rng &r = c.rng;
  Dims d = shape(r, 3, 9, .03);
  std::vector<T> I(prod(d));
  for (T &v : I) v = std::numeric_limits<T>::is_integer ? (T)r.range(0, 1000) : (T)r.range(-100, 100);
  c.desc("vl_imintegral %s bytes=%zu", str(d), sizeof(T));
  Res o = good(c, "vl_imintegral", CALL(vl_imintegral, 1, {arr(I, d)}));
  needDims(c, "vl_imintegral", o.out[0], mx::Cls<T>::id, d);
  long M = d[0], N = d[1], K = d.size() > 2 ? d[2] : 1;
  for (long k = 0; k < K; ++k)
    for (long j = 0; j < N; ++j)
      for (long i = 0; i < M; ++i) {
        T a = 0;
        for (long q = 0; q <= j; ++q) for (long p = 0; p <= i; ++p) a += I[p + M * (q + N * k)];
        T got = data<T>(o.out[0])[i + M * (j + N * k)];
        if (got != a) c.fail("integral", "vl_imintegral(%ld,%ld,%ld) = %g rather than %g", i, j, k, (double)got, (double)a);
      }
  if (!I.empty()) c.nontrivial(I);
}
VT_GROUP(C38, imintegral, 3000, 30000) {
  mx::Scope s;
  switch (c.rng.range(0, 3)) {
    case 0: imintegral<double>(c); break;
    case 1: imintegral<float>(c); break;
    case 2: imintegral<uint32_t>(c); break;
    default: imintegral<int32_t>(c);
  }
}

// ---------------------------------------------------- splines and rotations
VT_GROUP(C38, tpsumx, 2400, 20000) {
  mx::Scope s;
  Rng &r = c.rng;
  long n = r.chance(.05) ? 0 : r.range(1, 6), m = r.chance(.05) ? 0 : r.range(1, 6);
  std::vector<double> X(2 * n), Y(2 * m);
  for (double &v : X) v = 2 * r.normal();
  for (double &v : Y) v = 2 * r.normal();
  if (n && m && r.chance(.5)) memcpy(&X[2 * r.range(0, n - 1)], &Y[2 * r.range(0, m - 1)], 16);
  c.desc("vl_tpsumx %ld points %ld controls", n, m);
  Res o = good(c, "vl_tpsumx", CALL(vl_tpsumx, 1, {arr(X, {2, n}), arr(Y, {2, m})}));
  needDims(c, "vl_tpsumx", o.out[0], mxDOUBLE_CLASS, {n, m});
  for (long j = 0; j < m; ++j)
    for (long i = 0; i < n; ++i) {
      double a = X[2 * i] - Y[2 * j], b = X[2 * i + 1] - Y[2 * j + 1], q = a * a + b * b, ref = q == 0 ? 0 : q * log(q);
      if (!close(data<double>(o.out[0])[i + n * j], ref, 1e-12, 1e-13)) c.fail("spline kernel", "vl_tpsumx(%ld,%ld) = %g rather than %g", i, j, data<double>(o.out[0])[i + n * j], ref);
    }
  if (n && m) c.nontrivial(X, m);
}
static void expm3(double const *w, double *R) {
  // scaling and squaring of the Taylor series of hat(w), column major
  double A[9] = {0, w[2], -w[1], -w[2], 0, w[0], w[1], -w[0], 0};
  double th = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
  int sq = 0;
  while (th > .1) th /= 2, ++sq;
  double sc = ldexp(1, -sq), T[9], E[9];
  for (int i = 0; i < 9; ++i) { A[i] *= sc; T[i] = E[i] = i % 4 == 0; }
  auto mul = [](double const *a, double const *b, double *o) {
    double t[9];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double z = 0; for (int k = 0; k < 3; ++k) z += a[i + 3 * k] * b[k + 3 * j]; t[i + 3 * j] = z; }
    memcpy(o, t, sizeof t);
  };
  for (int n = 1; n < 14; ++n) {
    mul(T, A, T);
    for (int i = 0; i < 9; ++i) { T[i] /= n; E[i] += T[i]; }
  }
  while (sq--) mul(E, E, E);
  memcpy(R, E, sizeof E);
}
VT_GROUP(C38, rodrigues, 3600, 30000) {
  mx::Scope s;
  Rng &r = c.rng;
  long K = r.range(1, 4);
  std::vector<double> w(3 * K);
  for (long k = 0; k < K; ++k) {
    double th = r.chance(.1) ? 0 : r.chance(.1) ? r.uni(0, 1e-3) : r.uni(0, 3.1), n = 0, v[3];
    bool axis = r.chance(.2);
    for (double &q : v) { q = r.normal(); if (axis) q = 0; }
    if (axis) v[r.range(0, 2)] = r.chance(.5) ? 1 : -1;
    for (double q : v) n += q * q;
    for (int i = 0; i < 3; ++i) w[3 * k + i] = v[i] / sqrt(n) * th;
  }
  int nout = (int)r.range(0, 2);
  c.desc("vl_rodr %ld rotations, first %g %g %g, %d outputs", K, w[0], w[1], w[2], nout);
  Res o = good(c, "vl_rodr", CALL(vl_rodr, nout, {arr(w, r.chance(.7) ? Dims{3, K} : Dims{3 * K, 1})}));
  needDims(c, "vl_rodr", o.out[0], mxDOUBLE_CLASS, {3, 3, K});
  if (nout > 1) needDims(c, "vl_rodr", o.out[1], mxDOUBLE_CLASS, {9, 3, K});
  double *R = data<double>(o.out[0]);
  for (long k = 0; k < K; ++k) {
    double E[9], th = sqrt(w[3 * k] * w[3 * k] + w[3 * k + 1] * w[3 * k + 1] + w[3 * k + 2] * w[3 * k + 2]);
    expm3(&w[3 * k], E);
    for (int i = 0; i < 9; ++i) if (!close(R[9 * k + i], E[i], 0, 2e-6)) c.fail("rotation", "vl_rodr: element %d of rotation %ld is %g rather than %g", i, k, R[9 * k + i], E[i]);
    if (nout > 1)
      for (int j = 0; j < 3; ++j) {
        double a[3], b[3], Ea[9], Eb[9], h = 1e-5;
        memcpy(a, &w[3 * k], 24), memcpy(b, &w[3 * k], 24);
        a[j] += h, b[j] -= h;
        expm3(a, Ea), expm3(b, Eb);
        for (int i = 0; i < 9; ++i) {
          double ref = (Ea[i] - Eb[i]) / (2 * h), got = data<double>(o.out[1])[27 * k + 9 * j + i];
          if (!close(got, ref, 0, 1e-5)) c.fail("rotation derivative", "vl_rodr: dR(%d,%d) = %g rather than %g (angle %g)", i, j, got, ref, th);
        }
      }
  }
  // and back
  std::vector<double> Rv(R, R + 9 * K);
  int no = (int)r.range(0, 2);
  Res b = good(c, "vl_irodr", CALL(vl_irodr, no, {arr(Rv, K == 1 && r.chance(.5) ? Dims{3, 3} : Dims{9, K})}));
  needDims(c, "vl_irodr", b.out[0], mxDOUBLE_CLASS, {3, K});
  if (no > 1) needDims(c, "vl_irodr", b.out[1], mxDOUBLE_CLASS, {3, 9, K});
  for (long k = 0; k < K; ++k)
    for (int i = 0; i < 3; ++i)
      if (!close(data<double>(b.out[0])[3 * k + i], w[3 * k + i], 0, 3e-6)) c.fail("inverse rotation", "vl_irodr: component %d of %ld is %g rather than %g", i, k, data<double>(b.out[0])[3 * k + i], w[3 * k + i]);
  c.nontrivial(w, nout);
}

// --------------------------------------------------- features by the library
VT_GROUP(C38, lbp_homkermap, 2400, 20000) {
  mx::Scope s;
  Rng &r = c.rng;
  if (r.chance(.4)) {
    long M = r.range(1, 20), N = r.range(1, 20), cell = r.range(1, 8);
    std::vector<float> I(M * N);
    for (float &v : I) v = (float)r.range(0, 9);
    c.desc("vl_lbp %ldx%ld cells of %ld", M, N, cell);
    Res o = CALL(vl_lbp, 1, {arr(I, {M, N}), mx::scalar((double)cell)});
    good(c, "vl_lbp", o);
    needDims(c, "vl_lbp", o.out[0], mxSINGLE_CLASS, {M / cell, N / cell, 58});
    // the image of the host is the transposed of the library's
    std::vector<float> T(M * N), f((M / cell) * (N / cell) * 58), g;
    VlLbp *l = vl_lbp_new(VlLbpUniform, 1);
    if (!f.empty()) vl_lbp_process(l, f.data(), I.data(), M, N, cell);
    vl_lbp_delete(l);
    if (!f.empty() && memcmp(f.data(), data<float>(o.out[0]), f.size() * 4)) c.fail("lbp", "vl_lbp differs from the library");
    c.nontrivial(I, cell);
    return;
  }
  int n = (int)r.range(0, 3), k = (int)r.range(0, 2), win = (int)r.range(0, 2);
  double gamma = r.chance(.5) ? 1 : r.uni(.2, 2), period = r.chance(.5) ? -1 : r.uni(2, 15);
  Dims d = shape(r, 3, 4);
  std::vector<double> x(prod(d));
  for (double &v : x) v = r.chance(.1) ? 0 : fabs(r.normal());
  bool dbl = r.chance(.5);
  std::vector<float> xf(x.begin(), x.end());
  char const *ks[] = {"kinters", "kchi2", "kjs"};
  c.desc("vl_homkermap %s n=%d %s gamma=%g period=%g window=%d double=%d", str(d), n, ks[k], gamma, period, win, dbl);
  std::vector<mxArray *> in = {dbl ? arr(x, d) : arr(xf, d), mx::scalar(n)};
  if (r.chance(.3)) in.push_back(mx::str("kernel"));
  in.push_back(mx::str(randomCase(r, k == 0 && r.chance(.5) ? "kl1" : ks[k])));
  if (gamma != 1) { in.push_back(mx::str("gamma")); in.push_back(mx::scalar(gamma)); }
  if (period > 0) { in.push_back(mx::str("period")); in.push_back(mx::scalar(period)); }
  if (win) { in.push_back(mx::str("window")); in.push_back(mx::str(win == 1 ? "uniform" : "rectangular")); }
  Res o = good(c, "vl_homkermap", CALL(vl_homkermap, 1, in));
  Dims e = d;
  e[0] *= 2 * n + 1;
  needDims(c, "vl_homkermap", o.out[0], dbl ? mxDOUBLE_CLASS : mxSINGLE_CLASS, e);
  VlHomogeneousKernelMap *m = vl_homogeneouskernelmap_new(k == 0 ? VlHomogeneousKernelIntersection : k == 1 ? VlHomogeneousKernelChi2 : VlHomogeneousKernelJS, gamma, n, period, win == 1 ? VlHomogeneousKernelMapWindowUniform : VlHomogeneousKernelMapWindowRectangular);
  for (size_t i = 0; i < x.size(); ++i) {
    double a[8];
    float b[8];
    bool same;
    if (dbl) { vl_homogeneouskernelmap_evaluate_d(m, a, 1, x[i]); same = !memcmp(a, data<double>(o.out[0]) + i * (2 * n + 1), 8 * (2 * n + 1)); }
    else { vl_homogeneouskernelmap_evaluate_f(m, b, 1, xf[i]); same = !memcmp(b, data<float>(o.out[0]) + i * (2 * n + 1), 4 * (2 * n + 1)); }
    if (!same) { vl_homogeneouskernelmap_delete(m); c.fail("homogeneous kernel map", "vl_homkermap differs from the library at element %zu", i); }
  }
  vl_homogeneouskernelmap_delete(m);
  if (!x.empty()) c.nontrivial(x, n * 100 + k);
}

// ------------------------------------------------------------- AIB counts
VT_GROUP(C38, aibhist, 3000, 30000) {
  mx::Scope s;
  Rng &r = c.rng;
  // a tree as vl_aib gives: leaves 1..n, then the nodes in order of creation
  long n = r.range(2, 10), P = 2 * n - 1;
  std::vector<uint32_t> par(P, 0);
  std::vector<long> live;
  std::vector<bool> null(n + 1);
  for (long i = 1; i <= n; ++i) {
    null[i] = n - i + (long)live.size() >= 2 && r.chance(.1); // leaves without probability
    if (null[i]) par[i - 1] = 0; else live.push_back(i);
  }
  long next = n + 1;
  while (live.size() > 1) {
    for (int q = 0; q < 2; ++q) {
      long k = r.range(0, (long)live.size() - 1);
      par[live[k] - 1] = (uint32_t)next;
      live.erase(live.begin() + k);
    }
    live.push_back(next++);
  }
  par[live[0] - 1] = 1; // the root
  bool hist = r.chance(.4);
  long N = hist ? n : r.range(0, 12);
  std::vector<double> x(N);
  bool bad = false;
  for (double &v : x) {
    if (hist) v = r.range(0, 6);
    else v = r.range(1, n);
    if (!hist && r.chance(.03)) { v = r.pick({0., (double)(n + 1), (double)P, (double)P + 1, 1e6}); bad = true; }
  }
  c.desc("vl_aibhist %ld leaves, %ld data%s%s", n, N, hist ? " histogram" : "", bad ? " not leaves" : "");
  std::vector<mxArray *> in = {arr(par, {1, P}), arr(x, {1, N})};
  if (hist) in.push_back(mx::str(randomCase(r, "hist")));
  Res o = CALL(vl_aibhist, 1, in);
  if (bad) {
    if (!o.err) c.fail("not a leaf", "vl_aibhist accepted data that are not leaves");
    return;
  }
  good(c, "vl_aibhist", o);
  needDims(c, "vl_aibhist", o.out[0], mxUINT32_CLASS, {1, P});
  std::vector<uint32_t> ref(P);
  for (long i = 0; i < N; ++i) {
    long at = hist ? i + 1 : (long)x[i], w = hist ? (long)x[i] : 1;
    for (;;) {
      ref[at - 1] += (uint32_t)w;
      if (par[at - 1] < 2) break;
      at = par[at - 1];
    }
  }
  if (memcmp(ref.data(), data<uint32_t>(o.out[0]), 4 * P)) c.fail("tree histogram", "vl_aibhist counted otherwise");
  c.nontrivial(ref, N);
}

// ------------------------------------------------------------- vl_erfill
VT_GROUP(C38, erfill, 4500, 40000) {
  mx::Scope s;
  Rng &r = c.rng;
  Dims d = shape(r, 3, 6, 0);
  std::vector<uint8_t> I(prod(d));
  int levels = (int)r.pick({1, 2, 4, 255});
  for (uint8_t &v : I) v = (uint8_t)r.range(0, levels);
  long seed = r.range(1, (long)I.size());
  bool inv = r.chance(.4);
  bool bad = r.chance(.05);
  if (bad) seed = r.chance(.5) ? 0 : (long)I.size() + r.range(1, 5), inv &= seed != 0;
  c.desc("vl_erfill %s levels=%d seed=%ld", str(d), levels, inv ? -seed : seed);
  Res o = CALL(vl_erfill, (int)r.range(0, 1), {arr(I, d), mx::scalar((double)(inv ? -seed : seed))});
  if (bad) {
    if (!o.err) c.fail("seed out of range", "vl_erfill accepted pixel %ld", seed);
    return;
  }
  good(c, "vl_erfill", o);
  std::vector<char> in(I.size(), 0);
  std::vector<long> q = {seed - 1};
  in[seed - 1] = 1;
  uint8_t lv = I[seed - 1];
  for (size_t k = 0; k < q.size(); ++k) {
    long sub[3] = {0, 0, 0}, t = q[k], D[3] = {1, 1, 1};
    for (size_t i = 0; i < d.size(); ++i) { D[i] = d[i]; sub[i] = t % d[i]; t /= d[i]; }
    for (long a = -1; a <= 1; ++a) for (long b = -1; b <= 1; ++b) for (long e = -1; e <= 1; ++e) {
      long x = sub[0] + a, y = sub[1] + b, z = sub[2] + e;
      if (x < 0 || y < 0 || z < 0 || x >= D[0] || y >= D[1] || z >= D[2]) continue;
      long p = x + D[0] * (y + D[1] * z);
      if (in[p] || (inv ? I[p] < lv : I[p] > lv)) continue;
      in[p] = 1;
      q.push_back(p);
    }
  }
  mxArray *m = o.out[0];
  if (mxGetClassID(m) != mxUINT32_CLASS) c.fail("output class", "vl_erfill: output is %s", mx::describe(m));
  long n = (long)numel(m);
  std::vector<char> got(I.size(), 0);
  for (long k = 0; k < n; ++k) {
    uint32_t p = data<uint32_t>(m)[k];
    if (p < 1 || p > I.size()) c.fail("member", "vl_erfill: member %u", p);
    if (got[p - 1]++) c.fail("member twice", "vl_erfill: pixel %u is listed twice", p);
  }
  if (got != in) c.fail("region", "vl_erfill: %ld members rather than %zu (or others)", n, q.size());
  c.count("members", (double)n);
  c.nontrivial(I, seed);
}

// ------------------------------------------------------------ vl_twister
VT_GROUP(C38, twister, 1800, 10000) {
  mx::Scope s;
  Rng &r = c.rng;
  VlRand ref;
  vl_rand_init(&ref);
  int how = (int)r.range(0, 2);
  c.desc("vl_twister seeding %d", how);
  if (how == 0) {
    uint32_t seed = (uint32_t)r.u64();
    good(c, "vl_twister", CALL(vl_twister, 0, {mx::str(randomCase(r, "state")), mx::scalar(seed)}));
    vl_rand_seed(&ref, seed);
  } else if (how == 1) {
    long n = r.range(2, r.chance(.3) ? 624 : 10);
    std::vector<double> k(n);
    std::vector<vl_uint32> key(n);
    for (long i = 0; i < n; ++i) k[i] = key[i] = (uint32_t)r.u64();
    good(c, "vl_twister", CALL(vl_twister, 0, {mx::str("state"), arr(k, {1, n})}));
    vl_rand_seed_by_array(&ref, key.data(), n);
  } else {
    vl_rand_seed(vl_get_rand(), (uint32_t)r.u64());
    ref = *vl_get_rand();
    if (r.chance(.3)) { vl_rand_init(vl_get_rand()); vl_rand_init(&ref); }
  }
  uint64_t h = 0;
  for (int round = 0; round < 3; ++round) {
    mxArray *saved = 0;
    if (r.chance(.5)) {
      saved = good(c, "vl_twister", CALL(vl_twister, 1, {mx::str("state")})).out[0];
      needDims(c, "vl_twister", saved, mxUINT32_CLASS, {625, 1});
    }
    Dims d = shape(r, 4, 4);
    std::vector<mxArray *> in;
    if (r.chance(.2)) d = {1, 1};
    else if (r.chance(.3)) { long n = r.range(0, 5); d = {n, n}; in = {mx::scalar((double)n)}; }
    else if (r.chance(.5)) for (long x : d) in.push_back(mx::scalar((double)x));
    else in = {arr(std::vector<double>(d.begin(), d.end()), {1, (long)d.size()})};
    Res o = good(c, "vl_twister", CALL(vl_twister, 1, in));
    needDims(c, "vl_twister", o.out[0], mxDOUBLE_CLASS, d);
    long n = prod(d);
    for (long i = 0; i < n; ++i) {
      double e = vl_rand_res53(&ref), g = data<double>(o.out[0])[i];
      if (e != g) c.fail("random sequence", "vl_twister: number %ld of round %d is %g rather than %g", i, round, g, e);
      h = fnv(&g, 8, h);
    }
    if (saved && r.chance(.7)) {
      // the saved state replays the numbers
      good(c, "vl_twister", CALL(vl_twister, 0, {mx::str("state"), saved}));
      Res p = good(c, "vl_twister", CALL(vl_twister, 1, in));
      if (n && memcmp(data<double>(p.out[0]), data<double>(o.out[0]), 8 * n)) c.fail("state restored", "vl_twister: the restored state gives other numbers");
      c.count("states restored");
    }
  }
  c.nontrivial(h);
}

// ------------------------------------------------------ any argument list
struct Gate { char const *name; MexFn fn; };
#define ENTRY(n) {#n, vtmex_##n},
static Gate gates[] = {GATEWAYS(ENTRY)};
static mxArray *anything(Rng &r) {
  if (r.chance(.12)) return mx::str(r.pick({"", "l2", "linf", "l0", "hist", "state", "Mass", "NumLabels", "kernel", "gaussian", "triangular", "padding", "zero", "subsample", "verbose", "kchi2", "gamma", "period", "window", "uniform", "a string that is longer than thirty two characters, and then some more of it"}));
  if (r.chance(.3)) return mx::scalar(r.pick({0., 1., 2., 3., -1., 4., .5, 7., 100., (double)NAN, (double)INFINITY, 1e10, -1e10}));
  Dims d = shape(r, 4, r.chance(.3) ? 3 : 6, .06);
  if (r.chance(.3)) d = {r.pick({1L, 2L, 3L, 4L, 9L}), r.range(0, 5)};
  if (r.chance(.06)) {
    std::vector<double> f(d[0] * d[1]);
    for (double &v : f) v = r.chance(.3) ? (double)r.range(-2, 3) : 0;
    return mx::sparse(d[0], d[1], f);
  }
  mxClassID cl = r.chance(.5) ? mxDOUBLE_CLASS : r.pick({mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxUINT32_CLASS, mxUINT8_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxCELL_CLASS});
  mxArray *a = mx::make(cl, d, r.chance(.03));
  long n = (long)numel(a);
  int kind = (int)r.range(0, 2);
  for (long i = 0; i < n; ++i) {
    double v = kind == 0 ? r.range(0, 4) : kind == 1 ? r.range(0, 100) : r.normal() * 3;
    if (r.chance(.01)) v = r.pick({(double)NAN, (double)INFINITY, -(double)INFINITY, 1e20});
    switch (cl) {
      case mxDOUBLE_CLASS: data<double>(a)[i] = v; break;
      case mxSINGLE_CLASS: data<float>(a)[i] = (float)v; break;
      case mxINT8_CLASS: data<int8_t>(a)[i] = (int8_t)r.range(kind ? -100 : 0, kind ? 100 : 4); break;
      case mxUINT8_CLASS: data<uint8_t>(a)[i] = (uint8_t)r.range(0, kind ? 100 : 4); break;
      case mxLOGICAL_CLASS: data<uint8_t>(a)[i] = (uint8_t)r.range(0, 1); break;
      case mxCHAR_CLASS: data<char>(a)[i] = (char)r.range('a', 'z'); break;
      case mxINT16_CLASS: data<int16_t>(a)[i] = (int16_t)r.range(kind ? -3 : 0, 9); break;
      case mxUINT16_CLASS: data<uint16_t>(a)[i] = (uint16_t)r.range(0, 9); break;
      case mxINT32_CLASS: data<int32_t>(a)[i] = (int32_t)r.range(kind ? -3 : 0, 9); break;
      case mxUINT32_CLASS: data<uint32_t>(a)[i] = (uint32_t)r.range(0, kind ? 20 : 3); break;
      case mxINT64_CLASS: data<int64_t>(a)[i] = r.range(kind ? -3 : 0, 9); break;
      case mxUINT64_CLASS: data<uint64_t>(a)[i] = (uint64_t)r.range(0, 9); break;
      default: break;
    }
  }
  return a;
}
// arguments that nearly are what a gateway wants, so that the checks of the
// first ones do not hide the rest
static std::vector<mxArray *> nearly(Rng &r, char const *name) {
  long m = r.range(0, 5), n = r.range(0, 5), k = r.range(1, 4);
  auto D = [&](Dims d) { mxArray *a = mx::make(mxDOUBLE_CLASS, d); for (size_t i = 0; i < numel(a); ++i) data<double>(a)[i] = r.range(0, 6); return a; };
  auto U8 = [&](Dims d) { mxArray *a = mx::make(mxUINT8_CLASS, d); for (size_t i = 0; i < numel(a); ++i) data<uint8_t>(a)[i] = (uint8_t)r.range(0, 5); return a; };
  auto U32 = [&](Dims d, long hi) { mxArray *a = mx::make(mxUINT32_CLASS, d); for (size_t i = 0; i < numel(a); ++i) data<uint32_t>(a)[i] = (uint32_t)r.range(0, hi); return a; };
  std::vector<mxArray *> v;
  if (!strcmp(name, "vl_alldist") || !strcmp(name, "vl_alldist2")) v = {D({k, m}), D({k, n}), mx::str(metricNames[r.range(0, 11)])};
  else if (!strcmp(name, "vl_binsearch")) v = {D({1, m}), D({m, n, k})};
  else if (!strcmp(name, "vl_binsum")) v = {D({m, n}), D({m, k}), D({m, k}), mx::scalar((double)r.range(0, 3))};
  else if (!strcmp(name, "vl_cummax")) v = {D({m, n, k}), mx::scalar((double)r.range(1, 3))};
  else if (!strcmp(name, "vl_ihashsum")) v = {U32({1, n}, 0), U8({k, n}), U32({1, n}, 0), mx::scalar((double)r.range(0, n)), U8({k, m})};
  else if (!strcmp(name, "vl_ihashfind")) v = {U8({k, n}), U32({1, n}, 0), mx::scalar((double)r.range(0, n)), U8({k, m})};
  else if (!strcmp(name, "vl_inthist")) v = {U32({m, n, k}, 5), mx::str("mass"), D({m, n, k}), mx::str("numlabels"), mx::scalar((double)r.range(0, 6))};
  else if (!strcmp(name, "vl_sampleinthist")) v = {D({m, n, k}), U32({4, r.range(0, 3)}, 6)};
  else if (!strcmp(name, "vl_localmax")) v = {D({m, n, k}), mx::scalar((double)r.range(-2, 2)), mx::scalar((double)r.range(0, 3))};
  else if (!strcmp(name, "vl_ubcmatch")) v = {D({k, m}), D({k, n}), mx::scalar(1.5)};
  else if (!strcmp(name, "vl_imwbackwardmx")) v = {D({1, n}), D({1, m}), D({m, n}), D({k, k}), D({k, k})};
  else if (!strcmp(name, "vl_imsmooth")) v = {D({m, n, k}), mx::scalar(r.uni(-1, 3)), mx::str("subsample"), mx::scalar((double)r.range(0, 3))};
  else if (!strcmp(name, "vl_imdisttf")) v = {D({m, n}), D({1, 4})};
  else if (!strcmp(name, "vl_imintegral")) v = {D({m, n, k})};
  else if (!strcmp(name, "vl_tpsumx")) v = {D({2, m}), D({2, n})};
  else if (!strcmp(name, "vl_rodr")) v = {D({3, k})};
  else if (!strcmp(name, "vl_irodr")) v = {D({9, k})};
  else if (!strcmp(name, "vl_lbp")) { mxArray *a = mx::make(mxSINGLE_CLASS, {m * 4, n * 4}); v = {a, mx::scalar((double)r.range(1, 5))}; }
  else if (!strcmp(name, "vl_homkermap")) v = {D({m, n}), mx::scalar((double)r.range(0, 2)), mx::str("kchi2"), mx::str("gamma"), mx::scalar(r.uni(0, 2))};
  else if (!strcmp(name, "vl_aibhist")) v = {U32({1, n}, n), D({1, m}), mx::str("hist")};
  else if (!strcmp(name, "vl_erfill")) v = {U8({m, n}), mx::scalar((double)r.range(-6, 6))};
  else if (!strcmp(name, "vl_twister")) v = {r.chance(.5) ? mx::str("state") : D({1, m}), r.chance(.5) ? U32({625, 1}, 700) : D({1, n})};
  return v;
}
VT_GROUP(C38, arguments, 40000, 400000) {
  mx::Scope s;
  Rng &r = c.rng;
  Gate &g = gates[r.range(0, (long)(sizeof gates / sizeof *gates) - 1)];
  std::vector<mxArray *> in;
  if (r.chance(.75)) {
    in = nearly(r, g.name);
    int edits = (int)r.range(0, 2);
    for (int k = 0; k < edits && !in.empty(); ++k) {
      long at = r.range(0, (long)in.size() - 1);
      if (r.chance(.25)) in.erase(in.begin() + at);
      else if (r.chance(.1)) in.push_back(anything(r));
      else in[at] = anything(r);
    }
    if (r.chance(.2) && !in.empty()) in.resize(r.range(1, (long)in.size()));
  } else {
    int n = (int)r.range(0, 5);
    for (int i = 0; i < n; ++i) in.push_back(anything(r));
  }
  int nout = (int)r.range(0, r.chance(.1) ? 4 : 2);
  char d[360];
  int o = snprintf(d, sizeof d, "%s nout=%d", g.name, nout);
  for (mxArray *a : in) o += snprintf(d + o, o < 330 ? sizeof d - o : 0, "; %s", mx::describe(a));
  c.desc("%s", d);
  Res res = call(c, g.name, g.fn, nout, in, false);
  c.count(res.err ? "argument lists refused" : "argument lists accepted");
  c.nontrivial(fnv(d, strlen(d)));
}
