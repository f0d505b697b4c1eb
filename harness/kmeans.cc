// C16 k-means quantisation, C17 k-means training, C18 integer and hierarchical k-means.
#include "gen.h"
extern "C" {
#include <vl/kmeans.h>
#include <vl/kdtree.h>
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
#include <vl/random.h>
#include <vl/mathop.h>
}
using namespace vt;

template <class T> struct Tr;
template <> struct Tr<float> { static vl_type type() { return VL_TYPE_FLOAT; } static double eps() { return 1.2e-7; } static char const *name() { return "float"; } };
template <> struct Tr<double> { static vl_type type() { return VL_TYPE_DOUBLE; } static double eps() { return 2.3e-16; } static char const *name() { return "double"; } };

// distance of two vectors and an error bound for its computation in T
template <class T> static double dist(int t, long d, T const *x, T const *y, double *err) {
  long double s = 0, m = 0;
  for (long i = 0; i < d; ++i) {
    long double a = x[i], b = y[i], u = a - b, v = a + b, g = 0;
    switch (t) {
    case VlDistanceL1: g = fabsl(u); s += g; m += g; break;
    case VlDistanceL2: g = u * u; s += g; m += g; break;
    case VlDistanceChi2: g = v ? u * u / v : 0; s += g; m += g; break;
    case VlDistanceHellinger: s += v - 2 * sqrtl(a * b); m += v; break;
    case VlDistanceJS: {
      long double p = a > 0 ? a * log2l(1 + b / a) : 0, q = b > 0 ? b * log2l(1 + a / b) : 0;
      s += v - p - q; m += v + p + q; break; }
    }
  }
  *err = (double)m * Tr<T>::eps() * (8 + d) + (t == VlDistanceL2 || t == VlDistanceL1 ? 1e-37 : 1e-30);
  return (double)s;
}
struct Near { double best, err; long idx; };
template <class T> static Near nearest(int t, long d, T const *x, T const *cs, long K) {
  Near n = {INFINITY, 0, -1};
  for (long k = 0; k < K; ++k) { double e, v = dist(t, d, x, cs + k * d, &e); n.err = std::max(n.err, std::isfinite(v) ? e : 0); if (v < n.best) { n.best = v; n.idx = k; } }
  return n;
}
struct KM {
  VlKMeans *p;
  KM(vl_type t, int dist) { p = vl_kmeans_new(t, (VlVectorComparisonType)dist); }
  KM(VlKMeans *q) : p(q) {}
  ~KM() { vl_kmeans_delete(p); }
  KM(KM const &) = delete;
  operator VlKMeans *() { return p; }
};

// ------------------------------------------------------------------ C16
template <class T> static void quantize(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, r.chance(.2) ? 40 : 8), K = r.range(1, r.chance(.2) ? 60 : 12), n = r.range(1, 50);
  int t = r.pick({(int)VlDistanceL1, (int)VlDistanceL2, (int)VlDistanceL1, (int)VlDistanceL2, (int)VlDistanceChi2, (int)VlDistanceHellinger, (int)VlDistanceJS});
  bool nn = t != VlDistanceL1 && t != VlDistanceL2, simd = r.chance(.7);
  int kind;
  std::vector<T> all = points<T>(r, d, n + K, &kind, nn);
  // some centers are data, some duplicates
  std::vector<T> cs(all.begin() + n * d, all.end()), x(all.begin(), all.begin() + n * d);
  for (long k = 0; k < K; ++k) if (r.chance(.2)) { long j = r.range(0, n - 1); std::copy(x.begin() + j * d, x.begin() + (j + 1) * d, cs.begin() + k * d); }
  bool ann = !nn && r.chance(.5), update = ann && r.chance(.4), withDist = r.chance(.85);
  long cmp = r.chance(.3) ? 0 : r.range(1, K + 3), trees = r.range(1, 4);
  c.desc("quantize<%s> d=%ld K=%ld n=%ld metric %d kind %d simd %d ann %d update %d comparisons %ld trees %ld distances %d", Tr<T>::name(), d, K, n, t, kind, simd, ann, update, cmp, trees, withDist);
  vl_set_simd_enabled(simd);
  KM km(Tr<T>::type(), t);
  if (r.chance(.3)) vl_kmeans_set_centers(km, all.data(), d, 1); // replaced below
  vl_kmeans_set_centers(km, cs.data(), d, K);
  if (vl_kmeans_get_num_centers(km) != (vl_size)K || vl_kmeans_get_dimension(km) != (vl_size)d || memcmp(vl_kmeans_get_centers(km), cs.data(), cs.size() * sizeof(T)))
    c.fail("centers", "the centers set are not the centers read back");
  Guarded<vl_uint32> as(n, 4, 0xabcdef01u);
  Guarded<T> ds(n, 4, (T)-7);
  for (long i = 0; i < n; ++i) as.data()[i] = update ? (vl_uint32)r.range(0, K - 1) : 0xffffffffu;
  std::vector<vl_uint32> before(as.data(), as.data() + n);
  vl_rand_seed(vl_get_rand(), (vl_uint32)r.u64());
  if (ann) {
    vl_kmeans_set_max_num_comparisons(km, cmp);
    vl_kmeans_set_num_trees(km, trees);
    vl_kmeans_quantize_ann(km, as.data(), withDist ? ds.data() : 0, x.data(), n, update);
  } else vl_kmeans_quantize(km, as.data(), withDist ? ds.data() : 0, x.data(), n);
  vl_set_simd_enabled(1);
  if (!as.intact() || !ds.intact()) c.fail("outside", "wrote outside the results");
  bool exact = !ann || cmp == 0 || cmp >= K * trees;
  for (long i = 0; i < n; ++i) {
    long k = as.data()[i];
    if (k < 0 || k >= K) c.fail("index", "point %ld assigned to %ld of %ld centers", i, k, K);
    Near m = nearest<T>(t, d, &x[i * d], cs.data(), K);
    double e, v = dist<T>(t, d, &x[i * d], &cs[k * d], &e);
    if (exact && v > m.best + 2 * (m.err + e)) c.fail("not-nearest", "point %ld assigned to center %ld at %.9g, center %ld is at %.9g", i, k, v, m.idx, m.best);
    if (withDist && !close(ds.data()[i], v, 0, e)) c.fail("distance", "point %ld: reported distance %.9g, center %ld is at %.9g", i, (double)ds.data()[i], k, v);
    if (update && withDist) {
      double e0, v0 = dist<T>(t, d, &x[i * d], &cs[before[i] * d], &e0);
      if (v > v0 + 2 * (e + e0)) c.fail("update-worse", "point %ld: update moved it from distance %.9g to %.9g", i, v0, v);
    }
  }
  c.count(ann ? "ann_points" : "points", n);
  if (exact) c.count("exact_points", n);
  c.nontrivial(all, t * 8 + ann * 4 + update * 2 + simd);
}
VT_GROUP(C16, quantize_f, 6000, 120000) { quantize<float>(c); }
VT_GROUP(C16, quantize_d, 6000, 120000) { quantize<double>(c); }

// ------------------------------------------------------------------ C17
static void params(Ctx &c, VlKMeans *km, long it, double mv, int alg) {
  vl_kmeans_set_max_num_iterations(km, it);
  vl_kmeans_set_min_energy_variation(km, mv);
  vl_kmeans_set_algorithm(km, (VlKMeansAlgorithm)alg);
  if (vl_kmeans_get_max_num_iterations(km) != (vl_size)it || vl_kmeans_get_min_energy_variation(km) != mv || vl_kmeans_get_algorithm(km) != (VlKMeansAlgorithm)alg)
    c.fail("settings", "a setting reads back differently");
}
template <class T> static double trueEnergy(int t, long d, std::vector<T> const &x, long n, T const *cs, long K, double *tol) {
  long double s = 0, e = 0;
  for (long i = 0; i < n; ++i) { Near m = nearest<T>(t, d, &x[i * d], cs, K); s += m.best; e += m.err; }
  *tol = (double)(e + s * n * 2.3e-16) * 2 + 1e-30;
  return (double)s;
}
template <class T> static bool allFinite(T const *p, long n) { for (long i = 0; i < n; ++i) if (!std::isfinite((double)p[i])) return false; return true; }
// slack for a mean or a sum of n values of the given magnitude in T
template <class T> static double scaleOf(std::vector<T> const &x) { double m = 0; for (T v : x) m = std::max(m, fabs((double)v)); return m; }

// reference Lloyd: returns the energy before each update, or stops when a tie or an empty cluster shows up
struct Ref { std::vector<double> energy; std::vector<double> centers; bool clean, unique; };
template <class T> static Ref lloyd(int t, long d, std::vector<T> const &x, long n, T const *c0, long K, long iters) {
  Ref R;
  R.clean = R.unique = true; // unique: no update chose among several medians
  double mt = sizeof(T) == 4 ? 2e-4 : 1e-9;
  std::vector<double> cs(c0, c0 + K * d), xd(x.begin(), x.end());
  for (long it = 0;; ++it) {
    std::vector<long> as(n), cnt(K, 0);
    double E = 0;
    for (long i = 0; i < n; ++i) {
      double b = INFINITY, b2 = INFINITY, e;
      for (long k = 0; k < K; ++k) { double v = dist<double>(t, d, &xd[i * d], &cs[k * d], &e); if (v < b) { b2 = b; b = v; as[i] = k; } else if (v < b2) b2 = v; }
      // margins are judged against the position of the data too: rounding of the centers moves the distances
      double sc = 0; for (long q = 0; q < d; ++q) sc = std::max(sc, fabs(xd[i * d + q]));
      double dl = t == VlDistanceL2 ? sqrt(b2) - sqrt(b) : b2 - b;
      if (K > 1 && !(dl > mt * (sc * d + (t == VlDistanceL2 ? sqrt(b2) : b2)))) R.clean = false;
      E += b;
      cnt[as[i]]++;
    }
    R.energy.push_back(E);
    R.centers = cs;
    if (it == iters) return R;
    for (long k = 0; k < K; ++k) if (!cnt[k]) R.clean = false;
    if (!R.clean) return R;
    for (long k = 0; k < K; ++k)
      for (long q = 0; q < d; ++q) {
        if (t == VlDistanceL2) { double s = 0; for (long i = 0; i < n; ++i) if (as[i] == k) s += xd[i * d + q]; cs[k * d + q] = s / cnt[k]; }
        else { std::vector<double> v; for (long i = 0; i < n; ++i) if (as[i] == k) v.push_back(xd[i * d + q]); std::sort(v.begin(), v.end()); cs[k * d + q] = v[(v.size() - 1) / 2]; if (v[v.size() / 2] != v[(v.size() - 1) / 2]) R.unique = false; }
      }
  }
}

template <class T> static void train(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, 6), n = r.range(2, 60), K = r.range(1, std::min(10l, n));
  int kind, t = r.chance(.5) ? VlDistanceL1 : VlDistanceL2;
  std::vector<T> x = points<T>(r, d, n, &kind);
  int alg = r.pick({(int)VlKMeansLloyd, (int)VlKMeansElkan, (int)VlKMeansLloyd, (int)VlKMeansElkan, (int)VlKMeansANN});
  int init = (int)r.range(0, 2);
  long iters = r.chance(.3) ? r.range(0, 3) : 60;
  double mv = r.chance(.5) ? 0 : r.chance(.5) ? 1e-4 : r.uni(0, .5);
  vl_uint32 seed = (vl_uint32)r.u64();
  long cmp = r.chance(.4) ? 0 : r.range(1, K + 2);
  if (init == 2 && r.chance(.2)) K = r.range(1, n + 6); // more centers than data is fine for refinement
  c.desc("train<%s> d=%ld n=%ld K=%ld metric %d kind %d algorithm %d init %d iterations %ld variation %g comparisons %ld", Tr<T>::name(), d, n, K, t, kind, alg, init, iters, mv, cmp);
  KM km(Tr<T>::type(), t);
  params(c, km, iters, mv, alg);
  vl_kmeans_set_max_num_comparisons(km, cmp);
  vl_kmeans_set_num_trees(km, 1);
  vl_rand_seed(vl_get_rand(), seed);
  if (init == 0) vl_kmeans_init_centers_with_rand_data(km, x.data(), d, n, K);
  else if (init == 1) vl_kmeans_init_centers_plus_plus(km, x.data(), d, n, K);
  else {
    std::vector<T> cs = points<T>(r, d, K);
    if (r.chance(.5)) for (long k = 0; k < K; ++k) { long j = r.range(0, n - 1); std::copy(x.begin() + j * d, x.begin() + (j + 1) * d, cs.begin() + k * d); }
    vl_kmeans_set_centers(km, cs.data(), d, K);
  }
  if (vl_kmeans_get_num_centers(km) != (vl_size)K || vl_kmeans_get_dimension(km) != (vl_size)d) c.fail("shape", "number or dimension of the centers");
  T const *p = (T const *)vl_kmeans_get_centers(km);
  std::vector<T> c0(p, p + K * d);
  if (init < 2) {
    // every center is a data point, and they are distinct while the data allow it
    long distinctData = 0, distinctC = 0;
    for (long i = 0; i < n; ++i) { bool dup = false; for (long j = 0; j < i && !dup; ++j) dup = std::equal(&x[i * d], &x[i * d] + d, &x[j * d]); distinctData += !dup; }
    for (long k = 0; k < K; ++k) {
      bool in = false, dup = false;
      for (long i = 0; i < n && !in; ++i) in = !memcmp(&x[i * d], &c0[k * d], d * sizeof(T));
      if (!in) c.fail("init-not-data", "initial center %ld is not a data point", k);
      for (long j = 0; j < k && !dup; ++j) dup = std::equal(&c0[k * d], &c0[k * d] + d, &c0[j * d]);
      distinctC += !dup;
    }
    // squared differences may underflow or drown: judge only well separated values
    if (kind == 2 || kind == 4 || kind == 1 || kind == 0) {
      if (distinctC < std::min(K, distinctData)) c.fail("init-duplicates", "%ld distinct initial centers of %ld, the data have %ld distinct points", distinctC, K, distinctData);
      c.count("initialisations_checked");
    }
  }
  double tol0, tol1, E0 = trueEnergy<T>(t, d, x, n, c0.data(), K, &tol0);
  vl_rand_seed(vl_get_rand(), seed + 1);
  double E = vl_kmeans_refine_centers(km, x.data(), n);
  p = (T const *)vl_kmeans_get_centers(km);
  std::vector<T> c1(p, p + K * d);
  if (!allFinite(c1.data(), K * d) || !std::isfinite(E)) c.fail("not-finite", "energy %g or centers are not finite", E);
  if (vl_kmeans_get_energy(km) != E) c.fail("get-energy", "reported energy %g, refinement returned %g", vl_kmeans_get_energy(km), E);
  double E1 = trueEnergy<T>(t, d, x, n, c1.data(), K, &tol1);
  double sc = std::max(scaleOf(x), scaleOf(c0)); // the bounds of Elkan round at the scale of the largest distance met
  double unit = t == VlDistanceL2 ? sc * sc * d : sc * d;
  // centers are rounded means: moving a center by delta changes the energy by n*(2 sqrt(E/n) delta + delta^2) at most
  double slack = sizeof(T) == 4 ? 1e-5 * n * unit : 1e-13 * n * unit;
  bool annExact = alg != VlKMeansANN || cmp == 0 || cmp >= K;
  if (annExact ? !close(E, E1, 0, tol1 + (alg == VlKMeansElkan ? slack : 0)) : !(E >= E1 - tol1))
    c.fail("energy-mismatch", "returned energy %.9g, energy of the centers %.9g, tolerance %g slack %g", E, E1, tol1, slack);
  if (annExact && !(E <= E0 + tol0 + tol1 + slack)) c.fail("energy-increased", "energy %.9g, initial centers had %.9g", E, E0);
  c.count("trainings");
  // training again from the same centers with the same random state gives the same result
  {
    KM k2(Tr<T>::type(), t);
    params(c, k2, iters, mv, alg);
    vl_kmeans_set_max_num_comparisons(k2, cmp);
    vl_kmeans_set_num_trees(k2, 1);
    vl_kmeans_set_centers(k2, c0.data(), d, K);
    vl_rand_seed(vl_get_rand(), seed + 1);
    double Eb = vl_kmeans_refine_centers(k2, x.data(), n);
    if (Eb != E || memcmp(vl_kmeans_get_centers(k2), c1.data(), c1.size() * sizeof(T))) c.fail("not-reproducible", "the same training gave energy %.17g and %.17g", E, Eb);
  }
  // a converged solution does not improve by another iteration
  if (alg != VlKMeansANN && mv == 0 && iters == 60 && n <= 40) {
    KM k2(Tr<T>::type(), t);
    params(c, k2, 1, 0, VlKMeansLloyd);
    vl_kmeans_set_centers(k2, c1.data(), d, K);
    Ref R = lloyd<T>(t, d, x, n, c1.data(), K, 1);
    if (R.clean) {
      double En = vl_kmeans_refine_centers(k2, x.data(), n);
      if (En < E - tol1 - slack) c.fail("not-converged", "energy %.9g drops to %.9g by one more iteration", E, En);
      c.count("fixed_points");
    }
  }
  // the trajectory: same energies as the reference, for both algorithms
  if (alg != VlKMeansANN) {
    long T1 = iters == 60 ? r.range(1, 6) : std::max(1l, iters);
    Ref R = lloyd<T>(t, d, x, n, c0.data(), K, T1);
    if (R.clean) {
      double E2[2];
      for (int a = 0; a < 2; ++a) {
        KM k2(Tr<T>::type(), t);
        params(c, k2, T1, 0, a ? VlKMeansElkan : VlKMeansLloyd);
        vl_kmeans_set_centers(k2, c0.data(), d, K);
        E2[a] = vl_kmeans_refine_centers(k2, x.data(), n);
      }
      double tl = tol0 + slack;
      if (t == VlDistanceL2 || R.unique)
        for (int a = 0; a < 2; ++a) if (!close(E2[a], R.energy[T1], 0, tl)) c.fail("trajectory", "algorithm %s after %ld iterations: energy %.9g, definition %.9g", a ? "Elkan" : "Lloyd", T1, E2[a], R.energy[T1]);
      if (close(E2[0], R.energy[T1], 0, tl) && !close(E2[0], E2[1], 0, 2 * tl)) c.fail("lloyd-elkan", "after %ld iterations Lloyd has energy %.9g, Elkan %.9g", T1, E2[0], E2[1]);
      c.count("trajectories");
    }
    // one iteration moves every center to the mean or to a median of its points
    Ref S = lloyd<T>(t, d, x, n, c0.data(), K, 0);
    std::vector<std::vector<long>> of(K);
    for (long i = 0; i < n; ++i) { long b = 0; double bv = INFINITY, e; for (long k = 0; k < K; ++k) { std::vector<double> a(&x[i * d], &x[i * d] + d), cc(&c0[k * d], &c0[k * d] + d); double v = dist<double>(t, d, a.data(), cc.data(), &e); if (v < bv) bv = v, b = k; } of[b].push_back(i); }
    if (S.clean) for (int a = 0; a < 3; ++a) {
      KM k2(Tr<T>::type(), t);
      char const *name[] = {"Lloyd", "Elkan", "ANN"};
      params(c, k2, 1, 0, a == 0 ? VlKMeansLloyd : a == 1 ? VlKMeansElkan : VlKMeansANN);
      vl_kmeans_set_max_num_comparisons(k2, 0);
      vl_kmeans_set_centers(k2, c0.data(), d, K);
      vl_kmeans_refine_centers(k2, x.data(), n);
      T const *q1 = (T const *)vl_kmeans_get_centers(k2);
      for (long k = 0; k < K; ++k) {
        if (of[k].empty()) {
          bool found = false;
          for (long i = 0; i < n && !found; ++i) found = !memcmp(&x[i * d], q1 + k * d, d * sizeof(T));
          if (!found) c.fail("restart", "%s: center %ld has no points and is not restarted from a data point", name[a], k);
          c.count("center_restarts_judged");
          continue;
        }
        for (long q = 0; q < d; ++q) {
          double cv = q1[k * d + q], s = 0;
          long lo = 0, hi = 0, m = (long)of[k].size();
          for (long i : of[k]) { double v = x[i * d + q]; s += v; lo += v < cv; hi += v > cv; }
          if (t == VlDistanceL2 ? !close(cv, s / m, 0, (sizeof(T) == 4 ? 1e-6 : 1e-14) * sc * (m + 2)) : 2 * lo > m || 2 * hi > m)
            c.fail("update", "%s: center %ld coordinate %ld is %.9g after one iteration, which is not the %s of its %ld points (mean %.9g)", name[a], k, q, cv, t == VlDistanceL2 ? "mean" : "median", m, s / m);
          c.count("center_updates_judged");
        }
      }
    }
  }
  c.nontrivial(x, fnv(c0.data(), c0.size() * sizeof(T), alg * 4 + (t == VlDistanceL1)));
}
VT_GROUP(C17, train_f, 4000, 80000) { train<float>(c); }
VT_GROUP(C17, train_d, 4000, 80000) { train<double>(c); }

// stopping rule: minimum relative energy variation
template <class T> static void stopping(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, 4), n = r.range(10, 80), K = r.range(2, 8);
  int t = r.chance(.5) ? VlDistanceL1 : VlDistanceL2;
  std::vector<T> x(n * d);
  for (auto &v : x) v = (T)r.normal();
  double mv = pow(10, r.uni(-4, -.3));
  int alg = r.chance(.7) ? VlKMeansLloyd : VlKMeansANN;
  c.desc("stopping<%s> d=%ld n=%ld K=%ld metric %d variation %g algorithm %d", Tr<T>::name(), d, n, K, t, mv, alg);
  std::vector<T> c0(x.begin(), x.begin() + K * d);
  auto run = [&](long it, double v) {
    KM km(Tr<T>::type(), t);
    params(c, km, it, v, alg);
    vl_kmeans_set_max_num_comparisons(km, 0);
    vl_kmeans_set_num_trees(km, 1);
    vl_kmeans_set_centers(km, c0.data(), d, K);
    vl_rand_seed(vl_get_rand(), 7);
    return vl_kmeans_refine_centers(km, x.data(), n);
  };
  double got = run(1000, mv), E0 = run(0, 0), prev = E0;
  bool sure = true;
  for (long it = 1; it < 200; ++it) {
    double E = run(it, 0);
    double slack = (sizeof(T) == 4 ? 1e-5 : 1e-12) * E0;
    if (E > prev + slack) c.fail("increase", "iteration %ld raises the energy from %.9g to %.9g", it, prev, E);
    if (prev == E) { if (sure && got != E) c.fail("stop-late", "stopped at energy %.12g, converged energy is %.12g", got, E); break; }
    double v = (prev - E) / (E0 - E);
    if (fabs(v - mv) < 1e-4 * mv + slack / E0) { sure = false; break; }
    if (v < mv) { if (got != E) c.fail("stop", "stopped at energy %.12g, variation %g is reached at iteration %ld with energy %.12g", got, v, it, E); break; }
    if (got == E && E != prev) {
      // stopped here although the variation is still large?
      double En = run(it + 1, 0);
      if (En < E - slack) c.fail("stop-early", "stopped at iteration %ld, where the variation %g is above %g", it, v, mv);
    }
    prev = E;
  }
  if (sure) c.count("stops_judged");
  c.nontrivial(x, fnv(&mv, 8));
}
VT_GROUP(C17, stopping_f, 500, 10000) { stopping<float>(c); }
VT_GROUP(C17, stopping_d, 500, 10000) { stopping<double>(c); }

template <class T> static void cluster(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, 5), n = r.range(2, 50), K = r.range(1, std::min(8l, n)), reps = r.range(1, 4);
  int kind, t = r.chance(.5) ? VlDistanceL1 : VlDistanceL2;
  int alg = r.pick({(int)VlKMeansLloyd, (int)VlKMeansElkan, (int)VlKMeansANN}), init = r.chance(.5) ? VlKMeansPlusPlus : VlKMeansRandomSelection;
  std::vector<T> x = points<T>(r, d, n, &kind);
  vl_uint32 seed = (vl_uint32)r.u64();
  c.desc("cluster<%s> d=%ld n=%ld K=%ld metric %d kind %d algorithm %d init %d repetitions %ld", Tr<T>::name(), d, n, K, t, kind, alg, init, reps);
  auto setup = [&](VlKMeans *km, long rp) {
    params(c, km, 30, 1e-4, alg);
    vl_kmeans_set_num_repetitions(km, rp);
    vl_kmeans_set_initialization(km, (VlKMeansInitialization)init);
    vl_kmeans_set_max_num_comparisons(km, 0);
    vl_kmeans_set_num_trees(km, 2);
    if (vl_kmeans_get_num_repetitions(km) != (vl_size)rp || vl_kmeans_get_initialization(km) != (VlKMeansInitialization)init || vl_kmeans_get_num_trees(km) != 2 || vl_kmeans_get_max_num_comparisons(km) != 0) c.fail("settings", "a setting reads back differently");
  };
  KM km(Tr<T>::type(), t);
  setup(km, reps);
  vl_rand_seed(vl_get_rand(), seed);
  double E = vl_kmeans_cluster(km, x.data(), d, n, K);
  T const *p = (T const *)vl_kmeans_get_centers(km);
  double tol, E1 = trueEnergy<T>(t, d, x, n, p, K, &tol), sc = scaleOf(x), unit = t == VlDistanceL2 ? sc * sc * d : sc * d;
  double slack = (sizeof(T) == 4 ? 1e-5 : 1e-13) * n * unit;
  if (!close(E, E1, 0, tol + (alg == VlKMeansElkan ? slack : 0))) c.fail("energy-mismatch", "returned energy %.9g, energy of the centers %.9g", E, E1);
  if (vl_kmeans_get_energy(km) != E) c.fail("get-energy", "reported energy %g, clustering returned %g", vl_kmeans_get_energy(km), E);
  // the best of the repetitions, which draw from one random stream
  vl_rand_seed(vl_get_rand(), seed);
  double best = INFINITY;
  for (long i = 0; i < reps; ++i) { KM k2(Tr<T>::type(), t); setup(k2, 1); best = std::min(best, vl_kmeans_cluster(k2, x.data(), d, n, K)); }
  if (E != best) c.fail("repetitions", "energy %.12g after %ld repetitions, the best single run has %.12g", E, reps, best);
  c.count("clusterings", reps);
  c.nontrivial(x, seed);
}
VT_GROUP(C17, cluster_f, 2000, 40000) { cluster<float>(c); }
VT_GROUP(C17, cluster_d, 2000, 40000) { cluster<double>(c); }

// ------------------------------------------------------------------ C18
static std::vector<vl_uint8> bytes(Rng &r, long M, long n) {
  std::vector<vl_uint8> x(M * n);
  int kind = (int)r.range(0, 5);
  std::vector<double> cc(6 * M);
  for (auto &v : cc) v = r.uni(0, 255);
  for (long i = 0; i < n; ++i) {
    long j = r.range(0, 5);
    for (long q = 0; q < M; ++q) {
      double v = kind == 0 ? r.range(0, 255) : kind == 1 ? r.range(0, 3) : kind == 2 ? cc[j * M + q] : kind == 3 ? cc[j * M + q] + 8 * r.normal() : kind == 4 ? 255 * r.range(0, 1) : 128;
      x[i * M + q] = (vl_uint8)std::min(255., std::max(0., v));
    }
  }
  return x;
}
static long d2(vl_int32 const *a, vl_uint8 const *b, long M) { long s = 0; for (long i = 0; i < M; ++i) { long e = (long)a[i] - b[i]; s += e * e; } return s; }

// the integer algorithms are deterministic: the model follows them step by step
static void ikmModel(std::vector<vl_int32> &cs, std::vector<vl_uint8> const &x, long M, long n, long K, long maxit, bool elkan) {
  std::vector<long> as(n, -1);
  auto best = [&](long j) { long b = 0; for (long k = 1; k < K; ++k) if (d2(&cs[k * M], &x[j * M], M) < d2(&cs[b * M], &x[j * M], M)) b = k; return b; };
  auto means = [&]() {
    std::vector<long> cnt(K, 0);
    std::vector<vl_int32> m(K * M, 0);
    for (long j = 0; j < n; ++j) { cnt[as[j]]++; for (long q = 0; q < M; ++q) m[as[j] * M + q] += x[j * M + q]; }
    for (long k = 0; k < K; ++k) if (cnt[k]) for (long q = 0; q < M; ++q) cs[k * M + q] = (vl_int32)(m[k * M + q] / cnt[k]);
  };
  if (!elkan) {
    for (long it = 0;; ++it) {
      bool done = true;
      for (long j = 0; j < n; ++j) { long b = best(j); if (as[j] != b) { as[j] = b; done = false; } }
      if (done || it == maxit) return;
      means();
    }
  }
  for (long j = 0; j < n; ++j) as[j] = best(j);
  for (long it = 0;; ++it) {
    means();
    bool done = true;
    for (long j = 0; j < n; ++j) { long b = best(j); if (d2(&cs[b * M], &x[j * M], M) < d2(&cs[as[j] * M], &x[j * M], M)) { as[j] = b; done = false; } }
    if (done || it == maxit) return;
  }
}
static void checkPush(Ctx &c, VlIKMFilt *f, std::vector<vl_uint8> const &x, long M, long n, long K, char const *when) {
  Guarded<vl_uint32> as(n, 4, 0xdeadbeefu);
  vl_ikm_push(f, as.data(), x.data(), n);
  if (!as.intact()) c.fail("push-outside", "wrote outside the assignments");
  vl_int32 const *cs = vl_ikm_get_centers(f);
  for (long j = 0; j < n; ++j) {
    long best = LONG_MAX, k = as.data()[j];
    for (long q = 0; q < K; ++q) best = std::min(best, d2(cs + q * M, &x[j * M], M));
    if (k < 0 || k >= K) c.fail("push-range", "%s: point %ld assigned to %ld of %ld centers", when, j, k, K);
    if (d2(cs + k * M, &x[j * M], M) != best) c.fail("push-not-nearest", "%s: point %ld assigned to center %ld at %ld, the nearest is at %ld", when, j, k, d2(cs + k * M, &x[j * M], M), best);
    long one = vl_ikm_push_one(cs, &x[j * M], M, K);
    if (one < 0 || one >= K || d2(cs + one * M, &x[j * M], M) != best) c.fail("push-one", "%s: single point %ld assigned to center %ld", when, j, one);
  }
  c.count("pushed", n);
}
VT_GROUP(C18, ikm, 6000, 120000) {
  Rng &r = c.rng;
  bool many = r.chance(.05);
  long M = r.range(1, many ? 3 : r.chance(.1) ? 130 : 8), n = r.range(many ? 100 : 1, many ? 400 : 60), K = r.range(1, std::min(n, many ? 40l : 12l));
  int method = r.chance(.5) ? VL_IKM_LLOYD : VL_IKM_ELKAN, init = (int)r.range(0, 2);
  if (init != 1 && r.chance(.15)) K = r.range(1, n + 5);
  long maxit = r.chance(.3) ? r.range(0, 4) : 200;
  std::vector<vl_uint8> x = bytes(r, M, n), y = bytes(r, M, r.range(1, 20));
  vl_uint32 seed = (vl_uint32)r.u64();
  c.desc("ikm M=%ld n=%ld K=%ld %s init %d maxit %ld", M, n, K, method == VL_IKM_LLOYD ? "Lloyd" : "Elkan", init, maxit);
  struct H { VlIKMFilt *f; ~H() { vl_ikm_delete(f); } } h = {vl_ikm_new(method)};
  VlIKMFilt *f = h.f;
  vl_ikm_set_max_niters(f, maxit);
  vl_rand_seed(vl_get_rand(), seed);
  std::vector<vl_int32> cs(K * M);
  if (r.chance(.2)) { vl_ikm_init_rand(f, 3, 2); } // an earlier initialisation must leave no trace
  if (init == 0) vl_ikm_init_rand(f, M, K);
  else if (init == 1) vl_ikm_init_rand_data(f, x.data(), M, n, K);
  else {
    for (long k = 0; k < K; ++k) { long j = r.range(0, n - 1); for (long q = 0; q < M; ++q) cs[k * M + q] = r.chance(.5) ? x[j * M + q] : (vl_int32)r.range(0, 255); }
    vl_ikm_init(f, cs.data(), M, K);
    if (memcmp(cs.data(), vl_ikm_get_centers(f), cs.size() * 4)) c.fail("init", "centers differ from those given");
  }
  if (vl_ikm_get_K(f) != (vl_size)K || vl_ikm_get_ndims(f) != (vl_size)M || vl_ikm_get_max_niters(f) != (vl_size)maxit) c.fail("getters", "a getter disagrees");
  cs.assign(vl_ikm_get_centers(f), vl_ikm_get_centers(f) + K * M);
  if (init == 0) for (auto v : cs) if (v < 0 || v > 255) c.fail("init-rand-range", "random center coordinate %d", (int)v);
  if (init == 1) {
    long dd = 0, dc = 0;
    for (long i = 0; i < n; ++i) { bool dup = false; for (long j = 0; j < i && !dup; ++j) dup = !memcmp(&x[i * M], &x[j * M], M); dd += !dup; }
    for (long k = 0; k < K; ++k) {
      bool in = false, dup = false;
      for (long i = 0; i < n && !in; ++i) in = d2(&cs[k * M], &x[i * M], M) == 0;
      for (long j = 0; j < k && !dup; ++j) dup = !memcmp(&cs[k * M], &cs[j * M], M * 4);
      if (!in) c.fail("init-not-data", "initial center %ld is not a data point", k);
      dc += !dup;
    }
    if (dc < std::min(K, dd)) c.fail("init-duplicates", "%ld distinct initial centers of %ld with %ld distinct data", dc, K, dd);
  }
  checkPush(c, f, y, M, (long)y.size() / M, K, "before training");
  int err = vl_ikm_train(f, x.data(), n);
  if (err) c.fail("train-error", "training returned %d", err);
  std::vector<vl_int32> model = cs;
  ikmModel(model, x, M, n, K, maxit, method == VL_IKM_ELKAN);
  vl_int32 const *got = vl_ikm_get_centers(f);
  for (long i = 0; i < K * M; ++i) if (got[i] != model[i]) c.fail("centers", "center %ld coordinate %ld is %d after training, the algorithm gives %d", i / M, i % M, got[i], model[i]);
  checkPush(c, f, x, M, n, K, "training data");
  checkPush(c, f, y, M, (long)y.size() / M, K, "new data");
  c.count(method == VL_IKM_LLOYD ? "lloyd_trainings" : "elkan_trainings");
  c.nontrivial(x, fnv(cs.data(), cs.size() * 4, method));
}

static void checkNode(Ctx &c, VlHIKMNode *node, long M, long K, long height, std::vector<vl_uint8> const &x, bool lloyd, long maxit) {
  long n = (long)x.size() / M, k = std::min(K, n);
  if ((long)vl_ikm_get_K(node->filter) != k) c.fail("node-size", "a node with %ld data has %ld centers, branching factor %ld", n, (long)vl_ikm_get_K(node->filter), K);
  if (k && (long)vl_ikm_get_ndims(node->filter) != M) c.fail("node-dims", "dimension of a node");
  if ((height == 1) != (node->children == 0)) c.fail("node-depth", "a node at height %ld %s children", height, node->children ? "has" : "lacks");
  c.count("nodes");
  if (!k) return;
  vl_int32 const *cs = vl_ikm_get_centers(node->filter);
  std::vector<vl_uint32> as(n);
  vl_ikm_push(node->filter, as.data(), x.data(), n);
  // centers with data are the means of their clusters, unless training ran out of iterations
  if (lloyd && maxit == 200) {
    std::vector<vl_int32> m(cs, cs + k * M);
    ikmModel(m, x, M, n, k, 1, false);
    if (memcmp(m.data(), cs, m.size() * 4)) {
      std::vector<vl_int32> m2(cs, cs + k * M), m3;
      ikmModel(m2, x, M, n, k, 500, false);
      m3 = m2;
      ikmModel(m3, x, M, n, k, 1, false);
      if (m3 == m2) c.fail("node-means", "the centers of a node at height %ld are not the means of their data", height);
      c.count("cycling_nodes");
    } else c.count("node_means_checked");
  }
  if (node->children)
    for (long q = 0; q < k; ++q) {
      std::vector<vl_uint8> sub;
      for (long j = 0; j < n; ++j) if (as[j] == (vl_uint32)q) sub.insert(sub.end(), x.begin() + j * M, x.begin() + (j + 1) * M);
      checkNode(c, node->children[q], M, K, height - 1, sub, lloyd, maxit);
    }
}
VT_GROUP(C18, hikm, 2500, 50000) {
  Rng &r = c.rng;
  long M = r.range(1, 6), n = r.range(1, 120), K = r.range(1, 5), depth = r.range(1, 4);
  int method = r.chance(.5) ? VL_IKM_LLOYD : VL_IKM_ELKAN;
  long maxit = r.chance(.3) ? r.range(0, 4) : 200;
  std::vector<vl_uint8> x = bytes(r, M, n), y = bytes(r, M, r.range(1, 30));
  c.desc("hikm M=%ld n=%ld K=%ld depth=%ld method %d maxit %ld", M, n, K, depth, method, maxit);
  struct H { VlHIKMTree *f; ~H() { vl_hikm_delete(f); } } h = {vl_hikm_new(method)};
  VlHIKMTree *f = h.f;
  vl_hikm_set_max_niters(f, (int)maxit);
  vl_rand_seed(vl_get_rand(), (vl_uint32)r.u64());
  if (r.chance(.2)) { vl_hikm_init(f, M, 2, 2); vl_hikm_train(f, x.data(), n); if (r.chance(.5)) vl_hikm_train(f, x.data(), n); }
  vl_hikm_init(f, M, K, depth);
  if (vl_hikm_get_ndims(f) != (vl_size)M || vl_hikm_get_K(f) != (vl_size)K || vl_hikm_get_depth(f) != (vl_size)depth || vl_hikm_get_max_niters(f) != (vl_size)maxit) c.fail("getters", "a getter disagrees");
  vl_hikm_train(f, x.data(), n);
  checkNode(c, (VlHIKMNode *)vl_hikm_get_root(f), M, K, depth, x, method == VL_IKM_LLOYD, maxit);
  for (int pass = 0; pass < 2; ++pass) {
    std::vector<vl_uint8> const &z = pass ? y : x;
    long m = (long)z.size() / M;
    Guarded<vl_uint32> as(m * depth, 4, 0xdeadbeefu);
    vl_hikm_push(f, as.data(), z.data(), m);
    if (!as.intact()) c.fail("push-outside", "wrote outside the paths");
    for (long j = 0; j < m; ++j) {
      VlHIKMNode const *node = vl_hikm_get_root(f);
      for (long l = 0; l < depth; ++l) {
        long a = as.data()[j * depth + l];
        if (a < 0 || a >= K) c.fail("path-range", "point %ld level %ld: label %ld with branching factor %ld", j, l, a, K);
        if (!node) continue;
        long k = (long)vl_ikm_get_K(node->filter);
        if (!k) { node = 0; c.count("paths_into_empty_branches"); continue; }
        if (a >= k) c.fail("path-range", "point %ld level %ld: label %ld in a node with %ld centers", j, l, a, k);
        vl_int32 const *cs = vl_ikm_get_centers(node->filter);
        for (long q = 0; q < k; ++q) if (d2(cs + q * M, &z[j * M], M) < d2(cs + a * M, &z[j * M], M)) c.fail("path-not-nearest", "point %ld level %ld: label %ld, center %ld is nearer", j, l, a, q);
        if (l + 1 < depth) { if (!node->children) c.fail("path-short", "the tree is shallower than its depth"); node = node->children[a]; }
      }
    }
    c.count("paths", m);
  }
  c.nontrivial(x, depth * 16 + K);
}
