// The library built with OpenMP (C04): every parallel operation with one
// thread and with several, on an OpenMP runtime that the sanitizers see.
#include "tasks.h"
#include <omp.h>
using namespace vt;
extern "C" {
extern long vt_omp_regions, vt_omp_parallel_regions, vt_omp_criticals, vt_omp_max_team;
extern unsigned long vt_omp_order;
extern int vt_omp_default;
extern unsigned vt_omp_jitter;
}

// runs f with one thread, then with T; reports what the runtime saw
template <class F> static void both(Ctx &c, int T, F f, bool needParallel = true) {
  vt_omp_jitter = 0;
  vl_set_num_threads(1);
  if (vl_get_max_threads() != 1) c.fail("threads.limit", "set 1 thread, got %d", (int)vl_get_max_threads());
  vt_omp_max_team = 0;
  f(0);
  if (vt_omp_max_team > 1) c.fail("threads.limit", "%ld threads worked although the limit is 1", vt_omp_max_team);
  vl_set_num_threads(T);
  if ((int)vl_get_max_threads() != T) c.fail("threads.limit", "set %d threads, got %d", T, (int)vl_get_max_threads());
  vt_omp_jitter = (unsigned)c.rng.u64() | 1;
  vt_omp_max_team = 0;
  long reg = vt_omp_parallel_regions, cr = vt_omp_criticals;
  vt_omp_order = 0;
  f(1);
  if (vt_omp_max_team > T) c.fail("threads.limit", "%ld threads worked although the limit is %d", vt_omp_max_team, T);
  c.count("parallel regions run", (double)(vt_omp_parallel_regions - reg));
  c.count("critical sections passed", (double)(vt_omp_criticals - cr));
  if (vt_omp_parallel_regions > reg) { char b[40]; snprintf(b, sizeof b, "cases with %ld threads", vt_omp_max_team); c.count(b); }
  (void)needParallel;
  vl_set_num_threads(1);
  vt_omp_jitter = 0;
}
static int team(Ctx &c) { return (int)c.rng.range(2, c.rng.chance(.2) ? 12 : 5); }
template <class T> struct TypeOf;
template <> struct TypeOf<float> { enum { t = VL_TYPE_FLOAT }; };
template <> struct TypeOf<double> { enum { t = VL_TYPE_DOUBLE }; };
template <class T> static void same(Ctx &c, char const *key, std::vector<T> const &a, std::vector<T> const &b) {
  for (size_t i = 0; i < a.size(); ++i)
    if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) c.fail(key, "element %zu is %.9g with one thread and %.9g with several", i, (double)a[i], (double)b[i]);
  c.count("values compared exactly", (double)a.size());
}
template <class T> static void near(Ctx &c, char const *key, std::vector<T> const &a, std::vector<T> const &b, double abs) {
  for (size_t i = 0; i < a.size(); ++i)
    if (!(fabs((double)a[i] - (double)b[i]) <= abs)) c.fail(key, "element %zu is %.9g with one thread and %.9g with several (allowed %.3g)", i, (double)a[i], (double)b[i], abs);
  c.count("values compared up to rounding", (double)a.size());
}

// ------------------------------------------------------------------ k-means
template <class T> static void quantize(Ctx &c) {
  Rng &r = c.rng;
  int th = team(c);
  long d = r.range(1, 10), n = r.chance(.2) ? r.range(1, 6) : r.range(1, 120), k = r.range(1, 12);
  std::vector<T> x = points<T>(r, d, n), mu = points<T>(r, d, k);
  VlKMeans *m = vl_kmeans_new(TypeOf<T>::t, r.chance(.6) ? VlDistanceL2 : VlDistanceL1);
  vl_kmeans_set_centers(m, mu.data(), d, k);
  vl_kmeans_set_num_trees(m, r.range(1, 3));
  vl_kmeans_set_max_num_comparisons(m, r.range(1, 40));
  bool ann = r.chance(.5), dist = r.chance(.7), update = ann && dist && r.chance(.4);
  uint64_t seed = r.u64();
  std::vector<vl_uint32> as[2], start(n);
  for (auto &a : start) a = (vl_uint32)r.range(0, k - 1);
  std::vector<T> di[2];
  c.desc("%s of %ld points of dimension %ld to %ld centres, %d threads", ann ? "ANN quantisation" : "quantisation", n, d, k, th);
  both(c, th, [&](int i) {
    as[i] = start;
    di[i].assign(n, 0);
    vl_rand_seed(vl_get_rand(), (vl_uint32)seed);
    if (ann) vl_kmeans_quantize_ann(m, as[i].data(), dist ? di[i].data() : 0, x.data(), n, update);
    else vl_kmeans_quantize(m, as[i].data(), dist ? di[i].data() : 0, x.data(), n);
  });
  vl_kmeans_delete(m);
  same(c, "quantize.assignments", as[0], as[1]);
  same(c, "quantize.distances", di[0], di[1]);
  c.nontrivial(as[1], fnv(x.data(), x.size() * sizeof(T)));
}
VT_GROUP(C04, quantize_f, 300, 6000) { quantize<float>(c); }
VT_GROUP(C04, quantize_d, 300, 6000) { quantize<double>(c); }

template <class T> static void cluster(Ctx &c) {
  Rng &r = c.rng;
  int th = team(c);
  long d = r.range(1, 6), n = r.range(4, 90), k = r.range(1, std::min(n, 8L));
  std::vector<T> x = points<T>(r, d, n);
  auto alg = r.pick({VlKMeansLloyd, VlKMeansElkan, VlKMeansElkan, VlKMeansANN});
  auto ini = r.pick({VlKMeansRandomSelection, VlKMeansPlusPlus});
  auto dist = r.chance(.6) ? VlDistanceL2 : VlDistanceL1;
  long it = r.range(1, 6), rep = r.range(1, 2), nt = r.range(1, 3), mc = r.range(1, 30);
  uint64_t seed = r.u64();
  std::vector<T> cen[2];
  double en[2];
  c.desc("k-means algorithm %d of %ld points of dimension %ld, %ld centres, %d threads", (int)alg, n, d, k, th);
  both(c, th, [&](int i) {
    VlKMeans *m = vl_kmeans_new(TypeOf<T>::t, dist);
    vl_kmeans_set_algorithm(m, alg);
    vl_kmeans_set_initialization(m, ini);
    vl_kmeans_set_max_num_iterations(m, it);
    vl_kmeans_set_num_repetitions(m, rep);
    vl_kmeans_set_num_trees(m, nt);
    vl_kmeans_set_max_num_comparisons(m, mc);
    vl_rand_seed(vl_get_rand(), (vl_uint32)seed);
    en[i] = vl_kmeans_cluster(m, x.data(), d, n, k);
    cen[i].assign((T const *)vl_kmeans_get_centers(m), (T const *)vl_kmeans_get_centers(m) + d * k);
    vl_kmeans_delete(m);
  });
  // every parallel loop of the clustering writes disjoint outputs
  same(c, "cluster.centers", cen[0], cen[1]);
  if (!(en[0] == en[1] || (en[0] != en[0] && en[1] != en[1]))) c.fail("cluster.energy", "the energy is %.17g with one thread and %.17g with %d", en[0], en[1], th);
  c.nontrivial(cen[1]);
}
VT_GROUP(C04, cluster_f, 250, 5000) { cluster<float>(c); }
VT_GROUP(C04, cluster_d, 250, 5000) { cluster<double>(c); }

// ------------------------------------------------------------------- k-d forest
template <class T> static void queries(Ctx &c) {
  Rng &r = c.rng;
  int th = team(c);
  long d = r.range(1, 10), n = r.range(1, 120), q = r.chance(.2) ? r.range(0, 3) : r.range(0, 60), kk = r.range(1, std::min(n, 6L));
  std::vector<T> x = points<T>(r, d, n), y = points<T>(r, d, q + 1);
  VlKDForest *f = vl_kdforest_new(TypeOf<T>::t, d, r.range(1, 4), r.chance(.5) ? VlDistanceL2 : VlDistanceL1);
  vl_kdforest_set_max_num_comparisons(f, r.chance(.4) ? 0 : r.range(1, 60));
  vl_kdforest_build(f, n, x.data());
  std::vector<vl_uint32> id[2];
  std::vector<T> di[2];
  vl_size num[2];
  c.desc("%ld queries of %ld neighbours among %ld points of dimension %ld, %d threads", q, kk, n, d, th);
  bool wd = r.chance(.8);
  both(c, th, [&](int i) {
    id[i].assign(kk * q + 1, 7);
    di[i].assign(kk * q + 1, 7);
    num[i] = vl_kdforest_query_with_array(f, id[i].data(), kk, q, wd ? di[i].data() : 0, y.data());
  });
  vl_kdforest_delete(f);
  same(c, "queries.index", id[0], id[1]);
  same(c, "queries.distance", di[0], di[1]);
  if (num[0] != num[1]) c.fail("queries.comparisons", "%d comparisons with one thread, %d with %d", (int)num[0], (int)num[1], th);
  c.nontrivial(id[1], fnv(x.data(), x.size() * sizeof(T)));
}
VT_GROUP(C04, queries_f, 250, 5000) { queries<float>(c); }
VT_GROUP(C04, queries_d, 250, 5000) { queries<double>(c); }

// ------------------------------------------------------------------- mixtures
template <class T> struct Model {
  long d, n, k;
  std::vector<T> x, mu, cov, pr;
  Model(Rng &r, long nmin) {
    d = r.range(1, 9); k = r.range(1, 6); n = r.chance(.2) ? r.range(nmin, nmin + 4) : r.range(nmin, 120);
    x.resize(d * n); mu.resize(d * k); cov.resize(d * k); pr.resize(k);
    for (auto &v : mu) v = (T)r.uni(-2, 2);
    for (auto &v : cov) v = (T)r.uni(.3, 3);
    double s = 0;
    for (auto &v : pr) { v = (T)r.uni(.2, 1); s += v; }
    for (auto &v : pr) v = (T)(v / s);
    for (long i = 0; i < n; ++i) { long j = r.range(0, k - 1); for (long t = 0; t < d; ++t) x[i * d + t] = (T)(mu[j * d + t] + sqrt((double)cov[j * d + t]) * r.normal()); }
  }
};
template <class T> struct Post;
template <> struct Post<float> { static constexpr double eps = 1.2e-7; static double f(float *p, long k, long n, float const *pr, float const *mu, long d, float const *cov, float const *x) { return vl_get_gmm_data_posteriors_f(p, k, n, pr, mu, d, cov, x); } };
template <> struct Post<double> { static constexpr double eps = 2.3e-16; static double f(double *p, long k, long n, double const *pr, double const *mu, long d, double const *cov, double const *x) { return vl_get_gmm_data_posteriors_d(p, k, n, pr, mu, d, cov, x); } };

template <class T> static void posteriors(Ctx &c) {
  Rng &r = c.rng;
  int th = team(c);
  Model<T> m(r, 1);
  std::vector<T> p[2];
  double ll[2];
  c.desc("posteriors of %ld points of dimension %ld under %ld Gaussians, %d threads", m.n, m.d, m.k, th);
  both(c, th, [&](int i) {
    p[i].assign(m.k * m.n, -1);
    ll[i] = Post<T>::f(p[i].data(), m.k, m.n, m.pr.data(), m.mu.data(), m.d, m.cov.data(), m.x.data());
  });
  same(c, "posteriors.value", p[0], p[1]);
  // a sum in working precision of n terms of magnitude |LL|/n (all of one sign or small)
  double mag = m.n * (20. + 8. * m.d);
  if (!(fabs(ll[0] - ll[1]) <= 4 * m.n * Post<T>::eps * mag)) c.fail("posteriors.likelihood", "the log-likelihood is %.12g with one thread and %.12g with %d", ll[0], ll[1], th);
  c.nontrivial(p[1]);
}
VT_GROUP(C04, posteriors_f, 250, 5000) { posteriors<float>(c); }
VT_GROUP(C04, posteriors_d, 250, 5000) { posteriors<double>(c); }

template <class T> static void emstep(Ctx &c) {
  Rng &r = c.rng;
  int th = team(c);
  Model<T> m(r, 8);
  std::vector<T> mu[2], cov[2], pr[2];
  double minMass = 1e9, scale = 0;
  {
    std::vector<T> p(m.k * m.n);
    Post<T>::f(p.data(), m.k, m.n, m.pr.data(), m.mu.data(), m.d, m.cov.data(), m.x.data());
    for (long j = 0; j < m.k; ++j) { double s = 0; for (long i = 0; i < m.n; ++i) s += p[i * m.k + j]; minMass = std::min(minMass, s); }
  }
  if (minMass < .3) throw Skip();
  for (T v : m.x) scale = std::max(scale, fabs((double)v));
  scale += 3;
  c.desc("one EM step on %ld points of dimension %ld, %ld Gaussians, %d threads", m.n, m.d, m.k, th);
  both(c, th, [&](int i) {
    VlGMM *g = vl_gmm_new(TypeOf<T>::t, m.d, m.k);
    vl_gmm_set_means(g, m.mu.data());
    vl_gmm_set_covariances(g, m.cov.data());
    vl_gmm_set_priors(g, m.pr.data());
    vl_gmm_set_covariance_lower_bound(g, 1e-5);
    vl_gmm_set_max_num_iterations(g, 1);
    vl_rand_seed(vl_get_rand(), 5);
    vl_gmm_em(g, m.x.data(), m.n);
    T const *q = (T const *)vl_gmm_get_means(g);
    mu[i].assign(q, q + m.d * m.k);
    q = (T const *)vl_gmm_get_covariances(g);
    cov[i].assign(q, q + m.d * m.k);
    q = (T const *)vl_gmm_get_priors(g);
    pr[i].assign(q, q + m.k);
    vl_gmm_delete(g);
  });
  double e = Post<T>::eps * (16 + 4 * m.n) / std::min(minMass, 1.);
  near(c, "em.priors", pr[0], pr[1], e * m.n);
  near(c, "em.means", mu[0], mu[1], e * scale * m.n);
  near(c, "em.covariances", cov[0], cov[1], 8 * e * scale * scale * m.n);
  c.nontrivial(mu[1]);
}
VT_GROUP(C04, em_f, 250, 5000) { emstep<float>(c); }
VT_GROUP(C04, em_d, 250, 5000) { emstep<double>(c); }

// whole trainings: only races, limits and sane results are judged
template <class T> static void training(Ctx &c) {
  Rng &r = c.rng;
  int th = team(c);
  Model<T> m(r, 12);
  double ll[2];
  auto init = r.pick({VlGMMRand, VlGMMKMeans});
  c.desc("mixture training, %ld points of dimension %ld, %ld Gaussians, %d threads", m.n, m.d, m.k, th);
  long it = r.range(1, 4);
  both(c, th, [&](int i) {
    VlGMM *g = vl_gmm_new(TypeOf<T>::t, m.d, m.k);
    vl_gmm_set_initialization(g, init);
    vl_gmm_set_max_num_iterations(g, it);
    vl_gmm_set_covariance_lower_bound(g, 1e-3);
    vl_rand_seed(vl_get_rand(), 99);
    ll[i] = vl_gmm_cluster(g, m.x.data(), m.n);
    T const *p = (T const *)vl_gmm_get_posteriors(g);
    for (long a = 0; a < m.n; ++a) {
      double s = 0;
      for (long j = 0; j < m.k; ++j) s += p[a * m.k + j];
      if (!(fabs(s - 1) < 1e-4)) c.fail("training.posteriors", "the posteriors of point %ld sum to %g", a, s);
    }
    vl_gmm_delete(g);
  });
  for (double v : ll) if (!(v == v)) c.fail("training.likelihood", "the log-likelihood is not a number");
  c.nontrivial(m.x);
}
VT_GROUP(C04, training_f, 80, 1600) { training<float>(c); }
VT_GROUP(C04, training_d, 80, 1600) { training<double>(c); }

// ------------------------------------------------------------------- encodings
template <class T> static void encodings(Ctx &c) {
  Rng &r = c.rng;
  int th = team(c);
  Model<T> m(r, 1);
  bool fisher = r.chance(.5);
  std::vector<T> e[2], as(m.n * m.k, 0);
  vl_size terms[2] = {0, 0};
  int fl;
  for (long i = 0; i < m.n; ++i) if (r.chance(.9)) as[i * m.k + r.range(0, m.k - 1)] = (T)(r.chance(.5) ? 1 : r.uni());
  if (fisher) fl = r.pick({0, VL_FISHER_FLAG_SQUARE_ROOT, VL_FISHER_FLAG_NORMALIZED, VL_FISHER_FLAG_IMPROVED, VL_FISHER_FLAG_FAST, VL_FISHER_FLAG_FAST | VL_FISHER_FLAG_IMPROVED});
  else fl = (int)r.range(0, 15);
  c.desc("%s of %ld points of dimension %ld, %ld words, flags %d, %d threads", fisher ? "Fisher encoding" : "VLAD encoding", m.n, m.d, m.k, fl, th);
  both(c, th, [&](int i) {
    e[i].assign((fisher ? 2 : 1) * m.d * m.k, -7);
    if (fisher) terms[i] = vl_fisher_encode(e[i].data(), TypeOf<T>::t, m.mu.data(), m.d, m.k, m.cov.data(), m.pr.data(), m.x.data(), m.n, fl);
    else vl_vlad_encode(e[i].data(), TypeOf<T>::t, m.mu.data(), m.d, m.k, m.x.data(), m.n, as.data(), fl);
  });
  same(c, fisher ? "fisher.code" : "vlad.code", e[0], e[1]);
  if (terms[0] != terms[1]) c.fail("fisher.terms", "%d terms with one thread, %d with %d", (int)terms[0], (int)terms[1], th);
  c.nontrivial(e[1]);
}
VT_GROUP(C04, encodings_f, 300, 6000) { encodings<float>(c); }
VT_GROUP(C04, encodings_d, 300, 6000) { encodings<double>(c); }

// the limit itself
VT_GROUP(C04, limit, 60, 600) {
  Rng &r = c.rng;
  int def = (int)r.range(1, 8);
  int old = vt_omp_default;
  vt_omp_default = def;
  vl_set_num_threads(0);
  int got = (int)vl_get_max_threads();
  vt_omp_default = old;
  c.desc("the default limit with %d threads available", def);
  if (got != def) c.fail("limit.default", "0 selects %d threads, the runtime offers %d", got, def);
  int x = (int)r.range(1, 40);
  vl_set_num_threads(x);
  if ((int)vl_get_max_threads() != x) c.fail("limit.get", "set %d threads, got %d", x, (int)vl_get_max_threads());
  vl_set_num_threads(1);
  if (vl_get_thread_limit() < 1) c.fail("limit.limit", "the thread limit is %d", (int)vl_get_thread_limit());
  c.nontrivial((uint64_t)def * 100 + x);
}
