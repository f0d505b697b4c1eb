// gmm.cc - C19 Gaussian mixtures, C20 Fisher vectors, C21 VLAD.
#include "vt.h"
#include "gen.h"
extern "C" {
#include <vl/gmm.h>
#include <vl/fisher.h>
#include <vl/vlad.h>
#include <vl/random.h>
#include <vl/mathop.h>
}
using namespace vt;

template <class T> struct Tr;
template <> struct Tr<float> {
  static vl_type type() { return VL_TYPE_FLOAT; }
  static double eps() { return 1.2e-7; }
  static double post(float *p, long K, long n, float const *pi, float const *mu, long d, float const *s, float const *x) { return vl_get_gmm_data_posteriors_f(p, K, n, pi, mu, d, s, x); }
};
template <> struct Tr<double> {
  static vl_type type() { return VL_TYPE_DOUBLE; }
  static double eps() { return 2.3e-16; }
  static double post(double *p, long K, long n, double const *pi, double const *mu, long d, double const *s, double const *x) { return vl_get_gmm_data_posteriors_d(p, K, n, pi, mu, d, s, x); }
};
struct GM { VlGMM *g; GM(vl_type t, long d, long K) : g(vl_gmm_new(t, d, K)) {} GM(VlGMM *x) : g(x) {} ~GM() { vl_gmm_delete(g); } operator VlGMM *() { return g; } GM(GM const &) = delete; };
struct Simd { Simd(bool on) { vl_set_simd_enabled(on); } ~Simd() { vl_set_simd_enabled(1); } };

template <class T> struct Model { long d, K; std::vector<T> pi, mu, s; };
template <class T> static Model<T> modelOf(VlGMM *g) {
  Model<T> m;
  m.d = (long)vl_gmm_get_dimension(g); m.K = (long)vl_gmm_get_num_clusters(g);
  T const *a = (T const *)vl_gmm_get_priors(g), *b = (T const *)vl_gmm_get_means(g), *e = (T const *)vl_gmm_get_covariances(g);
  m.pi.assign(a, a + m.K); m.mu.assign(b, b + m.K * m.d); m.s.assign(e, e + m.K * m.d);
  return m;
}
// a model near the data
template <class T> static Model<T> randomModel(Rng &r, long d, long K, std::vector<T> const &x, long n, bool zeros) {
  Model<T> m;
  m.d = d; m.K = K; m.pi.resize(K); m.mu.resize(K * d); m.s.resize(K * d);
  std::vector<double> var(d), me(d);
  for (long q = 0; q < d; ++q) {
    for (long i = 0; i < n; ++i) me[q] += x[i * d + q] / (double)n;
    for (long i = 0; i < n; ++i) var[q] += pow(x[i * d + q] - me[q], 2) / n;
    if (!(var[q] > 1e-3)) var[q] = 1e-3;
  }
  double sum = 0;
  for (long k = 0; k < K; ++k) { double w = zeros && r.chance(.2) ? 0 : r.chance(.1) ? 1e-3 * r.uni() : .05 + r.uni(); m.pi[k] = (T)w; sum += w; }
  if (sum <= 0) m.pi[0] = 1, sum = 1;
  for (auto &v : m.pi) v = (T)(v / sum);
  double sd = r.pick({.3, 1., 1., 4.});
  for (long k = 0; k < K; ++k) {
    long j = r.range(0, n - 1);
    double f = r.chance(.5) ? 1 : pow(10, r.uni(-1.5, .5));
    for (long q = 0; q < d; ++q) { m.mu[k * d + q] = (T)(x[j * d + q] + .3 * sd * sqrt(var[q]) * r.normal()); m.s[k * d + q] = (T)(var[q] * f * r.uni(.3, 2)); }
  }
  return m;
}
// E step of the definition: posteriors, log-likelihood and rounding allowances
template <class T> struct EStep { std::vector<double> p, err; double LL, tol; };
template <class T> static EStep<T> estep(Model<T> const &m, T const *x, long n) {
  EStep<T> E;
  E.p.resize(n * m.K); E.err.resize(n); E.LL = 0; E.tol = 1e-9;
  std::vector<long double> l(m.K);
  for (long i = 0; i < n; ++i) {
    long double mx = -INFINITY, mag = 0, sum = 0;
    for (long k = 0; k < m.K; ++k) {
      long double dist = 0, lc = 0, lca = 0;
      for (long q = 0; q < m.d; ++q) { long double e = (long double)x[i * m.d + q] - m.mu[k * m.d + q]; dist += e * e / m.s[k * m.d + q]; long double L = logl(m.s[k * m.d + q]); lc += L; lca += fabsl(L); }
      if (m.pi[k] < 1e-6) l[k] = -INFINITY;
      else { l[k] = logl(m.pi[k]) - .5L * m.d * logl(2 * acosl(-1.0L)) - .5L * lc - .5L * dist; mag = std::max(mag, (dist + lca + m.d * 2 + 20) * (m.d + 8)); if (l[k] > mx) mx = l[k]; }
    }
    for (long k = 0; k < m.K; ++k) sum += expl(l[k] - mx);
    for (long k = 0; k < m.K; ++k) E.p[i * m.K + k] = (double)(expl(l[k] - mx) / sum);
    E.LL += (double)(mx + logl(sum));
    // absolute error of a log density; only components with competitive density matter for it
    long double comp = 0;
    for (long k = 0; k < m.K; ++k) if (m.pi[k] >= 1e-6) {
      long double dist = 0, lca = 0;
      for (long q = 0; q < m.d; ++q) { long double e = (long double)x[i * m.d + q] - m.mu[k * m.d + q]; dist += e * e / m.s[k * m.d + q]; lca += fabsl(logl(m.s[k * m.d + q])); }
      long double er = 2 * Tr<T>::eps() * (dist + lca + m.d * 2 + 20) * (1 + m.d / 4.);
      if (l[k] > mx - 60 - er) comp = std::max(comp, er);
    }
    E.err[i] = (double)comp;
    E.tol += (double)comp + 1e-15 * fabs(E.LL);
  }
  return E;
}
template <class T> static void judgePosteriors(Ctx &c, Model<T> const &m, EStep<T> const &E, T const *p, long n, char const *when) {
  for (long i = 0; i < n; ++i) {
    double sum = 0;
    for (long k = 0; k < m.K; ++k) {
      double v = p[i * m.K + k], e = E.p[i * m.K + k];
      if (!(v >= 0 && v <= 1 + 1e-6)) c.fail("posterior-range", "%s: posterior %g of point %ld, mode %ld", when, v, i, k);
      if (m.pi[k] < 1e-6 && v != 0) c.fail("posterior-null-mode", "%s: posterior %g for a mode with prior %g", when, v, (double)m.pi[k]);
      double f = std::min(1., expm1(std::min(4 * E.err[i], 50.)));
      if (fabs(v - e) > f * std::min(1., e + (E.err[i] > 1 ? 1 : 0)) + 1e-12 + (sizeof(T) == 4 ? 1e-6 * e + 1e-30 : 0)) c.fail("posterior", "%s: posterior of point %ld, mode %ld is %.9g, the formula gives %.9g", when, i, k, v, e);
      sum += v;
    }
    if (fabs(sum - 1) > m.K * Tr<T>::eps() * 4 + 1e-12) c.fail("posterior-sum", "%s: posteriors of point %ld sum to %.9g", when, i, sum);
  }
  c.count("posteriors", n * m.K);
}
template <class T> static bool allFinite(std::vector<T> const &v) { for (T a : v) if (!std::isfinite((double)a)) return false; return true; }

template <class T> static void posteriors(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, r.chance(.1) ? 60 : 9), K = r.range(1, 9), n = r.range(1, 40);
  std::vector<T> x = points<T>(r, d, n);
  Model<T> m = randomModel<T>(r, d, K, x, n, true);
  if (r.chance(.2)) for (auto &v : x) v = (T)(v * 30);
  bool simd = r.chance(.7);
  c.desc("posteriors<%s> d=%ld K=%ld n=%ld simd %d", sizeof(T) == 4 ? "float" : "double", d, K, n, simd);
  Guarded<T> p(n * K, 8, (T)-77);
  double LL;
  { Simd s(simd); LL = Tr<T>::post(p.data(), K, n, m.pi.data(), m.mu.data(), d, m.s.data(), x.data()); }
  if (!p.intact()) c.fail("outside", "wrote outside the posteriors");
  EStep<T> E = estep(m, x.data(), n);
  judgePosteriors(c, m, E, p.data(), n, "given model");
  if (!close(LL, E.LL, 1e-12, E.tol)) c.fail("loglikelihood", "log-likelihood %.12g, definition %.12g (allowance %g)", LL, E.LL, E.tol);
  c.nontrivial(x, fnv(m.mu.data(), m.mu.size() * sizeof(T)));
}
VT_GROUP(C19, posteriors_f, 3000, 60000) { posteriors<float>(c); }
VT_GROUP(C19, posteriors_d, 3000, 60000) { posteriors<double>(c); }

// parameters a maximisation step gives for the posteriors p
template <class T> struct MStep { std::vector<double> pi, mu, s, mass, tmu, ts; bool fuzzy; double total; bool bound, dropped; };
template <class T> static MStep<T> mstep(Model<T> const &old, std::vector<T> const &p, std::vector<T> const &x, long n, double const *lb, bool hard = false) {
  long d = old.d, K = old.K;
  MStep<T> R;
  R.pi.assign(K, 0); R.mu.assign(K * d, 0); R.s.assign(K * d, 0); R.mass.assign(K, 0); R.tmu.assign(K * d, 0); R.ts.assign(K * d, 0);
  R.fuzzy = R.bound = R.dropped = false;
  R.total = 0;
  double eps = Tr<T>::eps();
  for (long k = 0; k < K; ++k) {
    long double W = 0;
    for (long i = 0; i < n; ++i) { double q = p[i * K + k]; if ((T)q < (T)0) continue; if ((double)(T)q < .01 / K) { if (q > 1e-9) R.dropped = true; continue; } W += q; }
    R.mass[k] = (double)W; R.total += (double)W;
    if (W < 1e-5) continue;
    for (long q = 0; q < d; ++q) {
      long double mu = 0, amag = 0, s = 0, so = 0;
      for (long i = 0; i < n; ++i) { double w = p[i * K + k]; if (w < .01 / K) continue; mu += w * x[i * d + q]; amag += w * fabs((double)x[i * d + q]); }
      mu /= W; amag /= W;
      for (long i = 0; i < n; ++i) { double w = p[i * K + k]; if (w < .01 / K) continue; long double e = x[i * d + q] - mu, o = (long double)x[i * d + q] - old.mu[k * d + q]; s += w * e * e; so += w * o * o; }
      s /= W; so /= W;
      double tm = 2 * (n + 6) * eps * (double)amag;
      double ts = 4 * (n + 8) * eps * (double)(so + s) + 4 * sqrt((double)so) * tm + tm * tm;
      // a variance far below the square of the mean shift is at the mercy of cancellation
      if (s < lb[q]) R.bound = true;
      R.mu[k * d + q] = (double)mu; R.s[k * d + q] = std::max((double)s, lb[q]); R.tmu[k * d + q] = tm; R.ts[k * d + q] = ts;
    }
  }
  for (long k = 0; k < K; ++k) R.pi[k] = R.total > 0 ? R.mass[k] / R.total : 0;
  return R;
}
template <class T> static void judgeParams(Ctx &c, Model<T> const &m, MStep<T> const &R, long n, char const *when) {
  double eps = Tr<T>::eps();
  for (long k = 0; k < m.K; ++k) {
    if (!close(m.pi[k], R.pi[k], 0, 4 * (n + m.K + 4) * eps)) c.fail("m-prior", "%s: prior of mode %ld is %.9g, the update gives %.9g", when, k, (double)m.pi[k], R.pi[k]);
    if (R.mass[k] < 1e-5) { c.count("modes_without_mass"); continue; }
    for (long q = 0; q < m.d; ++q) {
      long j = k * m.d + q;
      if (!close(m.mu[j], R.mu[j], 2 * eps, R.tmu[j] + 1e-300)) c.fail("m-mean", "%s: mean %ld of mode %ld is %.9g, the update gives %.9g (allowance %g)", when, q, k, (double)m.mu[j], R.mu[j], R.tmu[j]);
      if (!close(m.s[j], R.s[j], 2 * eps, R.ts[j] + 1e-300)) c.fail("m-covariance", "%s: variance %ld of mode %ld is %.9g, the update gives %.9g (allowance %g)", when, q, k, (double)m.s[j], R.s[j], R.ts[j]);
    }
    c.count("modes_judged");
  }
}
template <class T> static void judgeValid(Ctx &c, Model<T> const &m, double const *lb, char const *when) {
  double s = 0;
  for (T v : m.pi) { if (!(v >= 0)) c.fail("prior-range", "%s: a prior is %g", when, (double)v); s += v; }
  if (fabs(s - 1) > 4 * m.K * Tr<T>::eps()) c.fail("prior-sum", "%s: priors sum to %.9g", when, s);
  if (!allFinite(m.mu) || !allFinite(m.s)) c.fail("not-finite", "%s: a mean or variance is not finite", when);
  for (long k = 0; k < m.K; ++k) for (long q = 0; q < m.d; ++q) if (!(m.s[k * m.d + q] >= (T)lb[q])) c.fail("variance-bound", "%s: variance %g below its bound %g", when, (double)m.s[k * m.d + q], lb[q]);
}
template <class T> static std::vector<T> mixData(Rng &r, long d, long n) {
  std::vector<T> x;
  if (r.chance(.5)) { // clusters at unit scale
    long C = r.range(1, 5);
    std::vector<double> cc(C * d);
    for (auto &v : cc) v = 5 * r.normal();
    x.resize(n * d);
    for (long i = 0; i < n; ++i) { long j = r.range(0, C - 1); for (long q = 0; q < d; ++q) x[i * d + q] = (T)(cc[j * d + q] + r.normal()); }
  } else x = points<T>(r, d, n);
  return x;
}
template <class T> static void bounds(Rng &r, VlGMM *g, long d) {
  if (r.chance(.5)) vl_gmm_set_covariance_lower_bound(g, pow(10, r.uni(-6, 0)));
  else if (r.chance(.5)) { std::vector<double> lb(d); for (auto &v : lb) v = pow(10, r.uni(-6, 0)); vl_gmm_set_covariance_lower_bounds(g, lb.data()); }
}
template <class T> static void setModel(VlGMM *g, Model<T> const &m) { vl_gmm_set_priors(g, m.pi.data()); vl_gmm_set_means(g, m.mu.data()); vl_gmm_set_covariances(g, m.s.data()); }

// one EM step from given parameters
template <class T> static void step(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, r.chance(.1) ? 40 : 7), K = r.range(1, 7), n = r.range(1, 60);
  std::vector<T> x = mixData<T>(r, d, n);
  Model<T> m0 = randomModel<T>(r, d, K, x, n, false);
  bool simd = r.chance(.7);
  c.desc("step<%s> d=%ld K=%ld n=%ld simd %d", sizeof(T) == 4 ? "float" : "double", d, K, n, simd);
  Simd sd(simd);
  GM g(Tr<T>::type(), d, K);
  bounds<T>(r, g, d);
  std::vector<double> lb(vl_gmm_get_covariance_lower_bounds(g), vl_gmm_get_covariance_lower_bounds(g) + d);
  setModel(g, m0);
  vl_gmm_set_initialization(g, VlGMMCustom);
  vl_gmm_set_max_num_iterations(g, 0);
  double LL0 = vl_gmm_em(g, x.data(), n);
  Model<T> m1 = modelOf<T>(g);
  // zero iterations: the given parameters, moved above the bounds
  for (long k = 0; k < K; ++k) for (long q = 0; q < d; ++q) { T want = std::max(m0.s[k * d + q], (T)lb[q]); if (m1.s[k * d + q] != want || m1.mu[k * d + q] != m0.mu[k * d + q]) c.fail("no-iterations", "parameters change without an iteration"); }
  if (m1.pi != m0.pi) c.fail("no-iterations", "priors change without an iteration");
  EStep<T> E0 = estep(m1, x.data(), n);
  std::vector<T> p((T const *)vl_gmm_get_posteriors(g), (T const *)vl_gmm_get_posteriors(g) + n * K);
  judgePosteriors(c, m1, E0, p.data(), n, "before");
  if (!close(LL0, E0.LL, 1e-12, E0.tol)) c.fail("loglikelihood", "log-likelihood %.12g, definition %.12g", LL0, E0.LL);
  if (vl_gmm_get_loglikelihood(g) != LL0) c.fail("get-loglikelihood", "reported %g, EM returned %g", vl_gmm_get_loglikelihood(g), LL0);
  // one iteration, through the same object, a new one, or clustering
  int how = (int)r.range(0, 2);
  GM g2(Tr<T>::type(), d, K);
  VlGMM *h = how == 0 ? g.g : g2.g;
  vl_gmm_set_covariance_lower_bounds(h, lb.data());
  setModel(h, m0);
  vl_gmm_set_initialization(h, VlGMMCustom);
  vl_gmm_set_max_num_iterations(h, 1);
  if (how == 2) vl_gmm_set_num_repetitions(h, r.range(1, 3));
  double LL1 = how == 2 ? vl_gmm_cluster(h, x.data(), n) : vl_gmm_em(h, x.data(), n);
  Model<T> m2 = modelOf<T>(h);
  judgeValid(c, m2, lb.data(), "after one step");
  MStep<T> R = mstep(m1, p, x, n, lb.data());
  judgeParams(c, m2, R, n, "one step");
  EStep<T> E1 = estep(m2, x.data(), n);
  if (!close(LL1, E1.LL, 1e-12, E1.tol)) c.fail("loglikelihood", "log-likelihood after a step %.12g, definition %.12g", LL1, E1.LL);
  judgePosteriors(c, m2, E1, (T const *)vl_gmm_get_posteriors(h), n, "after");
  if (vl_gmm_get_loglikelihood(h) != LL1) c.fail("get-loglikelihood", "reported %g, returned %g", vl_gmm_get_loglikelihood(h), LL1);
  if ((long)vl_gmm_get_num_data(h) != n) c.fail("num-data", "reported %ld data of %ld", (long)vl_gmm_get_num_data(h), n);
  bool massless = false;
  for (double v : R.pi) massless |= v < 1e-5;
  if (!R.bound && !R.dropped && !massless) {
    double ptol = 0;
    for (long j = 0; j < K * d; ++j) ptol += R.ts[j] / R.s[j] + R.tmu[j] * R.tmu[j] / R.s[j] + 2 * R.tmu[j] / sqrt(R.s[j]);
    if (LL1 < LL0 - E0.tol - E1.tol - n * ptol) c.fail("likelihood-drop", "log-likelihood drops from %.12g to %.12g in one step", LL0, LL1);
    c.count("monotone_steps");
  }
  c.count("steps");
  c.nontrivial(x, fnv(m0.mu.data(), m0.mu.size() * sizeof(T)));
}
VT_GROUP(C19, step_f, 3000, 60000) { step<float>(c); }
VT_GROUP(C19, step_d, 3000, 60000) { step<double>(c); }

// the reassignment of nearly empty modes, on posteriors p; false if a decision is too close to call
template <class T> static bool restarts(Model<T> const &m0, std::vector<T> &p, std::vector<T> const &x, long n, double const *lb, long *done) {
  long d = m0.d, K = m0.K;
  if (K <= 1) return true;
  std::vector<double> mass(K);
  for (long i = 0; i < n; ++i) for (long k = 0; k < K; ++k) mass[k] += p[i * K + k];
  Model<T> m = m0;
  double thr = .01 * std::max(1., (double)n / K), mt = sizeof(T) == 4 ? 1e-4 : 1e-9;
  for (long k = 0; k < K; ++k) {
    if (close(mass[k], thr, mt, 0)) return false;
    if (mass[k] >= thr) continue;
    long best = -1;
    double sz = -INFINITY, second = -INFINITY;
    for (long j = 0; j < K; ++j) {
      if (close(m.pi[j], 1e-6, .01, 0)) return false;
      if (m.pi[j] < 1e-6) continue;
      double e = .5 * d * (1 + log(2 * acos(-1.)));
      for (long q = 0; q < d; ++q) e += .5 * log((double)m.s[j * d + q]);
      e = m.pi[j] * (e - log((double)m.pi[j]));
      if (e > sz) { second = sz; sz = e; best = j; } else second = std::max(second, e);
    }
    if (best < 0 || best == k) { if (best == k && close(sz, second, 1e-3, 1e-3)) return false; continue; }
    if (close(sz, second, 1e-3, 1e-3)) return false;
    long bq = 0;
    for (long q = 1; q < d; ++q) if (m.s[best * d + q] > m.s[best * d + bq]) bq = q;
    for (long q = 0; q < d; ++q) if (q != bq && close(m.s[best * d + q], m.s[best * d + bq], 1e-3, 0)) return false;
    T mu = m.mu[best * d + bq];
    double tol = (sizeof(T) == 4 ? 1e-4 : 1e-9) * sqrt((double)m.s[best * d + bq]) + 1e-5 * (sizeof(T) == 4) * fabs(mu) + 1e-12 * fabs(mu);
    for (long i = 0; i < n; ++i) {
      if (*done > 0 && fabs(x[i * d + bq] - mu) < tol && p[i * K + best] + p[i * K + k] > 1e-4) return false;
      T s = p[i * K + best] + p[i * K + k];
      bool left = x[i * d + bq] < mu;
      p[i * K + k] = left ? s : 0;
      p[i * K + best] = left ? 0 : s;
    }
    MStep<T> R = mstep(m, p, x, n, lb);
    for (long a = 0; a < K; ++a) { m.pi[a] = (T)R.pi[a]; if (R.mass[a] >= 1e-5) for (long q = 0; q < d; ++q) m.mu[a * d + q] = (T)R.mu[a * d + q], m.s[a * d + q] = (T)R.s[a * d + q]; else for (long q = 0; q < d; ++q) m.mu[a * d + q] = 0, m.s[a * d + q] = (T)lb[q]; }
    ++*done;
  }
  return true;
}
// step t to t+1 of longer runs, where nearly empty modes are restarted
template <class T> static void longer(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, 6), K = r.range(2, 8), n = r.range(3, 80), t = r.range(1, 8);
  std::vector<T> x = mixData<T>(r, d, n);
  Model<T> m0 = randomModel<T>(r, d, K, x, n, false);
  // modes that will be empty
  for (long k = 0; k < K; ++k) if (r.chance(.25)) { for (long q = 0; q < d; ++q) { m0.mu[k * d + q] = (T)(m0.mu[k * d + q] + 200 * sqrt((double)m0.s[k * d + q])); } }
  bool simd = r.chance(.7);
  c.desc("longer<%s> d=%ld K=%ld n=%ld t=%ld simd %d", sizeof(T) == 4 ? "float" : "double", d, K, n, t, simd);
  Simd sd(simd);
  GM a(Tr<T>::type(), d, K), b(Tr<T>::type(), d, K);
  bounds<T>(r, a, d);
  std::vector<double> lb(vl_gmm_get_covariance_lower_bounds(a), vl_gmm_get_covariance_lower_bounds(a) + d);
  vl_gmm_set_covariance_lower_bounds(b, lb.data());
  setModel(a, m0); setModel(b, m0);
  vl_gmm_set_max_num_iterations(a, t); vl_gmm_set_max_num_iterations(b, t + 1);
  double LL = vl_gmm_em(a, x.data(), n), LL2 = vl_gmm_em(b, x.data(), n);
  Model<T> ma = modelOf<T>(a), mb = modelOf<T>(b);
  judgeValid(c, ma, lb.data(), "run"); judgeValid(c, mb, lb.data(), "longer run");
  EStep<T> E = estep(ma, x.data(), n);
  if (!close(LL, E.LL, 1e-12, E.tol)) c.fail("loglikelihood", "log-likelihood %.12g, definition %.12g", LL, E.LL);
  std::vector<T> p((T const *)vl_gmm_get_posteriors(a), (T const *)vl_gmm_get_posteriors(a) + n * K);
  judgePosteriors(c, ma, E, p.data(), n, "run");
  if (ma.pi == mb.pi && ma.mu == mb.mu && ma.s == mb.s) {
    // converged: the likelihood of the run before hardly differs
    setModel(b, m0);
    vl_gmm_set_max_num_iterations(b, t - 1);
    double L0 = t >= 1 ? vl_gmm_em(b, x.data(), n) : -INFINITY;
    Model<T> mc = modelOf<T>(b);
    bool fix = mc.pi == ma.pi && mc.mu == ma.mu && mc.s == ma.s;
    if (!fix && !(fabs((LL - L0) / LL) < 1.01e-5)) {
      MStep<T> R = mstep(ma, p, x, n, lb.data());
      judgeParams(c, ma, R, n, "fixed point");
      c.count("fixed_points");
    } else c.count("converged");
    c.nontrivial(x, t);
    return;
  }
  long done = 0;
  if (t >= 2 && !restarts(ma, p, x, n, lb.data(), &done)) { c.count("restart_too_close"); throw Skip(); }
  MStep<T> R = mstep(ma, p, x, n, lb.data());
  if (done <= 1) judgeParams(c, mb, R, n, done ? "restart step" : "step");
  else c.count("several_restarts");
  if (done) c.count("restarts", done); else c.count("plain_steps");
  if (LL2 != vl_gmm_get_loglikelihood(b)) c.fail("get-loglikelihood", "differs from the value returned");
  c.nontrivial(x, t);
}
VT_GROUP(C19, longer_f, 3000, 60000) { longer<float>(c); }
VT_GROUP(C19, longer_d, 3000, 60000) { longer<double>(c); }

template <class T> static void clusterG(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, 6), n = r.range(2, 80), K = r.range(1, std::min(n, 7l)), reps = r.range(1, 3), maxit = r.pick({0l, 1l, 3l, 30l});
  std::vector<T> x = mixData<T>(r, d, n);
  int init = r.chance(.5) ? VlGMMRand : VlGMMKMeans;
  vl_uint32 seed = (vl_uint32)r.u64();
  c.desc("cluster<%s> d=%ld K=%ld n=%ld init %d reps %ld maxit %ld", sizeof(T) == 4 ? "float" : "double", d, K, n, init, reps, maxit);
  GM g(Tr<T>::type(), d, K);
  bounds<T>(r, g, d);
  std::vector<double> lb(vl_gmm_get_covariance_lower_bounds(g), vl_gmm_get_covariance_lower_bounds(g) + d);
  vl_gmm_set_initialization(g, (VlGMMInitialization)init);
  vl_gmm_set_num_repetitions(g, reps);
  vl_gmm_set_max_num_iterations(g, maxit);
  if ((long)vl_gmm_get_num_repetitions(g) != reps || (long)vl_gmm_get_max_num_iterations(g) != maxit || vl_gmm_get_initialization(g) != (VlGMMInitialization)init) c.fail("settings", "a setting reads back differently");
  // initialisations
  if (init == VlGMMRand) {
    vl_rand_seed(vl_get_rand(), seed);
    vl_gmm_init_with_rand_data(g, x.data(), n);
    Model<T> m = modelOf<T>(g);
    for (long k = 0; k < K; ++k) {
      if (!close(m.pi[k], 1. / K, 2 * Tr<T>::eps(), 0)) c.fail("init-prior", "initial prior %g", (double)m.pi[k]);
      bool in = false;
      for (long i = 0; i < n && !in; ++i) in = !memcmp(&m.mu[k * d], &x[i * d], d * sizeof(T));
      if (!in) c.fail("init-mean", "the initial mean of mode %ld is not a data point", k);
      for (long q = 0; q < d; ++q) {
        long double me = 0, v = 0, mag = 0;
        for (long i = 0; i < n; ++i) me += x[i * d + q], mag = std::max(mag, (long double)fabs((double)x[i * d + q]));
        me /= n;
        for (long i = 0; i < n; ++i) v += (x[i * d + q] - me) * (x[i * d + q] - me);
        v /= n - 1;
        double em = 2 * n * Tr<T>::eps() * (double)mag;
        if (!close(m.s[k * d + q], (double)v, 4 * n * Tr<T>::eps(), em * em * 2 + 4 * sqrt((double)v) * em)) c.fail("init-covariance", "initial variance %.9g, data variance %.9g", (double)m.s[k * d + q], (double)v);
      }
    }
    c.count("random_initialisations");
  } else {
    vl_rand_seed(vl_get_rand(), seed);
    struct KM { VlKMeans *k; ~KM() { vl_kmeans_delete(k); } } km = {vl_kmeans_new(Tr<T>::type(), VlDistanceL2)};
    vl_kmeans_set_initialization(km.k, VlKMeansPlusPlus);
    vl_gmm_init_with_kmeans(g, x.data(), n, km.k);
    if (vl_gmm_get_kmeans_init_object(g) != km.k) c.fail("kmeans-object", "not the object given");
    std::vector<vl_uint32> as(n);
    vl_kmeans_quantize(km.k, as.data(), 0, x.data(), n);
    std::vector<T> p(n * K);
    for (long i = 0; i < n; ++i) p[i * K + as[i]] = 1;
    Model<T> z;
    z.d = d; z.K = K; z.mu.assign(K * d, 0); z.s.assign(K * d, 0); z.pi.assign(K, 0);
    judgeParams(c, modelOf<T>(g), mstep(z, p, x, n, lb.data()), n, "k-means initialisation");
    vl_gmm_set_kmeans_init_object(g, 0);
    c.count("kmeans_initialisations");
  }
  vl_rand_seed(vl_get_rand(), seed);
  double LL = vl_gmm_cluster(g, x.data(), n);
  Model<T> m = modelOf<T>(g);
  judgeValid(c, m, lb.data(), "clustering");
  EStep<T> E = estep(m, x.data(), n);
  if (!close(LL, E.LL, 1e-12, E.tol)) c.fail("loglikelihood", "log-likelihood %.12g, definition %.12g", LL, E.LL);
  if (vl_gmm_get_loglikelihood(g) != LL) c.fail("get-loglikelihood", "reported %g, clustering returned %g", vl_gmm_get_loglikelihood(g), LL);
  judgePosteriors(c, m, E, (T const *)vl_gmm_get_posteriors(g), n, "clustering");
  // a copy holds the same model and bounds
  { GM cp(vl_gmm_new_copy(g));
    Model<T> mc = modelOf<T>(cp);
    if (mc.pi != m.pi || mc.mu != m.mu || mc.s != m.s || memcmp(lb.data(), vl_gmm_get_covariance_lower_bounds(cp), d * 8)) c.fail("copy", "the copy differs from its original");
    vl_gmm_set_initialization(cp, VlGMMCustom);
    vl_gmm_set_max_num_iterations(cp, 1);
    vl_gmm_em(cp, x.data(), n);
    Model<T> m2 = modelOf<T>(g);
    if (m2.pi != m.pi || m2.mu != m.mu || m2.s != m.s) c.fail("copy", "using the copy changes the original");
  }
  // the best of the repetitions, which draw from one random stream
  vl_rand_seed(vl_get_rand(), seed);
  double best = -INFINITY;
  for (long i = 0; i < reps; ++i) {
    GM h(Tr<T>::type(), d, K);
    vl_gmm_set_covariance_lower_bounds(h, lb.data());
    vl_gmm_set_initialization(h, (VlGMMInitialization)init);
    vl_gmm_set_max_num_iterations(h, maxit);
    best = std::max(best, vl_gmm_cluster(h, x.data(), n));
  }
  if (LL != best) c.fail("repetitions", "log-likelihood %.12g after %ld repetitions, the best single run has %.12g", LL, reps, best);
  c.count("clusterings");
  c.nontrivial(x, seed);
}
VT_GROUP(C19, cluster_f, 1500, 30000) { clusterG<float>(c); }
VT_GROUP(C19, cluster_d, 1500, 30000) { clusterG<double>(c); }

// ------------------------------------------------------------------ C20
template <class T> static void fisher(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, r.chance(.1) ? 50 : 8), K = r.range(1, 8), n = r.range(0, 40), nn = std::max(n, 1l);
  std::vector<T> x = mixData<T>(r, d, nn);
  Model<T> m = randomModel<T>(r, d, K, x, nn, true);
  int flags = (r.chance(.4) ? VL_FISHER_FLAG_SQUARE_ROOT : 0) | (r.chance(.4) ? VL_FISHER_FLAG_NORMALIZED : 0) | (r.chance(.4) ? VL_FISHER_FLAG_FAST : 0) | (r.chance(.2) ? VL_FISHER_FLAG_IMPROVED : 0);
  if (VL_FISHER_FLAG_IMPROVED != (VL_FISHER_FLAG_NORMALIZED | VL_FISHER_FLAG_SQUARE_ROOT)) c.fail("improved", "the improved option is not normalisation and square root");
  bool simd = r.chance(.7), fast = flags & VL_FISHER_FLAG_FAST;
  c.desc("fisher<%s> d=%ld K=%ld n=%ld flags %d simd %d", sizeof(T) == 4 ? "float" : "double", d, K, n, flags, simd);
  Guarded<T> enc(2 * d * K, 8, (T)-77);
  long terms;
  { Simd s(simd); terms = (long)vl_fisher_encode(enc.data(), Tr<T>::type(), m.mu.data(), d, K, m.s.data(), m.pi.data(), x.data(), n, flags); }
  if (!enc.intact()) c.fail("outside", "wrote outside the encoding");
  EStep<T> E = estep(m, x.data(), n);
  double eps = Tr<T>::eps();
  std::vector<long double> v(2 * d * K), tol(2 * d * K);
  long lo = 0, hi = 0;
  for (long i = 0; i < n; ++i) {
    long best = 0;
    for (long k = 1; k < K; ++k) if (E.p[i * K + k] > E.p[i * K + best]) best = k;
    double f = std::min(1., expm1(std::min(4 * E.err[i], 50.))) + 4 * eps;
    if (fast) for (long k = 0; k < K; ++k) if (k != best && E.p[i * K + k] > E.p[i * K + best] * (1 - 2 * f) - 1e-12) { c.count("fast_ties"); throw Skip(); }
    for (long k = 0; k < K; ++k) {
      if (m.pi[k] < 1e-6) continue;
      double q = fast ? k == best : E.p[i * K + k];
      if (fast ? k == best : q > 1e-6 * (1 + 2 * f)) ++lo, ++hi;
      else if (!fast && q > 1e-6 * (1 - 2 * f)) ++hi;
      double qe = fast ? 0 : f * std::min(1., q + 1e-12);
      if (!fast && q < 1.1e-6) qe += q; // such assignments may be dropped
      for (long a = 0; a < d; ++a) {
        long double z = ((long double)x[i * d + a] - m.mu[k * d + a]) / sqrtl(m.s[k * d + a]);
        long double ze = eps * 6 * (fabsl(z) + (fabsl((long double)x[i * d + a]) + fabsl((long double)m.mu[k * d + a])) / sqrtl(m.s[k * d + a]) * 0);
        v[k * d + a] += q * z;
        tol[k * d + a] += qe * fabsl(z) + q * ze + (n + 4) * eps * q * fabsl(z);
        v[(k + K) * d + a] += q * (z * z - 1);
        tol[(k + K) * d + a] += qe * fabsl(z * z - 1) + q * 2 * fabsl(z) * ze + (n + 6) * eps * q * (z * z + 1);
      }
    }
  }
  if (terms < lo || terms > hi) c.fail("terms", "%ld averaging operations reported, %ld to %ld performed", terms, lo, hi);
  for (long k = 0; k < K; ++k) if (m.pi[k] >= 1e-6 && n) for (long a = 0; a < d; ++a) {
    long double u = 1 / (n * sqrtl(m.pi[k])), w = 1 / (n * sqrtl(2 * (long double)m.pi[k]));
    v[k * d + a] *= u; tol[k * d + a] *= u; v[(k + K) * d + a] *= w; tol[(k + K) * d + a] *= w;
    tol[k * d + a] += 8 * eps * fabsl(v[k * d + a]); tol[(k + K) * d + a] += 8 * eps * fabsl(v[(k + K) * d + a]);
  }
  // undo the transformations on what was returned
  bool sq = flags & VL_FISHER_FLAG_SQUARE_ROOT, nr = flags & VL_FISHER_FLAG_NORMALIZED;
  long double n2 = 0, n2e = 0;
  for (size_t j = 0; j < v.size(); ++j) { if (sq) n2 += fabsl(v[j]), n2e += tol[j]; else n2 += v[j] * v[j], n2e += 2 * fabsl(v[j]) * tol[j] + tol[j] * tol[j]; }
  long double N = sqrtl(n2);
  double got2 = 0;
  for (size_t j = 0; j < v.size(); ++j) {
    double g = enc.data()[j];
    if (!std::isfinite(g)) c.fail("not-finite", "component %ld is %g", (long)j, g);
    got2 += g * g;
    long double back = g, t = tol[j];
    if (nr) {
      if (N < 1e-10 || n2e > .1 * n2) continue; // normalised noise
      back *= N;
    }
    if (sq) back *= fabsl(back);
    if (nr) t += fabsl(back) * (n2e / n2 + 4 * (v.size() + 8) * eps);
    if (fabsl(back - v[j]) > t + 16 * eps * fabsl(v[j]) + 1e-30) c.fail("component", "component %ld (%s of mode %ld) is %.9g, which stands for %.9g; the closed form gives %.9g (allowance %g)", (long)j, (long)j < d * K ? "mean" : "variance", (long)(j / d % K), g, (double)back, (double)v[j], (double)t);
  }
  if (nr && N > 1e-6 && n2e < .1 * n2 && fabs(got2 - 1) > 1e-5) c.fail("norm", "the normalised encoding has squared norm %.9g", got2);
  c.count("encodings");
  c.count("terms", terms);
  if (n == 0) c.count("empty_encodings");
  c.nontrivial(x, fnv(m.mu.data(), m.mu.size() * sizeof(T), flags));
}
VT_GROUP(C20, encode_f, 6000, 120000) { fisher<float>(c); }
VT_GROUP(C20, encode_d, 6000, 120000) { fisher<double>(c); }

// ------------------------------------------------------------------ C21
template <class T> static void vlad(Ctx &c) {
  Rng &r = c.rng;
  long d = r.range(1, r.chance(.1) ? 50 : 8), K = r.range(1, 8), n = r.range(0, 40), nn = std::max(n, 1l);
  std::vector<T> x = points<T>(r, d, nn), mu = points<T>(r, d, K);
  if (r.chance(.5)) for (long k = 0; k < K; ++k) { long j = r.range(0, nn - 1); for (long a = 0; a < d; ++a) mu[k * d + a] = x[j * d + a]; } // zero residuals
  std::vector<T> q(nn * K);
  int akind = (int)r.range(0, 2);
  for (long i = 0; i < n; ++i) {
    if (akind == 0) q[i * K + r.range(0, K - 1)] = 1;
    else if (akind == 1) { double s = 0; for (long k = 0; k < K; ++k) s += q[i * K + k] = (T)r.uni(); for (long k = 0; k < K; ++k) q[i * K + k] /= (T)s; }
    else for (long k = 0; k < K; ++k) q[i * K + k] = r.chance(.5) ? 0 : (T)(3 * r.uni());
  }
  if (r.chance(.3)) { long k = r.range(0, K - 1); for (long i = 0; i < n; ++i) q[i * K + k] = 0; } // a centre without data
  int flags = (r.chance(.4) ? VL_VLAD_FLAG_NORMALIZE_COMPONENTS : 0) | (r.chance(.4) ? VL_VLAD_FLAG_SQUARE_ROOT : 0) | (r.chance(.5) ? VL_VLAD_FLAG_UNNORMALIZED : 0) | (r.chance(.4) ? VL_VLAD_FLAG_NORMALIZE_MASS : 0);
  c.desc("vlad<%s> d=%ld K=%ld n=%ld assignments %d flags %d", sizeof(T) == 4 ? "float" : "double", d, K, n, akind, flags);
  Guarded<T> enc(d * K, 8, (T)-77);
  vl_vlad_encode(enc.data(), Tr<T>::type(), mu.data(), d, K, x.data(), n, q.data(), flags);
  if (!enc.intact()) c.fail("outside", "wrote outside the encoding");
  double eps = Tr<T>::eps();
  std::vector<long double> v(d * K), tol(d * K);
  bool sq = flags & VL_VLAD_FLAG_SQUARE_ROOT, comp = flags & VL_VLAD_FLAG_NORMALIZE_COMPONENTS, glob = !(flags & VL_VLAD_FLAG_UNNORMALIZED), mass = flags & VL_VLAD_FLAG_NORMALIZE_MASS;
  for (long k = 0; k < K; ++k) {
    long double W = 0;
    for (long i = 0; i < n; ++i) W += q[i * K + k];
    for (long a = 0; a < d; ++a) {
      long double s = 0, mag = 0;
      for (long i = 0; i < n; ++i) { s += q[i * K + k] * ((long double)x[i * d + a] - mu[k * d + a]); mag += q[i * K + k] * (fabsl((long double)x[i * d + a]) + fabsl((long double)mu[k * d + a])); }
      long double t = 2 * (n + 6) * eps * mag;
      if (mass && W > 0) s /= W, t /= W;
      v[k * d + a] = s; tol[k * d + a] = t;
    }
  }
  // relative to the returned values: square roots are compared by their squares
  std::vector<long double> cn(K), cne(K); // squared component norms (after square rooting)
  for (long k = 0; k < K; ++k) for (long a = 0; a < d; ++a) { long j = k * d + a; if (sq) cn[k] += fabsl(v[j]), cne[k] += tol[j]; else cn[k] += v[j] * v[j], cne[k] += 2 * fabsl(v[j]) * tol[j] + tol[j] * tol[j]; }
  long double tot = 0, tote = 0;
  for (long k = 0; k < K; ++k) {
    bool null = cn[k] == 0 && cne[k] == 0;
    bool noise = !null && (cne[k] > .1L * cn[k] || cn[k] < 1e-20L);
    if (comp) { if (null) ; else if (noise) tote += 1; else tot += 1, tote += 4 * (d + 8) * eps; }
    else tot += cn[k], tote += cne[k];
  }
  double got2 = 0;
  for (long k = 0; k < K; ++k) {
    bool null = cn[k] == 0 && cne[k] == 0;
    bool noise = !null && (cne[k] > .1L * cn[k] || cn[k] < 1e-20L);
    for (long a = 0; a < d; ++a) {
      long j = k * d + a;
      double g = enc.data()[j];
      if (!std::isfinite(g)) c.fail("not-finite", "component %ld is %g", j, g);
      got2 += g * g;
      if (null) { if (g != 0) c.fail("no-data", "component %ld of an empty or zero centre is %g", j, g); continue; }
      long double back = g, t = tol[j], rel = 16 * eps;
      if (glob) { if (tot < 1e-20L || tote > .1L * tot) continue; back *= sqrtl(tot); rel += tote / tot + 4 * (v.size() + 8) * eps; }
      if (comp) { if (noise) continue; back *= sqrtl(cn[k]); rel += cne[k] / cn[k] + 4 * (d + 8) * eps; }
      if (sq) back *= fabsl(back), rel *= 2;
      if (fabsl(back - v[j]) > t + rel * fabsl(v[j]) + 1e-30L) c.fail("component", "component %ld of centre %ld is %.9g, which stands for %.9g; the definition gives %.9g (allowance %g)", a, k, g, (double)back, (double)v[j], (double)(t + rel * fabsl(v[j])));
      c.count("components");
    }
  }
  if (glob && tot > 1e-10L && tote < .1L * tot && fabs(got2 - 1) > 1e-5) c.fail("norm", "the normalised encoding has squared norm %.9g", got2);
  c.count("encodings");
  if (n == 0) c.count("empty_encodings");
  c.nontrivial(x, fnv(q.data(), q.size() * sizeof(T), flags));
}
VT_GROUP(C21, encode_f, 6000, 120000) { vlad<float>(c); }
VT_GROUP(C21, encode_d, 6000, 120000) { vlad<double>(c); }
