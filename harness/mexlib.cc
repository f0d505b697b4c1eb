// The MEX gateways of the feature extractors and of the learning algorithms:
// C39: they give what the library computes from the same data and parameters,
// in MATLAB's conventions (indexes from one, images transposed, classes and
// sizes of the documentation), and refuse arguments they cannot handle.
#include "gen.h"
#include "mexshim.h"
#include <array>
#include <algorithm>
#include <string>
extern "C" {
#include <vl/aib.h>
#include <vl/covdet.h>
#include <vl/dsift.h>
#include <vl/fisher.h>
#include <vl/generic.h>
#include <vl/gmm.h>
#include <vl/hikmeans.h>
#include <vl/hog.h>
#include <vl/homkermap.h>
#include <vl/ikmeans.h>
#include <vl/imopv.h>
#include <vl/kdtree.h>
#include <vl/kmeans.h>
#include <vl/liop.h>
#include <vl/mathop.h>
#include <vl/mser.h>
#include <vl/quickshift.h>
#include <vl/random.h>
#include <vl/sift.h>
#include <vl/slic.h>
#include <vl/svm.h>
#include <vl/vlad.h>
}
using namespace vt;
using mx::arr;
using mx::call;
using mx::data;
using mx::numel;
using mx::Res;
typedef std::vector<long> Dims;

#define GATEWAYS(X)                                                                              \
  X(vl_kmeans) X(vl_gmm) X(vl_fisher) X(vl_vlad) X(vl_kdtreebuild) X(vl_kdtreequery)             \
  X(vl_ikmeans) X(vl_ikmeanspush) X(vl_hikmeans) X(vl_hikmeanspush) X(vl_svmtrain) X(vl_aib)     \
  X(vl_sift) X(vl_dsift) X(vl_siftdescriptor) X(vl_liop) X(vl_covdet) X(vl_hog) X(vl_mser)       \
  X(vl_slic) X(vl_quickshift)
#define DECL(n) extern "C" void vtmex_##n(int, mxArray **, int, mxArray const **);
GATEWAYS(DECL)
#define CALL(n, nout, ...) call(c, #n, vtmex_##n, nout, __VA_ARGS__)

static Res good(Ctx &c, char const *name, Res r) {
  if (r.err) c.fail("refused", "%s refused valid arguments: %s", name, r.msg);
  return r;
}
static char const *str(Dims const &d) {
  static char b[4][96];
  static int k;
  char *p = b[k = (k + 1) % 4];
  int o = 0;
  p[0] = 0;
  for (size_t i = 0; i < d.size(); ++i) o += snprintf(p + o, 96 - o, "%s%ld", i ? "x" : "", d[i]);
  return p;
}
static void needDims(Ctx &c, char const *f, mxArray *m, mxClassID cls, Dims const &d) {
  if (mxGetClassID(m) != cls) c.fail("output class", "%s: output is %s", f, mx::describe(m));
  if (!mx::isDims(m, d)) c.fail("output size", "%s: output is %s rather than %s", f, mx::describe(m), str(d));
}
static char const *anyCase(Rng &r, char const *s) {
  static char b[8][64];
  static int k;
  char *p = b[k = (k + 1) % 8];
  int i = 0;
  for (; s[i]; ++i) p[i] = r.chance(.2) ? (char)(isupper(s[i]) ? tolower(s[i]) : toupper(s[i])) : s[i];
  p[i] = 0;
  return p;
}
// an argument list under construction
struct In {
  Rng &r;
  std::vector<mxArray *> v;
  explicit In(Rng &r) : r(r) {}
  In &operator<<(mxArray *a) { v.push_back(a); return *this; }
  void flag(char const *n) { v.push_back(mx::str(anyCase(r, n))); }
  void opt(char const *n, mxArray *a) { flag(n); v.push_back(a); }
  void opt(char const *n, double x) { opt(n, mx::scalar(x)); }
  void word(char const *n, char const *w) { opt(n, mx::str(anyCase(r, w))); }
  void yes(char const *n, bool x) {
    mxArray *a = mx::make(mxLOGICAL_CLASS, {1, 1});
    *data<unsigned char>(a) = x;
    opt(n, a);
  }
  void verbose() { while (r.chance(.08)) flag("Verbose"); }
};
// the library and the gateways take the same code paths and random numbers
struct Same {
  mx::Scope scope;
  vl_uint32 seed;
  explicit Same(Rng &r) : seed((vl_uint32)r.u64()) { vl_set_simd_enabled(0); again(); }
  ~Same() { vl_set_simd_enabled(1); }
  void again() { vl_rand_seed(vl_get_rand(), seed); }
};
template <class T> static void same(Ctx &c, char const *key, char const *what, mxArray *got, T const *want, size_t n) {
  if (numel(got) != n) c.fail(key, "%s: %zu elements rather than %zu", what, numel(got), n);
  T const *g = data<T>(got);
  for (size_t i = 0; i < n; ++i)
    if (memcmp(&g[i], &want[i], sizeof(T)) && !(g[i] == want[i]) && !(g[i] != g[i] && want[i] != want[i]))
      c.fail(key, "%s: element %zu of %zu is %.9g rather than %.9g", what, i, n, (double)g[i], (double)want[i]);
}
template <class T> static void same(Ctx &c, char const *key, char const *what, mxArray *got, std::vector<T> const &want) {
  same(c, key, what, got, want.data(), want.size());
}
template <class T> static std::vector<T> cloud(Rng &r, long d, long n, bool positive = false) {
  std::vector<T> x(d * n);
  int kind = (int)r.range(0, 2);
  long k = r.range(1, 5);
  std::vector<double> ctr(d * k);
  for (double &v : ctr) v = r.normal() * 5;
  for (long i = 0; i < n; ++i) {
    long w = r.range(0, k - 1);
    for (long j = 0; j < d; ++j) {
      double v = kind == 0 ? r.normal() : kind == 1 ? ctr[w * d + j] + r.normal() : (double)r.range(0, 3);
      x[i * d + j] = (T)(positive ? fabs(v) : v);
    }
  }
  return x;
}
template <class T> struct Ty;
template <> struct Ty<float> { static constexpr vl_type id = VL_TYPE_FLOAT; };
template <> struct Ty<double> { static constexpr vl_type id = VL_TYPE_DOUBLE; };
static std::vector<vl_uint32> plusOne(std::vector<vl_uint32> v) {
  for (vl_uint32 &x : v) ++x;
  return v;
}

// ---------------------------------------------------------------- kmeans
template <class T> static void kmeans(Ctx &c) {
  Rng &r = c.rng;
  Same s(r);
  long D = r.range(1, 6), N = r.range(1, 60), K = r.range(1, std::min(N, 8l));
  std::vector<T> x = cloud<T>(r, D, N, true);
  VlKMeansAlgorithm alg = VlKMeansLloyd;
  VlVectorComparisonType dist = VlDistanceL2;
  VlKMeansInitialization init = VlKMeansPlusPlus;
  long iters = 100, reps = 1, comps = 100, trees = 3;
  double var = -1;
  In in(r);
  in << arr(x, {D, N}) << mx::scalar((double)K);
  if (r.chance(.7)) {
    alg = r.pick({VlKMeansLloyd, VlKMeansElkan, VlKMeansANN});
    in.word("Algorithm", alg == VlKMeansLloyd ? "lloyd" : alg == VlKMeansElkan ? "elkan" : "ann");
  }
  if (r.chance(.6)) {
    dist = r.chance(.5) ? VlDistanceL1 : VlDistanceL2;
    in.word("Distance", dist == VlDistanceL1 ? "l1" : "l2");
  }
  if (r.chance(.6)) {
    init = r.chance(.5) ? VlKMeansPlusPlus : VlKMeansRandomSelection;
    in.word(r.chance(.5) ? "Initialization" : "Initialisation", init == VlKMeansRandomSelection ? "randsel" : r.chance(.5) ? "plusplus" : "++");
  }
  if (r.chance(.4)) in.opt("MaxNumIterations", (double)(iters = r.range(0, 6)));
  if (r.chance(.4)) in.opt("NumRepetitions", (double)(reps = r.range(1, 3)));
  if (r.chance(.4)) in.opt("MaxNumComparisons", (double)(comps = r.range(1, 9)));
  if (r.chance(.4)) in.opt("NumTrees", (double)(trees = r.range(1, 4)));
  if (r.chance(.4)) in.opt("MinEnergyVariation", var = r.chance(.2) ? 0 : r.uni(0, .3));
  in.verbose();
  int nout = (int)r.range(0, 3);
  c.desc("vl_kmeans %ldx%ld K=%ld bytes=%zu alg=%d dist=%d init=%d iters=%ld reps=%ld comps=%ld trees=%ld var=%g nout=%d", D, N, K, sizeof(T), alg, dist, init, iters, reps, comps, trees, var, nout);
  Res o = good(c, "vl_kmeans", CALL(vl_kmeans, nout, in.v));
  s.again();
  VlKMeans *k = vl_kmeans_new(Ty<T>::id, dist);
  vl_kmeans_set_algorithm(k, alg);
  vl_kmeans_set_initialization(k, init);
  vl_kmeans_set_max_num_iterations(k, iters);
  vl_kmeans_set_num_repetitions(k, reps);
  vl_kmeans_set_max_num_comparisons(k, comps);
  vl_kmeans_set_num_trees(k, trees);
  if (var >= 0) vl_kmeans_set_min_energy_variation(k, var);
  double e = vl_kmeans_cluster(k, x.data(), D, N, K);
  std::vector<T> ctr((T const *)vl_kmeans_get_centers(k), (T const *)vl_kmeans_get_centers(k) + D * K);
  std::vector<vl_uint32> a(N);
  if (nout > 1) vl_kmeans_quantize(k, a.data(), NULL, x.data(), N);
  vl_kmeans_delete(k);
  needDims(c, "vl_kmeans", o.out[0], mx::Cls<T>::id, {D, K});
  same(c, "kmeans centers", "the centers of vl_kmeans", o.out[0], ctr);
  if (nout > 1) {
    needDims(c, "vl_kmeans", o.out[1], mxUINT32_CLASS, {1, N});
    same(c, "kmeans assignments", "the assignments of vl_kmeans", o.out[1], plusOne(a));
  }
  if (nout > 2) {
    needDims(c, "vl_kmeans", o.out[2], mxDOUBLE_CLASS, {1, 1});
    same(c, "kmeans energy", "the energy of vl_kmeans", o.out[2], &e, 1);
  }
  c.nontrivial(x, fnv(ctr.data(), ctr.size() * sizeof(T)));
}
VT_GROUP(C39, kmeans, 6000, 60000, SERIAL) { c.rng.chance(.5) ? kmeans<float>(c) : kmeans<double>(c); }

// ------------------------------------------------------------------- gmm
template <class T> static void gmm(Ctx &c) {
  Rng &r = c.rng;
  Same s(r);
  long D = r.range(1, 5), N = r.range(2, 60), K = r.range(1, std::min(N, 5l));
  std::vector<T> x = cloud<T>(r, D, N);
  long iters = 100, reps = 1;
  VlGMMInitialization init = VlGMMRand;
  double bound = -1;
  std::vector<double> bounds;
  std::vector<T> m, v, p;
  In in(r);
  in << arr(x, {D, N}) << mx::scalar((double)K);
  if (r.chance(.4)) {
    m = cloud<T>(r, D, K);
    v.resize(D * K);
    p.assign(K, (T)(1. / K));
    for (T &y : v) y = (T)r.uni(.2, 3);
    init = VlGMMCustom;
    int order = (int)r.range(0, 2);
    for (int i = 0; i < 3; ++i) switch ((i + order) % 3) {
      case 0: in.opt("InitMeans", arr(m, {D, K})); break;
      case 1: in.opt("InitCovariances", arr(v, {D, K})); break;
      default: in.opt("InitPriors", r.chance(.5) ? arr(p, {K, 1}) : arr(p, {1, K}));
    }
    if (r.chance(.5)) in.word("Initialization", "custom");
  } else if (r.chance(.6)) {
    init = r.chance(.5) ? VlGMMRand : VlGMMKMeans;
    in.word("Initialization", init == VlGMMRand ? "rand" : "kmeans");
  }
  if (r.chance(.5)) in.opt("MaxNumIterations", (double)(iters = r.range(1, 8)));
  if (r.chance(.4) && init != VlGMMCustom) in.opt("NumRepetitions", (double)(reps = r.range(1, 3)));
  if (r.chance(.3)) in.opt("CovarianceBound", bound = r.uni(1e-4, .5));
  else if (r.chance(.3) && D > 1) {
    bounds.resize(D);
    for (double &y : bounds) y = r.uni(1e-4, .5);
    in.opt("CovarianceBound", r.chance(.5) ? arr(bounds, {D, 1}) : arr(bounds, {1, D}));
  }
  in.verbose();
  int nout = (int)r.range(0, 5);
  c.desc("vl_gmm %ldx%ld K=%ld bytes=%zu init=%d iters=%ld reps=%ld bound=%g/%zu nout=%d", D, N, K, sizeof(T), init, iters, reps, bound, bounds.size(), nout);
  Res o = good(c, "vl_gmm", CALL(vl_gmm, nout, in.v));
  s.again();
  VlGMM *g = vl_gmm_new(Ty<T>::id, D, K);
  vl_gmm_set_num_repetitions(g, reps);
  vl_gmm_set_max_num_iterations(g, iters);
  vl_gmm_set_initialization(g, init);
  if (bound >= 0) vl_gmm_set_covariance_lower_bound(g, bound);
  if (!bounds.empty()) vl_gmm_set_covariance_lower_bounds(g, bounds.data());
  if (!m.empty()) vl_gmm_set_priors(g, p.data()), vl_gmm_set_means(g, m.data()), vl_gmm_set_covariances(g, v.data());
  double ll = vl_gmm_cluster(g, x.data(), N);
  needDims(c, "vl_gmm", o.out[0], mx::Cls<T>::id, {D, K});
  same(c, "gmm means", "the means of vl_gmm", o.out[0], (T const *)vl_gmm_get_means(g), D * K);
  if (nout > 1) {
    needDims(c, "vl_gmm", o.out[1], mx::Cls<T>::id, {D, K});
    same(c, "gmm covariances", "the covariances of vl_gmm", o.out[1], (T const *)vl_gmm_get_covariances(g), D * K);
  }
  if (nout > 2) {
    needDims(c, "vl_gmm", o.out[2], mx::Cls<T>::id, {K, 1});
    same(c, "gmm priors", "the priors of vl_gmm", o.out[2], (T const *)vl_gmm_get_priors(g), K);
  }
  if (nout > 3) {
    needDims(c, "vl_gmm", o.out[3], mxDOUBLE_CLASS, {1, 1});
    same(c, "gmm log-likelihood", "the log-likelihood of vl_gmm", o.out[3], &ll, 1);
  }
  if (nout > 4) {
    needDims(c, "vl_gmm", o.out[4], mx::Cls<T>::id, {K, N});
    same(c, "gmm posteriors", "the posteriors of vl_gmm", o.out[4], (T const *)vl_gmm_get_posteriors(g), K * N);
  }
  c.nontrivial(x, fnv(vl_gmm_get_means(g), D * K * sizeof(T)));
  vl_gmm_delete(g);
}
VT_GROUP(C39, gmm, 4000, 40000, SERIAL) { c.rng.chance(.5) ? gmm<float>(c) : gmm<double>(c); }

// -------------------------------------------------------- fisher and vlad
template <class T> static void fisher(Ctx &c) {
  Rng &r = c.rng;
  Same s(r);
  long D = r.range(1, 6), N = r.range(1, 40), K = r.range(1, 5);
  std::vector<T> x = cloud<T>(r, D, N), m = cloud<T>(r, D, K), v(D * K), p(K);
  double sum = 0;
  for (T &y : v) y = (T)r.uni(.2, 4);
  for (T &y : p) sum += (double)(y = (T)r.uni(.1, 1));
  for (T &y : p) y = (T)((double)y / sum);
  int flags = 0;
  In in(r);
  in << arr(x, {D, N}) << arr(m, {D, K}) << arr(v, {D, K}) << (r.chance(.5) ? arr(p, {K, 1}) : arr(p, {1, K}));
  if (r.chance(.3)) in.flag("Normalized"), flags |= VL_FISHER_FLAG_NORMALIZED;
  if (r.chance(.3)) in.flag("SquareRoot"), flags |= VL_FISHER_FLAG_SQUARE_ROOT;
  if (r.chance(.3)) in.flag("Improved"), flags |= VL_FISHER_FLAG_NORMALIZED | VL_FISHER_FLAG_SQUARE_ROOT;
  if (r.chance(.3)) in.flag("Fast"), flags |= VL_FISHER_FLAG_FAST;
  in.verbose();
  c.desc("vl_fisher %ldx%ld K=%ld bytes=%zu flags=%d", D, N, K, sizeof(T), flags);
  Res o = good(c, "vl_fisher", CALL(vl_fisher, (int)r.range(0, 1), in.v));
  std::vector<T> e(2 * D * K);
  vl_fisher_encode(e.data(), Ty<T>::id, m.data(), D, K, v.data(), p.data(), x.data(), N, flags);
  needDims(c, "vl_fisher", o.out[0], mx::Cls<T>::id, {2 * D * K, 1});
  same(c, "fisher encoding", "vl_fisher", o.out[0], e);
  c.nontrivial(x, fnv(e.data(), e.size() * sizeof(T)));
}
template <class T> static void vlad(Ctx &c) {
  Rng &r = c.rng;
  Same s(r);
  long D = r.range(1, 6), N = r.range(1, 40), K = r.range(1, 5);
  std::vector<T> x = cloud<T>(r, D, N), m = cloud<T>(r, D, K), a(K * N);
  bool hard = r.chance(.6);
  for (long i = 0; i < N; ++i) {
    if (hard) a[i * K + r.range(0, K - 1)] = 1;
    else for (long k = 0; k < K; ++k) a[i * K + k] = (T)r.uni();
  }
  int flags = 0;
  In in(r);
  in << arr(x, {D, N}) << arr(m, {D, K}) << arr(a, {K, N});
  if (r.chance(.3)) in.flag("Unnormalized"), flags |= VL_VLAD_FLAG_UNNORMALIZED;
  if (r.chance(.3)) in.flag("NormalizeComponents"), flags |= VL_VLAD_FLAG_NORMALIZE_COMPONENTS;
  if (r.chance(.3)) in.flag("NormalizeMass"), flags |= VL_VLAD_FLAG_NORMALIZE_MASS;
  if (r.chance(.3)) in.flag("SquareRoot"), flags |= VL_VLAD_FLAG_SQUARE_ROOT;
  in.verbose();
  c.desc("vl_vlad %ldx%ld K=%ld bytes=%zu flags=%d", D, N, K, sizeof(T), flags);
  Res o = good(c, "vl_vlad", CALL(vl_vlad, (int)r.range(0, 1), in.v));
  std::vector<T> e(D * K);
  vl_vlad_encode(e.data(), Ty<T>::id, m.data(), D, K, x.data(), N, a.data(), flags);
  needDims(c, "vl_vlad", o.out[0], mx::Cls<T>::id, {D * K, 1});
  same(c, "vlad encoding", "vl_vlad", o.out[0], e);
  c.nontrivial(x, fnv(e.data(), e.size() * sizeof(T)));
}
VT_GROUP(C39, fisher, 4000, 40000, SERIAL) { c.rng.chance(.5) ? fisher<float>(c) : fisher<double>(c); }
VT_GROUP(C39, vlad, 4000, 40000, SERIAL) { c.rng.chance(.5) ? vlad<float>(c) : vlad<double>(c); }

// --------------------------------------------------------------- kdtrees
static mxArray *field(Ctx &c, mxArray *s, long i, char const *f, mxClassID cls, Dims const &d) {
  mxArray *m = mxGetField(s, i, f);
  if (!m) c.fail("forest fields", "the forest of vl_kdtreebuild lacks %s", f);
  if (mxGetClassID(m) != cls || !mx::isDims(m, d)) c.fail("forest fields", "field %s of the forest is %s rather than %s", f, mx::describe(m), str(d));
  return m;
}
template <class T> static void kdtree(Ctx &c) {
  Rng &r = c.rng;
  Same s(r);
  long D = r.range(1, 6), N = r.range(1, 50), Q = r.chance(.05) ? 0 : r.range(1, 12), trees = 1;
  std::vector<T> x = cloud<T>(r, D, N), q = cloud<T>(r, D, Q);
  VlVectorComparisonType dist = VlDistanceL2;
  VlKDTreeThresholdingMethod th = VL_KDTREE_MEDIAN;
  mxArray *mx_ = arr(x, {D, N});
  In in(r);
  in << mx_;
  if (r.chance(.5)) in.opt("NumTrees", (double)(trees = r.range(1, 4)));
  if (r.chance(.5)) dist = r.chance(.5) ? VlDistanceL1 : VlDistanceL2, in.word("Distance", dist == VlDistanceL1 ? "l1" : "l2");
  if (r.chance(.5)) th = r.chance(.5) ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN, in.word("ThresholdMethod", th == VL_KDTREE_MEAN ? "mean" : "median");
  in.verbose();
  c.desc("vl_kdtree %ldx%ld %ld queries bytes=%zu trees=%ld dist=%d threshold=%d", D, N, Q, sizeof(T), trees, dist, th);
  Res o = good(c, "vl_kdtreebuild", CALL(vl_kdtreebuild, (int)r.range(0, 1), in.v));
  s.again();
  VlKDForest *f = vl_kdforest_new(Ty<T>::id, D, trees, dist);
  vl_kdforest_set_thresholding_method(f, th);
  vl_kdforest_build(f, N, x.data());
  mxArray *F = o.out[0];
  if (*data<double>(field(c, F, 0, "dimension", mxDOUBLE_CLASS, {1, 1})) != D || *data<double>(field(c, F, 0, "numData", mxDOUBLE_CLASS, {1, 1})) != N)
    c.fail("forest size", "the forest announces another size than that of the data");
  mxArray *tr = field(c, F, 0, "trees", mxSTRUCT_CLASS, {1, trees});
  for (long t = 0; t < trees; ++t) {
    VlKDTree *T_ = f->trees[t];
    long n = (long)T_->numUsedNodes;
    mxArray *nodes = field(c, tr, t, "nodes", mxSTRUCT_CLASS, {1, 1});
    mxArray *di = field(c, tr, t, "dataIndex", mxUINT32_CLASS, {1, N});
    for (long i = 0; i < N; ++i) if (data<vl_uint32>(di)[i] != T_->dataIndex[i].index + 1) c.fail("forest data index", "tree %ld lists datum %u at %ld rather than %ld", t, data<vl_uint32>(di)[i], i, (long)T_->dataIndex[i].index + 1);
    int32_t *lo = data<int32_t>(field(c, nodes, 0, "lowerChild", mxINT32_CLASS, {1, n})), *up = data<int32_t>(field(c, nodes, 0, "upperChild", mxINT32_CLASS, {1, n}));
    vl_uint32 *sd = data<vl_uint32>(field(c, nodes, 0, "splitDimension", mxUINT32_CLASS, {1, n}));
    double *st = data<double>(field(c, nodes, 0, "splitThreshold", mxDOUBLE_CLASS, {1, n}));
    double *lb = data<double>(field(c, nodes, 0, "lowerBound", mxDOUBLE_CLASS, {1, n})), *ub = data<double>(field(c, nodes, 0, "upperBound", mxDOUBLE_CLASS, {1, n}));
    for (long i = 0; i < n; ++i) {
      VlKDTreeNode const &v = T_->nodes[i];
      long a = (long)v.lowerChild, b = (long)v.upperChild;
      bool leaf = a < 0 && b < 0; // a leaf splits nothing
      if (lo[i] != (a >= 0 ? a + 1 : a) || up[i] != (b >= 0 ? b + 1 : b) ||
          (!leaf && (sd[i] != v.splitDimension + 1 || st[i] != v.splitThreshold || lb[i] != v.lowerBound || ub[i] != v.upperBound)))
        c.fail("forest nodes", "node %ld of tree %ld differs from the library's", i, t);
    }
    c.count("nodes", (double)n);
  }
  // the forest rebuilt from the structure answers as the original one
  long k = 1, comps = 0;
  In iq(r);
  iq << F << mx_ << arr(q, {D, Q});
  if (r.chance(.7)) iq.opt("NumNeighbors", (double)(k = r.range(1, std::min(N, 6l))));
  if (r.chance(.5)) iq.opt(r.chance(.5) ? "MaxNumComparisons" : "MaxComparisons", (double)(comps = r.range(0, 12)));
  iq.verbose();
  int nout = (int)r.range(0, 2);
  Res p = good(c, "vl_kdtreequery", CALL(vl_kdtreequery, nout, iq.v));
  std::vector<vl_uint32> idx(k * Q);
  std::vector<T> d(k * Q);
  vl_kdforest_set_max_num_comparisons(f, comps);
  if (Q) vl_kdforest_query_with_array(f, idx.data(), k, Q, d.data(), q.data());
  vl_kdforest_delete(f);
  needDims(c, "vl_kdtreequery", p.out[0], mxUINT32_CLASS, {k, Q});
  same(c, "neighbors", "the neighbors of vl_kdtreequery", p.out[0], plusOne(idx));
  if (nout > 1) {
    needDims(c, "vl_kdtreequery", p.out[1], mx::Cls<T>::id, {k, Q});
    same(c, "neighbor distances", "the distances of vl_kdtreequery", p.out[1], d);
  }
  c.count("queries", (double)Q);
  c.nontrivial(x, fnv(q.data(), q.size() * sizeof(T)));
}
VT_GROUP(C39, kdtree, 6000, 60000, SERIAL) { c.rng.chance(.5) ? kdtree<float>(c) : kdtree<double>(c); }

// ------------------------------------------------------- integer k-means
VT_GROUP(C39, ikmeans, 6000, 60000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  long D = r.range(1, 8), N = r.range(1, 60), K = r.range(1, std::min(N, 8l));
  std::vector<vl_uint8> x(D * N);
  long top = r.pick({3l, 40l, 255l});
  for (vl_uint8 &v : x) v = (vl_uint8)r.range(0, top);
  int method = VL_IKM_LLOYD, method2 = VL_IKM_LLOYD;
  long iters = 200;
  mxArray *X = arr(x, {D, N});
  In in(r);
  in << X << mx::scalar((double)K);
  if (r.chance(.6)) in.opt("Method", mx::str((method = r.chance(.5) ? VL_IKM_ELKAN : VL_IKM_LLOYD) == VL_IKM_ELKAN ? "elkan" : "lloyd"));
  if (r.chance(.5)) in.opt("MaxIters", (double)(iters = r.range(1, 5)));
  in.verbose();
  int nout = (int)r.range(0, 2);
  c.desc("vl_ikmeans %ldx%ld K=%ld method=%d iters=%ld nout=%d", D, N, K, method, iters, nout);
  Res o = good(c, "vl_ikmeans", CALL(vl_ikmeans, nout, in.v));
  s.again();
  VlIKMFilt *f = vl_ikm_new(method);
  vl_ikm_set_max_niters(f, iters);
  vl_ikm_init_rand_data(f, x.data(), D, N, K);
  vl_ikm_train(f, x.data(), N);
  std::vector<vl_uint32> a(N);
  vl_ikm_push(f, a.data(), x.data(), N);
  needDims(c, "vl_ikmeans", o.out[0], mxINT32_CLASS, {D, K});
  same(c, "ikmeans centers", "the centers of vl_ikmeans", o.out[0], (int32_t const *)vl_ikm_get_centers(f), D * K);
  vl_ikm_delete(f);
  if (nout > 1) {
    needDims(c, "vl_ikmeans", o.out[1], mxUINT32_CLASS, {1, N});
    same(c, "ikmeans assignments", "the assignments of vl_ikmeans", o.out[1], plusOne(a));
  }
  // pushing the data through the centers
  long M = r.chance(.05) ? 0 : r.range(1, 20);
  std::vector<vl_uint8> y(D * M);
  for (vl_uint8 &v : y) v = (vl_uint8)r.range(0, 255);
  In ip(r);
  ip << arr(y, {D, M}) << o.out[0];
  if (r.chance(.6)) ip.opt("Method", mx::str((method2 = r.chance(.5) ? VL_IKM_ELKAN : VL_IKM_LLOYD) == VL_IKM_ELKAN ? "elkan" : "lloyd"));
  ip.verbose();
  Res p = good(c, "vl_ikmeanspush", CALL(vl_ikmeanspush, (int)r.range(0, 1), ip.v));
  std::vector<vl_uint32> b(M);
  int32_t const *C = data<int32_t>(o.out[0]);
  for (long i = 0; i < M; ++i) {
    long best = -1, bd = 0;
    for (long k = 0; k < K; ++k) {
      long d = 0;
      for (long j = 0; j < D; ++j) { long e = (long)y[i * D + j] - C[k * D + j]; d += e * e; }
      if (best < 0 || d < bd) best = k, bd = d;
    }
    long g = (long)data<vl_uint32>(p.out[0])[i] - 1, gd = 0;
    if (g < 0 || g >= K) c.fail("ikmeanspush range", "vl_ikmeanspush assigns datum %ld to center %ld of %ld", i, g + 1, K);
    for (long j = 0; j < D; ++j) { long e = (long)y[i * D + j] - C[g * D + j]; gd += e * e; }
    if (gd != bd) c.fail("ikmeanspush nearest", "vl_ikmeanspush assigns datum %ld to center %ld at %ld, center %ld is at %ld", i, g + 1, gd, best + 1, bd);
  }
  needDims(c, "vl_ikmeanspush", p.out[0], mxUINT32_CLASS, {1, M});
  c.nontrivial(x, fnv(y.data(), y.size()));
}

static void compareNode(Ctx &c, mxArray *s, long i, VlHIKMNode const *n, long M, long &nodes) {
  long K = (long)vl_ikm_get_K(n->filter);
  mxArray *ctr = mxGetField(s, i, "centers"), *sub = mxGetField(s, i, "sub");
  if (!ctr || mxGetClassID(ctr) != mxINT32_CLASS || !mx::isDims(ctr, {M, K})) c.fail("hikmeans node", "a node of vl_hikmeans has no %ldx%ld centers", M, K);
  same(c, "hikmeans centers", "the centers of a node of vl_hikmeans", ctr, (int32_t const *)vl_ikm_get_centers(n->filter), M * K);
  ++nodes;
  if (!n->children) {
    if (sub && numel(sub)) c.fail("hikmeans node", "a leaf of vl_hikmeans has children");
    return;
  }
  if (!sub || mxGetClassID(sub) != mxSTRUCT_CLASS || (long)numel(sub) != K) c.fail("hikmeans node", "an inner node of vl_hikmeans has not its %ld children", K);
  for (long k = 0; k < K; ++k) compareNode(c, sub, k, n->children[k], M, nodes);
}
VT_GROUP(C39, hikmeans, 3000, 30000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  long D = r.range(1, 6), N = r.range(2, 80), K = r.range(2, std::min(N, 5l)), leaves = r.range(1, 30);
  std::vector<vl_uint8> x(D * N);
  long top = r.pick({3l, 40l, 255l});
  for (vl_uint8 &v : x) v = (vl_uint8)r.range(0, top);
  int method = VL_IKM_LLOYD, method2 = VL_IKM_LLOYD;
  long iters = 200;
  In in(r);
  in << arr(x, {D, N}) << mx::scalar((double)K) << mx::scalar((double)leaves);
  if (r.chance(.6)) in.opt("Method", mx::str((method = r.chance(.5) ? VL_IKM_ELKAN : VL_IKM_LLOYD) == VL_IKM_ELKAN ? "elkan" : "lloyd"));
  if (r.chance(.5)) in.opt("MaxIters", (double)(iters = r.range(1, 3)));
  in.verbose();
  int nout = (int)r.range(0, 2);
  c.desc("vl_hikmeans %ldx%ld K=%ld leaves=%ld method=%d iters=%ld nout=%d", D, N, K, leaves, method, iters, nout);
  Res o = good(c, "vl_hikmeans", CALL(vl_hikmeans, nout, in.v));
  long depth = 1, have = K; // the least depth with that many leaves
  while (have < leaves) have *= K, ++depth;
  mxArray *md = mxGetField(o.out[0], 0, "depth"), *mk = mxGetField(o.out[0], 0, "K");
  if (!md || !mk || *data<double>(mk) != K) c.fail("hikmeans header", "vl_hikmeans reports another K");
  if (*data<double>(md) != depth) {
    // log(leaves)/log(K) may round up at exact powers
    long at = 1;
    for (long d = 0; d < depth; ++d) at *= K;
    if (!(at == leaves && *data<double>(md) == depth + 1)) c.fail("hikmeans depth", "vl_hikmeans(K=%ld, leaves=%ld) has depth %g rather than %ld", K, leaves, *data<double>(md), depth);
    depth = (long)*data<double>(md);
  }
  s.again();
  VlHIKMTree *t = vl_hikm_new(method);
  vl_hikm_set_max_niters(t, (int)iters);
  vl_hikm_init(t, D, K, depth);
  vl_hikm_train(t, x.data(), N);
  long nodes = 0;
  compareNode(c, o.out[0], 0, vl_hikm_get_root(t), D, nodes);
  std::vector<vl_uint32> a(depth * N);
  vl_hikm_push(t, a.data(), x.data(), N);
  if (nout > 1) {
    needDims(c, "vl_hikmeans", o.out[1], mxUINT32_CLASS, {depth, N});
    same(c, "hikmeans assignments", "the paths of vl_hikmeans", o.out[1], plusOne(a));
  }
  long M = r.range(1, 20);
  std::vector<vl_uint8> y(D * M);
  for (vl_uint8 &v : y) v = (vl_uint8)r.range(0, 255);
  In ip(r);
  ip << o.out[0] << arr(y, {D, M});
  if (r.chance(.6)) ip.opt("Method", mx::str((method2 = r.chance(.5) ? VL_IKM_ELKAN : VL_IKM_LLOYD) == VL_IKM_ELKAN ? "elkan" : "lloyd"));
  ip.verbose();
  Res p = good(c, "vl_hikmeanspush", CALL(vl_hikmeanspush, (int)r.range(0, 1), ip.v));
  std::vector<vl_uint32> b(depth * M);
  vl_hikm_push(t, b.data(), y.data(), M);
  vl_hikm_delete(t);
  needDims(c, "vl_hikmeanspush", p.out[0], mxUINT32_CLASS, {depth, M});
  (void)method2; // ties apart, both methods find the nearest center: compare along Lloyd's choice
  if (method2 == method) same(c, "hikmeanspush paths", "the paths of vl_hikmeanspush", p.out[0], plusOne(b));
  c.count("nodes", (double)nodes);
  c.nontrivial(x, fnv(y.data(), y.size()));
}

// ------------------------------------------------------------------- svm
static double fieldValue(Ctx &c, mxArray *s, char const *f) {
  mxArray *m = mxGetField(s, 0, f);
  if (!m || mxGetClassID(m) != mxDOUBLE_CLASS || numel(m) != 1) c.fail("info fields", "the info of vl_svmtrain lacks %s", f);
  return *data<double>(m);
}
template <class T> static void svm(Ctx &c) {
  Rng &r = c.rng;
  Same s(r);
  long D = r.range(1, 5), N = r.range(2, 40);
  bool ds = r.chance(.4), map = ds && r.chance(.6);
  std::vector<T> x = cloud<T>(r, D, N, map);
  std::vector<double> y(N), w(N);
  for (long i = 0; i < N; ++i) y[i] = i < 2 ? (i ? 1 : -1) : r.chance(.5) ? 1 : -1, w[i] = r.uni(.1, 2);
  double lambda = r.uni(.01, 1);
  VlSvmSolverType solver = VlSvmSolverSdca;
  VlSvmLossType loss = VlSvmLossHinge;
  mxArray *X = arr(x, {D, N}), *set = X;
  VlHomogeneousKernelType kt = VlHomogeneousKernelChi2;
  VlHomogeneousKernelMapWindowType win = VlHomogeneousKernelMapWindowRectangular;
  double gamma = 1, period = -1;
  int order = 1;
  if (ds) {
    char const *f[] = {"data", "homkermap"};
    set = mxCreateStructMatrix(1, 1, map ? 2 : 1, f);
    mxSetField(set, 0, "data", X);
    if (map) {
      char const *g[] = {"order", "kernel", "window", "gamma", "period"};
      mxArray *h = mxCreateStructMatrix(1, 1, 5, g);
      if (r.chance(.7)) mxSetField(h, 0, "order", mx::scalar(order = (int)r.range(0, 3)));
      if (r.chance(.7)) {
        int k = (int)r.range(0, 3);
        kt = k == 0 || k == 3 ? VlHomogeneousKernelIntersection : k == 1 ? VlHomogeneousKernelChi2 : VlHomogeneousKernelJS;
        mxSetField(h, 0, "kernel", mx::str(anyCase(r, k == 0 ? "kl1" : k == 1 ? "kchi2" : k == 2 ? "kjs" : "kinters")));
      }
      if (r.chance(.7)) {
        bool u = r.chance(.5);
        win = u ? VlHomogeneousKernelMapWindowUniform : VlHomogeneousKernelMapWindowRectangular;
        mxSetField(h, 0, "window", mx::str(anyCase(r, u ? "uniform" : "rectangular")));
      }
      if (r.chance(.7)) mxSetField(h, 0, "gamma", mx::scalar(gamma = r.pick({1., .5})));
      if (r.chance(.5)) mxSetField(h, 0, "period", mx::scalar(period = r.uni(2, 9)));
      mxSetField(set, 0, "homkermap", h);
    }
  }
  long dim = map ? D * (2 * order + 1) : D;
  In in(r);
  in << set << (r.chance(.5) ? arr(y, {1, N}) : arr(y, {N, 1})) << mx::scalar(lambda);
  if (r.chance(.7)) {
    solver = r.pick({VlSvmSolverSdca, VlSvmSolverSgd, VlSvmSolverNone});
    in.word("Solver", solver == VlSvmSolverSdca ? "sdca" : solver == VlSvmSolverSgd ? "sgd" : "none");
  }
  if (r.chance(.7)) {
    loss = r.pick({VlSvmLossHinge, VlSvmLossHinge2, VlSvmLossL1, VlSvmLossL2, VlSvmLossLogistic});
    in.word("Loss", loss == VlSvmLossHinge ? "hinge" : loss == VlSvmLossHinge2 ? "hinge2" : loss == VlSvmLossL1 ? "l1" : loss == VlSvmLossL2 ? "l2" : "logistic");
  }
  long iters = r.range(1, 200), freq = -1, start = -1;
  double eps = -1, bm = -1, lr = -1, b0 = NAN;
  std::vector<double> m0;
  bool weights = r.chance(.3);
  in.opt("MaxNumIterations", (double)iters);
  if (r.chance(.4)) in.opt("Epsilon", eps = r.uni(1e-4, .1));
  if (r.chance(.5)) in.opt("BiasMultiplier", bm = r.chance(.2) ? 0 : r.uni(.1, 2));
  if (r.chance(.3)) in.opt("DiagnosticFrequency", (double)(freq = r.range(1, 50)));
  if (solver != VlSvmSolverSdca && r.chance(.4)) {
    m0.resize(dim);
    for (double &v : m0) v = r.normal();
    in.opt("Model", r.chance(.5) ? arr(m0, {dim, 1}) : arr(m0, {1, dim}));
  }
  if (solver != VlSvmSolverSdca && r.chance(.4)) in.opt("Bias", b0 = r.normal());
  if (solver == VlSvmSolverSgd && r.chance(.4)) in.opt("BiasLearningRate", lr = r.uni(.1, 1));
  if (solver == VlSvmSolverSgd && r.chance(.4)) in.opt("StartingIteration", (double)(start = r.range(1, 100)));
  if (weights) in.opt("Weights", r.chance(.5) ? arr(w, {1, N}) : arr(w, {N, 1}));
  in.verbose();
  int nout = (int)r.range(0, 4);
  c.desc("vl_svmtrain %ldx%ld bytes=%zu dataset=%d map=%d(%d,%d,%g,%g,%d) lambda=%g solver=%d loss=%d iters=%ld eps=%g bm=%g start=%ld weights=%d model=%zu nout=%d", D, N, sizeof(T), ds, map, kt, order, gamma, period, win, lambda, solver, loss, iters, eps, bm, start, weights, m0.size(), nout);
  Res o = good(c, "vl_svmtrain", CALL(vl_svmtrain, nout, in.v));
  s.again();
  VlSvmDataset *d = vl_svmdataset_new(Ty<T>::id, x.data(), D, N);
  VlHomogeneousKernelMap *h = map ? vl_homogeneouskernelmap_new(kt, gamma, order, period, win) : 0;
  if (h) vl_svmdataset_set_homogeneous_kernel_map(d, h);
  VlSvm *v = vl_svm_new_with_dataset(solver, d, y.data(), lambda);
  if (!m0.empty()) vl_svm_set_model(v, m0.data());
  if (!std::isnan(b0)) vl_svm_set_bias(v, b0);
  if (eps >= 0) vl_svm_set_epsilon(v, eps);
  vl_svm_set_max_num_iterations(v, iters);
  if (bm >= 0) vl_svm_set_bias_multiplier(v, bm);
  if (lr >= 0) vl_svm_set_bias_learning_rate(v, lr);
  if (freq >= 0) vl_svm_set_diagnostic_frequency(v, freq);
  if (start >= 0) vl_svm_set_iteration_number(v, start);
  if (weights) vl_svm_set_weights(v, w.data());
  vl_svm_set_loss(v, loss);
  vl_svm_train(v);
  if ((long)vl_svm_get_dimension(v) != dim) c.fail("svm dimension", "dimension %ld rather than %ld", (long)vl_svm_get_dimension(v), dim);
  needDims(c, "vl_svmtrain", o.out[0], mxDOUBLE_CLASS, {dim, 1});
  same(c, "svm model", "the model of vl_svmtrain", o.out[0], vl_svm_get_model(v), dim);
  if (nout > 1) {
    double b = vl_svm_get_bias(v);
    needDims(c, "vl_svmtrain", o.out[1], mxDOUBLE_CLASS, {1, 1});
    same(c, "svm bias", "the bias of vl_svmtrain", o.out[1], &b, 1);
  }
  if (nout > 2) {
    VlSvmStatistics const *st = vl_svm_get_statistics(v);
    struct { char const *n; double v; } want[] = {{"lambda", lambda}, {"biasMultiplier", vl_svm_get_bias_multiplier(v)}, {"bias", vl_svm_get_bias(v)}, {"objective", st->objective}, {"regularizer", st->regularizer}, {"loss", st->loss},
      {"iteration", (double)st->iteration}, {"epoch", (double)st->epoch}, {"dualObjective", st->dualObjective}, {"dualLoss", st->dualLoss}, {"dualityGap", st->dualityGap}};
    int n = solver == VlSvmSolverNone ? 6 : solver == VlSvmSolverSgd ? 8 : 11;
    for (int i = 0; i < n; ++i) {
      double g = fieldValue(c, o.out[2], want[i].n);
      if (g != want[i].v && !(std::isnan(g) && std::isnan(want[i].v))) c.fail("svm info", "vl_svmtrain reports %s=%.9g rather than %.9g", want[i].n, g, want[i].v);
    }
    mxArray *sv = mxGetField(o.out[2], 0, "solver");
    char name[16] = "";
    if (!sv || mxGetString(sv, name, sizeof name) || strcmp(name, solver == VlSvmSolverNone ? "none" : solver == VlSvmSolverSgd ? "sgd" : "sdca")) c.fail("svm info", "vl_svmtrain reports the solver '%s'", name);
    if (solver == VlSvmSolverSgd) {
      double g = fieldValue(c, o.out[2], "scoreVariation");
      if (g != st->scoresVariation && !(std::isnan(g) && std::isnan(st->scoresVariation))) c.fail("svm info", "vl_svmtrain reports scoreVariation=%.9g rather than %.9g", g, st->scoresVariation);
    }
  }
  if (nout > 3) {
    needDims(c, "vl_svmtrain", o.out[3], mxDOUBLE_CLASS, {1, N});
    same(c, "svm scores", "the scores of vl_svmtrain", o.out[3], vl_svm_get_scores(v), N);
  }
  c.nontrivial(x, fnv(vl_svm_get_model(v), dim * 8));
  vl_svm_delete(v);
  vl_svmdataset_set_homogeneous_kernel_map(d, 0);
  if (h) vl_homogeneouskernelmap_delete(h);
  vl_svmdataset_delete(d);
}
VT_GROUP(C39, svm, 6000, 60000, SERIAL) { c.rng.chance(.5) ? svm<float>(c) : svm<double>(c); }

// ------------------------------------------------------------------- aib
VT_GROUP(C39, aib, 5000, 50000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  long L = r.range(1, 5), N = r.range(2, 14), nulls = 0;
  bool ties = r.chance(.3);
  std::vector<double> p(L * N);
  double sum = 0;
  for (double &v : p) v = ties ? (double)r.range(0, 2) : r.uni(.01, 1);
  for (long i = 0; i < N; ++i) if (i && r.chance(.2)) for (long l = 0; l < L; ++l) p[i * L + l] = 0;
  for (double v : p) sum += v;
  if (sum == 0) throw Skip();
  for (double &v : p) v /= sum;
  std::vector<char> null(N);
  for (long i = 0; i < N; ++i) {
    double q = 0;
    for (long l = 0; l < L; ++l) q += p[i * L + l];
    nulls += null[i] = q == 0;
  }
  bool cluster = r.chance(.4);
  In in(r);
  in << arr(p, {L, N});
  if (cluster) in.flag("ClusterNull");
  in.verbose();
  int nout = (int)r.range(0, 2);
  c.desc("vl_aib %ldx%ld nulls=%ld ClusterNull=%d nout=%d", L, N, nulls, cluster, nout);
  Res o = good(c, "vl_aib", CALL(vl_aib, nout, in.v));
  std::vector<double> cp = p;
  VlAIB *a = vl_aib_new(cp.data(), N, L);
  vl_aib_process(a);
  std::vector<vl_uint32> par(vl_aib_get_parents(a), vl_aib_get_parents(a) + 2 * N - 1);
  std::vector<double> cost(vl_aib_get_costs(a), vl_aib_get_costs(a) + N);
  vl_aib_delete(a);
  long n = N - nulls, root = n > 1 ? N + n - 2 : -1; // zero-based, without null nodes
  needDims(c, "vl_aib", o.out[0], mxUINT32_CLASS, {1, 2 * N - 1});
  vl_uint32 *g = data<vl_uint32>(o.out[0]);
  if (!cluster || !nulls) {
    for (long i = 0; i < 2 * N - 1; ++i) {
      vl_uint32 want = i < N && null[i] ? 0 : i > root ? 0 : i == root ? 1 : par[i] + 1;
      if (g[i] != want) c.fail("aib parents", "vl_aib: parent of node %ld is %u rather than %u (%ld null values)", i + 1, g[i], want, nulls);
    }
    if (nout > 1) same(c, "aib costs", "the costs of vl_aib", o.out[1], cost);
  } else {
    // one binary tree over all the values, merged in order
    std::vector<int> kids(2 * N - 1);
    for (long i = 0; i < 2 * N - 2; ++i) {
      if (g[i] < 1 || (long)g[i] > 2 * N - 1 || (long)g[i] - 1 <= i || (long)g[i] - 1 < N)
        c.fail("aib null tree", "vl_aib ClusterNull: node %ld of %ld has parent %u (%ld null values)", i + 1, 2 * N - 1, g[i], nulls);
      ++kids[g[i] - 1];
    }
    if (g[2 * N - 2] != 1) c.fail("aib null tree", "vl_aib ClusterNull: the root has parent %u", g[2 * N - 2]);
    for (long i = 0; i < 2 * N - 1; ++i) if (kids[i] != (i < N ? 0 : 2)) c.fail("aib null tree", "vl_aib ClusterNull: node %ld has %d children (%ld null values)", i + 1, kids[i], nulls);
    if (nout > 1) {
      // merging null values loses no information, then the others merge as before
      double *q = data<double>(o.out[1]);
      for (long i = 0; i < N; ++i) {
        double want = i <= nulls ? cost[0] : cost[i - nulls];
        if (q[i] != want) c.fail("aib null costs", "vl_aib ClusterNull: cost %ld is %.9g rather than %.9g (%ld null values of %ld)", i + 1, q[i], want, nulls, N);
      }
    }
  }
  if (nout > 1) needDims(c, "vl_aib", o.out[1], mxDOUBLE_CLASS, {1, N});
  c.count("null values", (double)nulls);
  c.nontrivial(p, cluster);
}

// ------------------------------------------------------ sift descriptors
// the descriptor of the transposed image
static void flipped(float *dst, float const *src) {
  for (int y = 0; y < 4; ++y)
    for (int x = 0; x < 4; ++x)
      for (int t = 0; t < 8; ++t) dst[8 * x + 32 * (3 - y) + (8 - t) % 8] = src[8 * x + 32 * y + t];
}
static void store(std::vector<vl_uint8> &b, std::vector<float> &f, float const *buf) {
  float d[128];
  flipped(d, buf);
  for (int i = 0; i < 128; ++i) {
    float v = 512.f * d[i];
    f.push_back(v);
    b.push_back((vl_uint8)(v < 255.f ? v : 255.f));
  }
}
VT_GROUP(C39, sift, 800, 8000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  long M = r.range(8, 44), N = r.range(8, 44);
  std::vector<float> im = image<float>(r, M, N, 0, r.pick({1., 255.}));
  int O = -1, S = 3, first = 0;
  double peak = -1, edge = -1, norm = -1, magnif = -1, window = -1;
  bool user = r.chance(.4), orient = r.chance(.3), flt = r.chance(.4);
  std::vector<double> fr;
  In in(r);
  in << arr(im, {M, N});
  if (r.chance(.3)) in.opt("Octaves", O = (int)r.range(1, 3));
  if (r.chance(.4)) in.opt("Levels", S = (int)r.range(1, 4));
  if (r.chance(.5)) in.opt("FirstOctave", first = (int)r.range(-1, 1));
  if (r.chance(.4)) in.opt("PeakThresh", peak = r.uni(0, .05) * (im[0] > 2 ? 255 : 1));
  if (r.chance(.4)) in.opt("EdgeThresh", edge = r.uni(1, 20));
  if (r.chance(.3)) in.opt("NormThresh", norm = r.uni(0, 1));
  if (r.chance(.3)) in.opt("Magnif", magnif = r.uni(1, 4));
  if (r.chance(.3)) in.opt("WindowSize", window = r.uni(1, 3));
  if (user) {
    long n = r.range(0, 8);
    for (long i = 0; i < n; ++i) {
      fr.push_back(r.uni(1, N)), fr.push_back(r.uni(1, M)), fr.push_back(r.uni(.6, 12)), fr.push_back(r.uni(-4, 4));
    }
    in.opt("Frames", arr(fr, {4, n}));
  }
  if (orient) in.flag("Orientations");
  if (flt) in.flag("FloatDescriptors");
  in.verbose();
  int nout = (int)r.range(0, 2);
  c.desc("vl_sift %ldx%ld O=%d S=%d first=%d peak=%g edge=%g norm=%g magnif=%g window=%g frames=%ld orientations=%d float=%d nout=%d", M, N, O, S, first, peak, edge, norm, magnif, window, user ? (long)fr.size() / 4 : -1, orient, flt, nout);
  Res o = good(c, "vl_sift", CALL(vl_sift, nout, in.v));
  std::vector<std::array<double, 4>> list(fr.size() / 4);
  if (!fr.empty()) memcpy(list.data(), fr.data(), fr.size() * 8);
  std::sort(list.begin(), list.end(), [](std::array<double, 4> const &a, std::array<double, 4> const &b) { return a[2] < b[2]; });
  VlSiftFilt *f = vl_sift_new((int)M, (int)N, O, S, first);
  if (peak >= 0) vl_sift_set_peak_thresh(f, peak);
  if (edge >= 0) vl_sift_set_edge_thresh(f, edge);
  if (norm >= 0) vl_sift_set_norm_thresh(f, norm);
  if (magnif >= 0) vl_sift_set_magnif(f, magnif);
  if (window >= 0) vl_sift_set_window_size(f, window);
  std::vector<double> wf;
  std::vector<vl_uint8> wb;
  std::vector<float> wd;
  auto take = [&](VlSiftKeypoint const &k, double angle) {
    wf.push_back(k.y + 1), wf.push_back(k.x + 1), wf.push_back(k.sigma), wf.push_back(VL_PI / 2 - angle);
    float buf[128];
    vl_sift_calc_keypoint_descriptor(f, buf, &k, angle);
    store(wb, wd, buf);
  };
  double an[4];
  for (int e = vl_sift_process_first_octave(f, im.data()); !e; e = vl_sift_process_next_octave(f)) {
    if (user) {
      for (auto &k : list) {
        VlSiftKeypoint q;
        vl_sift_keypoint_init(f, &q, k[1] - 1, k[0] - 1, k[2]);
        if (q.o != vl_sift_get_octave_index(f)) continue;
        if (!orient) take(q, VL_PI / 2 - k[3]);
        else for (int j = 0, n = vl_sift_calc_keypoint_orientations(f, an, &q); j < n; ++j) take(q, an[j]);
      }
    } else {
      vl_sift_detect(f);
      std::vector<VlSiftKeypoint> ks(vl_sift_get_keypoints(f), vl_sift_get_keypoints(f) + vl_sift_get_nkeypoints(f));
      for (VlSiftKeypoint &k : ks)
        for (int j = 0, n = vl_sift_calc_keypoint_orientations(f, an, &k); j < n; ++j) take(k, an[j]);
    }
  }
  vl_sift_delete(f);
  long n = (long)wf.size() / 4;
  needDims(c, "vl_sift", o.out[0], mxDOUBLE_CLASS, {4, n});
  same(c, "sift frames", "the frames of vl_sift", o.out[0], wf);
  if (nout > 1) {
    needDims(c, "vl_sift", o.out[1], flt ? mxSINGLE_CLASS : mxUINT8_CLASS, {128, n});
    if (flt) same(c, "sift descriptors", "the descriptors of vl_sift", o.out[1], wd);
    else same(c, "sift descriptors", "the descriptors of vl_sift", o.out[1], wb);
  }
  c.count("frames", (double)n);
  if (n) c.nontrivial(im, fnv(wf.data(), wf.size() * 8));
}

VT_GROUP(C39, siftdescriptor, 1500, 15000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  long M = r.range(1, 40), N = r.range(2, 40), n = r.chance(.05) ? 0 : r.range(1, 8);
  std::vector<float> g(2 * M * N);
  for (long i = 0; i < M * N; ++i) g[2 * i] = (float)r.uni(), g[2 * i + 1] = (float)r.uni(0, 2 * VL_PI);
  std::vector<double> fr;
  for (long i = 0; i < n; ++i) fr.push_back(r.uni(0, N + 1)), fr.push_back(r.uni(0, M + 1)), fr.push_back(r.uni(.3, 6)), fr.push_back(r.uni(-4, 4));
  double magnif = -1, norm = -1;
  bool flt = r.chance(.5);
  In in(r);
  in << arr(g, {2, M, N}) << arr(fr, {4, n});
  if (r.chance(.5)) in.opt("Magnif", magnif = r.uni(1, 4));
  if (r.chance(.4)) in.opt("NormThresh", norm = r.uni(0, 3));
  if (flt) in.flag("FloatDescriptors");
  in.verbose();
  c.desc("vl_siftdescriptor %ldx%ld frames=%ld magnif=%g norm=%g float=%d", M, N, n, magnif, norm, flt);
  Res o = good(c, "vl_siftdescriptor", CALL(vl_siftdescriptor, (int)r.range(0, 1), in.v));
  for (long i = 0; i < M * N; ++i) g[2 * i + 1] = (float)(VL_PI / 2 - g[2 * i + 1]);
  VlSiftFilt *f = vl_sift_new((int)M, (int)N, -1, -1, 0);
  if (magnif >= 0) vl_sift_set_magnif(f, magnif);
  if (norm >= 0) vl_sift_set_norm_thresh(f, norm);
  std::vector<vl_uint8> wb;
  std::vector<float> wd;
  for (long i = 0; i < n; ++i) {
    float buf[128];
    vl_sift_calc_raw_descriptor(f, g.data(), buf, (int)M, (int)N, fr[4 * i + 1] - 1, fr[4 * i] - 1, fr[4 * i + 2], VL_PI / 2 - fr[4 * i + 3]);
    store(wb, wd, buf);
  }
  vl_sift_delete(f);
  needDims(c, "vl_siftdescriptor", o.out[0], flt ? mxSINGLE_CLASS : mxUINT8_CLASS, {128, n});
  if (flt) same(c, "siftdescriptor", "vl_siftdescriptor", o.out[0], wd);
  else same(c, "siftdescriptor", "vl_siftdescriptor", o.out[0], wb);
  c.count("frames", (double)n);
  if (n) c.nontrivial(g, fnv(wd.data(), wd.size() * 4));
}

VT_GROUP(C39, dsift, 1500, 15000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  long M = r.range(2, 36), N = r.range(2, 36);
  std::vector<float> im = image<float>(r, M, N, 0, r.pick({1., 255.}));
  VlDsiftDescriptorGeometry geom;
  geom.numBinX = geom.numBinY = 4, geom.numBinT = 8, geom.binSizeX = geom.binSizeY = 3;
  int st[2] = {1, 1};
  double window = -1;
  bool fast = r.chance(.5), norm = r.chance(.5), flt = r.chance(.4), bounded = r.chance(.4);
  double b[4] = {1, 1, (double)N, (double)M};
  In in(r);
  in << arr(im, {M, N});
  if (r.chance(.5)) {
    if (r.chance(.5)) in.opt("Step", st[0] = st[1] = (int)r.range(1, 5));
    else {
      st[0] = (int)r.range(1, 5), st[1] = (int)r.range(1, 5);
      in.opt("Step", arr(std::vector<double>{(double)st[1], (double)st[0]}, r.chance(.5) ? Dims{1, 2} : Dims{2, 1}));
    }
  }
  if (r.chance(.5)) {
    if (r.chance(.5)) in.opt("Size", geom.binSizeX = geom.binSizeY = (int)r.range(1, 5));
    else {
      geom.binSizeX = (int)r.range(1, 5), geom.binSizeY = (int)r.range(1, 5);
      in.opt("Size", arr(std::vector<double>{(double)geom.binSizeY, (double)geom.binSizeX}, {1, 2}));
    }
  }
  if (r.chance(.4)) {
    geom.numBinX = (int)r.range(1, 4), geom.numBinY = (int)r.range(1, 4), geom.numBinT = (int)r.range(1, 9);
    in.opt("Geometry", arr(std::vector<double>{(double)geom.numBinY, (double)geom.numBinX, (double)geom.numBinT}, {1, 3}));
  }
  if (bounded) {
    b[0] = (double)r.range(-2, N), b[2] = (double)r.range(0, N + 3), b[1] = (double)r.range(-2, M), b[3] = (double)r.range(0, M + 3);
    in.opt("Bounds", arr(std::vector<double>{b[0], b[1], b[2], b[3]}, {1, 4}));
  }
  if (fast) in.flag("Fast");
  if (norm) in.flag("Norm");
  if (flt) in.flag("FloatDescriptors");
  if (r.chance(.3)) in.opt("WindowSize", window = r.uni(.5, 3));
  in.verbose();
  int nout = (int)r.range(0, 2);
  c.desc("vl_dsift %ldx%ld step=%d,%d bins=%dx%dx%d of %dx%d bounds=%d:%g,%g,%g,%g fast=%d norm=%d float=%d window=%g nout=%d", M, N, st[0], st[1], geom.numBinX, geom.numBinY, geom.numBinT, geom.binSizeX, geom.binSizeY, bounded, b[0], b[1], b[2], b[3], fast, norm, flt, window, nout);
  Res o = good(c, "vl_dsift", CALL(vl_dsift, nout, in.v));
  // the library sees the transposed image: its x is the user's y
  VlDsiftFilter *f = vl_dsift_new((int)M, (int)N);
  vl_dsift_set_geometry(f, &geom);
  vl_dsift_set_steps(f, st[0], st[1]);
  if (bounded) vl_dsift_set_bounds(f, std::max((int)b[1] - 1, 0), std::max((int)b[0] - 1, 0), std::min((int)b[3] - 1, (int)M - 1), std::min((int)b[2] - 1, (int)N - 1));
  vl_dsift_set_flat_window(f, fast);
  if (window >= 0) vl_dsift_set_window_size(f, window);
  vl_dsift_process(f, im.data());
  long n = vl_dsift_get_keypoint_num(f), D = vl_dsift_get_descriptor_size(f);
  int T = geom.numBinT;
  std::vector<double> wf;
  std::vector<float> wd(n * D);
  std::vector<vl_uint8> wb(n * D);
  for (long k = 0; k < n; ++k) {
    VlDsiftKeypoint const &p = vl_dsift_get_keypoints(f)[k];
    wf.push_back(p.y + 1), wf.push_back(p.x + 1);
    if (norm) wf.push_back(p.norm);
    float const *src = vl_dsift_get_descriptors(f) + k * D;
    float *dst = &wd[k * D];
    for (int y = 0; y < geom.numBinY; ++y)
      for (int x = 0; x < geom.numBinX; ++x)
        for (int t = 0; t < T; ++t) dst[(T / 4 - t + T) % T + T * y + (T * geom.numBinY) * x] = src[t + T * x + T * geom.numBinX * y];
    for (long i = 0; i < D; ++i) {
      dst[i] = std::min(512.f * dst[i], 255.f);
      wb[k * D + i] = (vl_uint8)dst[i];
    }
  }
  vl_dsift_delete(f);
  needDims(c, "vl_dsift", o.out[0], mxDOUBLE_CLASS, {norm ? 3 : 2, n});
  same(c, "dsift frames", "the frames of vl_dsift", o.out[0], wf);
  if (nout > 1) {
    needDims(c, "vl_dsift", o.out[1], flt ? mxSINGLE_CLASS : mxUINT8_CLASS, {D, n});
    if (flt) same(c, "dsift descriptors", "the descriptors of vl_dsift", o.out[1], wd);
    else same(c, "dsift descriptors", "the descriptors of vl_dsift", o.out[1], wb);
  }
  c.count("frames", (double)n);
  if (n) c.nontrivial(im, fnv(wf.data(), wf.size() * 8));
}

VT_GROUP(C39, liop, 1500, 15000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  long n = 2 * r.range(1, 10) + 1, P = r.chance(.5) ? 1 : r.range(0, 4);
  int neigh = 4, bins = 6, radius = 6;
  float thr = NAN;
  std::vector<float> x;
  for (long p = 0; p < P; ++p) {
    std::vector<float> q = image<float>(r, n, n, 0, r.pick({1., 255.}));
    x.insert(x.end(), q.begin(), q.end());
  }
  In in(r);
  in << arr(x, P == 1 ? Dims{n, n} : Dims{n, n, P});
  if (n / 2 <= radius || r.chance(.5)) {
    if (n < 5) throw Skip();
    double v = (double)(radius = (int)r.range(1, n / 2 - 1));
    in.opt("Radius", v);
  }
  if (r.chance(.5)) in.opt("NumNeighbours", neigh = (int)r.range(2, 5));
  if (r.chance(.5)) in.opt("NumSpatialBins", bins = (int)r.range(1, 7));
  if (r.chance(.5)) in.opt("IntensityThreshold", (double)(thr = (float)r.uni(-1, 1)));
  in.verbose();
  c.desc("vl_liop %ldx%ldx%ld radius=%d neighbours=%d bins=%d threshold=%g", n, n, P, radius, neigh, bins, thr);
  Res o = good(c, "vl_liop", CALL(vl_liop, (int)r.range(0, 1), in.v));
  VlLiopDesc *l = vl_liopdesc_new(neigh, bins, (float)radius, n);
  if (!std::isnan(thr)) vl_liopdesc_set_intensity_threshold(l, thr);
  long D = (long)vl_liopdesc_get_dimension(l);
  std::vector<float> w(D * P);
  for (long p = 0; p < P; ++p) vl_liopdesc_process(l, &w[p * D], &x[p * n * n]);
  vl_liopdesc_delete(l);
  needDims(c, "vl_liop", o.out[0], mxSINGLE_CLASS, {D, P});
  same(c, "liop", "vl_liop", o.out[0], w);
  if (P) c.nontrivial(x, fnv(w.data(), w.size() * 4));
}

// ---------------------------------------------------- covariant detector
static void sameSpace(Ctx &c, char const *what, mxArray *s, VlScaleSpace *ss) {
  if (!s) c.fail("covdet info", "vl_covdet reports no %s", what);
  if (!ss) {
    if (numel(s)) c.fail("covdet info", "vl_covdet reports a %s that is not computed", what);
    return;
  }
  VlScaleSpaceGeometry g = vl_scalespace_get_geometry(ss);
  struct { char const *n; double v; } want[] = {{"firstOctave", (double)g.firstOctave}, {"lastOctave", (double)g.lastOctave}, {"octaveResolution", (double)g.octaveResolution},
    {"octaveFirstSubdivision", (double)g.octaveFirstSubdivision}, {"octaveLastSubdivision", (double)g.octaveLastSubdivision}, {"sigma0", g.baseScale}};
  for (auto &w : want) {
    mxArray *m = mxGetField(s, 0, w.n);
    if (!m || numel(m) != 1 || *data<double>(m) != w.v) c.fail("covdet info", "%s.%s of vl_covdet is not %g", what, w.n, w.v);
  }
  mxArray *d = mxGetField(s, 0, "data");
  long no = (long)(g.lastOctave - g.firstOctave + 1), ns = (long)(g.octaveLastSubdivision - g.octaveFirstSubdivision + 1);
  if (!d || mxGetClassID(d) != mxCELL_CLASS || (long)numel(d) != no) c.fail("covdet info", "%s.data of vl_covdet has not %ld octaves", what, no);
  for (long o = 0; o < no; ++o) {
    VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(ss, o + g.firstOctave);
    mxArray *m = mxGetCell(d, o);
    if (!m || mxGetClassID(m) != mxSINGLE_CLASS || !mx::isDims(m, {(long)og.width, (long)og.height, ns})) c.fail("covdet info", "octave %ld of %s of vl_covdet has another size", o, what);
    for (long k = 0; k < ns; ++k) {
      float const *lv = vl_scalespace_get_level(ss, o + g.firstOctave, k + g.octaveFirstSubdivision);
      if (memcmp(lv, data<float>(m) + k * og.width * og.height, og.width * og.height * 4)) c.fail("covdet info", "level %ld of octave %ld of %s of vl_covdet differs", k, o, what);
    }
  }
}
VT_GROUP(C39, covdet, 700, 7000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  long M = r.range(10, 40), N = r.range(10, 40);
  std::vector<float> im = image<float>(r, M, N, 0, 1);
  static char const *const NAMES[] = {"DoG", "Hessian", "HessianLaplace", "HarrisLaplace", "MultiscaleHessian", "MultiscaleHarris"};
  static VlCovDetMethod const METHODS[] = {VL_COVDET_METHOD_DOG, VL_COVDET_METHOD_HESSIAN, VL_COVDET_METHOD_HESSIAN_LAPLACE, VL_COVDET_METHOD_HARRIS_LAPLACE, VL_COVDET_METHOD_MULTISCALE_HESSIAN, VL_COVDET_METHOD_MULTISCALE_HARRIS};
  int m = 0, desc = 2;
  bool twice = true, affine = false, orient = false, padded = true, user = r.chance(.35);
  long octaves = 0, res = -1, maxor = 0, pres = -1;
  double base = -1, peak = -1, edge = -1, lap = -1, ext = -1, smooth = -1;
  int lbins = 6, lneigh = 4;
  float lrad = 6, lthr = NAN;
  std::vector<double> fr;
  long dim = 0, nf = 0;
  In in(r);
  in << arr(im, {M, N});
  if (r.chance(.8)) in.word("Method", NAMES[m = (int)r.range(0, 5)]);
  if (r.chance(.3)) in.opt("NumOctaves", (double)(octaves = r.range(1, 3)));
  if (r.chance(.3)) in.opt("OctaveResolution", (double)(res = r.range(1, 4)));
  if (r.chance(.2)) in.opt("BaseScale", base = r.uni(1, 2.2));
  if (r.chance(.6)) in.yes("DoubleImage", twice = r.chance(.5));
  if (r.chance(.5)) in.opt("PeakThreshold", peak = r.uni(0, .01));
  if (r.chance(.4)) in.opt("EdgeThreshold", edge = r.uni(1, 20));
  if (r.chance(.3)) in.opt("LaplacianPeakThreshold", lap = r.uni(0, .01));
  if (r.chance(.5)) in.yes("EstimateOrientation", orient = r.chance(.7));
  if (r.chance(.3)) in.opt("MaxNumOrientations", (double)(maxor = r.range(1, 4)));
  if (r.chance(.4)) in.yes("EstimateAffineShape", affine = r.chance(.7));
  if (r.chance(.3)) in.yes("AllowPaddedWarping", padded = r.chance(.3));
  if (r.chance(.7)) {
    desc = (int)r.range(0, 3);
    in.word("Descriptor", desc == 0 ? "None" : desc == 1 ? "Patch" : desc == 2 ? "SIFT" : "LIOP");
  }
  if (r.chance(.5)) in.opt("PatchResolution", (double)(pres = r.range(desc == 3 ? 7 : 1, 10)));
  if (r.chance(.4)) in.opt("PatchRelativeExtent", ext = r.uni(1, 8));
  if (r.chance(.4)) in.opt("PatchRelativeSmoothing", smooth = r.uni(0, 2));
  if (desc == 3 || r.chance(.1)) {
    if (r.chance(.4)) in.opt("LiopNumSpatialBins", lbins = (int)r.range(1, 6));
    if (r.chance(.4)) in.opt("LiopNumNeighbours", lneigh = (int)r.range(2, 4));
    if (r.chance(.4)) in.opt("LiopRadius", (double)(lrad = (float)r.uni(1, 6)));
    if (r.chance(.4)) in.opt("LiopIntensityThreshold", (double)(lthr = (float)r.uni(0, .2)));
  }
  std::vector<VlFrameOrientedEllipse> uf;
  if (user) {
    dim = r.range(2, 6), nf = r.chance(.1) ? 0 : r.range(1, 6);
    for (long i = 0; i < nf; ++i) {
      double x = r.uni(1, N), y = r.uni(1, M), sc = r.uni(.6, 5), th = r.uni(-4, 4);
      double A[4] = {1, 0, 0, 1}; // a11 a21 a12 a22 of the user's frame
      fr.push_back(x), fr.push_back(y);
      if (dim == 3) fr.push_back(sc), A[0] = A[3] = sc;
      if (dim == 4) {
        fr.push_back(sc), fr.push_back(th);
        A[0] = sc * cos(th), A[1] = sc * sin(th), A[2] = -sc * sin(th), A[3] = sc * cos(th);
      }
      if (dim == 5) {
        double a = r.uni(.6, 5), b = r.uni(-1, 1), d = r.uni(.6, 5);
        fr.push_back(a * a), fr.push_back(a * b), fr.push_back(b * b + d * d);
        // the ellipse with covariance A A'
        A[0] = sqrt(fr[5 * i + 2]), A[1] = fr[5 * i + 3] / A[0], A[2] = 0, A[3] = sqrt(fr[5 * i + 4] - A[1] * A[1]);
      }
      if (dim == 6) {
        for (double &v : A) v = r.normal() * 2;
        if (fabs(A[0] * A[3] - A[1] * A[2]) < .3) A[0] = A[3] = 2, A[1] = .3, A[2] = -.4;
        for (double v : A) fr.push_back(v);
      }
      VlFrameOrientedEllipse e;
      e.x = (float)y - 1, e.y = (float)x - 1; // transposed
      e.a11 = (float)A[3], e.a21 = (float)A[2], e.a12 = (float)A[1], e.a22 = (float)A[0];
      uf.push_back(e);
    }
    in.opt("Frames", arr(fr, {dim, nf}));
  }
  in.verbose();
  int nout = (int)r.range(0, 3);
  c.desc("vl_covdet %ldx%ld method=%s octaves=%ld res=%ld base=%g double=%d peak=%g edge=%g lap=%g orientation=%d(%ld) affine=%d padded=%d descriptor=%d(%ld,%g,%g) liop=%d,%d,%g,%g frames=%ldx%ld nout=%d", M, N, NAMES[m], octaves, res, base, twice, peak, edge, lap, orient, maxor, affine, padded, desc, pres, ext, smooth, lbins, lneigh, lrad, lthr, dim, nf, nout);
  Res o = good(c, "vl_covdet", CALL(vl_covdet, nout, in.v));
  double ex[] = {-1, 6, 7.5, 4}, sm[] = {-1, 1, 1, .5};
  long pr[] = {-1, 20, 15, 20};
  if (pres < 0) pres = pr[desc];
  if (ext < 0) ext = ex[desc];
  if (smooth < 0) smooth = sm[desc];
  VlCovDet *d = vl_covdet_new(METHODS[m]);
  vl_covdet_set_transposed(d, 1);
  vl_covdet_set_first_octave(d, twice ? -1 : 0);
  if (octaves) vl_covdet_set_num_octaves(d, octaves);
  if (res > 0) vl_covdet_set_octave_resolution(d, res);
  if (base > 0) vl_covdet_set_base_scale(d, base);
  if (maxor) vl_covdet_set_max_num_orientations(d, maxor);
  if (peak >= 0) vl_covdet_set_peak_threshold(d, peak);
  if (edge >= 0) vl_covdet_set_edge_threshold(d, edge);
  if (lap >= 0) vl_covdet_set_laplacian_peak_threshold(d, lap);
  vl_covdet_put_image(d, im.data(), M, N);
  if (user) {
    for (auto &e : uf) {
      VlCovDetFeature f;
      memset(&f, 0, sizeof f);
      f.frame = e, f.peakScore = VL_INFINITY_F, f.edgeScore = 1;
      vl_covdet_append_feature(d, &f);
    }
  } else {
    vl_covdet_detect(d);
    double margin = padded ? 2. : ext;
    if (margin > 0) vl_covdet_drop_features_outside(d, margin);
  }
  if (affine) vl_covdet_extract_affine_shape(d);
  if (orient) vl_covdet_extract_orientations(d);
  long n = (long)vl_covdet_get_num_features(d);
  std::vector<VlCovDetFeature> F;
  if (n) F.assign((VlCovDetFeature *)vl_covdet_get_features(d), (VlCovDetFeature *)vl_covdet_get_features(d) + n);
  std::vector<double> wf;
  for (auto &f : F) wf.insert(wf.end(), {f.frame.y + 1., f.frame.x + 1., f.frame.a22, f.frame.a12, f.frame.a21, f.frame.a11});
  for (size_t i = 0; i < wf.size(); i += 6) wf[i] = F[i / 6].frame.y + 1, wf[i + 1] = F[i / 6].frame.x + 1;
  needDims(c, "vl_covdet", o.out[0], mxDOUBLE_CLASS, {6, n});
  same(c, "covdet frames", "the frames of vl_covdet", o.out[0], wf);
  if (nout > 1) {
    std::vector<float> wd;
    long w = 2 * pres + 1, D = 0;
    if (desc == 0) {
      if (numel(o.out[1])) c.fail("covdet descriptors", "vl_covdet without descriptor gives %s", mx::describe(o.out[1]));
    } else {
      std::vector<float> patch(w * w), pol(2 * w * w);
      VlSiftFilt *sf = vl_sift_new(16, 16, 1, 3, 0);
      vl_sift_set_magnif(sf, 3);
      VlLiopDesc *l = desc == 3 ? vl_liopdesc_new(lneigh, lbins, lrad, w) : 0;
      if (l && !std::isnan(lthr)) vl_liopdesc_set_intensity_threshold(l, lthr);
      D = desc == 1 ? w * w : desc == 2 ? 128 : (long)vl_liopdesc_get_dimension(l);
      for (auto &f : F) {
        vl_covdet_extract_patch_for_frame(d, patch.data(), pres, ext, smooth, f.frame);
        if (desc == 1) wd.insert(wd.end(), patch.begin(), patch.end());
        else if (desc == 2) {
          float t[128], u[128];
          vl_imgradient_polar_f(pol.data(), pol.data() + 1, 2, 2 * w, patch.data(), w, w, w);
          vl_sift_calc_raw_descriptor(sf, pol.data(), t, (int)w, (int)w, (w - 1) / 2., (w - 1) / 2., ext / (3. * 5 / 2) / (ext / pres), VL_PI / 2);
          flipped(u, t);
          wd.insert(wd.end(), u, u + 128);
        } else {
          wd.resize(wd.size() + D);
          vl_liopdesc_process(l, &wd[wd.size() - D], patch.data());
        }
      }
      vl_sift_delete(sf);
      if (l) vl_liopdesc_delete(l);
      needDims(c, "vl_covdet", o.out[1], mxSINGLE_CLASS, {D, n});
      same(c, "covdet descriptors", "the descriptors of vl_covdet", o.out[1], wd);
    }
  }
  if (nout > 2) {
    mxArray *info = o.out[2];
    sameSpace(c, "gss", mxGetField(info, 0, "gss"), vl_covdet_get_gss(d));
    sameSpace(c, "css", mxGetField(info, 0, "css"), vl_covdet_get_css(d));
    char const *names[] = {"peakScores", "edgeScores", "orientationScore", "laplacianScaleScore"};
    for (int k = 0; k < 4; ++k) {
      mxArray *v = mxGetField(info, 0, names[k]);
      if (!v) c.fail("covdet info", "vl_covdet reports no %s", names[k]);
      needDims(c, "vl_covdet", v, mxSINGLE_CLASS, {1, n});
      std::vector<float> want;
      for (auto &f : F) want.push_back(k == 0 ? f.peakScore : k == 1 ? f.edgeScore : k == 2 ? f.orientationScore : f.laplacianScaleScore);
      same(c, "covdet scores", names[k], v, want);
    }
  }
  vl_covdet_delete(d);
  c.count("features", (double)n);
  if (n) c.nontrivial(im, fnv(wf.data(), wf.size() * 8));
}

// ------------------------------------------------------------------- hog
VT_GROUP(C39, hog, 2500, 25000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  int mode = (int)r.range(0, 9); // 0: permutation, 1: render, others: extract
  long NO = 9, cell = 16;
  bool bil = false, dt = false;
  int polar = 0;
  auto options = [&](In &in) {
    if (r.chance(.5)) in.word("Variant", (dt = r.chance(.5)) ? "DalalTriggs" : "UoCTTI");
    if (r.chance(.5)) in.opt("NumOrientations", (double)(NO = r.range(1, 12)));
    if (r.chance(.4)) in.flag("BilinearOrientations"), bil = true;
    in.verbose();
  };
  auto variant = [&] { return dt ? VlHogVariantDalalTriggs : VlHogVariantUoctti; };
  In in(r);
  if (mode == 0) {
    in << mx::str(anyCase(r, "permutation"));
    options(in);
    c.desc("vl_hog permutation DalalTriggs=%d orientations=%ld", dt, NO);
    Res o = good(c, "vl_hog", CALL(vl_hog, (int)r.range(0, 1), in.v));
    VlHog *h = vl_hog_new(variant(), NO, 1);
    long D = (long)vl_hog_get_dimension(h);
    std::vector<vl_uint32> p;
    for (long i = 0; i < D; ++i) p.push_back((vl_uint32)vl_hog_get_permutation(h)[i] + 1);
    vl_hog_delete(h);
    needDims(c, "vl_hog", o.out[0], mxUINT32_CLASS, {D, 1});
    same(c, "hog permutation", "the permutation of vl_hog", o.out[0], p);
    c.nontrivial(NO * 2 + dt);
  } else if (mode == 1) {
    In t(r);
    options(t);
    VlHog *h = vl_hog_new(variant(), NO, 1);
    long D = (long)vl_hog_get_dimension(h), G = (long)vl_hog_get_glyph_size(h), H = r.range(1, 3), W = r.range(1, 3);
    std::vector<float> x(H * W * D), w(G * G * H * W);
    for (float &v : x) v = (float)r.uni(r.chance(.3) ? -1 : 0, 1);
    in << mx::str(anyCase(r, "render")) << arr(x, {H, W, D});
    for (mxArray *a : t.v) in << a;
    c.desc("vl_hog render %ldx%ldx%ld DalalTriggs=%d orientations=%ld", H, W, D, dt, NO);
    Res o = good(c, "vl_hog", CALL(vl_hog, (int)r.range(0, 1), in.v));
    vl_hog_render(h, w.data(), x.data(), H, W);
    vl_hog_delete(h);
    needDims(c, "vl_hog", o.out[0], mxSINGLE_CLASS, {G * H, G * W});
    same(c, "hog render", "the rendering of vl_hog", o.out[0], w);
    c.nontrivial(x);
  } else {
    long M = r.range(8, 40), N = r.range(8, 40), ch = r.pick({1l, 1l, 3l, 2l});
    cell = r.range(2, 8);
    if (r.chance(.3)) polar = (int)r.range(1, 2), ch = 2;
    std::vector<float> x;
    for (long k = 0; k < ch; ++k) {
      std::vector<float> q = image<float>(r, M, N, 0, r.pick({1., 255.}));
      x.insert(x.end(), q.begin(), q.end());
    }
    if (polar) for (long i = 0; i < M * N; ++i) x[i] = fabsf(x[i]), x[M * N + i] = (float)r.uni(-7, 7);
    in << arr(x, ch == 1 ? Dims{M, N} : Dims{M, N, ch}) << mx::scalar((double)cell + (r.chance(.2) ? .5 : 0));
    if (polar) in.flag(polar == 1 ? "DirectedPolarField" : "UndirectedPolarField");
    options(in);
    c.desc("vl_hog %ldx%ldx%ld cell=%ld DalalTriggs=%d orientations=%ld bilinear=%d polar=%d", M, N, ch, cell, dt, NO, bil, polar);
    Res o = good(c, "vl_hog", CALL(vl_hog, (int)r.range(0, 1), in.v));
    VlHog *h = vl_hog_new(variant(), NO, 1);
    vl_hog_set_use_bilinear_orientation_assignments(h, bil);
    if (polar) vl_hog_put_polar_field(h, x.data(), x.data() + M * N, polar == 1, M, N, cell);
    else vl_hog_put_image(h, x.data(), M, N, ch, cell);
    long W = (long)vl_hog_get_width(h), H = (long)vl_hog_get_height(h), D = (long)vl_hog_get_dimension(h);
    std::vector<float> w(W * H * D);
    vl_hog_extract(h, w.data());
    vl_hog_delete(h);
    needDims(c, "vl_hog", o.out[0], mxSINGLE_CLASS, {W, H, D});
    same(c, "hog features", "the features of vl_hog", o.out[0], w);
    c.nontrivial(x, fnv(w.data(), w.size() * 4));
  }
}

// ---------------------------------------------------------- segmentation
VT_GROUP(C39, mser, 2500, 25000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  Dims d = {r.range(1, 20), r.range(1, 20)};
  if (r.chance(.2)) d = {r.range(1, 7), r.range(1, 7), r.range(2, 5)};
  long n = 1;
  for (long v : d) n *= v;
  std::vector<vl_uint8> x(n);
  long lv = r.pick({2l, 6l, 40l, 256l});
  for (vl_uint8 &v : x) v = (vl_uint8)(r.range(0, lv - 1) * (255 / (lv - 1)));
  if (r.chance(.5)) // blobs
    for (long i = 0; i < n; ++i) x[i] = (vl_uint8)((i % d[0] / 4 + i / d[0] / 4) % 2 ? 200 + x[i] % 9 : 30 + x[i] % 9);
  double delta = -1, maxa = -1, mina = -1, var = -1, div = -1;
  bool bright = true, dark = true;
  In in(r);
  in << arr(x, d);
  if (r.chance(.6)) in.opt("Delta", delta = (double)r.range(1, 20));
  if (r.chance(.4)) in.opt("MaxArea", maxa = r.uni());
  if (r.chance(.4)) in.opt("MinArea", mina = r.uni(0, .2));
  if (r.chance(.5)) in.opt("MaxVariation", var = r.uni(0, 4));
  if (r.chance(.4)) in.opt("MinDiversity", div = r.uni());
  if (r.chance(.4)) in.opt("BrightOnDark", bright = r.chance(.5));
  if (r.chance(.4)) in.opt("DarkOnBright", dark = r.chance(.5));
  in.verbose();
  int nout = (int)r.range(0, 2), nd = (int)d.size();
  c.desc("vl_mser %s delta=%g max=%g min=%g variation=%g diversity=%g bright=%d dark=%d nout=%d", str(d), delta, maxa, mina, var, div, bright, dark, nout);
  Res o = good(c, "vl_mser", CALL(vl_mser, nout, in.v));
  std::vector<double> seeds, ell;
  long dof = 0;
  for (int k = 0; k < 2; ++k) {
    if (!(k ? bright : dark)) continue;
    std::vector<vl_uint8> y = x;
    if (k) for (vl_uint8 &v : y) v = (vl_uint8)(255 - v);
    std::vector<int> id(d.begin(), d.end());
    VlMserFilt *f = vl_mser_new(nd, id.data());
    if (delta >= 0) vl_mser_set_delta(f, (vl_mser_pix)delta);
    if (maxa >= 0) vl_mser_set_max_area(f, maxa);
    if (mina >= 0) vl_mser_set_min_area(f, mina);
    if (var >= 0) vl_mser_set_max_variation(f, var);
    if (div >= 0) vl_mser_set_min_diversity(f, div);
    vl_mser_process(f, y.data());
    for (unsigned i = 0; i < vl_mser_get_regions_num(f); ++i) seeds.push_back((k ? -1. : 1.) * (double)(vl_mser_get_regions(f)[i] + 1));
    vl_mser_ell_fit(f);
    dof = vl_mser_get_ell_dof(f);
    for (long i = 0; i < (long)vl_mser_get_ell_num(f); ++i)
      for (long j = 0; j < dof; ++j) ell.push_back(vl_mser_get_ell(f)[i * dof + j] + (j < nd ? 1. : 0.));
    vl_mser_delete(f);
  }
  needDims(c, "vl_mser", o.out[0], mxDOUBLE_CLASS, {(long)seeds.size(), 1});
  same(c, "mser seeds", "the seeds of vl_mser", o.out[0], seeds);
  if (nout > 1) {
    needDims(c, "vl_mser", o.out[1], mxDOUBLE_CLASS, {dof, dof ? (long)ell.size() / dof : 0});
    same(c, "mser ellipsoids", "the ellipsoids of vl_mser", o.out[1], ell);
  }
  c.count("regions", (double)seeds.size());
  if (!seeds.empty()) c.nontrivial(x, fnv(seeds.data(), seeds.size() * 8));
}

VT_GROUP(C39, slic, 2500, 25000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  long M = r.range(1, 30), N = r.range(1, 30), ch = r.pick({1l, 1l, 3l, 2l}), size = r.range(1, 12), mins = -1;
  std::vector<float> x;
  for (long k = 0; k < ch; ++k) {
    std::vector<float> q = image<float>(r, M, N, 0, r.pick({1., 255.}));
    x.insert(x.end(), q.begin(), q.end());
  }
  double reg = r.pick({0., r.uni(0, 2), r.uni(0, 200)});
  In in(r);
  in << arr(x, ch == 1 ? Dims{M, N} : Dims{M, N, ch}) << mx::scalar((double)size + (r.chance(.2) ? .6 : 0)) << mx::scalar(reg);
  if (r.chance(.5)) in.opt("MinRegionSize", (double)(mins = r.range(0, 20)));
  in.verbose();
  c.desc("vl_slic %ldx%ldx%ld size=%ld regularizer=%g min=%ld", M, N, ch, size, reg, mins);
  Res o = good(c, "vl_slic", CALL(vl_slic, (int)r.range(0, 1), in.v));
  std::vector<vl_uint32> w(M * N);
  vl_slic_segment(w.data(), x.data(), M, N, ch, size, (float)reg, mins < 0 ? size * size / 36 : mins);
  needDims(c, "vl_slic", o.out[0], mxUINT32_CLASS, {M, N});
  same(c, "slic", "vl_slic", o.out[0], w);
  c.nontrivial(x, fnv(w.data(), w.size() * 4));
}

VT_GROUP(C39, quickshift, 1500, 15000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  long M = r.range(1, 14), N = r.range(1, 14), ch = r.pick({1l, 1l, 3l, 2l});
  std::vector<double> x;
  for (long k = 0; k < ch; ++k) {
    std::vector<double> q = image<double>(r, M, N, 0, r.pick({1., 10.}));
    x.insert(x.end(), q.begin(), q.end());
  }
  double sigma = r.uni(.3, 3), tau = 3 * sigma;
  bool medoid = r.chance(.3), withTau = r.chance(.7);
  In in(r);
  in << arr(x, ch == 1 ? Dims{M, N} : Dims{M, N, ch}) << mx::scalar(sigma);
  if (withTau) {
    in << mx::scalar(tau = r.uni(.5, 8));
    if (medoid) in.flag("Medoid");
    in.verbose();
  } else medoid = false;
  int nout = (int)r.range(0, 3);
  c.desc("vl_quickshift %ldx%ldx%ld sigma=%g tau=%g medoid=%d nout=%d", M, N, ch, sigma, tau, medoid, nout);
  Res o = good(c, "vl_quickshift", CALL(vl_quickshift, nout, in.v));
  VlQS *q = vl_quickshift_new(x.data(), (int)M, (int)N, (int)ch);
  vl_quickshift_set_kernel_size(q, sigma);
  vl_quickshift_set_max_dist(q, tau);
  vl_quickshift_set_medoid(q, medoid);
  vl_quickshift_process(q);
  std::vector<double> par;
  for (long i = 0; i < M * N; ++i) par.push_back(vl_quickshift_get_parents(q)[i] + 1.);
  std::vector<double> dist(vl_quickshift_get_dists(q), vl_quickshift_get_dists(q) + M * N), den(vl_quickshift_get_density(q), vl_quickshift_get_density(q) + M * N);
  vl_quickshift_delete(q);
  needDims(c, "vl_quickshift", o.out[0], mxDOUBLE_CLASS, {M, N});
  same(c, "quickshift parents", "the map of vl_quickshift", o.out[0], par);
  if (nout > 1) {
    needDims(c, "vl_quickshift", o.out[1], mxDOUBLE_CLASS, {M, N});
    same(c, "quickshift gaps", "the gaps of vl_quickshift", o.out[1], dist);
  }
  if (nout > 2) {
    needDims(c, "vl_quickshift", o.out[2], mxDOUBLE_CLASS, {M, N});
    same(c, "quickshift density", "the density of vl_quickshift", o.out[2], den);
  }
  c.nontrivial(x, fnv(par.data(), par.size() * 8));
}

// ------------------------------------------------------------- arguments
// Whatever the arguments, a gateway gives a result or an error: it never
// reads outside of them, stores outside of its outputs, or ends the process.
struct Gate { char const *name; MexFn fn; };
#define ENTRY(n) {#n, vtmex_##n},
static Gate gates[] = {GATEWAYS(ENTRY)};
static mxArray *anything(Rng &r) {
  if (r.chance(.12)) return mx::str(r.pick({"", "l2", "l1", "verbose", "elkan", "lloyd", "ann", "kmeans", "custom", "sift", "liop", "patch", "none", "sdca", "sgd", "hinge", "logistic", "mean", "median", "permutation", "render", "uoctti", "dalaltriggs", "kchi2", "medoid", "clusternull", "a string that is longer than thirty two characters, and then some more of it that goes on and on"}));
  if (r.chance(.3)) return mx::scalar(r.pick({0., 1., 2., 3., -1., 4., .5, 7., 12., (double)NAN, -(double)INFINITY, -1e10}));
  Dims d = {r.range(0, 4), r.range(0, 4)};
  if (r.chance(.3)) d.push_back(r.range(0, 3));
  if (r.chance(.3)) d = {r.pick({1L, 2L, 3L, 4L, 6L}), r.range(0, 5)};
  if (r.chance(.3)) d = r.chance(.5) ? Dims{1, r.range(0, 6)} : Dims{r.range(0, 6), 1};
  if (r.chance(.06)) {
    std::vector<double> f(d[0] * d[1]);
    for (double &v : f) v = r.chance(.3) ? (double)r.range(-2, 3) : 0;
    return mx::sparse(d[0], d[1], f);
  }
  if (r.chance(.05)) {
    char const *f[] = {"data", "homkermap", "depth"};
    mxArray *s = mxCreateStructMatrix(r.range(0, 2), 1, r.range(0, 3), f);
    return s;
  }
  mxClassID cl = r.chance(.5) ? mxDOUBLE_CLASS : r.pick({mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT8_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxCELL_CLASS});
  mxArray *a = mx::make(cl, d, r.chance(.03));
  long n = (long)numel(a);
  int kind = (int)r.range(0, 2);
  for (long i = 0; i < n; ++i) {
    double v = kind == 0 ? r.range(0, 4) : kind == 1 ? r.range(0, 9) : r.normal() * 3;
    if (r.chance(.01)) v = r.pick({(double)NAN, (double)INFINITY, -(double)INFINITY, 1e20});
    switch (cl) {
      case mxDOUBLE_CLASS: data<double>(a)[i] = v; break;
      case mxSINGLE_CLASS: data<float>(a)[i] = (float)v; break;
      case mxINT8_CLASS: data<int8_t>(a)[i] = (int8_t)r.range(kind ? -100 : 0, kind ? 100 : 4); break;
      case mxUINT8_CLASS: data<uint8_t>(a)[i] = (uint8_t)r.range(0, kind ? 100 : 4); break;
      case mxLOGICAL_CLASS: data<uint8_t>(a)[i] = (uint8_t)r.range(0, 1); break;
      case mxCHAR_CLASS: data<char>(a)[i] = (char)r.range('a', 'z'); break;
      case mxINT32_CLASS: data<int32_t>(a)[i] = (int32_t)r.range(kind ? -3 : 0, 9); break;
      case mxUINT32_CLASS: data<uint32_t>(a)[i] = (uint32_t)r.range(0, kind ? 20 : 3); break;
      case mxINT64_CLASS: data<int64_t>(a)[i] = r.range(kind ? -3 : 0, 9); break;
      default: break;
    }
  }
  return a;
}
static mxArray *dbl(Rng &r, Dims d, double lo, double hi, bool integer = false) {
  mxArray *a = mx::make(mxDOUBLE_CLASS, d);
  for (size_t i = 0; i < numel(a); ++i) data<double>(a)[i] = integer ? (double)r.range((long)lo, (long)hi) : r.uni(lo, hi);
  return a;
}
static mxArray *sgl(Rng &r, Dims d, double lo, double hi) {
  mxArray *a = mx::make(mxSINGLE_CLASS, d);
  for (size_t i = 0; i < numel(a); ++i) data<float>(a)[i] = (float)r.uni(lo, hi);
  return a;
}
static mxArray *fls(Rng &r, Dims d, double lo, double hi) { return r.chance(.5) ? sgl(r, d, lo, hi) : dbl(r, d, lo, hi); }
static mxArray *u8(Rng &r, Dims d) {
  mxArray *a = mx::make(mxUINT8_CLASS, d);
  for (size_t i = 0; i < numel(a); ++i) data<uint8_t>(a)[i] = (uint8_t)r.range(0, 255);
  return a;
}
static mxArray *i32(Rng &r, Dims d) {
  mxArray *a = mx::make(mxINT32_CLASS, d);
  for (size_t i = 0; i < numel(a); ++i) data<int32_t>(a)[i] = (int32_t)r.range(0, 255);
  return a;
}
static mxArray *logical(bool x) {
  mxArray *a = mx::make(mxLOGICAL_CLASS, {1, 1});
  *data<unsigned char>(a) = x;
  return a;
}
static void some(Rng &r, std::vector<mxArray *> &v, char const *name, mxArray *a) {
  if (r.chance(.7)) return;
  v.push_back(mx::str(anyCase(r, name)));
  if (a) v.push_back(a);
}
static mxArray *hikmTree(Rng &r, long depth, long dim, long K) {
  char const *top[] = {"K", "depth", "centers", "sub"}, *sub[] = {"centers", "sub"};
  struct { Rng &r; char const **sub; long dim, K; void fill(mxArray *s, long i, long d) {
    mxSetField(s, i, "centers", i32(r, {dim, K}));
    if (d < 2) return;
    mxArray *x = mxCreateStructMatrix(1, K, 2, sub);
    for (long k = 0; k < K; ++k) fill(x, k, d - 1);
    mxSetField(s, i, "sub", x);
  } } f = {r, sub, dim, K};
  mxArray *t = mxCreateStructMatrix(1, 1, 4, top);
  mxSetField(t, 0, "K", mx::scalar((double)K));
  mxSetField(t, 0, "depth", mx::scalar((double)depth));
  f.fill(t, 0, depth);
  return t;
}
static std::vector<mxArray *> usual(Ctx &c, Rng &r, std::string n) {
  std::vector<mxArray *> v;
  long D = r.range(1, 4), N = r.range(1, 8), K = r.range(1, 3), M = r.range(6, 16), W = r.range(6, 16);
  auto num = [&](double lo, double hi) { return mx::scalar((double)r.range((long)lo, (long)hi)); };
  auto real = [&](double lo, double hi) { return mx::scalar(r.uni(lo, hi)); };
  auto word = [&](char const *a, char const *b) { return mx::str(r.chance(.5) ? a : b); };
  if (n == "vl_kmeans") {
    v = {fls(r, {D, N}, -3, 3), mx::scalar((double)K)};
    some(r, v, "algorithm", mx::str(r.pick({"lloyd", "elkan", "ann"})));
    some(r, v, "distance", word("l1", "l2"));
    some(r, v, "initialization", word("randsel", "plusplus"));
    some(r, v, "numrepetitions", num(1, 3));
    some(r, v, "maxnumiterations", num(0, 5));
    some(r, v, "maxnumcomparisons", num(0, 5));
    some(r, v, "numtrees", num(1, 3));
    some(r, v, "minenergyvariation", real(0, .1));
  } else if (n == "vl_gmm") {
    v = {fls(r, {D, N + 2}, -3, 3), mx::scalar((double)K)};
    bool f = mxGetClassID(v[0]) == mxSINGLE_CLASS;
    v.push_back(mx::str("maxnumiterations")), v.push_back(num(1, 5));
    some(r, v, "initialization", mx::str(r.pick({"rand", "kmeans", "custom"})));
    some(r, v, "initmeans", f ? sgl(r, {D, K}, -3, 3) : dbl(r, {D, K}, -3, 3));
    some(r, v, "initcovariances", f ? sgl(r, {D, K}, .1, 3) : dbl(r, {D, K}, .1, 3));
    some(r, v, "initpriors", f ? sgl(r, {1, K}, .1, 1) : dbl(r, {1, K}, .1, 1));
    some(r, v, "covariancebound", r.chance(.5) ? real(.01, 1) : dbl(r, {1, D}, .01, 1));
    some(r, v, "numrepetitions", num(1, 3));
  } else if (n == "vl_fisher") {
    bool f = r.chance(.5);
    auto X = [&](Dims d, double lo, double hi) { return f ? sgl(r, d, lo, hi) : dbl(r, d, lo, hi); };
    v = {X({D, N}, -2, 2), X({D, K}, -2, 2), X({D, K}, .2, 2), X({1, K}, .2, 1)};
    some(r, v, r.pick({"normalized", "squareroot", "improved", "fast"}), 0);
  } else if (n == "vl_vlad") {
    bool f = r.chance(.5);
    auto X = [&](Dims d, double lo, double hi) { return f ? sgl(r, d, lo, hi) : dbl(r, d, lo, hi); };
    v = {X({D, N}, -2, 2), X({D, K}, -2, 2), X({K, N}, 0, 1)};
    some(r, v, r.pick({"unnormalized", "normalizecomponents", "squareroot", "normalizemass"}), 0);
  } else if (n == "vl_kdtreebuild") {
    v = {fls(r, {D, N}, -3, 3)};
    some(r, v, "numtrees", num(1, 3));
    some(r, v, "distance", word("l1", "l2"));
    some(r, v, "thresholdmethod", word("mean", "median"));
  } else if (n == "vl_kdtreequery") {
    mxArray *x = fls(r, {D, N}, -3, 3);
    std::vector<mxArray *> b = {x};
    some(r, b, "numtrees", num(1, 3));
    Res o = call(c, "vl_kdtreebuild", vtmex_vl_kdtreebuild, 1, b, false);
    if (o.err) throw Skip();
    v = {o.out[0], x, mxGetClassID(x) == mxSINGLE_CLASS ? sgl(r, {D, r.range(0, 4)}, -3, 3) : dbl(r, {D, r.range(0, 4)}, -3, 3)};
    some(r, v, "numneighbors", num(1, (double)N));
    some(r, v, "maxnumcomparisons", num(0, 5));
  } else if (n == "vl_ikmeans") {
    v = {u8(r, {D, N + 3}), mx::scalar((double)K)};
    some(r, v, "maxiters", num(1, 5));
    some(r, v, "method", word("lloyd", "elkan"));
  } else if (n == "vl_ikmeanspush") {
    v = {u8(r, {D, N}), i32(r, {D, K})};
    some(r, v, "method", word("lloyd", "elkan"));
  } else if (n == "vl_hikmeans") {
    v = {u8(r, {D, N + 3}), mx::scalar((double)K + 1), num(1, 9)};
    some(r, v, "maxiters", num(1, 5));
    some(r, v, "method", word("lloyd", "elkan"));
  } else if (n == "vl_hikmeanspush") {
    v = {hikmTree(r, r.range(1, 3), D, K), u8(r, {D, N})};
    some(r, v, "method", word("lloyd", "elkan"));
  } else if (n == "vl_svmtrain") {
    mxArray *y = dbl(r, {1, N + 1}, 0, 1, true), *x = fls(r, {D, N + 1}, 0, 3);
    for (long i = 0; i <= N; ++i) data<double>(y)[i] = data<double>(y)[i] ? 1 : -1;
    if (r.chance(.5)) {
      char const *f[] = {"data", "homkermap"}, *g[] = {"order", "kernel", "window", "gamma", "period"};
      mxArray *h = mxCreateStructMatrix(1, 1, 5, g), *s = mxCreateStructMatrix(1, 1, 2, f);
      mxSetField(s, 0, "data", x);
      mxArray *vals[] = {num(0, 2), mx::str(r.pick({"kl1", "kchi2", "kjs"})), word("uniform", "rectangular"), real(.5, 1), real(2, 9)};
      for (int i = 0; i < 5; ++i) {
        if (r.chance(.15)) vals[i] = anything(r);
        if (r.chance(.6)) mxSetField(h, 0, g[i], vals[i]);
      }
      if (r.chance(.6)) mxSetField(s, 0, "homkermap", h);
      else if (r.chance(.3)) mxSetField(s, 0, "homkermap", anything(r));
      x = s;
    }
    v = {x, y, real(.01, 1), mx::str("maxnumiterations"), num(1, 30)};
    some(r, v, "solver", mx::str(r.pick({"sdca", "sgd", "none"})));
    some(r, v, "loss", mx::str(r.pick({"hinge", "hinge2", "l1", "l2", "logistic"})));
    some(r, v, "epsilon", real(.001, .1));
    some(r, v, "biasmultiplier", real(0, 1));
    some(r, v, "diagnosticfrequency", num(1, 9));
    some(r, v, "model", dbl(r, {D, 1}, -1, 1));
    some(r, v, "bias", real(-1, 1));
    some(r, v, "biaslearningrate", real(.1, 1));
    some(r, v, "startingiteration", num(1, 9));
    some(r, v, "weights", dbl(r, {1, N + 1}, .1, 1));
    some(r, v, "diagnosticfunction", r.chance(.5) ? mx::str("disp") : anything(r));
  } else if (n == "vl_aib") {
    v = {dbl(r, {D, N}, 0, 1)};
    some(r, v, "clusternull", 0);
  } else if (n == "vl_sift") {
    v = {sgl(r, {M, W}, 0, 1)};
    some(r, v, "octaves", num(0, 3));
    some(r, v, "levels", num(1, 4));
    some(r, v, "firstoctave", num(-1, 2));
    some(r, v, "frames", dbl(r, {4, r.range(0, 4)}, 1, 5));
    some(r, v, "peakthresh", real(0, .1));
    some(r, v, "edgethresh", real(1, 20));
    some(r, v, "magnif", real(0, 4));
    some(r, v, "windowsize", real(0, 4));
    some(r, v, r.pick({"orientations", "floatdescriptors"}), 0);
  } else if (n == "vl_dsift") {
    v = {sgl(r, {M, W}, 0, 1)};
    some(r, v, "bounds", dbl(r, {1, 4}, -3, 16, true));
    some(r, v, "step", r.chance(.5) ? num(1, 4) : dbl(r, {1, 2}, 1, 4, true));
    some(r, v, "size", r.chance(.5) ? num(1, 4) : dbl(r, {1, 2}, 1, 4, true));
    some(r, v, "geometry", dbl(r, {1, 3}, 1, 5, true));
    some(r, v, "windowsize", real(0, 4));
    some(r, v, r.pick({"fast", "norm", "floatdescriptors"}), 0);
  } else if (n == "vl_siftdescriptor") {
    v = {sgl(r, {2, M, W}, 0, 6), dbl(r, {4, r.range(0, 4)}, 0, 9)};
    some(r, v, "magnif", real(0, 4));
    some(r, v, "normthresh", real(0, 4));
    some(r, v, "floatdescriptors", 0);
  } else if (n == "vl_liop") {
    long s = 2 * r.range(2, 6) + 1;
    v = {sgl(r, r.chance(.5) ? Dims{s, s} : Dims{s, s, r.range(0, 3)}, 0, 1)};
    some(r, v, "radius", num(1, (double)(s / 2)));
    some(r, v, "numneighbours", num(1, 5));
    some(r, v, "numspatialbins", num(1, 9));
    some(r, v, "intensitythreshold", real(-1, 1));
  } else if (n == "vl_covdet") {
    v = {sgl(r, {M, W}, 0, 1)};
    some(r, v, "method", mx::str(r.pick({"dog", "hessian", "hessianlaplace", "harrislaplace", "multiscalehessian", "multiscaleharris"})));
    some(r, v, "octaveresolution", num(1, 4));
    some(r, v, "numoctaves", num(1, 3));
    some(r, v, "basescale", real(1, 2));
    some(r, v, "doubleimage", logical(r.chance(.5)));
    some(r, v, "peakthreshold", real(0, .1));
    some(r, v, "edgethreshold", real(1, 10));
    some(r, v, "laplacianpeakthreshold", real(0, .1));
    some(r, v, "estimateorientation", logical(r.chance(.5)));
    some(r, v, "maxnumorientations", num(1, 5));
    some(r, v, "estimateaffineshape", logical(r.chance(.5)));
    some(r, v, "frames", dbl(r, {r.range(2, 6), r.range(0, 4)}, 1, 5));
    some(r, v, "descriptor", mx::str(r.pick({"sift", "liop", "patch", "none"})));
    some(r, v, "patchresolution", num(1, 12));
    some(r, v, "patchrelativeextent", real(1, 6));
    some(r, v, "patchrelativesmoothing", real(0, 2));
    some(r, v, "liopnumspatialbins", num(1, 6));
    some(r, v, "liopnumneighbours", num(1, 5));
    some(r, v, "liopradius", real(1, 6));
    some(r, v, "allowpaddedwarping", logical(r.chance(.5)));
  } else if (n == "vl_hog") {
    if (r.chance(.2)) v = {mx::str("permutation")};
    else if (r.chance(.2)) v = {mx::str("render"), sgl(r, {2, 2, r.pick({31l, 36l, 4l, 9l})}, 0, 1)};
    else v = {sgl(r, r.chance(.5) ? Dims{M, W} : Dims{M, W, r.range(1, 3)}, 0, 1), num(1, 9)};
    some(r, v, "variant", word("uoctti", "dalaltriggs"));
    some(r, v, "numorientations", num(1, 9));
    some(r, v, r.pick({"directedpolarfield", "undirectedpolarfield", "bilinearorientations"}), 0);
  } else if (n == "vl_mser") {
    v = {u8(r, r.chance(.7) ? Dims{M, W} : Dims{r.range(1, 5), r.range(1, 5), r.range(1, 4)})};
    some(r, v, "delta", num(0, 20));
    some(r, v, "maxarea", real(0, 1));
    some(r, v, "minarea", real(0, 1));
    some(r, v, "maxvariation", real(0, 1));
    some(r, v, "mindiversity", real(0, 1));
    some(r, v, "brightondark", num(0, 1));
    some(r, v, "darkonbright", num(0, 1));
  } else if (n == "vl_slic") {
    v = {sgl(r, r.chance(.5) ? Dims{M, W} : Dims{M, W, r.range(1, 3)}, 0, 1), num(1, 9), real(0, 2)};
    some(r, v, "minregionsize", num(0, 9));
  } else if (n == "vl_quickshift") {
    v = {dbl(r, r.chance(.5) ? Dims{M / 2, W / 2} : Dims{M / 2, W / 2, r.range(1, 3)}, 0, 1), real(.2, 3)};
    if (r.chance(.6)) v.push_back(real(.5, 8));
    some(r, v, "medoid", 0);
  }
  some(r, v, "verbose", 0);
  return v;
}
VT_GROUP(C39, arguments, 12000, 60000, SERIAL) {
  Rng &r = c.rng;
  Same s(r);
  Gate &g = gates[r.range(0, (long)(sizeof gates / sizeof *gates) - 1)];
  std::vector<mxArray *> in;
  c.desc("%s", g.name);
  if (r.chance(.85)) {
    in = usual(c, r, g.name);
    int edits = (int)r.range(0, 2);
    for (int k = 0; k < edits && !in.empty(); ++k) {
      long at = r.chance(.5) ? r.range(0, std::min((long)in.size() - 1, 3l)) : r.range(0, (long)in.size() - 1);
      mxArray *old = in[at];
      if (r.chance(.2)) in.erase(in.begin() + at);
      else if (r.chance(.1)) in.push_back(anything(r));
      else if (r.chance(.4) && mxIsNumeric(old) && !mxIsSparse(old) && numel(old) > 1) {
        // the same but for its size
        Dims d(mxGetDimensions(old), mxGetDimensions(old) + mxGetNumberOfDimensions(old));
        long &e = d[r.range(0, (long)d.size() - 1)];
        e = r.chance(.3) ? 0 : std::max(0l, e + r.pick({-1l, 1l, 2l}));
        mxArray *n = mx::make(mxGetClassID(old), d);
        size_t es = mxGetElementSize(old), a = numel(n) * es, b = numel(old) * es;
        if (a && b) for (size_t i = 0; i < a; i += es) memcpy(data<char>(n) + i, data<char>(old) + i % b, es);
        in[at] = n;
      } else if (r.chance(.3) && mxGetClassID(old) == mxDOUBLE_CLASS && !mxIsSparse(old)) {
        mxArray *n = mx::make(mxSINGLE_CLASS, Dims(mxGetDimensions(old), mxGetDimensions(old) + mxGetNumberOfDimensions(old)));
        for (size_t i = 0; i < numel(old); ++i) data<float>(n)[i] = (float)data<double>(old)[i];
        in[at] = n;
      } else in[at] = anything(r);
    }
    if (r.chance(.1) && !in.empty()) in.resize(r.range(1, (long)in.size()));
  } else {
    int n = (int)r.range(0, 5);
    for (int i = 0; i < n; ++i) in.push_back(anything(r));
  }
  // as much work as asked for is done: ask for little
  for (size_t i = 0; i < in.size(); ++i) {
    if (i && mxIsChar(in[i - 1])) {
      std::string o;
      for (size_t k = 0; k < numel(in[i - 1]); ++k) o += (char)tolower(data<mxChar>(in[i - 1])[k]);
      if (mxGetClassID(in[i]) == mxDOUBLE_CLASS && !mxIsSparse(in[i]) && (!o.compare(0, 3, "max") || o == "numrepetitions"))
        for (size_t k = 0; k < numel(in[i]); ++k) if (data<double>(in[i])[k] > 300) data<double>(in[i])[k] = 300;
    }
  }
  int nout = (int)r.range(0, r.chance(.1) ? 6 : 3);
  char d[400];
  int o = snprintf(d, sizeof d, "%s nout=%d", g.name, nout);
  for (mxArray *a : in) o += snprintf(d + o, o < 370 ? sizeof d - o : 0, "; %s", mx::describe(a));
  c.desc("%s", d);
  Res res = call(c, g.name, g.fn, nout, in, false);
  c.count(res.err ? "argument lists refused" : "argument lists accepted");
  c.nontrivial(fnv(d, strlen(d)));
}
