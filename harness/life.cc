// Object lives (C01): objects of every module put through arbitrary valid
// histories of calls (build again, new images of other sizes, setters between,
// copies, resets, deletions in any order), ended by deleting everything. Run
// under AddressSanitizer with the accounting allocator (--mem): every block
// must have come back, exactly once, and nothing else may have been touched.
#include "tasks.h"
#include <vl/getopt_long.h>
#include <vl/pgm.h>
#include <memory>
#include <random>
using namespace vt;

// buffers of exactly the size the call may touch
template <class T> static std::unique_ptr<T[]> exact(std::vector<T> const &v) {
  std::unique_ptr<T[]> p(new T[v.size() ? v.size() : 1]);
  std::copy(v.begin(), v.end(), p.get());
  return p;
}
static VlVectorComparisonType anyDist(Rng &r) { return r.pick({VlDistanceL1, VlDistanceL2, VlDistanceChi2, VlDistanceHellinger, VlDistanceJS}); }
// histories are recorded for the report
struct Log {
  Ctx &c; char b[300]; size_t n = 0; uint64_t h = 7;
  Log(Ctx &c_) : c(c_) { b[0] = 0; }
  void operator()(char const *s, long a = -1) {
    if (n + 40 < sizeof b) n += snprintf(b + n, sizeof b - n, a < 0 ? "%s " : "%s(%ld) ", s, a);
    c.desc("%s", b);
    h = fnv(s, strlen(s), h) ^ (uint64_t)a * 31;
    c.count("calls made");
  }
  ~Log() {}
};

VT_GROUP(C01, kdforest, 600, 20000) {
  Rng &r = c.rng;
  Log log(c);
  long d = r.range(1, 9), T = r.range(1, 4);
  typedef float F;
  VlKDForest *f = vl_kdforest_new(VL_TYPE_FLOAT, d, T, r.pick({VlDistanceL2, VlDistanceL1}));
  std::vector<std::unique_ptr<F[]>> keep;
  std::vector<VlKDForestSearcher *> se;
  long n = 0;
  for (long step = r.range(1, 12); step > 0; --step) switch (n ? r.range(0, 9) : r.pick({0L, 8L, 9L})) {
    case 0: {
      n = r.chance(.3) ? r.range(1, 3) : r.range(1, 60);
      keep.push_back(exact(points<F>(r, d, n)));
      vl_kdforest_build(f, n, keep.back().get());
      log("build", n);
      break; }
    case 1: se.push_back(vl_kdforest_new_searcher(f)); log("searcher"); break;
    case 2: if (!se.empty()) { size_t k = r.range(0, se.size() - 1); vl_kdforestsearcher_delete(se[k]); se.erase(se.begin() + k); log("delsearcher", k); } break;
    case 3: case 4: {
      long kk = r.range(1, n + (r.chance(.2) ? 4 : 0));
      std::vector<VlKDForestNeighbor> nb(kk);
      auto q = exact(points<F>(r, d, 1));
      vl_size got = se.empty() ? vl_kdforest_query(f, nb.data(), kk, q.get()) : vl_kdforestsearcher_query(se[r.range(0, se.size() - 1)], nb.data(), kk, q.get());
      for (vl_size i = 0; i < got && i < (vl_size)kk; ++i) { defined(c, &nb[i].index, sizeof nb[i].index, "a neighbour's index"); defined(c, &nb[i].distance, sizeof nb[i].distance, "a neighbour's distance"); }
      for (auto &b : nb) if (b.index != (vl_uindex)-1 && b.index >= (vl_uindex)n) c.fail("mem.index", "a neighbour with index %llu in a forest of %ld points", (unsigned long long)b.index, n);
      log("query", kk);
      break; }
    case 5: {
      long q = r.range(1, 6), kk = r.range(1, n);
      auto y = exact(points<F>(r, d, q));
      std::unique_ptr<vl_uint32[]> idx(new vl_uint32[kk * q + !q]);
      std::unique_ptr<F[]> di(new F[kk * q + !q]);
      vl_kdforest_query_with_array(f, idx.get(), kk, q, r.chance(.7) ? di.get() : 0, y.get());
      defined(c, idx.get(), 4 * kk * q, "the indexes of a batch of queries");
      log("array", q);
      break; }
    case 6: {
      for (long t = 0; t < T; ++t) { vl_kdforest_get_depth_of_tree(f, t); vl_kdforest_get_num_nodes_of_tree(f, t); }
      if (vl_kdforest_get_num_trees(f) != (vl_size)T || vl_kdforest_get_data_dimension(f) != (vl_size)d || vl_kdforest_get_data_type(f) != VL_TYPE_FLOAT) c.fail("getters", "the forest's parameters are not those given");
      log("get");
      break; }
    case 7: if (!se.empty()) { vl_kdforest_get_searcher(f, r.range(0, se.size() + 1)); log("getsearcher"); } break;
    case 8: vl_kdforest_set_max_num_comparisons(f, r.range(0, 30)); log("comparisons", vl_kdforest_get_max_num_comparisons(f)); break;
    case 9: vl_kdforest_set_thresholding_method(f, r.chance(.5) ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN); vl_kdforest_get_thresholding_method(f); log("threshold"); break;
  }
  while (!se.empty() && r.chance(.5)) { vl_kdforestsearcher_delete(se.back()); se.pop_back(); }
  vl_kdforest_delete(f);
  c.nontrivial(log.h);
}

template <class T> static void kmeansLife(Ctx &c, vl_type type) {
  Rng &r = c.rng;
  Log log(c);
  std::vector<VlKMeans *> ob{vl_kmeans_new(type, r.pick({VlDistanceL2, VlDistanceL1}))};
  long d = 0, n = 0, k = 0;
  std::vector<T> x;
  std::unique_ptr<T[]> px;
  bool ready = false;     // ob[0] has centres of dimension d
  auto newData = [&](bool keepDim) {
    if (!keepDim) d = r.range(1, 9);
    n = r.chance(.2) ? r.range(1, 3) : r.range(1, 60);
    x = points<T>(r, d, n);
    px = exact(x);
    k = r.range(1, std::min(n, 10L));
  };
  newData(false);
  auto m = [&]() { return ob[0]; };
  vl_kmeans_set_max_num_iterations(m(), r.range(0, 6));
  for (long step = r.range(1, 10); step > 0; --step) switch (r.range(0, 11)) {
    case 0: vl_kmeans_set_algorithm(m(), r.pick({VlKMeansLloyd, VlKMeansElkan, VlKMeansANN})); log("algorithm", vl_kmeans_get_algorithm(m())); break;
    case 1: vl_kmeans_set_initialization(m(), r.pick({VlKMeansRandomSelection, VlKMeansPlusPlus})); log("init", vl_kmeans_get_initialization(m())); break;
    case 2: case 3: newData(false); vl_kmeans_cluster(m(), px.get(), d, n, k); defined(c, vl_kmeans_get_centers(m()), sizeof(T) * d * k, "the centres"); ready = true; log("cluster", n); break;
    case 4: newData(false); vl_kmeans_set_centers(m(), px.get(), d, k); ready = true; log("setcenters", k); break;
    case 5: newData(false); vl_kmeans_init_centers_with_rand_data(m(), px.get(), d, n, k); defined(c, vl_kmeans_get_centers(m()), sizeof(T) * d * k, "the centres"); ready = true; log("rand", k); break;
    case 6: newData(false); vl_kmeans_init_centers_plus_plus(m(), px.get(), d, n, k); defined(c, vl_kmeans_get_centers(m()), sizeof(T) * d * k, "the centres"); ready = true; log("plusplus", k); break;
    case 7: if (ready) {
      newData(true);
      vl_kmeans_refine_centers(m(), px.get(), n);
      log("refine", n);
    } break;
    case 8: case 9: if (ready) {
      newData(true);
      std::unique_ptr<vl_uint32[]> as(new vl_uint32[n]);
      std::unique_ptr<T[]> di(new T[n]);
      bool wd = r.chance(.7);
      if (r.chance(.5)) vl_kmeans_quantize(m(), as.get(), wd ? di.get() : 0, px.get(), n);
      else vl_kmeans_quantize_ann(m(), as.get(), wd ? di.get() : 0, px.get(), n, VL_FALSE);
      defined(c, as.get(), 4 * n, "the assignments");
      if (wd) defined(c, di.get(), sizeof(T) * n, "the distances to the centres");
      log("quantize", n);
    } break;
    case 10: {
      ob.push_back(vl_kmeans_new_copy(m()));
      if (r.chance(.5)) std::swap(ob[0], ob.back());
      if (r.chance(.5)) { vl_kmeans_delete(ob.back()); ob.pop_back(); }
      log("copy");
      break; }
    case 11: if (r.chance(.4)) { vl_kmeans_reset(m()); ready = false; log("reset"); }
      else { vl_kmeans_set_num_repetitions(m(), r.range(1, 3)); vl_kmeans_set_num_trees(m(), r.range(1, 3)); vl_kmeans_set_max_num_comparisons(m(), r.range(1, 20)); vl_kmeans_set_verbosity(m(), (int)r.range(0, 2)); log("set"); }
      break;
  }
  std::shuffle(ob.begin(), ob.end(), std::minstd_rand((unsigned)r.u64()));
  for (auto o : ob) vl_kmeans_delete(o);
  c.nontrivial(log.h);
}
VT_GROUP(C01, kmeans_f, 300, 12000) { kmeansLife<float>(c, VL_TYPE_FLOAT); }
VT_GROUP(C01, kmeans_d, 300, 12000) { kmeansLife<double>(c, VL_TYPE_DOUBLE); }

template <class T> static void gmmLife(Ctx &c, vl_type type) {
  Rng &r = c.rng;
  Log log(c);
  long d = r.range(1, 7), k = r.range(1, 4), n = 0;
  std::vector<VlGMM *> ob{vl_gmm_new(type, d, k)};
  std::vector<VlKMeans *> km;
  std::unique_ptr<T[]> px;
  bool ready = false;
  auto g = [&]() { return ob[0]; };
  auto whole = [&](bool post) {
    defined(c, vl_gmm_get_means(g()), sizeof(T) * d * k, "the means");
    defined(c, vl_gmm_get_covariances(g()), sizeof(T) * d * k, "the covariances");
    defined(c, vl_gmm_get_priors(g()), sizeof(T) * k, "the priors");
    if (post) defined(c, vl_gmm_get_posteriors(g()), sizeof(T) * k * n, "the posteriors");
  };
  auto newData = [&]() { n = r.range(k, 40); std::vector<T> x((size_t)n * d); for (auto &v : x) v = (T)r.normal(); px = exact(x); };
  vl_gmm_set_max_num_iterations(g(), r.range(1, 4));
  vl_gmm_set_covariance_lower_bound(g(), 1e-3);
  for (long step = r.range(1, 10); step > 0; --step) switch (r.range(0, 9)) {
    case 0: case 1: newData(); vl_gmm_set_initialization(g(), r.pick({VlGMMRand, VlGMMKMeans})); vl_gmm_cluster(g(), px.get(), n); whole(true); ready = true; log("cluster", n); break;
    case 2: newData(); vl_gmm_init_with_rand_data(g(), px.get(), n); whole(false); ready = true; log("rand", n); break;
    case 3: {
      newData();
      VlKMeans *q = 0;
      if (r.chance(.5)) { q = vl_kmeans_new(type, VlDistanceL2); vl_kmeans_set_initialization(q, VlKMeansPlusPlus); km.push_back(q); }
      vl_gmm_init_with_kmeans(g(), px.get(), n, q);
      whole(false);
      ready = true; log("kmeans", n);
      break; }
    case 4: {
      VlKMeans *q = vl_kmeans_new(type, VlDistanceL2);
      vl_kmeans_set_max_num_iterations(q, 3);
      km.push_back(q);
      vl_gmm_set_kmeans_init_object(g(), q);
      if (vl_gmm_get_kmeans_init_object(g()) != q) c.fail("getters", "the k-means object is not the one given");
      log("setkmeans");
      break; }
    case 5: if (ready) { newData(); vl_gmm_em(g(), px.get(), n); whole(true); log("em", n); } break;
    case 6: {
      std::vector<T> mu(d * k), cv(d * k), pr(k);
      for (auto &v : mu) v = (T)r.normal();
      for (auto &v : cv) v = (T)r.uni(.1, 2);
      for (auto &v : pr) v = (T)(1. / k);
      vl_gmm_set_means(g(), exact(mu).get());
      vl_gmm_set_covariances(g(), exact(cv).get());
      vl_gmm_set_priors(g(), exact(pr).get());
      ready = true; log("set");
      break; }
    case 7: {
      ob.push_back(vl_gmm_new_copy(g()));
      if (r.chance(.5)) std::swap(ob[0], ob.back());
      if (r.chance(.5)) { vl_gmm_delete(ob.back()); ob.pop_back(); }
      log("copy");
      break; }
    case 8: if (r.chance(.4)) { vl_gmm_reset(g()); ready = false; log("reset"); }
      else { std::vector<double> b(d, 1e-3); vl_gmm_set_covariance_lower_bounds(g(), exact(b).get()); vl_gmm_set_num_repetitions(g(), r.range(1, 3)); vl_gmm_set_verbosity(g(), (int)r.range(0, 2)); log("bounds"); }
      break;
    default:
      if (vl_gmm_get_data_type(g()) != type || vl_gmm_get_dimension(g()) != (vl_size)d || vl_gmm_get_num_clusters(g()) != (vl_size)k) c.fail("getters", "the model's parameters are not those given");
      vl_gmm_get_verbosity(g()); vl_gmm_get_num_repetitions(g()); vl_gmm_get_max_num_iterations(g());
      vl_gmm_get_initialization(g()); vl_gmm_get_loglikelihood(g()); vl_gmm_get_num_data(g());
      log("get");
  }
  std::shuffle(ob.begin(), ob.end(), std::minstd_rand((unsigned)r.u64()));
  for (auto o : ob) vl_gmm_delete(o);
  for (auto o : km) vl_kmeans_delete(o);
  c.nontrivial(log.h);
}
VT_GROUP(C01, gmm_f, 200, 8000) { gmmLife<float>(c, VL_TYPE_FLOAT); }
VT_GROUP(C01, gmm_d, 200, 8000) { gmmLife<double>(c, VL_TYPE_DOUBLE); }

VT_GROUP(C01, ikmeans, 300, 12000) {
  Rng &r = c.rng;
  Log log(c);
  if (r.chance(.5)) {
    VlIKMFilt *f = vl_ikm_new(r.pick({(int)VL_IKM_LLOYD, (int)VL_IKM_ELKAN}));
    long d = 0, k = 0;
    for (long step = r.range(1, 8); step > 0; --step) {
      bool first = !k;
      int op = first ? (int)r.range(0, 2) : (int)r.range(0, 6);
      if (op <= 2) { d = r.range(1, 8); k = r.range(1, 6); }
      long n = r.range(std::max(1L, k), 50);
      std::vector<vl_uint8> x(d * n);
      for (auto &v : x) v = (vl_uint8)r.range(0, 255);
      auto px = exact(x);
      switch (op) {
      case 0: { std::vector<vl_ikmacc_t> cen(d * k); for (auto &v : cen) v = (vl_ikmacc_t)r.range(0, 255); vl_ikm_init(f, exact(cen).get(), d, k); log("init", k); break; }
      case 1: vl_ikm_init_rand(f, d, k); defined(c, vl_ikm_get_centers(f), sizeof(vl_ikmacc_t) * d * k, "the integer centres"); log("rand", k); break;
      case 2: vl_ikm_init_rand_data(f, px.get(), d, n, k); log("randdata", k); break;
      case 3: case 4: vl_ikm_train(f, px.get(), n); defined(c, vl_ikm_get_centers(f), sizeof(vl_ikmacc_t) * d * k, "the integer centres"); log("train", n); break;
      case 5: { std::unique_ptr<vl_uint32[]> as(new vl_uint32[n]); vl_ikm_push(f, as.get(), px.get(), n);
        defined(c, as.get(), 4 * n, "the assignments");
        for (long i = 0; i < n; ++i) if (as[i] >= (vl_uint32)k) c.fail("mem.index", "an assignment to centre %u of %ld", as[i], k);
        log("push", n); break; }
      default: vl_ikm_set_verbosity(f, (int)r.range(0, 2)); vl_ikm_get_verbosity(f); vl_ikm_set_max_niters(f, r.range(1, 10)); log("set");
      }
    }
    vl_ikm_delete(f);
  } else {
    VlHIKMTree *t = vl_hikm_new(r.pick({(int)VL_IKM_LLOYD, (int)VL_IKM_ELKAN}));
    long d = 0, k = 0, dep = 0;
    bool trained = false;
    for (long step = r.range(1, 8); step > 0; --step) {
      int op = !k ? 0 : (int)r.range(0, 4);
      long n = r.range(1, 60);
      if (!op) { d = r.range(1, 6); k = r.range(1, 5); dep = r.range(1, 3); trained = false; vl_hikm_init(t, d, k, dep); log("init", k); continue; }
      std::vector<vl_uint8> x(d * n);
      for (auto &v : x) v = (vl_uint8)r.range(0, 255);
      auto px = exact(x);
      if (op <= 2) { vl_hikm_train(t, px.get(), n); trained = true; log("train", n); }
      else if (op == 3 && trained) { std::unique_ptr<vl_uint32[]> as(new vl_uint32[n * dep]); vl_hikm_push(t, as.get(), px.get(), n); defined(c, as.get(), 4 * n * dep, "the paths in the tree"); log("push", n); }
      else { vl_hikm_set_verbosity(t, (int)r.range(0, 3)); vl_hikm_get_verbosity(t); vl_hikm_set_max_niters(t, (int)r.range(1, 9)); log("set"); }
    }
    vl_hikm_delete(t);
  }
  c.nontrivial(log.h);
}

VT_GROUP(C01, sift, 300, 9000) {
  Rng &r = c.rng;
  Log log(c);
  long w = r.chance(.2) ? r.range(1, 8) : r.range(4, 40), h = r.chance(.2) ? r.range(1, 8) : r.range(4, 40);
  int omin = (int)r.range(-1, 1), S = (int)r.range(1, 4);
  long sz = std::min(w, h);
  if (omin == 1 && sz < 2) omin = 0;
  VlSiftFilt *f = vl_sift_new((int)w, (int)h, (int)r.range(-1, 4), S, omin);
  log("new", w * 100 + h);
  bool live = false;      // an octave is loaded
  for (long step = r.range(1, 14); step > 0; --step) switch (r.range(0, 7)) {
    case 0: case 1: {
      auto im = exact(image<float>(r, w, h, 0, 255));
      live = vl_sift_process_first_octave(f, im.get()) == VL_ERR_OK;
      if (live) for (int s = -1; s <= S + 1; ++s) defined(c, vl_sift_get_octave(f, s), sizeof(float) * vl_sift_get_octave_width(f) * vl_sift_get_octave_height(f), "a level of the octave");
      log("first");
      break; }
    case 2: if (live) { live = vl_sift_process_next_octave(f) == VL_ERR_OK;
      if (live) for (int s = -1; s <= S + 1; ++s) defined(c, vl_sift_get_octave(f, s), sizeof(float) * vl_sift_get_octave_width(f) * vl_sift_get_octave_height(f), "a level of the octave");
      log("next"); } break;
    case 3: if (live) { vl_sift_detect(f);
      for (int i = 0; i < vl_sift_get_nkeypoints(f); ++i) {
        VlSiftKeypoint const *q = vl_sift_get_keypoints(f) + i;
        float fl[4] = {q->x, q->y, q->s, q->sigma}; int in[4] = {q->o, q->ix, q->iy, q->is};
        defined(c, fl, sizeof fl, "a keypoint's position"); defined(c, in, sizeof in, "a keypoint's sample");
      }
      log("detect", vl_sift_get_nkeypoints(f)); } break;
    case 4: case 5: if (live) {
      VlSiftKeypoint k;
      double x = r.uni(-3, w + 3), y = r.uni(-3, h + 3), s = r.uni(.3, 8);
      vl_sift_keypoint_init(f, &k, x, y, s);
      std::vector<VlSiftKeypoint> ks{k};
      for (int i = 0; i < vl_sift_get_nkeypoints(f) && i < 6; ++i) ks.push_back(vl_sift_get_keypoints(f)[i]);
      std::unique_ptr<float[]> de(new float[128]);
      for (auto &q : ks) {
        double a[4];
        if (q.is < 0 || q.is > S + 2) continue;
        int na = vl_sift_calc_keypoint_orientations(f, a, &q);
        for (int i = 0; i <= na && i < 4; ++i) {
          vl_sift_calc_keypoint_descriptor(f, de.get(), &q, i < na ? a[i] : r.uni(-7, 7));
          // an extrapolated keypoint of another octave or at the border has none
          if (q.o == vl_sift_get_octave_index(f)) { double x = q.x / pow(2, q.o), y = q.y / pow(2, q.o); if (x >= 0 && y >= 0 && floor(x + .5) < vl_sift_get_octave_width(f) && floor(y + .5) < vl_sift_get_octave_height(f) && q.is >= 0 && q.is <= S - 1 && s > 0) { defined(c, a, sizeof(double) * na, "an orientation"); } }
        }
      }
      log("describe", ks.size());
    } break;
    case 6: {
      long rw = r.range(2, 20), rh = r.range(2, 20);
      std::vector<float> g(2 * rw * rh);
      for (size_t i = 0; i < g.size(); i += 2) { g[i] = (float)r.uni(); g[i + 1] = (float)r.uni(0, 6.28); }
      std::unique_ptr<float[]> de(new float[128]);
      vl_sift_calc_raw_descriptor(f, exact(g).get(), de.get(), (int)rw, (int)rh, r.uni(-2, rw + 2), r.uni(-2, rh + 2), r.uni(.3, 4), r.uni(-7, 7));
      log("raw");
      break; }
    default:
      vl_sift_set_peak_thresh(f, r.chance(.5) ? 0 : r.uni(0, 5)); vl_sift_set_edge_thresh(f, r.uni(1, 20)); vl_sift_set_norm_thresh(f, r.uni(0, 1));
      vl_sift_set_magnif(f, r.uni(.5, 5)); vl_sift_set_window_size(f, r.uni(.5, 3));
      log("set");
  }
  vl_sift_delete(f);
  c.nontrivial(log.h);
}

VT_GROUP(C01, dsift, 300, 9000) {
  Rng &r = c.rng;
  Log log(c);
  long w = r.range(1, 40), h = r.range(1, 40);
  VlDsiftFilter *f = r.chance(.5) ? vl_dsift_new((int)w, (int)h) : vl_dsift_new_basic((int)w, (int)h, (int)r.range(1, 6), (int)r.range(1, 5));
  log("new", w * 100 + h);
  for (long step = r.range(1, 12); step > 0; --step) switch (r.range(0, 6)) {
    case 0: case 1: {
      auto im = exact(image<float>(r, w, h, 0, 1));
      vl_dsift_process(f, im.get());
      long n = vl_dsift_get_keypoint_num(f), ds = vl_dsift_get_descriptor_size(f);
      if (n) defined(c, vl_dsift_get_descriptors(f), sizeof(float) * n * ds, "the dense descriptors");
      for (long i = 0; i < n; ++i) {
        VlDsiftKeypoint const *q = vl_dsift_get_keypoints(f) + i;
        double fl[3] = {q->x, q->y, q->norm};
        defined(c, fl, sizeof fl, "the position or norm of a dense descriptor");
        if (!i && &__msan_test_shadow && __msan_test_shadow(&q->s, sizeof q->s) >= 0) c.note("mem.undefined.dsift.s", "the scale of the frame of a dense descriptor was never written");
      }
      VlDsiftDescriptorGeometry const *g = vl_dsift_get_geometry(f);
      if (n) { std::unique_ptr<float[]> t(new float[ds]); vl_dsift_transpose_descriptor(t.get(), vl_dsift_get_descriptors(f), g->numBinT, g->numBinX, g->numBinY); }
      log("process", n);
      break; }
    case 2: vl_dsift_set_steps(f, (int)r.range(1, 9), (int)r.range(1, 9)); log("steps"); break;
    case 3: { int a = (int)r.range(0, w - 1), b = (int)r.range(0, h - 1); vl_dsift_set_bounds(f, a, b, (int)r.range(a, w - 1), (int)r.range(b, h - 1)); log("bounds"); break; }
    case 4: { VlDsiftDescriptorGeometry g; g.numBinT = (int)r.range(1, 9); g.numBinX = (int)r.range(1, 5); g.numBinY = (int)r.range(1, 5); g.binSizeX = (int)r.range(1, 7); g.binSizeY = (int)r.range(1, 7); vl_dsift_set_geometry(f, &g); log("geometry"); break; }
    case 5: vl_dsift_set_flat_window(f, r.chance(.5)); log("flat"); break;
    default: vl_dsift_set_window_size(f, r.uni(.3, 4)); log("window");
  }
  vl_dsift_delete(f);
  c.nontrivial(log.h);
}

VT_GROUP(C01, hog, 300, 9000) {
  Rng &r = c.rng;
  Log log(c);
  VlHog *g = vl_hog_new(r.pick({VlHogVariantDalalTriggs, VlHogVariantUoctti}), r.range(1, 12), r.chance(.5));
  bool loaded = false;
  for (long step = r.range(1, 12); step > 0; --step) switch (r.range(0, 6)) {
    case 0: case 1: {
      long w = r.range(4, 30), h = r.range(4, 30), ch = r.range(1, 4), cs = r.range(1, 9);
      // at least one cell
      if ((w + cs / 2) / cs < 1 || (h + cs / 2) / cs < 1) cs = std::min(w, h);
      auto im = exact(image<float>(r, w, h * ch, 0, 1));
      vl_hog_put_image(g, im.get(), w, h, ch, cs);
      loaded = true; log("image", cs);
      break; }
    case 2: {
      long w = r.range(4, 30), h = r.range(4, 30), cs = r.range(1, std::min(w, h));
      std::vector<float> m(w * h), a(w * h);
      for (auto &v : m) v = (float)r.uni();
      for (auto &v : a) v = (float)r.uni(-3.2, 6.3);
      vl_hog_put_polar_field(g, exact(m).get(), exact(a).get(), r.chance(.5), w, h, cs);
      loaded = true; log("field", cs);
      break; }
    case 3: case 4: if (loaded) {
      size_t n = vl_hog_get_width(g) * vl_hog_get_height(g) * vl_hog_get_dimension(g);
      std::unique_ptr<float[]> o(new float[n + !n]);
      vl_hog_extract(g, o.get());
      defined(c, o.get(), sizeof(float) * n, "the HOG features");
      size_t gs = vl_hog_get_glyph_size(g) ;
      std::unique_ptr<float[]> im(new float[gs * gs * vl_hog_get_width(g) * vl_hog_get_height(g) + 1]());
      vl_hog_render(g, im.get(), o.get(), vl_hog_get_width(g), vl_hog_get_height(g));
      defined(c, im.get(), sizeof(float) * gs * gs * vl_hog_get_width(g) * vl_hog_get_height(g), "the rendered glyphs");
      log("extract", n);
    } break;
    case 5: { vl_index const *p = vl_hog_get_permutation(g); defined(c, p, sizeof *p * vl_hog_get_dimension(g), "the permutation"); log("permutation"); break; }
    default: vl_hog_set_use_bilinear_orientation_assignments(g, r.chance(.5)); vl_hog_get_use_bilinear_orientation_assignments(g); log("bilinear");
  }
  vl_hog_delete(g);
  c.nontrivial(log.h);
}

VT_GROUP(C01, scalespace, 250, 8000) {
  Rng &r = c.rng;
  Log log(c);
  long w = r.chance(.3) ? r.range(1, 6) : r.range(4, 40), h = r.chance(.3) ? r.range(1, 6) : r.range(4, 40);
  VlScaleSpaceGeometry geo = vl_scalespace_get_default_geometry(w, h);
  geo.firstOctave = r.range(-1, 1);
  if (geo.firstOctave > 0 && std::min(w, h) < 2) geo.firstOctave = 0;
  geo.lastOctave = geo.firstOctave + r.range(0, 2);
  while (geo.lastOctave > geo.firstOctave && (std::min(w, h) >> std::max(0L, (long)geo.lastOctave)) < 1) geo.lastOctave--;
  geo.octaveResolution = r.range(1, 4);
  geo.octaveFirstSubdivision = r.range(-1, 0);
  geo.octaveLastSubdivision = geo.octaveFirstSubdivision + (long)geo.octaveResolution - 1 + r.range(0, 2);
  std::vector<VlScaleSpace *> ob{vl_scalespace_new_with_geometry(geo)};
  log("new", w * 100 + h);
  for (long step = r.range(1, 8); step > 0; --step) switch (r.range(0, 3)) {
    case 0: { auto im = exact(image<float>(r, w, h, 0, 1)); vl_scalespace_put_image(ob[0], im.get());
      for (vl_index o = geo.firstOctave; o <= geo.lastOctave; ++o) {
        VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(ob[0], o);
        for (vl_index s = geo.octaveFirstSubdivision; s <= geo.octaveLastSubdivision; ++s) defined(c, vl_scalespace_get_level(ob[0], o, s), sizeof(float) * og.width * og.height, "a level of the scale space");
      }
      log("image"); break; }
    case 1: ob.push_back(vl_scalespace_new_copy(ob[0])); log("copy"); break;
    case 2: ob.push_back(vl_scalespace_new_shallow_copy(ob[0])); log("shallow"); break;
    default: {
      size_t k = r.range(0, ob.size() - 1);
      for (vl_index o = geo.firstOctave; o <= geo.lastOctave; ++o) {
        VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(ob[k], o);
        for (vl_index s = geo.octaveFirstSubdivision; s <= geo.octaveLastSubdivision; ++s) {
          float *p = vl_scalespace_get_level(ob[k], o, s);
          for (size_t i = 0; i < og.width * og.height; ++i) p[i] = .5f;
        }
      }
      log("write", k); }
  }
  std::shuffle(ob.begin(), ob.end(), std::minstd_rand((unsigned)r.u64()));
  for (auto o : ob) vl_scalespace_delete(o);
  c.nontrivial(log.h);
}

VT_GROUP(C01, covdet, 300, 9000) {
  Rng &r = c.rng;
  Log log(c);
  VlCovDet *d = vl_covdet_new((VlCovDetMethod)r.range(VL_COVDET_METHOD_DOG, VL_COVDET_METHOD_MULTISCALE_HARRIS));
  bool image_ = false, det = false;
  long w = 0, h = 0;
  for (long step = r.range(2, 14); step > 0; --step) switch (image_ ? r.range(0, 12) : r.pick({0L, 0L, 2L, 7L, 8L})) {
    case 0: {
      long lo = vl_covdet_get_first_octave(d) > 0 ? 2 : 1;   // the first octave has pixels
      w = r.chance(.2) ? r.range(lo, 7) : r.range(3, 40); h = r.chance(.2) ? r.range(lo, 7) : r.range(3, 40);
      auto im = exact(image<float>(r, w, h, 0, 1));
      image_ = vl_covdet_put_image(d, im.get(), w, h) == VL_ERR_OK;
      det = false;
      log("image", w * 100 + h);
      break; }
    case 1: vl_covdet_detect(d); det = true; log("detect", vl_covdet_get_num_features(d)); break;
    case 2: vl_covdet_set_first_octave(d, r.range(-1, 1)); vl_covdet_set_octave_resolution(d, r.range(1, 4)); image_ = false; log("octaves"); break;
    case 3: if (vl_covdet_get_num_features(d) < 60) { vl_covdet_extract_orientations(d); log("orientations", vl_covdet_get_num_features(d)); } break;
    case 4: if (vl_covdet_get_num_features(d) < 60) { vl_covdet_extract_affine_shape(d); log("affine", vl_covdet_get_num_features(d)); } break;
    case 5: if (vl_covdet_get_num_features(d) < 60) { vl_covdet_extract_laplacian_scales(d); vl_size ns; vl_covdet_get_laplacian_scales_statistics(d, &ns); log("scales", vl_covdet_get_num_features(d)); } break;
    case 6: vl_covdet_drop_features_outside(d, r.uni(0, 3)); log("drop", vl_covdet_get_num_features(d)); break;
    case 7: vl_covdet_set_peak_threshold(d, r.chance(.5) ? 0 : r.uni(0, .02)); vl_covdet_set_edge_threshold(d, r.uni(1, 20)); vl_covdet_set_laplacian_peak_threshold(d, r.uni(0, .02));
      vl_covdet_set_transposed(d, r.chance(.5)); vl_covdet_set_aa_accurate_smoothing(d, r.chance(.3)); vl_covdet_set_non_extrema_suppression_threshold(d, r.chance(.5) ? 0 : r.uni(0, 2));
      vl_covdet_set_allow_padded_warping(d, r.chance(.5)); vl_covdet_set_max_num_orientations(d, r.range(1, 4));
      log("set"); break;
    case 8: if (r.chance(.4)) { vl_covdet_reset(d); image_ = det = false; log("reset"); } break;
    case 9: case 10: {
      VlCovDetFeature f;
      memset(&f, 0, sizeof f);
      double s = r.uni(.4, 6), a = r.uni(0, 6.3);
      f.frame.x = (float)r.uni(-5, w + 5); f.frame.y = (float)r.uni(-5, h + 5);
      f.frame.a11 = (float)(s * cos(a)); f.frame.a21 = (float)(s * sin(a)); f.frame.a12 = (float)(-s * r.uni(.3, 1) * sin(a)); f.frame.a22 = (float)(s * r.uni(.3, 1) * cos(a));
      vl_covdet_append_feature(d, &f);
      log("append");
      break; }
    default: {
      long res = r.range(1, 12);
      std::unique_ptr<float[]> p(new float[(2 * res + 1) * (2 * res + 1)]);
      VlFrameOrientedEllipse e;
      double s = r.uni(.4, 6), a = r.uni(0, 6.3);
      e.x = (float)r.uni(-5, w + 5); e.y = (float)r.uni(-5, h + 5);
      e.a11 = (float)(s * cos(a)); e.a21 = (float)(s * sin(a)); e.a12 = (float)(-s * sin(a)); e.a22 = (float)(s * cos(a));
      if (vl_covdet_extract_patch_for_frame(d, p.get(), res, r.uni(.5, 6), r.uni(0, 2), e) == VL_ERR_OK) defined(c, p.get(), sizeof(float) * (2 * res + 1) * (2 * res + 1), "a patch");
      log("patch", res); }
  }
  long n = (long)vl_covdet_get_num_features(d);
  VlCovDetFeature *f = (VlCovDetFeature *)vl_covdet_get_features(d);
  for (long i = 0; i < n; ++i) {
    float v[7] = {f[i].frame.x, f[i].frame.y, f[i].frame.a11, f[i].frame.a12, f[i].frame.a21, f[i].frame.a22, f[i].peakScore};
    defined(c, v, sizeof v, "a detected feature");
    float w2[3] = {f[i].edgeScore, f[i].orientationScore, f[i].laplacianScaleScore};
    defined(c, w2, sizeof w2, "the scores of a feature");
  }
  (void)det;
  vl_covdet_delete(d);
  c.nontrivial(log.h);
}

VT_GROUP(C01, mser, 300, 9000) {
  Rng &r = c.rng;
  Log log(c);
  int nd = (int)r.range(1, 4), dims[4];
  long n = 1;
  for (int i = 0; i < nd; ++i) { dims[i] = (int)(r.chance(.2) ? 1 : r.range(1, nd < 3 ? 20 : 7)); n *= dims[i]; }
  VlMserFilt *f = vl_mser_new(nd, dims);
  log("new", n);
  bool done = false;
  for (long step = r.range(1, 8); step > 0; --step) switch (r.range(0, 3)) {
    case 0: case 1: { auto im = exact(image<vl_uint8>(r, n, 1, 0, 255)); vl_mser_process(f, im.get()); done = true; log("process", vl_mser_get_regions_num(f)); break; }
    case 2: if (done) {
      vl_mser_ell_fit(f);
      if (vl_mser_get_ell_num(f)) defined(c, vl_mser_get_ell(f), sizeof(float) * vl_mser_get_ell_num(f) * vl_mser_get_ell_dof(f), "the ellipses");
      if (vl_mser_get_regions_num(f)) defined(c, vl_mser_get_regions(f), sizeof(vl_uint) * vl_mser_get_regions_num(f), "the regions");
      for (vl_uint i = 0; i < vl_mser_get_regions_num(f); ++i) if (vl_mser_get_regions(f)[i] >= (vl_uint)n) c.fail("mem.index", "a region seed outside the image");
      log("ellipses", vl_mser_get_ell_num(f));
    } break;
    default: vl_mser_set_delta(f, (vl_mser_pix)r.range(0, 30)); vl_mser_set_min_area(f, r.chance(.5) ? 0 : r.uni(0, .1)); vl_mser_set_max_area(f, r.chance(.5) ? 1 : r.uni(.1, 1)); vl_mser_set_max_variation(f, r.uni(.1, 2)); vl_mser_set_min_diversity(f, r.uni(0, 1)); log("set");
  }
  vl_mser_delete(f);
  c.nontrivial(log.h);
}

static void nodiag(VlSvm *, void *p) { ++*(long *)p; }
VT_GROUP(C01, svm, 250, 8000) {
  Rng &r = c.rng;
  Log log(c);
  long d = r.range(1, 7), n = r.range(1, 40), diag = 0;
  std::vector<double> x(d * n), y(n);
  for (auto &v : x) v = r.normal();
  for (auto &v : y) v = r.chance(.1) ? 0 : r.chance(.5) ? 1 : -1;
  auto px = exact(x), py = exact(y);
  std::vector<float> xf(x.begin(), x.end());
  auto pf = exact(xf);
  bool flt = r.chance(.3);
  VlSvmDataset *ds = flt ? vl_svmdataset_new(VL_TYPE_FLOAT, pf.get(), d, n) : vl_svmdataset_new(VL_TYPE_DOUBLE, px.get(), d, n);
  std::vector<VlHomogeneousKernelMap *> maps;
  bool viaData = r.chance(.6);
  auto setMap = [&]() {
    maps.push_back(vl_homogeneouskernelmap_new(r.pick({VlHomogeneousKernelIntersection, VlHomogeneousKernelChi2, VlHomogeneousKernelJS}), r.uni(.5, 1.5), r.range(0, 3), -1, r.pick({VlHomogeneousKernelMapWindowUniform, VlHomogeneousKernelMapWindowRectangular})));
    vl_svmdataset_set_homogeneous_kernel_map(ds, maps.back());
    log("map");
  };
  while (viaData && r.chance(.4)) setMap();
  VlSvmSolverType sol = r.pick({VlSvmSolverSgd, VlSvmSolverSdca, VlSvmSolverNone});
  VlSvm *s = viaData ? vl_svm_new_with_dataset(sol, ds, py.get(), r.uni(.001, 1)) : vl_svm_new(sol, px.get(), d, n, py.get(), r.uni(.001, 1));
  vl_svm_set_max_num_iterations(s, r.range(1, 200));
  log("new", n);
  for (long step = r.range(1, 9); step > 0; --step) switch (r.range(0, 6)) {
    case 0: case 1: vl_svm_train(s); log("train", vl_svm_get_iteration_number(s)); break;
    case 2: { std::vector<double> m(vl_svm_get_dimension(s)); for (auto &v : m) v = r.normal(); vl_svm_set_model(s, exact(m).get()); vl_svm_set_bias(s, r.normal()); log("model"); break; }
    case 3: vl_svm_set_loss(s, r.pick({VlSvmLossHinge, VlSvmLossHinge2, VlSvmLossL2, VlSvmLossL1, VlSvmLossLogistic})); log("loss"); break;
    case 4: vl_svm_set_diagnostic_frequency(s, r.range(1, 60)); vl_svm_set_diagnostic_function(s, r.chance(.7) ? nodiag : 0, &diag); log("diagnostic"); break;
    case 5: {
      if (vl_svm_get_scores(s)) defined(c, vl_svm_get_scores(s), sizeof(double) * n, "the scores");
      defined(c, vl_svm_get_model(s), sizeof(double) * vl_svm_get_dimension(s), "the model");
      VlSvmStatistics const *q = vl_svm_get_statistics(s);
      double v[6] = {q->objective, q->regularizer, q->loss, q->dualObjective, q->dualLoss, q->dualityGap};
      defined(c, v, sizeof v, "the statistics");
      log("get");
      break; }
    default: vl_svm_set_max_num_iterations(s, r.range(1, 300)); vl_svm_set_bias_multiplier(s, r.uni(0, 2)); vl_svm_set_bias_learning_rate(s, r.uni(.01, 1)); vl_svm_set_epsilon(s, r.uni(0, .1)); vl_svm_set_iteration_number(s, r.range(0, 50)); log("set");
  }
  bool svmFirst = r.chance(.5) || viaData;
  if (svmFirst) vl_svm_delete(s);
  vl_svmdataset_delete(ds);
  if (!svmFirst) vl_svm_delete(s);
  for (auto m : maps) vl_homogeneouskernelmap_delete(m);
  c.nontrivial(log.h);
}

// several objects of any module alive at once, created and deleted in any order
VT_GROUP(C01, crowd, 250, 8000) {
  Rng &r = c.rng;
  Log log(c);
  struct Ob { void *p; void (*del)(void *); };
  std::vector<Ob> obs;
#define ADD(ptr, delfn) obs.push_back(Ob{ptr, [](void *p) { delfn((decltype(ptr))p); }})
  static std::vector<double> qim(400, .3);
  for (long step = r.range(2, 30); step > 0; --step) {
    if (!obs.empty() && r.chance(.35)) {
      size_t k = r.range(0, obs.size() - 1);
      obs[k].del(obs[k].p);
      obs.erase(obs.begin() + k);
      log("delete", k);
      continue;
    }
    int what = (int)r.range(0, 15);
    log("new", what);
    int dm[2] = {(int)r.range(1, 9), (int)r.range(1, 9)};
    switch (what) {
    case 0: ADD(vl_kdforest_new(VL_TYPE_DOUBLE, r.range(1, 4), r.range(1, 3), VlDistanceL2), vl_kdforest_delete); break;
    case 1: ADD(vl_kmeans_new(VL_TYPE_FLOAT, VlDistanceL2), vl_kmeans_delete); break;
    case 2: ADD(vl_gmm_new(VL_TYPE_FLOAT, r.range(1, 4), r.range(1, 4)), vl_gmm_delete); break;
    case 3: ADD(vl_ikm_new(VL_IKM_LLOYD), vl_ikm_delete); break;
    case 4: ADD(vl_hikm_new(VL_IKM_ELKAN), vl_hikm_delete); break;
    case 5: ADD(vl_sift_new((int)r.range(1, 20), (int)r.range(1, 20), (int)r.range(-1, 3), (int)r.range(1, 4), (int)r.range(-1, 0)), vl_sift_delete); break;
    case 6: ADD(vl_dsift_new((int)r.range(1, 20), (int)r.range(1, 20)), vl_dsift_delete); break;
    case 7: ADD(vl_hog_new(VlHogVariantUoctti, r.range(1, 12), r.chance(.5)), vl_hog_delete); break;
    case 8: ADD(vl_lbp_new(VlLbpUniform, r.chance(.5)), vl_lbp_delete); break;
    case 9: ADD(vl_liopdesc_new_basic(2 * r.range(7, 10) + 1), vl_liopdesc_delete); break;
    case 10: ADD(vl_covdet_new(VL_COVDET_METHOD_HARRIS_LAPLACE), vl_covdet_delete); break;
    case 11: ADD(vl_scalespace_new(r.range(1, 30), r.range(1, 30)), vl_scalespace_delete); break;
    case 12: ADD(vl_mser_new(2, dm), vl_mser_delete); break;
    case 13: ADD(vl_quickshift_new(qim.data(), 10, 10, 1), vl_quickshift_delete); break;
    case 14: ADD(vl_homogeneouskernelmap_new(VlHomogeneousKernelChi2, 1, r.range(0, 3), -1, VlHomogeneousKernelMapWindowUniform), vl_homogeneouskernelmap_delete); break;
    default: { vl_size dd[3] = {(vl_size)r.range(0, 4), (vl_size)r.range(1, 4), (vl_size)r.range(1, 3)}; ADD(vl_array_new(VL_TYPE_DOUBLE, r.range(1, 3), dd), vl_array_delete); }
    }
  }
  while (!obs.empty()) { size_t k = r.range(0, obs.size() - 1); obs[k].del(obs[k].p); obs.erase(obs.begin() + k); }
  c.nontrivial(log.h);
}

VT_GROUP(C01, array, 300, 5000) {
  Rng &r = c.rng;
  Log log(c);
  vl_type types[] = {VL_TYPE_FLOAT, VL_TYPE_DOUBLE, VL_TYPE_INT8, VL_TYPE_UINT8, VL_TYPE_INT16, VL_TYPE_UINT16, VL_TYPE_INT32, VL_TYPE_UINT32, VL_TYPE_INT64, VL_TYPE_UINT64};
  vl_type t = types[r.range(0, 9)];
  vl_size dims[VL_ARRAY_MAX_NUM_DIMENSIONS], nd = r.range(1, VL_ARRAY_MAX_NUM_DIMENSIONS), n = 1;
  for (vl_size i = 0; i < nd; ++i) { dims[i] = r.chance(.6) ? 1 : r.range(r.chance(.1) ? 0 : 1, 4); n *= dims[i]; if (n > 5000) { nd = i + 1; break; } }
  size_t bytes = n * vl_get_type_size(t);
  std::unique_ptr<char[]> ext(new char[bytes + !bytes]);
  bool matrix = r.chance(.4), env = r.chance(.4), stack = r.chance(.4);
  if (matrix) { nd = 2; dims[0] = r.range(0, 20); dims[1] = r.range(1, 20); n = dims[0] * dims[1]; bytes = n * vl_get_type_size(t); ext.reset(new char[bytes + !bytes]); }
  log(matrix ? "matrix" : "array", n); log(env ? "envelope" : "owned"); log(stack ? "stack" : "heap");
  VlArray st_, *a;
  if (stack) a = matrix ? env ? vl_array_init_matrix_envelope(&st_, ext.get(), t, dims[0], dims[1]) : vl_array_init_matrix(&st_, t, dims[0], dims[1])
                        : env ? vl_array_init_envelope(&st_, ext.get(), t, nd, dims) : vl_array_init(&st_, t, nd, dims);
  else a = matrix ? env ? vl_array_new_matrix_envelope(ext.get(), t, dims[0], dims[1]) : vl_array_new_matrix(t, dims[0], dims[1])
                  : env ? vl_array_new_envelope(ext.get(), t, nd, dims) : vl_array_new(t, nd, dims);
  if (vl_array_get_num_elements(a) != n) c.fail("array.elements", "an array of %llu elements reports %llu", (unsigned long long)n, (unsigned long long)vl_array_get_num_elements(a));
  if (vl_array_get_num_dimensions(a) != nd || vl_array_get_data_type(a) != t || memcmp(vl_array_get_dimensions(a), dims, nd * sizeof *dims)) c.fail("array.shape", "the array's shape is not the one given");
  if (env && vl_array_get_data(a) != ext.get()) c.fail("array.data", "an envelope does not refer to the data it was given");
  if (bytes) memset(vl_array_get_data(a), 1, bytes);
  if (stack) vl_array_dealloc(a); else vl_array_delete(a);
  c.nontrivial(log.h ^ n);
}

// every workload of the other checks, twice in one process with objects of
// other modules in between
VT_GROUP(C01, workloads, 400, 20000) {
  Rng &r = c.rng;
  int k = (int)(c.idx % NTASKS);
  uint64_t seed = r.u64();
  uint64_t h[2];
  c.desc("task %d", k);
  for (int i = 0; i < 2; ++i) {
    Rng q; q.seed(seed);
    h[i] = TASKS[k].f(q);
    Rng q2; q2.seed(r.u64());
    if (!i) TASKS[r.range(0, NTASKS - 1)].f(q2);
  }
  if (h[0] != h[1]) c.fail("repeat", "%s gave another result when run again in the same process", TASKS[k].name);
  c.nontrivial(h[0]);
}

// ---- reuse: the last of a history of uses gives what a new object gives
template <class T> static void kmeansReuse(Ctx &c, vl_type type) {
  Rng &r = c.rng;
  VlVectorComparisonType dist = r.pick({VlDistanceL2, VlDistanceL1});
  auto conf = [](VlKMeans *m, Rng q) {
    vl_kmeans_set_algorithm(m, q.pick({VlKMeansLloyd, VlKMeansElkan, VlKMeansANN}));
    vl_kmeans_set_initialization(m, q.pick({VlKMeansRandomSelection, VlKMeansPlusPlus}));
    vl_kmeans_set_max_num_iterations(m, q.range(0, 8));
    vl_kmeans_set_num_repetitions(m, q.range(1, 3));
    vl_kmeans_set_num_trees(m, q.range(1, 3));
    vl_kmeans_set_max_num_comparisons(m, q.range(1, 40));
    vl_kmeans_set_min_energy_variation(m, q.pick({0., 1e-4, .1}));
  };
  struct Out { double e; std::vector<T> cen, di; std::vector<vl_uint32> as; };
  auto use = [&](VlKMeans *m, Rng q) {
    long d = q.range(1, 8), n = q.range(1, 50), k = q.range(1, std::min(n, 8L));
    vl_rand_seed(vl_get_rand(), (vl_uint32)q.u64());
    std::vector<T> x = points<T>(q, d, n);
    Out o;
    o.e = vl_kmeans_cluster(m, x.data(), d, n, k);
    if (!close(o.e, vl_kmeans_get_energy(m), 0, 0)) c.fail("reuse.energy", "the energy returned and the one reported differ");
    o.cen.assign((T const *)vl_kmeans_get_centers(m), (T const *)vl_kmeans_get_centers(m) + d * k);
    o.as.resize(n); o.di.resize(n);
    if (q.chance(.5)) vl_kmeans_quantize(m, o.as.data(), o.di.data(), x.data(), n);
    else vl_kmeans_quantize_ann(m, o.as.data(), o.di.data(), x.data(), n, VL_FALSE);
    return o;
  };
  VlKMeans *m = vl_kmeans_new(type, dist);
  long uses = r.range(1, 4);
  Rng last = r, q;
  for (long i = 0; i < uses; ++i) {
    q.seed(r.u64()); conf(m, q); q.u64(); use(m, q);
    if (r.chance(.2)) vl_kmeans_reset(m);
    if (r.chance(.2)) { VlKMeans *n = vl_kmeans_new_copy(m); vl_kmeans_delete(m); m = n; c.count("copies used"); }
  }
  last.seed(r.u64());
  conf(m, last); Out a = use(m, last);
  VlKMeans *f = vl_kmeans_new(type, dist);
  conf(f, last); Out b = use(f, last);
  vl_kmeans_delete(m); vl_kmeans_delete(f);
  c.desc("%ld uses before", uses);
  c.count("reuses compared");
  if (!(a.e == b.e || (std::isnan(a.e) && std::isnan(b.e)))) c.fail("reuse.kmeans.energy", "energy %.17g by an object used %ld times before, %.17g by a new one", a.e, uses, b.e);
  if (a.cen.size() != b.cen.size() || memcmp(a.cen.data(), b.cen.data(), sizeof(T) * a.cen.size())) c.fail("reuse.kmeans.centers", "an object used %ld times before finds other centres than a new one", uses);
  if (a.as != b.as) c.fail("reuse.kmeans.assignments", "an object used %ld times before assigns other centres than a new one", uses);
  if (memcmp(a.di.data(), b.di.data(), sizeof(T) * a.di.size())) c.fail("reuse.kmeans.distances", "an object used %ld times before gives other distances than a new one", uses);
  c.nontrivial(a.cen, uses);
}
VT_GROUP(C42, kmeans_f, 1500, 40000) { kmeansReuse<float>(c, VL_TYPE_FLOAT); }
VT_GROUP(C42, kmeans_d, 1500, 40000) { kmeansReuse<double>(c, VL_TYPE_DOUBLE); }

template <class T> static void gmmReuse(Ctx &c, vl_type type) {
  Rng &r = c.rng;
  long d = r.range(1, 6), k = r.range(1, 4);
  auto conf = [&](VlGMM *g, Rng q) {
    vl_gmm_set_initialization(g, q.pick({VlGMMRand, VlGMMKMeans}));
    vl_gmm_set_max_num_iterations(g, q.range(0, 5));
    vl_gmm_set_num_repetitions(g, q.range(1, 3));
    vl_gmm_set_covariance_lower_bound(g, q.pick({1e-3, .1}));
  };
  struct Out { double e; std::vector<T> v; };
  auto use = [&](VlGMM *g, Rng q) {
    long n = q.range(k, 50);
    vl_rand_seed(vl_get_rand(), (vl_uint32)q.u64());
    std::vector<T> x((size_t)n * d);
    for (auto &v : x) v = (T)(q.normal() + 3 * (double)q.range(0, 2));
    Out o;
    o.e = vl_gmm_cluster(g, x.data(), n);
    auto add = [&](void const *p, size_t m) { o.v.insert(o.v.end(), (T const *)p, (T const *)p + m); };
    add(vl_gmm_get_means(g), d * k); add(vl_gmm_get_covariances(g), d * k); add(vl_gmm_get_priors(g), k); add(vl_gmm_get_posteriors(g), n * k);
    return o;
  };
  VlGMM *m = vl_gmm_new(type, d, k);
  long uses = r.range(1, 4);
  Rng last, q;
  for (long i = 0; i < uses; ++i) {
    q.seed(r.u64()); conf(m, q); q.u64(); use(m, q);
    if (r.chance(.2)) vl_gmm_reset(m);
    if (r.chance(.2)) { VlGMM *n = vl_gmm_new_copy(m); vl_gmm_delete(m); m = n; c.count("copies used"); }
  }
  last.seed(r.u64());
  conf(m, last); Out a = use(m, last);
  VlGMM *f = vl_gmm_new(type, d, k);
  conf(f, last); Out b = use(f, last);
  vl_gmm_delete(m); vl_gmm_delete(f);
  c.desc("%ld components of dimension %ld, %ld uses before", k, d, uses);
  c.count("reuses compared");
  if (!(a.e == b.e || (std::isnan(a.e) && std::isnan(b.e)))) c.fail("reuse.gmm.likelihood", "log-likelihood %.17g by an object used %ld times before, %.17g by a new one", a.e, uses, b.e);
  if (a.v.size() != b.v.size()) c.fail("reuse.gmm.size", "an object used before holds results of another size");
  for (size_t i = 0; i < a.v.size(); ++i) if (!(a.v[i] == b.v[i] || (a.v[i] != a.v[i] && b.v[i] != b.v[i]))) c.fail("reuse.gmm.model", "an object used %ld times before finds another model than a new one", uses);
  c.nontrivial(a.v, uses);
}
VT_GROUP(C42, gmm_f, 800, 20000) { gmmReuse<float>(c, VL_TYPE_FLOAT); }
VT_GROUP(C42, gmm_d, 800, 20000) { gmmReuse<double>(c, VL_TYPE_DOUBLE); }

VT_GROUP(C42, kdforest, 2000, 50000) {
  Rng &r = c.rng;
  long d = r.range(1, 8), T = r.range(1, 4);
  VlVectorComparisonType dist = r.pick({VlDistanceL2, VlDistanceL1});
  std::vector<double> x;
  struct Out { std::vector<vl_uint32> i; std::vector<double> d, e; vl_size cmp; };
  auto use = [&](VlKDForest *f, Rng q, VlKDForestSearcher *s, std::vector<double> &x) {
    long n = q.range(1, 60), Q = q.range(1, 5), k = q.range(1, n);
    vl_rand_seed(vl_get_rand(), (vl_uint32)q.u64());
    x = points<double>(q, d, n);
    std::vector<double> y = points<double>(q, d, Q);
    vl_kdforest_set_thresholding_method(f, q.chance(.5) ? VL_KDTREE_MEDIAN : VL_KDTREE_MEAN);
    vl_kdforest_build(f, n, x.data());
    vl_kdforest_set_max_num_comparisons(f, q.chance(.5) ? 0 : q.range(1, n));
    Out o;
    o.i.resize(k * Q); o.d.resize(k * Q);
    o.cmp = vl_kdforest_query_with_array(f, o.i.data(), k, Q, o.d.data(), y.data());
    std::vector<VlKDForestNeighbor> nb(k);
    for (long i = 0; i < Q; ++i) {
      if (s) vl_kdforestsearcher_query(s, nb.data(), k, &y[i * d]); else vl_kdforest_query(f, nb.data(), k, &y[i * d]);
      for (auto &b : nb) { o.e.push_back(b.distance); o.e.push_back((double)(long)b.index); }
    }
    return o;
  };
  VlKDForest *m = vl_kdforest_new(VL_TYPE_DOUBLE, d, T, dist), *f = vl_kdforest_new(VL_TYPE_DOUBLE, d, T, dist);
  VlKDForestSearcher *s = r.chance(.5) ? vl_kdforest_new_searcher(m) : 0;
  long uses = r.range(1, 4);
  Rng q;
  for (long i = 0; i < uses; ++i) { q.seed(r.u64()); use(m, q, s, x); }
  q.seed(r.u64());
  std::vector<double> xa, xb;
  Out a = use(m, q, s, xa), b = use(f, q, 0, xb);
  vl_kdforest_delete(m); vl_kdforest_delete(f);
  c.desc("%ld trees built %ld times before, %s", T, uses, s ? "one searcher throughout" : "own searcher");
  c.count("reuses compared");
  auto same = [](std::vector<double> const &u, std::vector<double> const &v) {
    if (u.size() != v.size()) return false;
    for (size_t i = 0; i < u.size(); ++i) if (!(u[i] == v[i] || (u[i] != u[i] && v[i] != v[i]))) return false;
    return true;
  };
  if (a.i != b.i || !same(a.d, b.d) || a.cmp != b.cmp) c.fail("reuse.kdforest.array", "a forest built again answers a batch of queries differently from a new one");
  if (!same(a.e, b.e)) c.fail("reuse.kdforest.query", "a forest built again answers queries differently from a new one");
  c.nontrivial(a.e, uses);
}

VT_GROUP(C42, ikmeans, 1500, 40000) {
  Rng &r = c.rng;
  bool tree = r.chance(.5);
  int method = r.pick({(int)VL_IKM_LLOYD, (int)VL_IKM_ELKAN});
  auto use = [&](VlIKMFilt *f, VlHIKMTree *t, Rng q) {
    std::vector<long> out;
    long d = q.range(1, 6), k = q.range(1, 5), n = q.range(k, 50), dep = q.range(1, 3);
    vl_rand_seed(vl_get_rand(), (vl_uint32)q.u64());
    std::vector<vl_uint8> x(d * n);
    for (auto &v : x) v = (vl_uint8)q.range(0, 255);
    std::vector<vl_uint32> as(n * (tree ? dep : 1));
    if (tree) {
      vl_hikm_init(t, d, k, dep);
      vl_hikm_train(t, x.data(), n);
      vl_hikm_push(t, as.data(), x.data(), n);
    } else {
      if (q.chance(.5)) vl_ikm_init_rand_data(f, x.data(), d, n, k); else vl_ikm_init_rand(f, d, k);
      out.push_back(vl_ikm_train(f, x.data(), n));
      vl_ikm_push(f, as.data(), x.data(), n);
      out.insert(out.end(), vl_ikm_get_centers(f), vl_ikm_get_centers(f) + d * k);
    }
    out.insert(out.end(), as.begin(), as.end());
    return out;
  };
  VlIKMFilt *f[2] = {vl_ikm_new(method), vl_ikm_new(method)};
  VlHIKMTree *t[2] = {vl_hikm_new(method), vl_hikm_new(method)};
  long uses = r.range(1, 4);
  Rng q;
  for (long i = 0; i < uses; ++i) { q.seed(r.u64()); use(f[0], t[0], q); }
  q.seed(r.u64());
  auto a = use(f[0], t[0], q), b = use(f[1], t[1], q);
  for (int i = 0; i < 2; ++i) { vl_ikm_delete(f[i]); vl_hikm_delete(t[i]); }
  c.desc("%s, %ld uses before", tree ? "tree" : "flat", uses);
  c.count("reuses compared");
  if (a != b) c.fail("reuse.ikmeans", "an integer %s used %ld times before gives other results than a new one", tree ? "tree" : "quantiser", uses);
  c.nontrivial(a, uses);
}
