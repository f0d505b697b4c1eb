// tasks.h - one small deterministic workload per module of the library: the
// result (a hash of everything computed) is a function of the seed only.
#ifndef VT_TASKS_H
#define VT_TASKS_H
#include "vt.h"
#include "gen.h"
extern "C" {
#include <vl/aib.h>
#include <vl/array.h>
#include <vl/covdet.h>
#include <vl/dsift.h>
#include <vl/fisher.h>
#include <vl/gmm.h>
#include <vl/hikmeans.h>
#include <vl/hog.h>
#include <vl/homkermap.h>
#include <vl/host.h>
#include <vl/ikmeans.h>
#include <vl/imopv.h>
#include <vl/kdtree.h>
#include <vl/kmeans.h>
#include <vl/lbp.h>
#include <vl/liop.h>
#include <vl/mathop.h>
#include <vl/mser.h>
#include <vl/quickshift.h>
#include <vl/random.h>
#include <vl/rodrigues.h>
#include <vl/scalespace.h>
#include <vl/sift.h>
#include <vl/slic.h>
#include <vl/stringop.h>
#include <vl/svm.h>
#include <vl/svmdataset.h>
#include <vl/vlad.h>
}
namespace vt {
struct Hash {
  uint64_t h = 1469598103934665603ull;
  void add(void const *p, size_t n) {
    if (&__msan_check_mem_is_initialized && n) __msan_check_mem_is_initialized(p, n);
    h = fnv(p, n, h);
  }
  template <class T> void val(T x) { add(&x, sizeof x); }
  template <class T> void vec(std::vector<T> const &v) { if (!v.empty()) add(v.data(), v.size() * sizeof(T)); }
};
typedef uint64_t (*Task)(Rng &);
// the verbosity given to the objects that have one
inline int &verbosity() { static int v = 0; return v; }
inline void seedRand(Rng &r) { vl_rand_seed(vl_get_rand(), (vl_uint32)r.u64()); }

inline uint64_t t_rand(Rng &r) {
  Hash h; seedRand(r);
  long n = r.range(1, 1500);
  for (long i = 0; i < n; ++i) h.val(vl_rand_uint32(vl_get_rand()));
  h.val(vl_rand_real3(vl_get_rand()));
  VlRand own; vl_rand_init(&own);
  h.val(vl_rand_res53(&own));
  std::vector<vl_index> p(50);
  for (size_t i = 0; i < p.size(); ++i) p[i] = i;
  vl_rand_permute_indexes(vl_get_rand(), p.data(), p.size());
  h.vec(p);
  return h.h;
}
inline uint64_t t_error(Rng &r) {
  Hash h;
  for (int k = 0; k < 20; ++k) {
    int code = (int)r.range(1, 30), arg = (int)r.range(0, 100000);
    vl_set_last_error(code, "problem %d of %s", arg, "a thread");
    char want[100];
    snprintf(want, sizeof want, "problem %d of %s", arg, "a thread");
    h.val(vl_get_last_error() == code);
    h.val(!strcmp(want, vl_get_last_error_message()));
    h.val(vl_get_last_error());
  }
  vl_set_last_error(VL_ERR_OK, 0);
  h.val(vl_get_last_error());
  vl_tic();
  h.val(vl_toc() >= 0);
  return h.h;
}
inline uint64_t t_host(Rng &) {
  Hash h;
  h.val(vl_get_simd_enabled());
  h.val(vl_cpu_has_sse2()); h.val(vl_cpu_has_avx()); h.val(vl_cpu_has_sse3());
  h.val(vl_get_num_cpus());
  h.val(vl_get_max_threads());
  char *s = vl_configuration_to_string_copy();
  if (s) h.add(s, strlen(s));
  vl_free(s);
  char const *v = vl_get_version_string();
  h.add(v, strlen(v));
  return h.h;
}
inline uint64_t t_kdtree(Rng &r) {
  Hash h; seedRand(r);
  long d = r.range(1, 12), n = r.range(1, 80), q = r.range(1, 8);
  long T = r.range(1, 4), kk = r.range(1, std::min(n, 6L));
  std::vector<float> x = points<float>(r, d, n), y = points<float>(r, d, q);
  VlKDForest *f = vl_kdforest_new(VL_TYPE_FLOAT, d, T, r.chance(.5) ? VlDistanceL2 : VlDistanceL1);
  vl_kdforest_set_max_num_comparisons(f, r.chance(.5) ? 0 : r.range(1, 50));
  vl_kdforest_set_thresholding_method(f, r.chance(.5) ? VL_KDTREE_MEDIAN : VL_KDTREE_MEAN);
  vl_kdforest_build(f, n, x.data());
  if (r.chance(.5)) {
    VlKDForestSearcher *s = vl_kdforest_new_searcher(f);
    std::vector<VlKDForestNeighbor> nb(kk);
    for (long i = 0; i < q; ++i) {
      h.val(vl_kdforestsearcher_query(s, nb.data(), kk, &y[i * d]));
      for (auto &b : nb) { h.val(b.index); h.val(b.distance); }
    }
    vl_kdforestsearcher_delete(s);
  } else {
    std::vector<vl_uint32> idx(kk * q);
    std::vector<float> dist(kk * q);
    h.val(vl_kdforest_query_with_array(f, idx.data(), kk, q, dist.data(), y.data()));
    h.vec(idx); h.vec(dist);
  }
  vl_kdforest_delete(f);
  return h.h;
}
template <class T> uint64_t t_kmeans_(Rng &r, vl_type type) {
  Hash h; seedRand(r);
  long d = r.range(1, 8), n = r.range(5, 90), k = r.range(1, std::min(n, 9L));
  std::vector<T> x = points<T>(r, d, n);
  VlKMeans *m = vl_kmeans_new(type, r.chance(.6) ? VlDistanceL2 : VlDistanceL1);
  if (verbosity()) vl_kmeans_set_verbosity(m, verbosity());
  vl_kmeans_set_algorithm(m, r.pick({VlKMeansLloyd, VlKMeansElkan, VlKMeansANN}));
  vl_kmeans_set_initialization(m, r.pick({VlKMeansRandomSelection, VlKMeansPlusPlus}));
  vl_kmeans_set_max_num_iterations(m, r.range(1, 8));
  vl_kmeans_set_num_repetitions(m, r.range(1, 2));
  vl_kmeans_set_num_trees(m, r.range(1, 3));
  vl_kmeans_set_max_num_comparisons(m, r.range(1, 30));
  h.val(vl_kmeans_cluster(m, x.data(), d, n, k));
  h.add(vl_kmeans_get_centers(m), sizeof(T) * d * k);
  std::vector<vl_uint32> as(n);
  std::vector<T> di(n);
  vl_kmeans_quantize(m, as.data(), di.data(), x.data(), n);
  h.vec(as); h.vec(di);
  vl_kmeans_quantize_ann(m, as.data(), di.data(), x.data(), n, VL_FALSE);
  h.vec(as); h.vec(di);
  VlKMeans *m2 = vl_kmeans_new_copy(m);
  h.val(vl_kmeans_get_energy(m2));
  vl_kmeans_delete(m);
  vl_kmeans_delete(m2);
  return h.h;
}
inline uint64_t t_kmeans(Rng &r) { return r.chance(.5) ? t_kmeans_<float>(r, VL_TYPE_FLOAT) : t_kmeans_<double>(r, VL_TYPE_DOUBLE); }
template <class T> uint64_t t_gmm_(Rng &r, vl_type type) {
  Hash h; seedRand(r);
  long d = r.range(1, 6), n = r.range(20, 100), k = r.range(1, 4);
  std::vector<T> x(d * n);
  for (auto &v : x) v = (T)(r.normal() + 3 * (double)r.range(0, 2));
  VlGMM *g = vl_gmm_new(type, d, k);
  if (verbosity()) vl_gmm_set_verbosity(g, verbosity());
  vl_gmm_set_initialization(g, r.pick({VlGMMRand, VlGMMKMeans}));
  vl_gmm_set_max_num_iterations(g, r.range(1, 5));
  vl_gmm_set_num_repetitions(g, r.range(1, 2));
  vl_gmm_set_covariance_lower_bound(g, 1e-3);
  h.val(vl_gmm_cluster(g, x.data(), n));
  h.add(vl_gmm_get_means(g), sizeof(T) * d * k);
  h.add(vl_gmm_get_covariances(g), sizeof(T) * d * k);
  h.add(vl_gmm_get_priors(g), sizeof(T) * k);
  h.add(vl_gmm_get_posteriors(g), sizeof(T) * k * n);
  std::vector<T> enc(2 * d * k);
  vl_fisher_encode(enc.data(), type, vl_gmm_get_means(g), d, k, vl_gmm_get_covariances(g), vl_gmm_get_priors(g), x.data(), n,
                   r.pick({0, VL_FISHER_FLAG_IMPROVED, VL_FISHER_FLAG_FAST, VL_FISHER_FLAG_NORMALIZED}));
  h.vec(enc);
  vl_gmm_delete(g);
  return h.h;
}
inline uint64_t t_gmm(Rng &r) { return r.chance(.5) ? t_gmm_<float>(r, VL_TYPE_FLOAT) : t_gmm_<double>(r, VL_TYPE_DOUBLE); }
inline uint64_t t_vlad(Rng &r) {
  Hash h;
  long d = r.range(1, 8), n = r.range(0, 60), k = r.range(1, 6);
  std::vector<float> x = points<float>(r, d, n + 1), mu = points<float>(r, d, k), as(n * k + 1), enc(d * k);
  for (long i = 0; i < n; ++i) as[i * k + r.range(0, k - 1)] = 1;
  vl_vlad_encode(enc.data(), VL_TYPE_FLOAT, mu.data(), d, k, x.data(), n, as.data(),
                 r.pick({0, VL_VLAD_FLAG_NORMALIZE_COMPONENTS, VL_VLAD_FLAG_SQUARE_ROOT, VL_VLAD_FLAG_UNNORMALIZED, VL_VLAD_FLAG_NORMALIZE_MASS}));
  h.vec(enc);
  return h.h;
}
inline void svmDiag(VlSvm *s, void *p) { ((Hash *)p)->val(vl_svm_get_statistics(s)->objective); }
inline uint64_t t_svm(Rng &r) {
  Hash h; seedRand(r);
  long d = r.range(1, 6), n = r.range(2, 60);
  std::vector<double> x(d * n), y(n);
  for (long i = 0; i < n; ++i) {
    y[i] = i & 1 ? 1 : -1;
    for (long j = 0; j < d; ++j) x[i * d + j] = r.normal() + y[i];
  }
  VlSvmDataset *ds = vl_svmdataset_new(VL_TYPE_DOUBLE, x.data(), d, n);
  VlHomogeneousKernelMap *hom = 0;
  if (r.chance(.4)) {
    hom = vl_homogeneouskernelmap_new(VlHomogeneousKernelChi2, 1, r.range(0, 2), -1, VlHomogeneousKernelMapWindowRectangular);
    vl_svmdataset_set_homogeneous_kernel_map(ds, hom);
  }
  VlSvm *s = vl_svm_new_with_dataset(r.chance(.5) ? VlSvmSolverSgd : VlSvmSolverSdca, ds, y.data(), .01);
  vl_svm_set_max_num_iterations(s, r.range(10, 400));
  vl_svm_set_diagnostic_frequency(s, r.range(20, 60));
  vl_svm_set_diagnostic_function(s, svmDiag, &h);
  vl_svm_set_loss(s, r.pick({VlSvmLossHinge, VlSvmLossHinge2, VlSvmLossL2, VlSvmLossL1, VlSvmLossLogistic}));
  vl_svm_set_bias_multiplier(s, r.chance(.5) ? 1 : 0);
  vl_svm_train(s);
  h.add(vl_svm_get_model(s), sizeof(double) * vl_svm_get_dimension(s));
  h.val(vl_svm_get_bias(s));
  vl_svm_delete(s);
  vl_svmdataset_delete(ds);
  if (hom) vl_homogeneouskernelmap_delete(hom);
  return h.h;
}
inline uint64_t t_homkermap(Rng &r) {
  Hash h;
  long n = r.range(0, 4);
  VlHomogeneousKernelMap *m = vl_homogeneouskernelmap_new(r.pick({VlHomogeneousKernelIntersection, VlHomogeneousKernelChi2, VlHomogeneousKernelJS}), r.uni(.3, 1.5), n, -1,
                                                          r.pick({VlHomogeneousKernelMapWindowUniform, VlHomogeneousKernelMapWindowRectangular}));
  std::vector<double> o(vl_homogeneouskernelmap_get_dimension(m));
  for (int k = 0; k < 20; ++k) { vl_homogeneouskernelmap_evaluate_d(m, o.data(), 1, r.uni(-1, 2)); h.vec(o); }
  vl_homogeneouskernelmap_delete(m);
  return h.h;
}
inline uint64_t t_sift(Rng &r) {
  Hash h;
  long w = r.range(12, 48), hh = r.range(12, 48);
  std::vector<float> im = image<float>(r, w, hh, 0, 255);
  VlSiftFilt *f = vl_sift_new((int)w, (int)hh, (int)r.range(-1, 3), (int)r.range(1, 3), (int)r.range(-1, 1));
  vl_sift_set_peak_thresh(f, r.uni(0, 2));
  long total = 0;
  for (int err = vl_sift_process_first_octave(f, im.data()); !err; err = vl_sift_process_next_octave(f)) {
    vl_sift_detect(f);
    VlSiftKeypoint const *k = vl_sift_get_keypoints(f);
    int n = vl_sift_get_nkeypoints(f);
    h.val(n);
    for (int i = 0; i < n && total < 25; ++i, ++total) {
      h.val(k[i].x); h.val(k[i].y); h.val(k[i].sigma);
      double a[4];
      int na = vl_sift_calc_keypoint_orientations(f, a, k + i);
      for (int j = 0; j < na; ++j) {
        float d[128];
        vl_sift_calc_keypoint_descriptor(f, d, k + i, a[j]);
        h.val(a[j]); h.add(d, sizeof d);
      }
    }
  }
  vl_sift_delete(f);
  return h.h;
}
inline uint64_t t_dsift(Rng &r) {
  Hash h;
  long w = r.range(12, 40), hh = r.range(12, 40);
  std::vector<float> im = image<float>(r, w, hh, 0, 1);
  VlDsiftFilter *f = vl_dsift_new_basic((int)w, (int)hh, (int)r.range(1, 6), (int)r.range(1, 3));
  vl_dsift_set_flat_window(f, r.chance(.5));
  vl_dsift_process(f, im.data());
  int n = vl_dsift_get_keypoint_num(f);
  h.val(n);
  if (n) h.add(vl_dsift_get_descriptors(f), sizeof(float) * n * vl_dsift_get_descriptor_size(f));
  vl_dsift_delete(f);
  return h.h;
}
inline uint64_t t_hog(Rng &r) {
  Hash h;
  long w = r.range(8, 40), hh = r.range(8, 40);
  std::vector<float> im = image<float>(r, w, hh, 0, 1);
  VlHog *g = vl_hog_new(r.pick({VlHogVariantDalalTriggs, VlHogVariantUoctti}), r.range(1, 9), r.chance(.5));
  vl_hog_put_image(g, im.data(), w, hh, 1, r.range(2, 8));
  std::vector<float> o(vl_hog_get_width(g) * vl_hog_get_height(g) * vl_hog_get_dimension(g));
  vl_hog_extract(g, o.data());
  h.vec(o);
  vl_hog_delete(g);
  VlLbp *l = vl_lbp_new(VlLbpUniform, r.chance(.5));
  long cs = r.range(2, 8);
  std::vector<float> o2((w / cs) * (hh / cs) * vl_lbp_get_dimension(l));
  vl_lbp_process(l, o2.data(), im.data(), w, hh, cs);
  h.vec(o2);
  vl_lbp_delete(l);
  return h.h;
}
inline uint64_t t_liop(Rng &r) {
  Hash h;
  long s = 2 * r.range(6, 10) + 1;
  VlLiopDesc *l = vl_liopdesc_new((int)r.range(2, 4), (int)r.range(1, 6), (float)r.uni(1, 4), s);
  std::vector<float> o(vl_liopdesc_get_dimension(l)), p = image<float>(r, s, s, 0, 1);
  vl_liopdesc_process(l, o.data(), p.data());
  h.vec(o);
  vl_liopdesc_delete(l);
  return h.h;
}
inline uint64_t t_covdet(Rng &r) {
  Hash h;
  long w = r.range(16, 40), hh = r.range(16, 40);
  std::vector<float> im = image<float>(r, w, hh, 0, 1);
  VlCovDet *c = vl_covdet_new((VlCovDetMethod)r.range(VL_COVDET_METHOD_DOG, VL_COVDET_METHOD_MULTISCALE_HARRIS));
  vl_covdet_set_first_octave(c, r.range(-1, 0));
  vl_covdet_set_peak_threshold(c, r.uni(0, .01));
  vl_covdet_put_image(c, im.data(), w, hh);
  vl_covdet_detect(c);
  vl_covdet_drop_features_outside(c, 1);
  if (vl_covdet_get_num_features(c) < 40) {
    if (r.chance(.5)) vl_covdet_extract_affine_shape(c);
    if (r.chance(.7)) vl_covdet_extract_orientations(c);
    if (r.chance(.3)) vl_covdet_extract_laplacian_scales(c);
  }
  long n = (long)vl_covdet_get_num_features(c);
  VlCovDetFeature *f = (VlCovDetFeature *)vl_covdet_get_features(c);
  h.val(n);
  float patch[121];
  for (long i = 0; i < n; ++i) {
    h.add(&f[i].frame, sizeof f[i].frame);
    h.val(f[i].peakScore);
    if (i < 4 && vl_covdet_extract_patch_for_frame(c, patch, 5, 3, .5, f[i].frame) == VL_ERR_OK) h.add(patch, sizeof patch);
  }
  vl_covdet_delete(c);
  return h.h;
}
inline uint64_t t_mser(Rng &r) {
  Hash h;
  long w = r.range(4, 40), hh = r.range(4, 40);
  std::vector<vl_uint8> im = image<vl_uint8>(r, w, hh, 0, 255);
  int dims[2] = {(int)w, (int)hh};
  VlMserFilt *f = vl_mser_new(2, dims);
  vl_mser_set_delta(f, (vl_mser_pix)r.range(1, 20));
  vl_mser_process(f, im.data());
  vl_mser_ell_fit(f);
  h.val(vl_mser_get_regions_num(f));
  if (vl_mser_get_regions_num(f)) h.add(vl_mser_get_regions(f), sizeof(vl_uint) * vl_mser_get_regions_num(f));
  if (vl_mser_get_ell_num(f)) h.add(vl_mser_get_ell(f), sizeof(float) * vl_mser_get_ell_num(f) * vl_mser_get_ell_dof(f));
  vl_mser_delete(f);
  return h.h;
}
inline uint64_t t_segment(Rng &r) {
  Hash h;
  long w = r.range(4, 24), hh = r.range(4, 24);
  std::vector<double> im = image<double>(r, w, hh, 0, 1);
  VlQS *q = vl_quickshift_new(im.data(), (int)w, (int)hh, 1);
  vl_quickshift_set_kernel_size(q, r.uni(.5, 2));
  vl_quickshift_set_max_dist(q, r.uni(1, 6));
  vl_quickshift_process(q);
  h.add(vl_quickshift_get_parents(q), sizeof(int) * w * hh);
  h.add(vl_quickshift_get_dists(q), sizeof(double) * w * hh);
  vl_quickshift_delete(q);
  std::vector<float> fi(im.begin(), im.end());
  std::vector<vl_uint32> seg(w * hh);
  vl_slic_segment(seg.data(), fi.data(), w, hh, 1, r.range(2, 8), (float)r.uni(0, 1), r.range(1, 8));
  h.vec(seg);
  return h.h;
}
inline uint64_t t_ikmeans(Rng &r) {
  Hash h; seedRand(r);
  long d = r.range(1, 8), n = r.range(10, 90), k = r.range(1, 6);
  std::vector<vl_uint8> x(d * n);
  for (auto &v : x) v = (vl_uint8)r.range(0, 255);
  std::vector<vl_uint32> as(n);
  if (r.chance(.5)) {
    VlIKMFilt *f = vl_ikm_new(r.pick({(int)VL_IKM_LLOYD, (int)VL_IKM_ELKAN}));
    if (verbosity()) vl_ikm_set_verbosity(f, verbosity());
    vl_ikm_init_rand_data(f, x.data(), d, n, k);
    h.val(vl_ikm_train(f, x.data(), n));
    vl_ikm_push(f, as.data(), x.data(), n);
    h.add(vl_ikm_get_centers(f), sizeof(vl_ikmacc_t) * d * k);
    vl_ikm_delete(f);
  } else {
    VlHIKMTree *t = vl_hikm_new(r.pick({(int)VL_IKM_LLOYD, (int)VL_IKM_ELKAN}));
    if (verbosity()) vl_hikm_set_verbosity(t, verbosity());
    vl_hikm_init(t, d, k, 2);
    vl_hikm_train(t, x.data(), n);
    as.resize(n * 2);
    vl_hikm_push(t, as.data(), x.data(), n);
    vl_hikm_delete(t);
  }
  h.vec(as);
  return h.h;
}
inline uint64_t t_aib(Rng &r) {
  Hash h;
  long n = r.range(2, 20), l = r.range(1, 5);
  std::vector<double> p(n * l);
  double s = 0;
  for (auto &v : p) { v = r.uni() + .01; s += v; }
  for (auto &v : p) v /= s;
  VlAIB *a = vl_aib_new(p.data(), (vl_uint)n, (vl_uint)l);
  if (verbosity()) vl_aib_set_verbosity(a, verbosity());
  vl_aib_process(a);
  h.add(vl_aib_get_parents(a), sizeof(vl_uint) * (2 * n - 1));
  h.add(vl_aib_get_costs(a), sizeof(double) * n);
  vl_aib_delete(a);
  return h.h;
}
inline uint64_t t_imop(Rng &r) {
  Hash h;
  long w = r.range(1, 40), hh = r.range(1, 40);
  std::vector<float> im = image<float>(r, w, hh, 0, 1), o(w * hh), o2(w * hh), fl(2 * r.range(0, 4) + 1);
  for (auto &v : fl) v = (float)r.normal();
  long m = (long)fl.size() / 2;
  vl_imconvcol_vf(o.data(), w, im.data(), w, hh, w, fl.data(), -m, m, 1, VL_PAD_BY_CONTINUITY);
  h.vec(o);
  vl_imconvcoltri_f(o.data(), w, im.data(), w, hh, w, r.range(1, 6), 1, VL_PAD_BY_ZERO);
  h.vec(o);
  vl_imsmooth_f(o.data(), w, im.data(), w, hh, w, r.uni(.3, 3), r.uni(.3, 3));
  h.vec(o);
  if (w > 1 && hh > 1) {
    vl_imgradient_polar_f(o.data(), o2.data(), 1, w, im.data(), w, hh, w);
    h.vec(o); h.vec(o2);
  }
  vl_imintegral_f(o.data(), w, im.data(), w, hh, w);
  h.vec(o);
  std::vector<vl_uindex> idx(w * hh);
  for (size_t i = 0; i < idx.size(); ++i) idx[i] = i;
  vl_image_distance_transform_f(im.data(), w, hh, 1, w, o.data(), idx.data(), (float)r.uni(.1, 3), 0);
  h.vec(o); h.vec(idx);
  return h.h;
}
inline uint64_t t_math(Rng &r) {
  Hash h;
  long d = r.range(1, 40);
  std::vector<float> a = points<float>(r, d, 3), b = points<float>(r, d, 2), o(6);
  for (int t : {VlDistanceL1, VlDistanceL2, VlKernelL2, VlKernelL1}) {
    vl_eval_vector_comparison_on_all_pairs_f(o.data(), d, a.data(), 3, b.data(), 2, vl_get_vector_comparison_function_f((VlVectorComparisonType)t));
    h.vec(o);
  }
  double M[4], S[4], U[4], V[4];
  for (auto &v : M) v = r.normal();
  vl_svd2(S, U, V, M);
  h.add(S, sizeof S); h.add(U, sizeof U); h.add(V, sizeof V);
  double om[3] = {r.normal(), r.normal(), r.normal()}, R[9], D[27];
  vl_rodrigues(R, D, om);
  h.add(R, sizeof R);
  h.val(vl_fast_atan2_f((float)M[0], (float)M[1]));
  h.val(vl_fast_resqrt_d(fabs(M[0])));
  char buf[20];
  h.val(vl_string_copy(buf, sizeof buf, "the quick brown fox jumps"));
  return h.h;
}
inline uint64_t t_scalespace(Rng &r) {
  Hash h;
  long w = r.range(8, 32), hh = r.range(8, 32);
  std::vector<float> im = image<float>(r, w, hh, 0, 1);
  VlScaleSpace *s = vl_scalespace_new(w, hh);
  vl_scalespace_put_image(s, im.data());
  VlScaleSpace *t = vl_scalespace_new_copy(s);
  VlScaleSpaceGeometry g = vl_scalespace_get_geometry(t);
  for (vl_index o = g.firstOctave; o <= g.lastOctave; ++o) {
    VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(t, o);
    for (vl_index k = g.octaveFirstSubdivision; k <= g.octaveLastSubdivision; ++k) h.add(vl_scalespace_get_level(t, o, k), sizeof(float) * og.width * og.height);
  }
  vl_scalespace_delete(s);
  vl_scalespace_delete(t);
  return h.h;
}
inline uint64_t t_array(Rng &r) {
  Hash h;
  vl_size dims[3] = {(vl_size)r.range(1, 5), (vl_size)r.range(1, 5), (vl_size)r.range(1, 5)};
  VlArray *a = vl_array_new(VL_TYPE_DOUBLE, 3, dims);
  h.val(vl_array_get_num_elements(a));
  memset(vl_array_get_data(a), 0, sizeof(double) * vl_array_get_num_elements(a));
  vl_array_delete(a);
  void *p = vl_malloc(100);
  p = vl_realloc(p, 200);
  vl_free(p);
  return h.h;
}
struct NamedTask { char const *name; Task f; };
static NamedTask const TASKS[] = {
  {"rand", t_rand}, {"error", t_error}, {"host", t_host}, {"kdtree", t_kdtree}, {"kmeans", t_kmeans}, {"gmm", t_gmm}, {"vlad", t_vlad}, {"svm", t_svm},
  {"homkermap", t_homkermap}, {"sift", t_sift}, {"dsift", t_dsift}, {"hog", t_hog}, {"liop", t_liop}, {"covdet", t_covdet}, {"mser", t_mser},
  {"segment", t_segment}, {"ikmeans", t_ikmeans}, {"aib", t_aib}, {"imop", t_imop}, {"math", t_math}, {"scalespace", t_scalespace}, {"array", t_array}};
enum { NTASKS = sizeof TASKS / sizeof TASKS[0] };
} // namespace vt
#endif
