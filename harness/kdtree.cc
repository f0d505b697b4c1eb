// C14, C15: kd-forest queries against brute force.
#include "gen.h"
#include <vl/kdtree.h>
using namespace vt;

static double refdist(int dist, long d, double const *a, double const *b) {
  double s = 0;
  for (long i = 0; i < d; ++i) { double z = a[i] - b[i]; s += dist == VlDistanceL1 ? fabs(z) : z * z; }
  return s;
}

struct Scene {
  long d, n, nq, k, trees; int kind; bool flt; int dist; int thr;
  std::vector<float> xf, qf; std::vector<double> x, q;
  VlKDForest *f = 0;
  vl_uint32 seed;
  double scaleAll = 0;
  void const *X() { return flt ? (void const *)xf.data() : (void const *)x.data(); }
  void const *Q(long i) { return flt ? (void const *)(qf.data() + i * d) : (void const *)(q.data() + i * d); }
  void gen(Ctx &c, bool big) {
    Rng &r = c.rng;
    d = r.chance(.3) ? r.range(1, 3) : r.range(1, 24);
    n = r.chance(.3) ? r.range(1, 12) : r.range(1, 300);
    if (big) { n = r.range(1025, 4000); d = r.range(1, 8); }
    flt = r.chance(.5);
    dist = r.chance(.7) ? VlDistanceL2 : VlDistanceL1;
    thr = r.chance(.5) ? VL_KDTREE_MEDIAN : VL_KDTREE_MEAN;
    trees = r.chance(.5) ? 1 : r.range(2, 8);
    k = r.chance(.4) ? 1 : r.range(1, 12);
    if (r.chance(.1)) k = n + r.range(0, 4);
    if (big) k = std::min(k, 20L);
    nq = big ? 12 : r.range(1, 20);
    xf = points<float>(r, d, n, &kind);
    x.assign(xf.begin(), xf.end());
    if (!flt && kind < 2) for (auto &v : x) v += 1e-9 * r.normal();
    // all the bits of the mantissa in use: the mean and the moments of equal points are rounded
    if (!flt && kind >= 3 && r.chance(.5)) { double f = 1 + r.uni(); for (auto &v : x) v *= f; }
    // queries: data points, perturbed data points, far points
    q.resize(nq * d);
    for (long i = 0; i < nq; ++i) {
      long j = r.range(0, n - 1), m = r.range(0, 3);
      double s = m == 0 ? 0 : m == 1 ? .1 : m == 2 ? 3 : 100;
      for (long t = 0; t < d; ++t) q[i * d + t] = (double)(float)(x[j * d + t] + s * r.normal());
      if (!flt && m == 0) for (long t = 0; t < d; ++t) q[i * d + t] = x[j * d + t];
    }
    qf.assign(q.begin(), q.end());
    seed = (vl_uint32)r.u64();
    c.desc("dim=%ld n=%ld queries=%ld k=%ld trees=%ld %s %s thr=%s shape=%d", d, n, nq, k, trees, flt ? "float" : "double",
           dist == VlDistanceL2 ? "L2" : "L1", thr == VL_KDTREE_MEDIAN ? "median" : "mean", kind);
  }
  VlKDForest *build() {
    vl_rand_seed(vl_get_rand(), seed);
    f = vl_kdforest_new(flt ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, d, trees, (VlVectorComparisonType)dist);
    vl_kdforest_set_thresholding_method(f, (VlKDTreeThresholdingMethod)thr);
    vl_kdforest_build(f, n, X());
    return f;
  }
  double tol() { return flt ? 2e-5 : 1e-10; }
  // scale of rounding: squares of the coordinates involved
  double scale(double const *a) {
    double s = 0;
    for (long t = 0; t < d; ++t) s = std::max(s, fabs(a[t]));
    return s;
  }
  std::vector<double> all(long qi) {
    std::vector<double> r(n);
    for (long i = 0; i < n; ++i) r[i] = refdist(dist, d, &q[qi * d], &x[i * d]);
    return r;
  }
};

// well-formedness of an answer: sorted, in range, no repetition, true distances
static long wellformed(Ctx &c, Scene &s, long qi, std::vector<VlKDForestNeighbor> const &nb, std::vector<double> const &all) {
  long found = 0;
  std::vector<char> used(s.n, 0);
  for (size_t j = 0; j < nb.size(); ++j) {
    if (nb[j].index == (vl_uindex)-1) {
      if (!std::isnan(nb[j].distance)) c.fail("missing-distance", "absent neighbour %zu has distance %g, not NaN", j, nb[j].distance);
      continue;
    }
    if (found != (long)j) c.fail("hole", "neighbour %zu present after an absent one", j);
    ++found;
    if (nb[j].index >= (vl_uindex)s.n) c.fail("range", "index %llu of %ld", (unsigned long long)nb[j].index, s.n);
    if (used[nb[j].index]++) c.fail("duplicate", "point %llu returned twice", (unsigned long long)nb[j].index);
    double t = all[nb[j].index];
    if (!close(nb[j].distance, t, s.tol(), s.tol() * 1e-6))
      c.fail("distance", "query %ld neighbour %zu: reported %.9g, true %.9g", qi, j, nb[j].distance, t);
    if (j && nb[j].distance < nb[j - 1].distance) c.fail("order", "distances decrease at %zu", j);
    c.count("neighbours checked");
  }
  return found;
}

static void exact(Ctx &c, Scene &s, long qi, std::vector<VlKDForestNeighbor> const &nb) {
  std::vector<double> all = s.all(qi), sorted = all;
  std::sort(sorted.begin(), sorted.end());
  long found = wellformed(c, s, qi, nb, all);
  long want = std::min((long)nb.size(), s.n);
  if (found != want) c.fail("count", "%ld neighbours returned, %ld exist", found, want);
  for (long j = 0; j < want; ++j)
    if (!close(nb[j].distance, sorted[j], s.tol() * 2, s.tol() * 1e-6))
      c.fail(s.dist == VlDistanceL1 ? "not-nearest-l1" : "not-nearest", "query %ld: neighbour %ld at distance %.9g, brute force %.9g", qi, j, nb[j].distance, sorted[j]);
  c.count("exact queries");
}

VT_GROUP(C14, exact, 2400, 60000) {
  Scene s; s.gen(c, false); s.build();
  std::vector<VlKDForestNeighbor> nb(s.k);
  for (long i = 0; i < s.nq; ++i) {
    vl_kdforest_query(s.f, nb.data(), s.k, s.Q(i));
    exact(c, s, i, nb);
  }
  // whole-array interface, distances optional
  std::vector<vl_uint32> idx(s.k * s.nq, 12345);
  std::vector<float> df(s.k * s.nq); std::vector<double> dd(s.k * s.nq);
  bool withD = c.rng.chance(.8);
  vl_kdforest_query_with_array(s.f, idx.data(), s.k, s.nq, withD ? (s.flt ? (void *)df.data() : (void *)dd.data()) : 0, s.Q(0));
  for (long i = 0; i < s.nq; ++i) {
    std::vector<double> all = s.all(i);
    for (long j = 0; j < s.k; ++j) {
      vl_uint32 t = idx[i * s.k + j];
      if (t == (vl_uint32)-1) nb[j].index = (vl_uindex)-1; else nb[j].index = t;
      if (withD) nb[j].distance = s.flt ? df[i * s.k + j] : dd[i * s.k + j];
      else nb[j].distance = t == (vl_uint32)-1 ? NAN : t < (vl_uint32)s.n ? all[t] : 0;
    }
    if (!withD) for (long j = 1; j < s.k; ++j) // order up to rounding only
      if (nb[j].distance < nb[j-1].distance && close(nb[j].distance, nb[j-1].distance, s.tol(), s.tol()*1e-6)) nb[j].distance = nb[j-1].distance;
    exact(c, s, i, nb);
  }
  vl_kdforest_delete(s.f);
  c.nontrivial(s.x, s.k * 64 + s.trees);
}

VT_GROUP(C14, exact_large, 60, 1500) {
  Scene s; s.gen(c, true); s.build();
  std::vector<VlKDForestNeighbor> nb(s.k);
  for (long i = 0; i < s.nq; ++i) { vl_kdforest_query(s.f, nb.data(), s.k, s.Q(i)); exact(c, s, i, nb); }
  for (long t = 0; t < s.trees; ++t)
    if (vl_kdforest_get_num_nodes_of_tree(s.f, t) > (vl_size)(2 * s.n - 1)) c.fail("nodes", "tree has %llu nodes for %ld points", (unsigned long long)vl_kdforest_get_num_nodes_of_tree(s.f, t), s.n);
  vl_kdforest_delete(s.f);
  c.nontrivial(s.x, s.k * 64 + s.trees);
}

// The trees themselves: every node divides its points in two at the mean or the
// median of a coordinate of large variance, down to one point or equal points.
struct Walk {
  Ctx &c; Scene &s; VlKDTree const *t; std::vector<char> seen; long leaves = 0, inner = 0, crowded = 0, depth = 0;
  double at(long p, long k) { return s.x[(long)t->dataIndex[p].index * s.d + k]; }
  // mean and variance of a coordinate of a range, and the rounding they may carry
  void moments(long b, long e, long k, double &mean, double &var, double &tol) {
    long double m = 0, v = 0, q = 0;
    for (long i = b; i < e; ++i) { m += at(i, k); q += (long double)at(i, k) * at(i, k); }
    m /= e - b; q /= e - b;
    for (long i = b; i < e; ++i) v += (at(i, k) - m) * (at(i, k) - m);
    mean = (double)m; var = (double)(v / (e - b)); tol = 4e-16 * (e - b + 4) * (double)q;
  }
  void visit(long node, long &b, long &e, long level) {
    if (node < 0 || node >= (long)t->numUsedNodes) c.fail("node", "node %ld of %ld", node, (long)t->numUsedNodes);
    if (seen[node]++) c.fail("node", "node %ld reached twice", node);
    VlKDTreeNode const &nd = t->nodes[node];
    if (nd.lowerChild < 0) {
      b = -nd.lowerChild - 1; e = -nd.upperChild - 1;
      if (b < 0 || e > s.n || b >= e) c.fail("leaf", "leaf over points [%ld,%ld) of %ld", b, e, s.n);
      ++leaves; depth = std::max(depth, level);
      if (e - b > 1) {
        ++crowded;
        for (long k = 0; k < s.d; ++k) {
          double mean, var, tol; moments(b, e, k, mean, var, tol);
          if (e - b <= VL_KDTREE_VARIANCE_EST_NUM_SAMPLES && var > tol) c.fail("leaf-divisible", "leaf of %ld points with variance %g along %ld", e - b, var, k);
        }
      }
      return;
    }
    ++inner;
    long m, m2;
    visit(nd.lowerChild, b, m, level + 1);
    visit(nd.upperChild, m2, e, level + 1);
    if (m != m2) c.fail("contiguous", "the children of node %ld hold points up to %ld and from %ld", node, m, m2);
    long k = nd.splitDimension;
    if (k < 0 || k >= s.d) c.fail("split-dimension", "dimension %ld of %ld", k, s.d);
    std::vector<double> v;
    for (long i = b; i < e; ++i) {
      v.push_back(at(i, k));
      if (i < m ? at(i, k) > nd.splitThreshold : at(i, k) < nd.splitThreshold)
        c.fail("side", "node %ld: coordinate %g on the wrong side of %g", node, at(i, k), nd.splitThreshold);
    }
    double mean, var, tol; moments(b, e, k, mean, var, tol);
    // the median, of the points in order
    std::nth_element(v.begin(), v.begin() + (v.size() - 1) / 2, v.end());
    bool median = nd.splitThreshold == v[(v.size() - 1) / 2];
    if (s.thr == VL_KDTREE_MEDIAN ? !median : e - b <= VL_KDTREE_VARIANCE_EST_NUM_SAMPLES && !median && fabs(nd.splitThreshold - mean) > 1e-14 * (e - b + 4) * s.scaleAll)
      c.fail("threshold", "node %ld of %ld points divided at %.17g, mean %.17g median %.17g", node, e - b, nd.splitThreshold, mean, v[(v.size() - 1) / 2]);
    if (s.thr == VL_KDTREE_MEAN && e - b <= VL_KDTREE_VARIANCE_EST_NUM_SAMPLES && median && fabs(nd.splitThreshold - mean) > 1e-14 * (e - b + 4) * s.scaleAll && var > 1e3 * tol)
      c.fail("threshold-median", "node %ld of %ld points divided at the median %.17g, though the mean %.17g divides them", node, e - b, nd.splitThreshold, mean);
    if (e - b <= VL_KDTREE_VARIANCE_EST_NUM_SAMPLES) {
      long larger = 0;
      for (long j = 0; j < s.d; ++j) {
        double mj, vj, tj; moments(b, e, j, mj, vj, tj);
        larger += vj > var + tol + tj;
      }
      if (larger >= (s.trees == 1 ? 1 : VL_KDTREE_SPLIT_HEAP_SIZE))
        c.fail(s.trees == 1 ? "split-variance" : "split-variance-random", "node %ld of %ld points divided along %ld of variance %g, %ld coordinates vary more", node, e - b, k, var, larger);
      c.count("divisions judged");
    }
  }
};
VT_GROUP(C14, structure, 1200, 30000) {
  Scene s; s.gen(c, c.rng.chance(.02));
  s.build();
  for (double v : s.x) s.scaleAll = std::max(s.scaleAll, fabs(v));
  if ((long)vl_kdforest_get_num_trees(s.f) != s.trees) c.fail("trees", "%llu", (unsigned long long)vl_kdforest_get_num_trees(s.f));
  for (long t = 0; t < s.trees; ++t) {
    Walk w{c, s, s.f->trees[t], {}};
    w.seen.resize(w.t->numUsedNodes);
    std::vector<char> pts(s.n);
    for (long i = 0; i < s.n; ++i) {
      long j = w.t->dataIndex[i].index;
      if (j < 0 || j >= s.n || pts[j]++) c.fail("permutation", "entry %ld of tree %ld is point %ld", i, t, j);
    }
    long b = 0, e = 0;
    w.visit(0, b, e, 0);
    if (b != 0 || e != s.n) c.fail("root", "tree %ld holds points [%ld,%ld) of %ld", t, b, e, s.n);
    if (w.leaves + w.inner != (long)vl_kdforest_get_num_nodes_of_tree(s.f, t)) c.fail("node-count", "%llu nodes, %ld reached", (unsigned long long)vl_kdforest_get_num_nodes_of_tree(s.f, t), w.leaves + w.inner);
    if (!w.crowded && (long)vl_kdforest_get_depth_of_tree(s.f, t) != w.depth) c.fail("depth", "depth %llu, leaves reach %ld", (unsigned long long)vl_kdforest_get_depth_of_tree(s.f, t), w.depth);
    c.count("tree nodes walked", (double)(w.leaves + w.inner));
  }
  vl_kdforest_delete(s.f);
  if (s.n > 1) c.nontrivial(s.x, s.trees * 4 + s.thr);
}

// Budgeted search, with several searchers on one forest and a changing budget.
VT_GROUP(C15, budget, 1500, 40000) {
  Scene s; s.gen(c, c.rng.chance(.03)); s.build();
  std::vector<VlKDForestSearcher *> se;
  std::vector<VlKDForestNeighbor> nb(s.k);
  long steps = c.rng.range(4, 30);
  for (long step = 0; step < steps; ++step) {
    long op = c.rng.range(0, 9);
    if (op == 0 || se.empty()) { se.push_back(vl_kdforest_new_searcher(s.f)); continue; }
    long w = c.rng.range(0, (long)se.size() - 1);
    if (op == 1) { vl_kdforestsearcher_delete(se[w]); se.erase(se.begin() + w); continue; }
    long i = c.rng.range(0, s.nq - 1);
    long budget = c.rng.chance(.3) ? c.rng.range(1, 3) : c.rng.chance(.3) ? c.rng.range(s.n, s.n + 5) : c.rng.range(0, s.n);
    vl_kdforest_set_max_num_comparisons(s.f, budget);
    if (vl_kdforest_get_max_num_comparisons(s.f) != (vl_size)budget) c.fail("getter", "budget not kept");
    long kk = c.rng.range(1, s.k);
    nb.assign(kk, VlKDForestNeighbor());
    vl_size cmp;
    bool own = false;
    if (c.rng.chance(.25)) {
      // the forest's own searcher is the first in the list
      if (!vl_kdforest_get_searcher(s.f, 0)) own = true;
      cmp = vl_kdforest_query(s.f, nb.data(), kk, s.Q(i));
      if (own) vl_kdforestsearcher_delete(vl_kdforest_get_searcher(s.f, 0));
    } else cmp = vl_kdforestsearcher_query(se[w], nb.data(), kk, s.Q(i));
    std::vector<double> all = s.all(i);
    long found = wellformed(c, s, i, nb, all);
    if (budget > 0 && cmp > (vl_size)budget) c.fail("over-budget", "%llu comparisons, budget %ld", (unsigned long long)cmp, budget);
    if (cmp > (vl_size)s.n) c.fail("over-n", "%llu comparisons for %ld points", (unsigned long long)cmp, s.n);
    if (found > (long)cmp) c.fail("found", "%ld neighbours from %llu comparisons", found, (unsigned long long)cmp);
    if (found != std::min(kk, (long)cmp) ) c.fail("found", "%ld neighbours reported after %llu comparisons, %ld wanted", found, (unsigned long long)cmp, kk);
    if (budget == 0 || budget >= s.n) exact(c, s, i, nb);
    else if (found == 0) c.fail("nothing", "no neighbour with budget %ld", budget);
    else {
      // the best leaf of some tree is always reached first: at least one point is examined, none is lost
      double best = 1e300; for (double v : all) best = std::min(best, v);
      if (nb[0].distance < best * (1 - s.tol()) - s.tol() * 1e-6) c.fail("distance", "closer than the closest point");
    }
    c.count("budgeted queries");
  }
  // position access agrees with creation order
  for (size_t i = 0; i < se.size(); ++i)
    if (vl_kdforest_get_searcher(s.f, i) != se[i]) c.fail("searcher-list", "searcher %zu of %zu is not the one created", i, se.size());
  if (vl_kdforest_get_searcher(s.f, se.size())) c.fail("searcher-list", "more searchers than created");
  vl_kdforest_delete(s.f);
  c.nontrivial(s.x, steps);
}

// A history of queries does not change later answers; rebuilding with the same
// generator state gives the same forest.
VT_GROUP(C15, repeatable, 400, 8000) {
  Scene s; s.gen(c, false);
  VlKDForest *a = s.build(), *b = s.build();
  long budget = c.rng.range(0, s.n);
  vl_kdforest_set_max_num_comparisons(a, budget);
  vl_kdforest_set_max_num_comparisons(b, budget);
  std::vector<VlKDForestNeighbor> na(s.k), nb(s.k);
  for (long t = 0; t < 10; ++t) vl_kdforest_query(b, nb.data(), s.k, s.Q(c.rng.range(0, s.nq - 1)));
  for (long i = 0; i < s.nq; ++i) {
    vl_size ca = vl_kdforest_query(a, na.data(), s.k, s.Q(i)), cb = vl_kdforest_query(b, nb.data(), s.k, s.Q(i));
    if (ca != cb) c.fail("history", "query %ld: %llu comparisons in one forest, %llu in its twin", i, (unsigned long long)ca, (unsigned long long)cb);
    for (long j = 0; j < s.k; ++j)
      if (na[j].index != nb[j].index) c.fail("history", "query %ld neighbour %ld differs", i, j);
    c.count("twin queries");
  }
  vl_kdforest_delete(a); vl_kdforest_delete(b);
  c.nontrivial(s.x, budget);
}
