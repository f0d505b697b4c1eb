// learn.cc - C22 information bottleneck, C23 SVM solvers, C24 homogeneous kernel maps and datasets.
#include "vt.h"
#include "gen.h"
extern "C" {
#include <vl/aib.h>
#include <vl/svm.h>
#include <vl/svmdataset.h>
#include <vl/homkermap.h>
#include <vl/random.h>
}
using namespace vt;

// ------------------------------------------------------------------ C22
static double plogp(double x) { return x > 0 ? x * log(x) : 0; }
VT_GROUP(C22, aib, 8000, 80000) {
  Rng &r = c.rng;
  long n = r.chance(.1) ? r.range(1, 3) : r.range(2, c.thorough ? 60 : 30), L = r.range(1, 6);
  std::vector<double> P(n * L);
  int kind = (int)r.range(0, 4);
  for (auto &v : P) v = kind == 0 ? r.uni() : kind == 1 ? (double)r.range(0, 3) : kind == 2 ? pow(10, r.uni(-6, 0)) : kind == 3 ? (r.chance(.5) ? 0 : r.uni()) : (double)r.range(1, 2);
  if (r.chance(.3)) for (long i = 1; i < n; ++i) if (r.chance(.4)) for (long q = 0; q < L; ++q) P[i * L + q] = P[r.range(0, i - 1) * L + q]; // duplicates
  if (r.chance(.4)) for (long i = 0; i < n; ++i) if (r.chance(.25)) for (long q = 0; q < L; ++q) P[i * L + q] = 0;
  double sum = 0;
  for (double v : P) sum += v;
  if (!(sum > 0)) { P[0] = 1; sum = 1; }
  c.desc("kind=%d n=%ld labels=%ld", kind, n, L);
  std::vector<double> T(P);
  for (auto &v : T) v /= sum;
  VlAIB *a = vl_aib_new(P.data(), (vl_uint)n, (vl_uint)L);
  if (!a) c.fail("null", "no object");
  vl_aib_process(a);
  vl_uint *par = vl_aib_get_parents(a);
  double *cost = vl_aib_get_costs(a);
  std::vector<vl_uint> parent(par, par + 2 * n - 1);
  std::vector<double> costs(cost, cost + n);
  vl_aib_delete(a);
  // nodes of the tree
  std::vector<std::vector<double>> row(2 * n - 1);
  std::vector<char> live(2 * n - 1, 0);
  long valid = 0;
  for (long i = 0; i < n; ++i) {
    row[i].assign(&T[i * L], &T[i * L] + L);
    double s = 0;
    for (double v : row[i]) s += v;
    if (s > 0) { live[i] = 1; ++valid; }
    else if (parent[i] < 2 * n - 1) c.fail("nullnode", "value %ld has no probability but parent %u", i, (unsigned)parent[i]);
  }
  std::vector<double> Pc(L);
  for (long i = 0; i < n; ++i) for (long q = 0; q < L; ++q) Pc[q] += T[i * L + q];
  auto info = [&]() {
    double I = 0;
    for (long k = 0; k < 2 * n - 1; ++k) if (live[k]) {
      double s = 0;
      for (double v : row[k]) s += v;
      for (long q = 0; q < L; ++q) if (row[k][q] > 0) I += row[k][q] * log(row[k][q] / (s * Pc[q]));
    }
    return I;
  };
  auto loss = [&](long x, long y) {
    double sx = 0, sy = 0, D = 0;
    for (long q = 0; q < L; ++q) { sx += row[x][q]; sy += row[y][q]; }
    for (long q = 0; q < L; ++q) D += plogp(row[x][q]) + plogp(row[y][q]) - plogp(row[x][q] + row[y][q]);
    return D - plogp(sx) - plogp(sy) + plogp(sx + sy);
  };
  double tol = 1e-11;
  if (!close(costs[0], info(), 1e-10, tol)) c.fail("cost0", "initial information %g, computed %g", costs[0], info());
  for (long t = 0; t < n - 1; ++t) {
    long node = n + t, ch[2], k = 0;
    for (long i = 0; i < 2 * n - 1; ++i) if (parent[i] == node && i != node) { if (k < 2) ch[k] = i; ++k; }
    if (t >= valid - 1) {
      if (k) c.fail("extra", "merge %ld of %ld values", t, valid);
      if (!std::isnan(costs[t + 1])) c.fail("costnan", "cost %ld is %g after the last merge", t + 1, costs[t + 1]);
      if (parent[node] < 2 * n - 1) c.fail("nonode", "unused node %ld has parent %u", node, (unsigned)parent[node]);
      continue;
    }
    if (k != 2) c.fail("children", "node %ld has %ld children", node, k);
    for (long q = 0; q < 2; ++q) if (ch[q] >= node || !live[ch[q]]) c.fail("child", "node %ld merges %ld, which is not live", node, ch[q]);
    double got = loss(ch[0], ch[1]), best = INFINITY;
    for (long i = 0; i < node; ++i) if (live[i]) for (long j = i + 1; j < node; ++j) if (live[j]) best = std::min(best, loss(i, j));
    if (!(got <= best + 1e-12)) c.fail("greedy", "merge %ld of nodes %ld,%ld loses %.17g, the least is %.17g", t, ch[0], ch[1], got, best);
    live[ch[0]] = live[ch[1]] = 0; live[node] = 1;
    row[node] = row[ch[0]];
    for (long q = 0; q < L; ++q) row[node][q] += row[ch[1]][q];
    if (!close(costs[t + 1], info(), 1e-9, tol)) c.fail("cost", "information %.15g after merge %ld, computed %.15g", costs[t + 1], t, info());
    if (t == valid - 2 && parent[node] != 0) c.fail("root", "root %ld has parent %u", node, (unsigned)parent[node]);
    c.count("merges judged");
  }
  if (valid > 2) c.nontrivial(T);
}

// ------------------------------------------------------------------ C23
struct LossDef { char const *name; VlSvmLossType type; double (*loss)(double, double), (*der)(double, double), (*conj)(double, double), (*upd)(double, double, double, double); };
static LossDef LOSS[] = {
    {"hinge", VlSvmLossHinge, vl_svm_hinge_loss, vl_svm_hinge_loss_derivative, vl_svm_hinge_conjugate_loss, vl_svm_hinge_dca_update},
    {"hinge2", VlSvmLossHinge2, vl_svm_hinge2_loss, vl_svm_hinge2_loss_derivative, vl_svm_hinge2_conjugate_loss, vl_svm_hinge2_dca_update},
    {"l1", VlSvmLossL1, vl_svm_l1_loss, vl_svm_l1_loss_derivative, vl_svm_l1_conjugate_loss, vl_svm_l1_dca_update},
    {"l2", VlSvmLossL2, vl_svm_l2_loss, vl_svm_l2_loss_derivative, vl_svm_l2_conjugate_loss, vl_svm_l2_dca_update},
    {"logistic", VlSvmLossLogistic, vl_svm_logistic_loss, vl_svm_logistic_loss_derivative, vl_svm_logistic_conjugate_loss, vl_svm_logistic_dca_update}};
// reference losses, written from their definitions
static double refLoss(int k, double z, double y) {
  switch (k) {
  case 0: return std::max(0., 1 - y * z);
  case 1: { double v = std::max(0., 1 - y * z); return v * v; }
  case 2: return fabs(y - z);
  case 3: return (y - z) * (y - z);
  default: { double v = y * z; return v > 0 ? log1p(exp(-v)) : -v + log1p(exp(v)); }
  }
}
static double refConj(int k, double u, double y) {
  double z = y * u;
  switch (k) {
  case 0: return z >= -1 && z <= 0 ? z : INFINITY;
  case 1: return z <= 0 ? y * u + u * u / 4 : INFINITY;
  case 2: return fabs(u) <= 1 ? y * u : INFINITY;
  case 3: return y * u + u * u / 4;
  default: return z >= -1 && z <= 0 ? plogp(-z) + plogp(1 + z) : INFINITY;
  }
}
static double label(Rng &r, int k) { return k == 2 || k == 3 ? (r.chance(.2) ? (double)r.range(-2, 2) : r.normal() * 2) : (r.chance(.5) ? 1 : -1); }
static double feasible(Rng &r, int k, double y) {
  switch (k) {
  case 0: case 4: return y * (r.chance(.2) ? (double)r.range(0, 1) : r.uni());
  case 1: return y * (r.chance(.2) ? 0 : fabs(r.normal()) * 2);
  case 2: return r.chance(.2) ? (double)r.range(-1, 1) : r.uni(-1, 1);
  default: return r.normal() * 2;
  }
}
VT_GROUP(C23, losses, 60000, 600000) {
  Rng &r = c.rng;
  int k = (int)r.range(0, 4);
  LossDef &D = LOSS[k];
  double y = label(r, k), z = r.chance(.1) ? y : r.chance(.1) ? 0 : r.normal() * pow(10, r.uni(-3, 2));
  c.desc("%s label=%.17g inner=%.17g", D.name, y, z);
  double l = D.loss(z, y), g = D.der(z, y);
  if (!close(l, refLoss(k, z, y), 1e-13, 1e-15)) c.fail("loss", "%s loss %.17g, definition %.17g", D.name, l, refLoss(k, z, y));
  for (int q = 0; q < 6; ++q) {
    double w = q == 0 ? z + 1e-3 : q == 1 ? z - 1e-3 : z + r.normal() * pow(10, r.uni(-2, 2)), lw = refLoss(k, w, y);
    if (!(lw - l - g * (w - z) >= -1e-10 * (1 + fabs(lw) + fabs(l) + fabs(g * (w - z))))) c.fail("subgradient", "%s derivative %g at %g is no subgradient (value %g at %g)", D.name, g, z, lw, w);
  }
  double u = -feasible(r, k, y), cj = D.conj(u, y);
  if (!close(cj, refConj(k, u, y), 1e-12, 2e-9)) c.fail("conjugate", "%s conjugate %.17g at %.17g, definition %.17g", D.name, cj, u, refConj(k, u, y));
  if (!(l + cj >= z * u - 1e-8 * (1 + fabs(z * u)))) c.fail("fenchel", "%s: l(%g)+l*(%g) = %g + %g below the product", D.name, z, u, l, cj);
  double cg = D.conj(g, y);
  if (!close(l + cg, z * g, 1e-9, 1e-7 * (1 + fabs(z)))) c.fail("fenchel-equality", "%s: l(%g)=%g, l*(%g)=%g", D.name, z, l, g, cg);
  double bad = k == 0 || k == 4 ? (r.chance(.5) ? -y * (1 + pow(10, r.uni(-6, 1))) : y * pow(10, r.uni(-6, 1))) : k == 1 ? y * pow(10, r.uni(-6, 1)) : k == 2 ? (r.chance(.5) ? -1 : 1) * (1 + pow(10, r.uni(-6, 1))) : 0;
  if (k != 3 && !(D.conj(bad, y) == INFINITY)) c.fail("conjugate-domain", "%s conjugate %g outside its domain (u=%g y=%g)", D.name, D.conj(bad, y), bad, y);
  // the coordinate update solves max_d -l*(-a-d) - A/2 d^2 - B d
  double a = feasible(r, k, y), A = pow(10, r.uni(-3, 3)), B = z;
  double d = D.upd(a, B, A, y);
  auto dual = [&](double q) { double v = refConj(k, -(a + q), y); return -v - .5 * A * q * q - B * q; };
  double v = dual(d), scale = 1 + fabs(A * d * d) + fabs(B * d) + fabs(v);
  // allow the end of the domain to be missed by rounding
  if (std::isinf(v)) { double b = dual(d * (1 - 1e-15)), e = dual(d * (1 + 1e-15)), f2 = dual(d + 1e-15), f3 = dual(d - 1e-15); v = std::max(std::max(b, e), std::max(f2, f3)); scale = 1 + fabs(A * d * d) + fabs(B * d) + fabs(v); }
  if (!(std::isfinite(d) && std::isfinite(v))) c.fail("dca-domain", "%s update %.17g from %.17g (A=%g B=%g y=%g) leaves the domain", D.name, d, a, A, B, y);
  double slack = k == 4 ? 1e-8 : 1e-11;
  for (int q = 0; q < 24; ++q) {
    double e = q < 3 ? feasible(r, k, y) - a : q < 12 ? d + r.normal() * pow(10, r.uni(-6, 0)) : q == 12 ? -a : q == 13 ? y - a : q == 14 ? 0 : d * r.uni(0, 2);
    double w = dual(e);
    if (w > v + slack * scale) c.fail("dca", "%s update %.17g from %.17g (A=%g B=%g y=%g) gives %.17g, %.17g gives %.17g", D.name, d, a, A, B, y, v, e, w);
  }
  c.count(D.name);
  c.nontrivial(fnv(&z, 8, fnv(&a, 8) ^ (unsigned)k));
}

struct Problem {
  long n, d; int k; double lambda, B;
  std::vector<double> x, y, w; // x: d x n, w: weights (empty = 1)
  bool f32; std::vector<float> xf;
  double score(double const *m, double b, long i) const { double s = b; for (long q = 0; q < d; ++q) s += m[q] * x[i * d + q]; return s; }
};
static Problem problem(Rng &r, bool weighted) {
  Problem p;
  p.n = r.range(1, 40); p.d = r.range(1, 6); p.k = (int)r.range(0, 4);
  p.lambda = pow(10, r.uni(-2.5, .3)); p.B = r.pick({0., 1., 1., .5, 3.});
  p.f32 = r.chance(.3);
  p.x.resize(p.n * p.d); p.y.resize(p.n);
  double sep = r.chance(.5) ? r.uni(0, 2) : 0;
  for (long i = 0; i < p.n; ++i) {
    p.y[i] = label(r, p.k);
    for (long q = 0; q < p.d; ++q) p.x[i * p.d + q] = r.normal() + (q == 0 ? sep * p.y[i] : 0);
    if (i && r.chance(.05)) for (long q = 0; q < p.d; ++q) p.x[i * p.d + q] = p.x[(i - 1) * p.d + q];
    if (r.chance(.03)) for (long q = 0; q < p.d; ++q) p.x[i * p.d + q] = 0;
  }
  if (weighted) { p.w.resize(p.n); for (auto &v : p.w) v = r.chance(.2) ? 0 : r.chance(.2) ? (double)r.range(1, 3) : r.uni(0, 2); if (r.chance(.1)) p.w[0] = 1; }
  p.xf.assign(p.x.begin(), p.x.end());
  if (p.f32) p.x.assign(p.xf.begin(), p.xf.end());
  return p;
}
static double primal(Problem const &p, double const *m, double b, double *reg = 0, double *ls = 0) {
  double R = p.B ? (b / p.B) * (b / p.B) : 0, l = 0;
  for (long q = 0; q < p.d; ++q) R += m[q] * m[q];
  R *= p.lambda / 2;
  for (long i = 0; i < p.n; ++i) { double w = p.w.empty() ? 1 : p.w[i]; if (w > 0) l += w * refLoss(p.k, p.score(m, b, i), p.y[i]); }
  l /= p.n;
  if (reg) *reg = R;
  if (ls) *ls = l;
  return R + l;
}
// bracket of the optimum by an independent dual ascent (golden section per coordinate)
static bool bracket(Problem const &p, Rng &r, double &lo, double &hi) {
  std::vector<double> a(p.n), m(p.d + 1);
  hi = INFINITY; lo = -INFINITY;
  for (int ep = 0; ep < 4000; ++ep) {
    for (long t = 0; t < p.n; ++t) {
      long i = r.range(0, p.n - 1);
      double w = p.w.empty() ? 1 : p.w[i];
      if (!(w > 0)) continue;
      double A = p.B * p.B, B = m[p.d] * p.B;
      for (long q = 0; q < p.d; ++q) A += p.x[i * p.d + q] * p.x[i * p.d + q], B += m[q] * p.x[i * p.d + q];
      A /= p.lambda * p.n;
      // maximise g(b) = -w l*(-b/w) - A/2 (b-a)^2 - B (b-a)
      double y = p.y[i], b0, b1;
      switch (p.k) { case 0: case 4: b0 = std::min(0., y * w); b1 = std::max(0., y * w); break; case 2: b0 = -w; b1 = w; break;
        case 1: b0 = y > 0 ? 0 : -1e3 * w; b1 = y > 0 ? 1e3 * w : 0; break; default: b0 = -1e3 * w; b1 = 1e3 * w; }
      double nb;
      if (p.k == 3 || p.k == 1) { nb = (y - B + A * a[i]) / (A + .5 / w); nb = std::max(b0, std::min(b1, nb)); }
      else if (p.k == 0 || p.k == 2) { nb = A > 0 ? a[i] + (y - B) / A : (y > B ? b1 : b0); nb = std::max(b0, std::min(b1, nb)); }
      else { // logistic: bisection of the derivative in beta = y b / w
        double u = 0, v = 1;
        for (int q = 0; q < 60; ++q) { double be = .5 * (u + v), der = A * w * be + y * (B - A * a[i]) + log(be) - log1p(-be); if (der >= 0) v = be; else u = be; }
        nb = y * w * .5 * (u + v);
      }
      double dl = (nb - a[i]) / (p.lambda * p.n);
      if (!std::isfinite(dl)) continue;
      a[i] = nb;
      for (long q = 0; q < p.d; ++q) m[q] += dl * p.x[i * p.d + q];
      m[p.d] += dl * p.B;
    }
    if (ep % 5 == 4) {
      double R = 0, D = 0;
      for (double v : m) R += v * v;
      for (long i = 0; i < p.n; ++i) { double w = p.w.empty() ? 1 : p.w[i]; if (w > 0) { double u = -a[i] / w; if (p.k == 0 || p.k == 4) u = p.y[i] > 0 ? std::min(0., std::max(-1., u)) : std::max(0., std::min(1., u)); if (p.k == 2) u = std::max(-1., std::min(1., u)); D -= w * refConj(p.k, u, p.y[i]); } }
      lo = std::max(lo, D / p.n - p.lambda / 2 * R - 1e-12);
      hi = std::min(hi, primal(p, m.data(), m[p.d] * p.B));
      if (hi - lo < 1e-7 * (1 + fabs(hi))) return true;
    }
  }
  return false;
}
struct Svm { VlSvmDataset *ds; VlSvm *s; ~Svm() { if (s) vl_svm_delete(s); if (ds) vl_svmdataset_delete(ds); } };
static double absInner(void const *data, vl_uindex i, double const *m) { Problem const *p = (Problem const *)data; double s = 0; for (long q = 0; q < p->d; ++q) s += p->x[i * p->d + q] * m[q]; return s; }
static void absAcc(void const *data, vl_uindex i, double *m, double mu) { Problem const *p = (Problem const *)data; for (long q = 0; q < p->d; ++q) m[q] += mu * p->x[i * p->d + q]; }
static void makeSvm(Svm &v, Problem const &p, VlSvmSolverType type, Rng &r) {
  v.ds = 0;
  switch (r.range(p.f32 ? 1 : 0, 2)) {
  case 0: v.s = vl_svm_new(type, p.x.data(), p.d, p.n, p.y.data(), p.lambda); break; // no object: the case ends in a crash
  case 1: v.ds = vl_svmdataset_new(p.f32 ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, p.f32 ? (void *)p.xf.data() : (void *)p.x.data(), p.d, p.n);
    v.s = vl_svm_new_with_dataset(type, v.ds, p.y.data(), p.lambda); break;
  default: v.s = vl_svm_new_with_abstract_data(type, (void *)&p, p.d, p.n, p.y.data(), p.lambda);
    vl_svm_set_data_functions(v.s, (VlSvmInnerProductFunction)absInner, (VlSvmAccumulateFunction)absAcc);
  }
  vl_svm_set_loss(v.s, LOSS[p.k].type);
  vl_svm_set_bias_multiplier(v.s, p.B);
  if (!p.w.empty()) vl_svm_set_weights(v.s, p.w.data());
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
struct Diag { Ctx *c; Problem const *p; long calls, freq, max, next; double lastDual; bool sdca; VlSvmStatistics last; char const *bad; double badA, badB; double cpu = vl_get_cpu_time(), wall = now(), before = 0; };
static void judgeStats(VlSvm *s, Diag &D) {
  if (D.bad) return;
  Problem const &p = *D.p;
  VlSvmStatistics const *st = vl_svm_get_statistics(s);
  double const *m = vl_svm_get_model(s), b = vl_svm_get_bias(s), *sc = vl_svm_get_scores(s);
  double reg, ls, E = primal(p, m, b, &reg, &ls), scale = 1e-9 * (1 + fabs(E));
#define BAD(key, x, y) { D.bad = key; D.badA = x; D.badB = y; return; }
  if (!close(st->regularizer, reg, 1e-9, 1e-12)) BAD("regularizer", st->regularizer, reg)
  if (!close(st->loss, ls, 1e-9, 1e-9 * (1 + fabs(E)))) BAD("loss-value", st->loss, ls)
  if (!close(st->objective, E, 1e-9, scale)) BAD("objective", st->objective, E)
  for (long i = 0; i < p.n; ++i) if (!close(sc[i], p.score(m, b, i), 1e-8, 1e-9 * (1 + fabs(b)))) BAD("scores", sc[i], p.score(m, b, i))
  if (D.sdca) {
    if (!close(st->dualityGap, st->objective - st->dualObjective, 1e-9, scale)) BAD("gap-definition", st->dualityGap, st->objective - st->dualObjective)
    if (!close(st->dualObjective, st->dualLoss - st->regularizer, 1e-9, scale)) BAD("dual-definition", st->dualObjective, st->dualLoss - st->regularizer)
    if (!(st->dualityGap >= -1e-9 * (1 + fabs(E)))) BAD("negative-gap", st->dualityGap, 0)
    if (!std::isfinite(st->dualObjective)) BAD("dual-not-finite", st->dualObjective, 0)
    if (!(st->dualObjective >= D.lastDual - 1e-9 * (1 + fabs(E) + fabs(D.lastDual)))) BAD("dual-decreased", st->dualObjective, D.lastDual)
    D.lastDual = st->dualObjective;
  }
}
static void onDiag(VlSvm *s, void *data) {
  Diag &D = *(Diag *)data;
  ++D.calls;
  VlSvmStatistics const *st = vl_svm_get_statistics(s);
  D.last = *st;
  judgeStats(s, D);
  if (D.bad) return;
  long it = (long)st->iteration;
  // the time since the start of the training, whichever clock measures it
  double most = std::max(vl_get_cpu_time() - D.cpu, now() - D.wall) + .02;
  if (!(st->elapsedTime >= D.before && st->elapsedTime <= most)) BAD("elapsed-time", st->elapsedTime, most)
  D.before = st->elapsedTime;
  // the next multiple of the period, or the last iteration
  long want = (D.next / D.freq + 1) * D.freq - 1;
  if (want + 1 > D.max && D.next < D.max) want = D.max - 1;
  if (it != want) BAD("diagnostic-period", it, want)
  D.next = it + 1;
  if ((long)st->epoch != it / D.p->n) BAD("epoch", (double)st->epoch, (double)(it / D.p->n))
}
VT_GROUP(C23, sdca, 1500, 15000) {
  Rng &r = c.rng;
  Problem p = problem(r, r.chance(.5));
  double eps = pow(10, r.uni(-5, -1));
  long freq = r.chance(.5) ? p.n : r.range(1, 3 * p.n), max = r.chance(.3) ? r.range(1, 10 * p.n) : 400 * p.n;
  c.desc("sdca %s n=%ld d=%ld lambda=%g B=%g weights=%d eps=%g freq=%ld max=%ld", LOSS[p.k].name, p.n, p.d, p.lambda, p.B, !p.w.empty(), eps, freq, max);
  vl_rand_seed(vl_get_rand(), (vl_uint32)r.u64());
  Svm v;
  makeSvm(v, p, VlSvmSolverSdca, r);
  vl_svm_set_epsilon(v.s, eps); vl_svm_set_diagnostic_frequency(v.s, freq); vl_svm_set_max_num_iterations(v.s, max);
  Diag D{&c, &p, 0, freq, max, 0, -INFINITY, true, {}, 0, 0, 0};
  vl_svm_set_diagnostic_function(v.s, (VlSvmDiagnosticFunction)onDiag, &D);
  vl_svm_train(v.s);
  if (D.bad) c.fail(D.bad, "call %ld: %.17g, expected %.17g", D.calls, D.badA, D.badB);
  VlSvmStatistics const *st = vl_svm_get_statistics(v.s);
  if (!D.calls || st->iteration != D.last.iteration || st->objective != D.last.objective) c.fail("last-statistics", "final statistics differ from the last diagnostic");
  double const *m = vl_svm_get_model(v.s);
  double b = vl_svm_get_bias(v.s), lo, hi;
  for (long q = 0; q < p.d; ++q) if (!std::isfinite(m[q])) c.fail("model-not-finite", "model component %ld is %g", q, m[q]);
  if (st->status == VlSvmStatusConverged) { if (!(st->dualityGap < eps)) c.fail("converged-gap", "converged with gap %g", st->dualityGap); }
  else if (st->status == VlSvmStatusMaxNumIterationsReached) { if ((long)st->iteration != max - 1 || st->dualityGap < eps) c.fail("stop", "stopped at iteration %ld of %ld with gap %g", (long)st->iteration, max, st->dualityGap); }
  else c.fail("status", "final status %d", (int)st->status);
  if (bracket(p, r, lo, hi)) {
    double E = primal(p, m, b), tol = 1e-6 * (1 + fabs(hi));
    if (!(E >= lo - tol)) c.fail("oracle", "objective %.12g below the optimum %.12g", E, lo);
    if (!(st->dualObjective <= hi + tol)) c.fail("dual-above-optimum", "dual %.12g above the optimum %.12g", st->dualObjective, hi);
    if (st->status == VlSvmStatusConverged && !(E - lo <= eps + tol)) c.fail("suboptimal", "converged at %.12g, the optimum is %.12g, tolerance %g", E, lo, eps);
    if (st->status != VlSvmStatusConverged && max == 400 * p.n && hi > 0 && E - lo > .2 * hi + 1e-3 && p.lambda > .05) c.count("slow");
    c.count("optimum known");
  }
  c.count(st->status == VlSvmStatusConverged ? "converged" : "iteration limit");
  c.count("diagnostics judged", (double)D.calls);
  c.nontrivial(p.x, (uint64_t)p.k);
}
VT_GROUP(C23, sgd, 1500, 15000) {
  Rng &r = c.rng;
  Problem p = problem(r, r.chance(.5));
  long freq = r.chance(.5) ? p.n : r.range(1, 3 * p.n), max = r.range(1, 30 * p.n), start = r.chance(.3) ? r.range(0, 5000) : 0;
  double eps = r.chance(.5) ? 0 : pow(10, r.uni(-4, -1)), blr = r.pick({.01, .1, 1.});
  c.desc("sgd %s n=%ld d=%ld lambda=%g B=%g weights=%d freq=%ld max=%ld start=%ld", LOSS[p.k].name, p.n, p.d, p.lambda, p.B, !p.w.empty(), freq, max, start);
  vl_uint32 seed = (vl_uint32)r.u64();
  Svm v;
  makeSvm(v, p, VlSvmSolverSgd, r);
  vl_svm_set_epsilon(v.s, eps); vl_svm_set_diagnostic_frequency(v.s, freq); vl_svm_set_max_num_iterations(v.s, max); vl_svm_set_bias_learning_rate(v.s, blr);
  std::vector<double> w(p.d + 1);
  if (r.chance(.4)) {
    for (auto &q : w) q = r.normal();
    if (!p.B) w[p.d] = 0;
    vl_svm_set_model(v.s, w.data()); vl_svm_set_bias(v.s, w[p.d] * p.B);
  }
  if (start) vl_svm_set_iteration_number(v.s, start);
  Diag D{&c, &p, 0, freq, max, 0, 0, false, {}, 0, 0, 0};
  vl_svm_set_diagnostic_function(v.s, (VlSvmDiagnosticFunction)onDiag, &D);
  vl_rand_seed(vl_get_rand(), seed);
  vl_svm_train(v.s);
  if (D.bad) c.fail(D.bad, "call %ld: %.17g, expected %.17g", D.calls, D.badA, D.badB);
  VlSvmStatistics const *st = vl_svm_get_statistics(v.s);
  long T = (long)st->iteration + 1;
  if (st->status == VlSvmStatusConverged) { if (!(st->scoresVariation < eps)) c.fail("converged", "converged with score variation %g", st->scoresVariation); }
  else if (st->status != VlSvmStatusMaxNumIterationsReached || T != max) c.fail("stop", "stopped with status %d after %ld of %ld", (int)st->status, T, max);
  // the documented iteration on the same permutations
  VlRand rnd;
  vl_rand_init(&rnd);
  vl_rand_seed(&rnd, seed);
  std::vector<vl_index> perm(p.n);
  for (long i = 0; i < p.n; ++i) perm[i] = i;
  double t0 = std::max(2., ceil(1 / p.lambda));
  bool sure = true;
  std::vector<double> sc(p.n), prev(p.n, -INFINITY);
  for (long t = 0; t < T; ++t) {
    if (t % p.n == 0) vl_rand_permute_indexes(&rnd, perm.data(), p.n);
    long i = perm[t % p.n];
    double wi = p.w.empty() ? 1 : p.w[i], in = p.score(w.data(), w[p.d] * p.B, i), y = p.y[i], g;
    switch (p.k) { case 0: g = y * in < 1 ? -y : 0; sure = sure && fabs(y * in - 1) > 1e-7; break;
      case 1: g = y * in < 1 ? 2 * (in - y) : 0; break;
      case 2: g = y > in ? -1 : 1; sure = sure && fabs(y - in) > 1e-7; break;
      case 3: g = 2 * (in - y); break;
      default: g = -y / (1 + exp(y * in)); }
    g *= wi;
    prev[i] = sc[i]; sc[i] = in;
    double eta = 1 / (p.lambda * (t + start + t0)), be = eta * blr;
    for (long q = 0; q < p.d; ++q) w[q] = (1 - p.lambda * eta) * w[q] - eta * g * p.x[i * p.d + q];
    w[p.d] = (1 - p.lambda * be) * w[p.d] - be * g * p.B;
  }
  if (sure) {
    double const *m = vl_svm_get_model(v.s);
    double mag = 1;
    for (double q : w) mag += fabs(q);
    // a quadratic loss with a large rate can amplify rounding: skip runs that blew up
    if (mag < 1e4) {
      for (long q = 0; q < p.d; ++q) if (!close(m[q], w[q], 1e-6, 1e-7 * mag)) c.fail("sgd-model", "component %ld is %.12g, the documented iteration gives %.12g after %ld steps", q, m[q], w[q], T);
      if (!close(vl_svm_get_bias(v.s), w[p.d] * p.B, 1e-6, 1e-7 * mag)) c.fail("sgd-bias", "bias %.12g, expected %.12g", vl_svm_get_bias(v.s), w[p.d] * p.B);
      double var = 0;
      for (long i = 0; i < p.n; ++i) var += (sc[i] - prev[i]) * (sc[i] - prev[i]);
      var = sqrt(var) / p.n;
      if (!close(st->scoresVariation, var, 1e-5, 1e-7 * mag)) c.fail("sgd-variation", "score variation %.12g, expected %.12g", st->scoresVariation, var);
      c.count("trajectories compared");
    }
  } else c.count("tie on the margin");
  c.count("diagnostics judged", (double)D.calls);
  c.nontrivial(p.x, (uint64_t)p.k);
}
VT_GROUP(C23, evaluate, 3000, 30000) {
  Rng &r = c.rng;
  Problem p = problem(r, r.chance(.5));
  c.desc("evaluate %s n=%ld d=%ld", LOSS[p.k].name, p.n, p.d);
  Svm v;
  makeSvm(v, p, VlSvmSolverNone, r);
  std::vector<double> w(p.d);
  for (auto &q : w) q = r.normal();
  double b = p.B ? r.normal() : 0;
  vl_svm_set_model(v.s, w.data()); vl_svm_set_bias(v.s, b);
  if (!close(vl_svm_get_bias(v.s), b, 1e-12, 0) || memcmp(vl_svm_get_model(v.s), w.data(), 8 * p.d)) c.fail("readback", "model or bias not read back");
  Diag D{&c, &p, 0, 1, 1, 0, 0, false, {}, 0, 0, 0};
  vl_svm_train(v.s);
  judgeStats(v.s, D);
  if (D.bad) c.fail(D.bad, "%.17g, expected %.17g", D.badA, D.badB);
  if (!close(vl_svm_get_bias(v.s), b, 1e-12, 0) || memcmp(vl_svm_get_model(v.s), w.data(), 8 * p.d)) c.fail("changed", "evaluation changed the model");
  if (vl_svm_get_statistics(v.s)->status != VlSvmStatusConverged) c.fail("status", "status %d", (int)vl_svm_get_statistics(v.s)->status);
  // settings are read back
  vl_svm_set_epsilon(v.s, .25); vl_svm_set_bias_learning_rate(v.s, .125); vl_svm_set_max_num_iterations(v.s, 7); vl_svm_set_diagnostic_frequency(v.s, 3); vl_svm_set_iteration_number(v.s, 9);
  if (vl_svm_get_lambda(v.s) != p.lambda || vl_svm_get_epsilon(v.s) != .25 || vl_svm_get_bias_learning_rate(v.s) != .125 || vl_svm_get_max_num_iterations(v.s) != 7 || vl_svm_get_diagnostic_frequency(v.s) != 3 || vl_svm_get_iteration_number(v.s) != 9 ||
      vl_svm_get_bias_multiplier(v.s) != p.B || (long)vl_svm_get_dimension(v.s) != p.d || (long)vl_svm_get_num_data(v.s) != p.n || vl_svm_get_solver(v.s) != VlSvmSolverNone || vl_svm_get_weights(v.s) != (p.w.empty() ? 0 : p.w.data()))
    c.fail("settings", "a setting is not read back");
  c.nontrivial(p.x, (uint64_t)p.k);
}

// ------------------------------------------------------------------ C24
struct RefMap {
  int kernel, window; double gamma, period, L; long order, sub;
  std::vector<double> kappa; std::vector<long> freq;
  double spectrum(double w) const {
    double s = 1 / cosh(M_PI * w);
    switch (kernel) { case VlHomogeneousKernelIntersection: return 2 / M_PI / (1 + 4 * w * w); case VlHomogeneousKernelChi2: return s; default: return 2 / log(4.) * s / (1 + 4 * w * w); }
  }
  double smooth(double w) const {
    if (window == VlHomogeneousKernelMapWindowUniform) return spectrum(w);
    double range = 2 / (period * 1e-2), dw = 2 * range / 2049, k = 0, o;
    for (o = -range; o <= range; o += dw) { double z = period / 2 * o; k += (z == 0 ? 1 : sin(z) / z) * period / (2 * M_PI) * spectrum(o + w); }
    return std::max(0., k * dw);
  }
  RefMap(int k, double g, long n, double per, int w) : kernel(k), window(w), gamma(g), period(per), order(n), sub(8 + 8 * n) {
    if (!(period > 0)) {
      bool u = w == VlHomogeneousKernelMapWindowUniform;
      switch (k) { case VlHomogeneousKernelChi2: period = u ? 5.86 * sqrt((double)n) + 3.65 : 8.80 * sqrt(n + 4.44) - 12.6; break;
        case VlHomogeneousKernelJS: period = u ? 6.64 * sqrt((double)n) + 7.24 : 9.63 * sqrt(n + 1.) - 2.93; break;
        default: period = u ? 2.38 * log(n + .8) + 5.6 : 2 * log(n + .99) + 3.52; }
      period = std::max(period, 1.);
    }
    L = 2 * M_PI / period;
    long j = 0;
    for (long i = 0; i <= order;) { double v = smooth(j * L); if ((long)kappa.size() <= i) kappa.push_back(v), freq.push_back(j); else kappa[i] = v, freq[i] = j; ++j; if (v > 0 || j >= 3 * i) ++i; }
  }
  void at(double x, std::vector<double> &f) const {
    f.resize(2 * order + 1);
    double a = L * pow(x, gamma), l = L * log(x);
    f[0] = sqrt(a * kappa[0]);
    for (long j = 1; j <= order; ++j) { double s = sqrt(2 * a * kappa[j]); f[2 * j - 1] = s * cos(freq[j] * l); f[2 * j] = s * sin(freq[j] * l); }
  }
  // linear interpolation between the samples of an octave
  void eval(double x, std::vector<double> &f) const {
    f.assign(2 * order + 1, 0);
    double ax = fabs(x), sg = x < 0 ? -1 : 1;
    if (!(ax >= ldexp(1, -20)) || ax >= 256) return;
    int e = ilogb(ax);
    double m = (ldexp(ax, -e) - 1) * sub, k = floor(m), t = m - k;
    std::vector<double> p, q;
    at(ldexp(1 + k / sub, e), p); at(ldexp(1 + (k + 1) / sub, e), q);
    for (size_t i = 0; i < f.size(); ++i) f[i] = sg * (p[i] + t * (q[i] - p[i]));
  }
};
static double kernel1(int k, double x, double y) {
  switch (k) { case VlHomogeneousKernelIntersection: return std::min(x, y); case VlHomogeneousKernelChi2: return x + y > 0 ? 2 * x * y / (x + y) : 0;
    default: { double s = 0; if (x > 0) s += x * log2((x + y) / x); if (y > 0) s += y * log2((x + y) / y); return .5 * s; } }
}
struct Hom { VlHomogeneousKernelMap *h; ~Hom() { if (h) vl_homogeneouskernelmap_delete(h); } };
static double hx(Rng &r) {
  switch (r.range(0, 6)) { case 0: return 0; case 1: return r.uni(); case 2: return -r.uni(); case 3: return ldexp(r.chance(.5) ? 1 : 1 + r.uni(), (int)r.range(-24, 9)); case 4: return ldexp(1 + r.range(0, 15) / 16., (int)r.range(-20, 7)) * (1 + r.range(-1, 1) * 2.3e-16);
    case 5: return -ldexp(1 + r.uni(), (int)r.range(-20, 7)); default: return r.uni(0, 10); }
}
VT_GROUP(C24, map, 6000, 60000) {
  Rng &r = c.rng;
  int k = (int)r.range(0, 2), w = (int)r.range(0, 1);
  long order = r.range(0, 5);
  double gamma = r.pick({1., 1., .5, 2., 1.3}), period = r.chance(.6) ? -1 : r.chance(.1) ? 0 : r.uni(2, 30);
  c.desc("kernel=%d window=%d gamma=%g order=%ld period=%g", k, w, gamma, order, period);
  RefMap R(k, gamma, order, period, w);
  Hom H{vl_homogeneouskernelmap_new((VlHomogeneousKernelType)k, gamma, order, period, (VlHomogeneousKernelMapWindowType)w)};
  if (!H.h) c.fail("null", "no object");
  if ((long)vl_homogeneouskernelmap_get_order(H.h) != order || (long)vl_homogeneouskernelmap_get_dimension(H.h) != 2 * order + 1 || (int)vl_homogeneouskernelmap_get_kernel_type(H.h) != k || (int)vl_homogeneouskernelmap_get_window_type(H.h) != w)
    c.fail("getters", "a parameter is not read back");
  bool edge = false;
  for (long i = 0; i <= order; ++i) if (R.kappa[i] > 0 ? R.kappa[i] < 1e-10 : true) edge = edge || (w == 1); // the choice of frequencies hangs on rounding
  std::vector<double> f, g, h;
  long dim = 2 * order + 1;
  for (int t = 0; t < 30; ++t) {
    double x = hx(r);
    long st = r.range(1, 3);
    R.eval(x, f);
    double tol = 1e-9 * sqrt(R.L * pow(fabs(x) + 1e-300, gamma)) + 1e-14;
    if (r.chance(.5)) {
      Guarded<double> o(dim * st, 4, -7e77);
      for (auto &v : o.v) v = -7e77;
      vl_homogeneouskernelmap_evaluate_d(H.h, o.data(), st, x);
      if (!o.intact()) c.fail("outside", "wrote outside the destination");
      for (long i = 0; i < dim * st; ++i) {
        if (i % st) { if (o.data()[i] != -7e77) c.fail("stride", "wrote between the strides"); continue; }
        if (!edge && !(fabs(o.data()[i] - f[i / st]) <= tol)) c.fail("feature", "x=%.17g component %ld is %.17g, expected %.17g", x, i / st, o.data()[i], f[i / st]);
      }
    } else {
      Guarded<float> o(dim * st, 4, -7e33f);
      for (auto &v : o.v) v = -7e33f;
      vl_homogeneouskernelmap_evaluate_f(H.h, o.data(), st, x);
      if (!o.intact()) c.fail("outside", "wrote outside the destination");
      for (long i = 0; i < dim * st; ++i) {
        if (i % st) { if (o.data()[i] != -7e33f) c.fail("stride", "wrote between the strides"); continue; }
        if (!edge && !(fabs(o.data()[i] - f[i / st]) <= tol + 2e-7 * fabs(f[i / st]))) c.fail("feature", "x=%.17g component %ld is %.17g, expected %.17g", x, i / st, (double)o.data()[i], f[i / st]);
      }
    }
    c.count("features judged");
  }
  if (edge) c.count("frequency choice ambiguous");
  // sign rule
  double x = r.uni(.01, 5);
  g.resize(dim); h.resize(dim);
  vl_homogeneouskernelmap_evaluate_d(H.h, g.data(), 1, x);
  vl_homogeneouskernelmap_evaluate_d(H.h, h.data(), 1, -x);
  for (long i = 0; i < dim; ++i) if (g[i] != -h[i]) c.fail("sign", "feature of -x is not minus the feature of x");
  // the kernel itself, with the default period and enough terms
  if (period < 0 && order >= 3) {
    double y = x * exp(r.uni(-1, 1)), s = 0;
    vl_homogeneouskernelmap_evaluate_d(H.h, h.data(), 1, y);
    for (long i = 0; i < dim; ++i) s += g[i] * h[i];
    double want = kernel1(k, x, y) * pow(x * y, (gamma - 1) / 2), err = fabs(s - want) / pow(x * y, gamma / 2);
    if (!(err < .15)) c.fail("kernel", "inner product %g for x=%g y=%g, kernel %g", s, x, y, want);
    c.count("kernel values approximated");
  }
  c.nontrivial(fnv(&gamma, 8, fnv(&period, 8) ^ (uint64_t)(k * 100 + w * 50 + order)));
}
VT_GROUP(C24, dataset, 6000, 60000) {
  Rng &r = c.rng;
  long n = r.range(1, 20), d = r.range(1, 8);
  bool f32 = r.chance(.5), hom = r.chance(.6);
  std::vector<double> x(n * d);
  for (auto &v : x) v = hx(r);
  std::vector<float> xf(x.begin(), x.end());
  if (f32) x.assign(xf.begin(), xf.end());
  long order = r.range(0, 3);
  c.desc("n=%ld d=%ld float=%d hom=%d order=%ld", n, d, f32, hom, order);
  Hom H{0};
  struct DS { VlSvmDataset *s; ~DS() { vl_svmdataset_delete(s); } } S{vl_svmdataset_new(f32 ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, f32 ? (void *)xf.data() : (void *)x.data(), d, n)};
  int k = (int)r.range(0, 2);
  if (hom) {
    H.h = vl_homogeneouskernelmap_new((VlHomogeneousKernelType)k, 1, order, -1, VlHomogeneousKernelMapWindowRectangular);
    vl_svmdataset_set_homogeneous_kernel_map(S.s, H.h);
    if (r.chance(.2)) { // replaced, removed and set again
      Hom H2{vl_homogeneouskernelmap_new((VlHomogeneousKernelType)k, 1, order + 1, -1, VlHomogeneousKernelMapWindowUniform)};
      vl_svmdataset_set_homogeneous_kernel_map(S.s, H2.h);
      if (r.chance(.5)) vl_svmdataset_set_homogeneous_kernel_map(S.s, 0);
      vl_svmdataset_set_homogeneous_kernel_map(S.s, H.h);
    }
  }
  long dim = hom ? 2 * order + 1 : 1;
  if ((long)vl_svmdataset_get_dimension(S.s) != d * dim || (long)vl_svmdataset_get_num_data(S.s) != n || vl_svmdataset_get_homogeneous_kernel_map(S.s) != H.h || vl_svmdataset_get_data(S.s) != (f32 ? (void *)xf.data() : (void *)x.data()))
    c.fail("getters", "a parameter is not read back");
  VlSvmInnerProductFunction ip = vl_svmdataset_get_inner_product_function(S.s);
  VlSvmAccumulateFunction ac = vl_svmdataset_get_accumulate_function(S.s);
  for (int t = 0; t < 6; ++t) {
    long i = r.range(0, n - 1);
    std::vector<double> e(d * dim), m(d * dim);
    for (long q = 0; q < d; ++q) {
      if (!hom) e[q] = x[i * d + q];
      else if (f32) { std::vector<float> o(dim); vl_homogeneouskernelmap_evaluate_f(H.h, o.data(), 1, xf[i * d + q]); for (long u = 0; u < dim; ++u) e[q * dim + u] = o[u]; }
      else vl_homogeneouskernelmap_evaluate_d(H.h, &e[q * dim], 1, x[i * d + q]);
    }
    for (auto &v : m) v = r.normal();
    double s = 0, mag = 0, mu = r.normal();
    for (long q = 0; q < d * dim; ++q) s += e[q] * m[q], mag += fabs(e[q] * m[q]);
    double got = ip(S.s, i, m.data());
    if (!(fabs(got - s) <= 1e-12 * mag + 1e-300)) c.fail("inner", "inner product %.17g, explicit %.17g", got, s);
    Guarded<double> a(d * dim, 3, 4.5e55);
    for (long q = 0; q < d * dim; ++q) a.data()[q] = m[q];
    ac(S.s, i, a.data(), mu);
    if (!a.intact()) c.fail("outside", "accumulate wrote outside the model");
    for (long q = 0; q < d * dim; ++q) if (!close(a.data()[q], m[q] + mu * e[q], 1e-12, 1e-12 * fabs(m[q]))) c.fail("accumulate", "component %ld is %.17g, expected %.17g", q, a.data()[q], m[q] + mu * e[q]);
    c.count("products judged");
  }
  c.nontrivial(x, (uint64_t)hom);
}
