// C43: allocations that fail are reported as documented and lose nothing.
// C44: verbosity and the print function only report.
// C45: calls abandoned inside the allocator can be forgotten by releasing the
// memory (the allocator leaves them with an exception, as Matlab's does).
#include "tasks.h"
#include <cerrno>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include <vl/pgm.h>
}
using namespace vt;

extern "C" { extern long vt_raw_live __attribute__((weak)); }
#define vt_raw_live_ (&vt_raw_live)
static void need() { if (!st().accounting) throw Skip(); }
// the k-th allocation from now fails (and the following `more`)
struct Fail {
  long n;
  Fail(long k, int mode, long more = 0) : n(1 + more) { st().failAt = k; st().failsLeft = 1 + more; st().failMode = mode; }
  bool fired() const { return st().failsLeft < n; }
  ~Fail() { st().failAt = 0; }
};
// number of blocks that one run of f takes
template <class F> static long allocations(F f) { long a = st().allocs; f(); return st().allocs - a; }

// A constructor: for every k, when the k-th of its allocations fails, it
// returns NULL and holds nothing; afterwards it works as before.
template <class New, class Delete> static void constructor(Ctx &c, char const *name, New mk, Delete del) {
  long n = allocations([&]() { auto *p = mk(); if (!p) c.fail("null", "%s returned NULL without any failure", name); del(p); });
  if (!n) throw Skip();
  long tries = std::min(n, 12L);
  for (long i = 0; i < tries; ++i) {
    long k = n <= 12 ? i + 1 : c.rng.range(1, n);
    long live = st().liveBlocks;
    decltype(mk()) p;
    bool fired;
    { Fail f(k, FAIL_NULL, c.rng.chance(.3) ? 1000 : 0); p = mk(); fired = f.fired(); }
    c.count("allocation failures injected");
    if (p) { del(p); c.fail("fault.notnull", "%s returned an object although its allocation %ld of %ld failed", name, k, n); }
    if (!fired) c.fail("fault.count", "%s gave up before its allocation %ld of %ld", name, k, n);
    if (st().liveBlocks != live) c.fail("fault.leak", "%s returned NULL because allocation %ld of %ld failed, and lost %ld blocks", name, k, n, st().liveBlocks - live);
  }
  auto *p = mk();
  if (!p) c.fail("fault.after", "%s returned NULL after a failure in the past", name);
  del(p);
}

static VlScaleSpaceGeometry geometry(Rng &r, long w, long h) {
  VlScaleSpaceGeometry g = vl_scalespace_get_default_geometry(w, h);
  g.firstOctave = r.range(-1, 1);
  g.lastOctave = g.firstOctave + r.range(0, 3);
  g.octaveResolution = r.range(1, 4);
  g.octaveFirstSubdivision = r.range(-1, 0);
  g.octaveLastSubdivision = g.octaveFirstSubdivision + r.range(0, 5);
  return g;
}

VT_GROUP(C43, constructors, 400, 20000, 0) {
  need();
  Rng &r = c.rng;
  int kind = (int)(c.idx % 9);
  long d = r.range(1, 9), n = r.range(1, 30), w = r.range(8, 60), h = r.range(8, 60);
  std::vector<double> x = points<double>(r, d, n), y(n);
  for (auto &v : y) v = r.chance(.5) ? 1 : -1;
  VlSvmSolverType solver = r.pick({VlSvmSolverSgd, VlSvmSolverSdca});
  c.nontrivial(x, kind);
  switch (kind) {
  case 0: c.desc("scale space %ldx%ld", w, h); constructor(c, "vl_scalespace_new", [&]() { return vl_scalespace_new(w, h); }, vl_scalespace_delete); break;
  case 1: { VlScaleSpaceGeometry g = geometry(r, w, h); c.desc("scale space %ldx%ld octaves %ld..%ld", w, h, (long)g.firstOctave, (long)g.lastOctave);
    constructor(c, "vl_scalespace_new_with_geometry", [&]() { return vl_scalespace_new_with_geometry(g); }, vl_scalespace_delete); break; }
  case 2: case 3: {
    VlScaleSpaceGeometry g = geometry(r, w, h);
    c.desc("copy of a scale space %ldx%ld octaves %ld..%ld", w, h, (long)g.firstOctave, (long)g.lastOctave);
    VlScaleSpace *s = vl_scalespace_new_with_geometry(g);
    std::vector<float> im = image<float>(r, w, h, 0, 1);
    vl_scalespace_put_image(s, im.data());
    struct D { VlScaleSpace *s; ~D() { vl_scalespace_delete(s); } } del{s};
    constructor(c, kind == 2 ? "vl_scalespace_new_copy" : "vl_scalespace_new_shallow_copy", [&]() { return kind == 2 ? vl_scalespace_new_copy(s) : vl_scalespace_new_shallow_copy(s); }, vl_scalespace_delete);
    break; }
  case 4: { int t = (int)r.range(0, 2), win = (int)r.range(0, 1); long o = r.range(0, 5); c.desc("kernel map of order %ld", o);
    constructor(c, "vl_homogeneouskernelmap_new", [&]() { return vl_homogeneouskernelmap_new((VlHomogeneousKernelType)t, 1, o, -1, (VlHomogeneousKernelMapWindowType)win); }, vl_homogeneouskernelmap_delete); break; }
  case 5: c.desc("LBP"); constructor(c, "vl_lbp_new", [&]() { return vl_lbp_new(VlLbpUniform, VL_FALSE); }, vl_lbp_delete); break;
  case 6: c.desc("SVM with %ld samples, solver %d", n, (int)solver); constructor(c, "vl_svm_new", [&]() { return vl_svm_new(solver, x.data(), d, n, y.data(), .01); }, vl_svm_delete); break;
  case 7: {
    c.desc("SVM with a data set of %ld samples, solver %d", n, (int)solver);
    VlSvmDataset *ds = vl_svmdataset_new(VL_TYPE_DOUBLE, x.data(), d, n);
    struct D { VlSvmDataset *s; ~D() { vl_svmdataset_delete(s); } } del{ds};
    constructor(c, "vl_svm_new_with_dataset", [&]() { return vl_svm_new_with_dataset(solver, ds, y.data(), .01); }, vl_svm_delete);
    break; }
  default: c.desc("SVM data set"); constructor(c, "vl_svmdataset_new", [&]() { return vl_svmdataset_new(VL_TYPE_DOUBLE, x.data(), d, n); }, vl_svmdataset_delete); break;
  }
}

// the list of features: a failing append leaves the list as it was
VT_GROUP(C43, append, 60, 3000, 0) {
  need();
  Rng &r = c.rng;
  VlCovDet *d = vl_covdet_new(VL_COVDET_METHOD_DOG);
  struct D { VlCovDet *s; ~D() { vl_covdet_delete(s); } } del{d};
  long n = 0, fails = 0, total = r.range(1, 3500);
  std::vector<double> want;
  double pf = r.pick({.002, .1, 1.});
  for (long i = 0; i < total; ++i) {
    VlCovDetFeature f;
    memset(&f, 0, sizeof f);
    f.peakScore = (float)i;
    int e; bool fired;
    { Fail x(r.chance(pf) ? 1 : 0, FAIL_NULL); bool armed = st().failAt; e = vl_covdet_append_feature(d, &f); fired = armed && x.fired(); }
    if (fired ? e != VL_ERR_ALLOC : e != VL_ERR_OK) c.fail("append.status", "vl_covdet_append_feature returned %d where allocation %s", e, fired ? "failed" : "succeeded");
    if (!fired) { ++n; want.push_back(f.peakScore); } else { ++fails; c.count("allocation failures injected"); }
    if (vl_covdet_get_num_features(d) != (vl_size)n) c.fail("append.count", "%ld features after %ld appends of which %ld failed", (long)vl_covdet_get_num_features(d), i + 1, fails);
    if (pf == 1 && fails == 30) break;
  }
  VlCovDetFeature *f = (VlCovDetFeature *)vl_covdet_get_features(d);
  for (long i = 0; i < n; ++i) if (f[i].peakScore != (float)want[i]) c.fail("append.lost", "feature %ld of %ld is not the one appended", i, n);
  c.desc("%ld appends of which %ld fail", total, fails);
  if (fails) c.nontrivial((uint64_t)total * 31 + fails);
}

static bool sameLevels(VlScaleSpace const *a, VlScaleSpace const *b) {
  VlScaleSpaceGeometry g = vl_scalespace_get_geometry(a);
  for (vl_index o = g.firstOctave; o <= g.lastOctave; ++o)
    for (vl_index s = g.octaveFirstSubdivision; s <= g.octaveLastSubdivision; ++s) {
      VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(a, o);
      if (memcmp(vl_scalespace_get_level_const(a, o, s), vl_scalespace_get_level_const(b, o, s), sizeof(float) * og.width * og.height)) return false;
    }
  return true;
}

// images whose scale space cannot be allocated
VT_GROUP(C43, put_image, 120, 6000, 0) {
  need();
  Rng &r = c.rng;
  VlCovDetMethod m = (VlCovDetMethod)r.range(VL_COVDET_METHOD_DOG, VL_COVDET_METHOD_MULTISCALE_HARRIS);
  VlCovDet *d = vl_covdet_new(m);
  struct D { VlCovDet *s; ~D() { vl_covdet_delete(s); } } del{d};
  long fo = r.range(-1, 0), prev = r.range(0, 2), w = 0, h = 0;
  vl_covdet_set_first_octave(d, fo);
  for (long i = 0; i < prev; ++i) {
    w = r.range(16, 48); h = r.range(16, 48);
    std::vector<float> im = image<float>(r, w, h, 0, 1);
    vl_covdet_put_image(d, im.data(), w, h);
    if (r.chance(.5)) vl_covdet_detect(d);
  }
  w += r.range(16, 24); h += r.range(16, 24);   // another geometry
  std::vector<float> im = image<float>(r, w, h, 0, 1);
  c.desc("method %d, %ld images before, then %ldx%ld", (int)m, prev, w, h);
  // the scale space takes its own blocks first: an object, a list, one block per octave
  VlCovDet *ref = vl_covdet_new(m);
  struct D2 { VlCovDet *s; ~D2() { vl_covdet_delete(s); } } del2{ref};
  vl_covdet_set_first_octave(ref, fo);
  if (vl_covdet_put_image(ref, im.data(), w, h) != VL_ERR_OK) c.fail("status", "vl_covdet_put_image fails without reason");
  VlScaleSpaceGeometry g = vl_scalespace_get_geometry(vl_covdet_get_gss(ref));
  long n = 2 + (long)(g.lastOctave - g.firstOctave + 1);
  for (long t = r.range(1, 3); t > 0; --t) {
    long k = r.range(1, n);
    long live = st().liveBlocks;
    bool had = vl_covdet_get_gss(d) != 0;
    long held = had ? 2 + (long)(vl_scalespace_get_geometry(vl_covdet_get_gss(d)).lastOctave - vl_scalespace_get_geometry(vl_covdet_get_gss(d)).firstOctave + 1) : 0;
    int e;
    { Fail f(k, FAIL_NULL); e = vl_covdet_put_image(d, im.data(), w, h); }
    c.count("allocation failures injected");
    if (e != VL_ERR_ALLOC) c.fail("put.status", "vl_covdet_put_image returned %d although allocation %ld of its scale space failed", e, k);
    if (st().liveBlocks != live && st().liveBlocks != live - held) c.fail("put.leak", "vl_covdet_put_image failed at allocation %ld of %ld and lost %ld blocks", k, n, st().liveBlocks - (live - held));
  }
  if (r.chance(.7)) {
    if (vl_covdet_put_image(d, im.data(), w, h) != VL_ERR_OK) c.fail("put.after", "vl_covdet_put_image fails once memory is available again");
    if (!sameLevels(vl_covdet_get_gss(d), vl_covdet_get_gss(ref))) c.fail("put.result", "the scale space after a failed allocation is not that of a new detector");
    vl_covdet_detect(d); vl_covdet_detect(ref);
    if (prev == 0 && vl_covdet_get_num_features(d) != vl_covdet_get_num_features(ref)) c.fail("put.detect", "%ld features after a failed allocation, %ld from a new detector", (long)vl_covdet_get_num_features(d), (long)vl_covdet_get_num_features(ref));
  }
  c.nontrivial(im, m);
}

// patches reaching outside of the image need a buffer
VT_GROUP(C43, patch, 120, 6000, 0) {
  need();
  Rng &r = c.rng;
  long w = r.range(20, 40), h = r.range(20, 40);
  std::vector<float> im = image<float>(r, w, h, 0, 1);
  VlCovDet *d = vl_covdet_new(VL_COVDET_METHOD_DOG);
  struct D { VlCovDet *s; ~D() { vl_covdet_delete(s); } } del{d};
  vl_covdet_put_image(d, im.data(), w, h);
  VlFrameOrientedEllipse f;
  f.x = r.pick({0.f, (float)w - 1}); f.y = (float)r.uni(0, h - 1);
  f.a11 = f.a22 = (float)r.uni(2, 4); f.a12 = f.a21 = 0;
  int what = (int)r.range(0, 3);
  c.desc("frame at %g,%g of a %ldx%ld image, call %d", f.x, f.y, w, h, what);
  std::vector<float> p(41 * 41);
  long live = st().liveBlocks;
  auto run = [&](bool fail) {
    Fail x(fail ? 1 : 0, FAIL_NULL);
    vl_size n = 0;
    VlFrameOrientedEllipse g;
    switch (what) {
    case 0: return vl_covdet_extract_patch_for_frame(d, p.data(), 20, 3, 1, f) == VL_ERR_OK;
    case 1: return vl_covdet_extract_orientations_for_frame(d, &n, f) != NULL;
    case 2: return vl_covdet_extract_laplacian_scales_for_frame(d, &n, f) != NULL;
    default: return vl_covdet_extract_affine_shape_for_frame(d, &g, f) == VL_ERR_OK;
    }
  };
  bool ok = run(true);
  c.count("allocation failures injected");
  if (ok) c.fail("patch.status", "call %d succeeded although its buffer could not be allocated", what);
  if (st().liveBlocks != live) c.fail("patch.leak", "call %d failed and lost %ld blocks", what, st().liveBlocks - live);
  bool after = run(false);
  if (what != 3 && !after) c.fail("patch.after", "call %d fails once memory is available again", what);
  c.nontrivial(im, what);
}

// files and strings
VT_GROUP(C43, files, 120, 6000, 0) {
  need();
  Rng &r = c.rng;
  long w = r.range(1, 20), h = r.range(1, 20);
  int what = (int)r.range(0, 4);
  c.desc("%ldx%ld, call %d", w, h, what);
  std::vector<vl_uint8> px(w * h);
  for (auto &v : px) v = (vl_uint8)r.range(0, 255);
  char name[64];
  int fd = memfd_create("pgm", 0);
  snprintf(name, sizeof name, "/proc/self/fd/%d", fd);
  struct Close { int fd; ~Close() { close(fd); } } cl{fd};
  vl_pgm_write(name, px.data(), (int)w, (int)h);
  long fds = dup(0); if (fds >= 0) close((int)fds);
  VlPgmImage pi;
  vl_uint8 *d8 = 0; float *df = 0; char *str = 0;
  auto call = [&]() -> int {
    switch (what) {
    case 0: return vl_pgm_read_new(name, &pi, &d8);
    case 1: return vl_pgm_read_new_f(name, &pi, &df);
    case 2: str = vl_configuration_to_string_copy(); return str ? 0 : VL_ERR_ALLOC;
    case 3: str = vl_static_configuration_to_string_copy(); return str ? 0 : VL_ERR_ALLOC;
    default: { std::vector<float> f(px.begin(), px.end()); return vl_pgm_write_f(name, f.data(), (int)w, (int)h); }
    }
  };
  auto drop = [&]() { vl_free(what == 0 ? (void *)d8 : what == 1 ? (void *)df : what < 4 ? (void *)str : 0); d8 = 0; df = 0; str = 0; };
  long n = allocations([&]() { if (call()) c.fail("status", "call %d fails without reason", what); }); drop();
  if (!n) throw Skip();
  for (long k = 1; k <= n; ++k) {
    long live = st().liveBlocks;
    int e;
    { Fail f(k, FAIL_NULL); e = call(); }
    c.count("allocation failures injected");
    // the parts of the configuration may be missing from the string
    if (what == 2 && e == 0) { drop(); }
    else if (e != VL_ERR_ALLOC) c.fail("file.status", "call %d returned %d although allocation %ld of %ld failed", what, e, k, n);
    else if (what < 2 && vl_get_last_error() != VL_ERR_ALLOC) c.fail("file.error", "call %d failed for lack of memory but the error is %d", what, vl_get_last_error());
    if (st().liveBlocks != live) c.fail("file.leak", "call %d failed at allocation %ld of %ld and lost %ld blocks", what, k, n, st().liveBlocks - live);
    long f2 = dup(0); if (f2 >= 0) close((int)f2);
    if (f2 != fds) c.fail("file.fd", "call %d failed at allocation %ld of %ld and left a file open", what, k, n);
  }
  c.nontrivial(px, what);
}

// ---------------------------------------------------------------- C45
VT_GROUP(C45, abandon, 400, 20000, 0) {
  need();
  Rng &r = c.rng;
  int k = (int)(c.idx % NTASKS);
  uint64_t seed = r.u64(), seed2 = r.u64();
  int other = (int)r.range(0, NTASKS - 1);
  auto run = [&](int t, uint64_t s) { Rng q; q.seed(s); return TASKS[t].f(q); };
  uint64_t h2 = run(other, seed2), h = 0;
  long n = allocations([&]() { h = run(k, seed); });
  c.desc("the %s workload, %ld allocations", TASKS[k].name, n);
  if (!n) throw Skip();
  bool simd = vl_get_simd_enabled();
  vl_size maxThreads = vl_get_max_threads();
  for (long t = r.range(1, 4); t > 0; --t) {
    long at = r.chance(.2) ? n : r.chance(.2) ? 1 : r.range(1, n);
    long live = st().liveBlocks, raw = vt_raw_live_ ? *vt_raw_live_ : 0;
    bool left = false;
    st().track = true;
    { Fail f(at, FAIL_THROW); try { run(k, seed); } catch (Abandoned &) { left = true; } }
    if (!left) c.fail("abandon.count", "the %s workload took other allocations when it was run again", TASKS[k].name);
    c.count("calls abandoned");
    c.count("blocks released for abandoned calls", (double)st().blocks.size());
    disposeAll();
    st().track = false;
    if (st().liveBlocks != live) c.fail("abandon.blocks", "%ld blocks of an abandoned call cannot be accounted for", st().liveBlocks - live);
    if (vt_raw_live_ && *vt_raw_live_ > raw) c.fail("abandon.raw", "the abandoned %s workload held %ld blocks taken from the C library directly", TASKS[k].name, *vt_raw_live_ - raw);
    if (vl_get_simd_enabled() != simd || vl_get_max_threads() != maxThreads) c.fail("abandon.settings", "an abandoned call changed the settings of the library");
    if (r.chance(.5) && run(other, seed2) != h2) c.fail("abandon.other", "the %s workload gives another result after an abandoned %s workload", TASKS[other].name, TASKS[k].name);
  }
  if (run(k, seed) != h) c.fail("abandon.same", "the %s workload gives another result after it was abandoned", TASKS[k].name);
  c.nontrivial(h ^ (uint64_t)k);
}

// ---------------------------------------------------------------- C44
static long printed, printedBytes;
static char lastLine[200];
static int recorder(char const *fmt, ...) {
  static char b[8192];
  va_list a; va_start(a, fmt);
  int n = vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  ++printed; printedBytes += n;
  snprintf(lastLine, sizeof lastLine, "%s", b);
  return n;
}
struct Capture {   // what is written to the standard files meanwhile
  int fd, o, e;
  Capture() { fflush(stdout); fflush(stderr); fd = memfd_create("out", 0); o = dup(1); e = dup(2); dup2(fd, 1); dup2(fd, 2); }
  long end() { fflush(stdout); fflush(stderr); long n = lseek(fd, 0, SEEK_END); dup2(o, 1); dup2(e, 2); close(o); close(e); o = -1; return n; }
  ~Capture() { if (o >= 0) end(); close(fd); }
};

VT_GROUP(C44, verbosity, 400, 20000, 0) {
  Rng &r = c.rng;
  static char const *const names[] = {"kmeans", "gmm", "ikmeans", "aib", 0};
  int k = (int)r.range(0, NTASKS - 1);
  bool has = r.chance(.8);
  if (has) { char const *w = names[c.idx % 4]; for (int i = 0; i < NTASKS; ++i) if (!strcmp(TASKS[i].name, w)) k = i; }
  uint64_t seed = r.u64();
  auto run = [&]() { Rng q; q.seed(seed); return TASKS[k].f(q); };
  printf_func_t old = vl_get_printf_func();
  struct Back { printf_func_t f; ~Back() { vl_set_printf_func(f); verbosity() = 0; } } back{old};
  printed = printedBytes = 0;
  vl_set_printf_func(recorder);
  if (vl_get_printf_func() != recorder) c.fail("printf.get", "vl_get_printf_func does not return the function set");
  uint64_t h0, h1; long out;
  { Capture x; h0 = run(); out = x.end(); }
  c.desc("the %s workload", TASKS[k].name);
  if (out) c.fail("stdout", "the %s workload writes %ld bytes to the standard files", TASKS[k].name, out);
  if (printed) c.fail("quiet", "the %s workload prints without being asked: %s", TASKS[k].name, lastLine);
  long p[5] = {0, 0, 0, 0, 0};
  for (int v = 1; v <= 4; ++v) {
    printed = printedBytes = 0;
    verbosity() = v;
    { Capture x; h1 = run(); out = x.end(); }
    if (out) c.fail("verbose.stdout", "the %s workload with verbosity %d writes %ld bytes to the standard files, not through the print function", TASKS[k].name, v, out);
    if (h1 != h0) c.fail("verbose.result", "the %s workload gives another result with verbosity %d", TASKS[k].name, v);
    p[v] = printed;
    c.count("messages through the print function", printed);
  }
  for (int v = 2; v <= 4; ++v) if (p[v] < p[v - 1]) c.fail("verbose.less", "the %s workload reports %ld messages with verbosity %d and %ld with %d", TASKS[k].name, p[v - 1], v - 1, p[v], v);
  // no print function: nothing at all, same results
  vl_set_printf_func(NULL);
  printed = 0;
  verbosity() = (int)r.range(1, 4);
  { Capture x; h1 = run(); out = x.end(); }
  if (out || printed) c.fail("disabled", "logging is disabled but the %s workload printed", TASKS[k].name);
  if (h1 != h0) c.fail("disabled.result", "the %s workload gives another result when logging is disabled", TASKS[k].name);
  c.count("verbose runs compared", 5);
  if (p[4] || !has) c.nontrivial(h0 ^ (uint64_t)k);
}
