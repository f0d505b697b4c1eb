// The command-line drivers (C37), run as separate sanitized processes in a
// scratch directory; the reference is the library called by this process.
#include "vt.h"
#include "gen.h"
#include <cerrno>
#include <cfloat>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include <vl/sift.h>
#include <vl/mser.h>
#include <vl/aib.h>
}
using namespace vt;
typedef std::string Str;

static Str fmt(char const *f, ...) __attribute__((format(printf, 1, 2)));
static Str fmt(char const *f, ...) {
  char b[5000];
  va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  return b;
}
struct Dir {
  char name[64];
  Dir() { strcpy(name, "/tmp/vt-cli-XXXXXX"); if (!mkdtemp(name)) { perror("mkdtemp"); abort(); } }
  ~Dir() { clear(name); rmdir(name); }
  static void clear(Str d) {
    DIR *p = opendir(d.c_str());
    if (!p) return;
    while (dirent *e = readdir(p)) {
      if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
      Str f = d + "/" + e->d_name;
      if (e->d_type == DT_DIR) { clear(f); rmdir(f.c_str()); } else unlink(f.c_str());
    }
    closedir(p);
  }
  Str path(Str f) const { return f[0] == '/' ? f : Str(name) + "/" + f; }
  void put(Str f, Str const &s) const { FILE *h = fopen(path(f).c_str(), "wb"); fwrite(s.data(), 1, s.size(), h); fclose(h); }
  bool has(Str f) const { struct stat s; return !stat(path(f).c_str(), &s); }
  Str get(Str f) const {
    Str s; char b[65536]; size_t n;
    FILE *h = fopen(path(f).c_str(), "rb");
    if (!h) return s;
    while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
    fclose(h);
    return s;
  }
};
struct Out { int code; bool crash, hang; Str out, err; };
static Out run(Ctx &c, Dir const &d, char const *tool, std::vector<Str> const &args) {
  char const *exe = getenv((Str("VT_TOOL_") + tool).c_str());
  if (!exe) { fprintf(stderr, "no tool %s\n", tool); abort(); }
  std::vector<char *> av;
  Str all = tool;
  av.push_back((char *)tool);
  for (auto &a : args) { av.push_back((char *)a.c_str()); all += " " + a.substr(0, 60); }
  av.push_back(0);
  c.desc("%s", all.substr(0, 380).c_str());
  Str o = d.path(".out"), e = d.path(".err");
  pid_t p = fork();
  if (!p) {
    if (chdir(d.name)) _exit(120);
    int i = open("/dev/null", O_RDONLY), f = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), g = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(i, 0); dup2(f, 1); dup2(g, 2);
    rlimit cpu = {20, 20}, fs = {1 << 28, 1 << 28};
    setrlimit(RLIMIT_CPU, &cpu); setrlimit(RLIMIT_FSIZE, &fs);
    execv(exe, av.data());
    _exit(121);
  }
  Out r;
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  r.hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL);
  r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  r.out = d.get(".out"); r.err = d.get(".err");
  unlink(o.c_str()); unlink(e.c_str());
  r.crash = !WIFEXITED(st) || r.err.find("ERROR: AddressSanitizer") != Str::npos || r.err.find("runtime error") != Str::npos;
  if (r.code == 120 || r.code == 121) { fprintf(stderr, "cannot run %s\n", exe); abort(); }
  c.count("processes run");
  if (r.hang) c.fail("hang", "%s used 20 s of processor time", all.c_str());
  if (r.crash) {
    size_t k = r.err.find("runtime error");
    if (k == Str::npos) k = r.err.find("ERROR: ");
    if (k == Str::npos) k = 0;
    size_t b = r.err.rfind('\n', k); // whole line
    Str line = r.err.substr(b == Str::npos ? 0 : b + 1, 300);
    c.fail((Str("crash-") + tool).c_str(), "status %d: %s", r.code, line.substr(0, line.find('\n')).c_str());
  }
  return r;
}
static void good(Ctx &c, Out const &r) { if (r.code) c.fail("refused", "status %d for a valid call: %s", r.code, r.err.substr(0, 200).c_str()); }
static void bad(Ctx &c, Out const &r, char const *what) {
  if (r.code == 0) c.fail("accepted", "%s: status 0", what);
  if (r.err.empty()) c.fail("silent", "%s: status %d without a diagnostic", what, r.code);
  c.count("bad uses refused");
}
struct Image { int w, h; std::vector<unsigned char> p; };
static Image picture(Rng &r, int lo = 2, int hi = 48) {
  Image q;
  q.w = (int)r.range(lo, hi); q.h = (int)r.range(lo, hi);
  std::vector<double> d = image<double>(r, q.w, q.h, r.chance(.7) ? 0 : 60, r.chance(.7) ? 255 : 180);
  q.p.resize(d.size());
  for (size_t i = 0; i < d.size(); ++i) q.p[i] = (unsigned char)(d[i] < 0 ? 0 : d[i] > 255 ? 255 : d[i]);
  return q;
}
static Str pgm(Rng &r, Image const &q) {
  int max = 255;
  Str s;
  if (r.chance(.75)) { s = fmt(r.chance(.5) ? "P5\n%d %d\n%d\n" : "P5\n# a comment\n%d\n%d # 3 4\n%d\n", q.w, q.h, max); s.append((char const *)q.p.data(), q.p.size()); }
  else { s = fmt("P2 %d %d %d\n", q.w, q.h, max); for (size_t i = 0; i < q.p.size(); ++i) s += fmt("%d%c", q.p[i], i % q.w == (size_t)q.w - 1 ? '\n' : ' '); }
  return s;
}
static uint64_t hash(Str const &s) { return fnv(s.data(), s.size()); }

// --------------------------------------------------------------------- sift
struct Feat { double f[4]; unsigned char d[128]; };
struct Level { int o, s, w, h; std::vector<float> p; };
struct Opt {
  int O, S, omin; double edge, peak, mag; bool orient;
  std::vector<Str> args(Rng &r) const {
    std::vector<Str> a;
    if (O >= 0) a.push_back(r.chance(.5) ? fmt("-O%d", O) : fmt("--octaves=%d", O));
    if (S != 3 || r.chance(.2)) { if (r.chance(.5)) { a.push_back("-S"); a.push_back(fmt("%d", S)); } else a.push_back(fmt("--levels=%d", S)); }
    if (omin != -1 || r.chance(.2)) { if (r.chance(.5)) { a.push_back("--first-octave"); a.push_back(fmt("%d", omin)); } else a.push_back(fmt("--first-octave=%d", omin)); }
    if (edge >= 0) a.push_back(fmt("--edge-thresh=%.17g", edge));
    if (peak >= 0) a.push_back(fmt("--peak-thresh=%.17g", peak));
    if (mag >= 0) a.push_back(fmt("--magnif=%.17g", mag));
    if (orient) a.push_back("--orientations");
    return a;
  }
};
static Opt options(Rng &r, Image const &q) {
  Opt o;
  o.O = r.chance(.6) ? -1 : (int)r.range(0, 4);
  o.S = r.chance(.6) ? 3 : (int)r.range(1, 5);
  o.omin = r.chance(.5) ? -1 : r.chance(.6) ? 0 : (int)r.range(0, 1);
  if (q.w < 4 || q.h < 4) o.omin = -1;
  o.edge = r.chance(.5) ? -1 : r.uni(1, 20);
  o.peak = r.chance(.5) ? -1 : r.chance(.3) ? 0 : r.uni(0, 4);
  o.mag = r.chance(.6) ? -1 : r.uni(1, 6);
  o.orient = false;
  return o;
}
// what the library computes; frames = 0: detected, else read
static std::vector<Feat> features(Image const &q, Opt const &o, std::vector<double> const *frames, std::vector<Level> *gss) {
  std::vector<Feat> v;
  std::vector<float> im(q.p.begin(), q.p.end());
  VlSiftFilt *f = vl_sift_new(q.w, q.h, o.O, o.S, o.omin);
  if (o.edge >= 0) vl_sift_set_edge_thresh(f, o.edge);
  if (o.peak >= 0) vl_sift_set_peak_thresh(f, o.peak);
  if (o.mag >= 0) vl_sift_set_magnif(f, o.mag);
  for (int e = vl_sift_process_first_octave(f, im.data()); !e; e = vl_sift_process_next_octave(f)) {
    if (gss) for (int s = 0; s < o.S; ++s) {
      float const *p = vl_sift_get_octave(f, s);
      Level l = {vl_sift_get_octave_index(f), s, vl_sift_get_octave_width(f), vl_sift_get_octave_height(f), {}};
      l.p.assign(p, p + (size_t)l.w * l.h);
      gss->push_back(l);
    }
    int n;
    VlSiftKeypoint const *keys = 0;
    if (frames) n = (int)(frames->size() / 4);
    else { vl_sift_detect(f); n = vl_sift_get_nkeypoints(f); keys = vl_sift_get_keypoints(f); }
    for (int i = 0; i < n; ++i) {
      VlSiftKeypoint k;
      double an[4];
      int na;
      if (frames) {
        double const *g = &(*frames)[4 * (size_t)i];
        vl_sift_keypoint_init(f, &k, g[0], g[1], g[2]);
        if (k.o != vl_sift_get_octave_index(f)) continue;
        if (o.orient) na = vl_sift_calc_keypoint_orientations(f, an, &k);
        else { na = 1; an[0] = g[3]; }
      } else { k = keys[i]; na = vl_sift_calc_keypoint_orientations(f, an, &k); }
      for (int j = 0; j < na; ++j) {
        float d[128];
        Feat t;
        vl_sift_calc_keypoint_descriptor(f, d, &k, an[j]);
        t.f[0] = k.x; t.f[1] = k.y; t.f[2] = k.sigma; t.f[3] = an[j];
        for (int l = 0; l < 128; ++l) { double x = 512. * d[l]; t.d[l] = (unsigned char)(x < 255 ? x : 255); }
        v.push_back(t);
      }
    }
  }
  vl_sift_delete(f);
  return v;
}
static double big8(char const *p) { uint64_t k = 0; for (int i = 0; i < 8; ++i) k = k << 8 | (unsigned char)p[i]; double v; memcpy(&v, &k, 8); return v; }
static Str big8s(double v) { uint64_t k; memcpy(&k, &v, 8); Str s; for (int i = 7; i >= 0; --i) s.push_back((char)(k >> (8 * i))); return s; }
// one output file: nf doubles (4 or 0) and nd bytes (128 or 0) per feature
static void judge(Ctx &c, Str const &s, bool binary, bool fr, bool de, std::vector<Feat> const &v, char const *what) {
  if (binary) {
    size_t rec = (fr ? 32 : 0) + (de ? 128 : 0);
    if (s.size() != rec * v.size()) c.fail("file-size", "%s: binary file of %d bytes, expected %d features of %d", what, (int)s.size(), (int)v.size(), (int)rec);
    for (size_t i = 0; i < v.size(); ++i) {
      char const *p = s.data() + i * rec;
      if (fr) for (int k = 0; k < 4; ++k, p += 8) if (big8(p) != v[i].f[k]) c.fail("frame", "%s: feature %d component %d is %.17g, the library gives %.17g", what, (int)i, k, big8(p), v[i].f[k]);
      if (de) for (int k = 0; k < 128; ++k, ++p) if ((unsigned char)*p != v[i].d[k]) c.fail("descriptor", "%s: feature %d descriptor element %d is %d, the library gives %d", what, (int)i, k, (unsigned char)*p, v[i].d[k]);
    }
  } else {
    char const *p = s.c_str(), *end = p + s.size();
    for (size_t i = 0; i < v.size(); ++i) {
      char const *nl = (char const *)memchr(p, '\n', (size_t)(end - p));
      if (!nl) c.fail("lines", "%s: only %d of %d features", what, (int)i, (int)v.size());
      char *q = (char *)p;
      int want = (fr ? 4 : 0) + (de ? 128 : 0);
      for (int k = 0; k < want; ++k) {
        char *q2;
        double x = strtod(q, &q2);
        if (q2 == q || q2 > nl) c.fail("line", "%s: feature %d has only %d numbers", what, (int)i, k);
        q = q2;
        if (fr && k < 4) { if (!close(x, v[i].f[k], 6e-6, 1e-12)) c.fail("frame", "%s: feature %d component %d is %.9g, the library gives %.9g", what, (int)i, k, x, v[i].f[k]); }
        else if (x != v[i].d[k - (fr ? 4 : 0)]) c.fail("descriptor", "%s: feature %d descriptor element %d is %g, the library gives %d", what, (int)i, k - (fr ? 4 : 0), x, v[i].d[k - (fr ? 4 : 0)]);
      }
      while (q < nl && (*q == ' ' || *q == '\r')) ++q;
      if (q != nl) c.fail("line", "%s: feature %d has more than %d numbers", what, (int)i, want);
      p = nl + 1;
    }
    if (p != end) c.fail("lines", "%s: more than %d features", what, (int)v.size());
  }
  c.count("features compared", (double)v.size());
}
struct Outputs { // which files were asked for
  bool out, frm, dsc, met, gss, bout, bfrm, bdsc;
  Str fout, ffrm, fdsc, fmet, fgss; // names for basename "%"
};
static Str spec(Rng &r, bool &binary, Str pattern, Str &name, Str dflt) {
  // "", "prot://", "pattern", "prot://pattern"
  binary = r.chance(.5);
  bool p = r.chance(.6);
  name = p ? pattern : dflt;
  Str s = binary ? (r.chance(.5) ? "bin://" : "binary://") : r.chance(.5) ? "ascii://" : "";
  return s + (p ? pattern : "");
}
static Outputs outputs(Rng &r, std::vector<Str> &a) {
  Outputs o = {};
  o.fout = "%.sift"; o.ffrm = "%.frame"; o.fdsc = "%.descr"; o.fmet = "%.meta"; o.fgss = "%.pgm";
  bool force = r.chance(.5);
  if (force) { Str s = spec(r, o.bout, "all-%.s", o.fout, o.fout); if (s.empty()) s = "ascii://"; a.push_back(r.chance(.5) ? "--output=" + s : "-o" + s); }
  if (r.chance(.5)) { Str s = spec(r, o.bfrm, "sub/%.fr", o.ffrm, o.ffrm); a.push_back(s.empty() ? "--frames" : "--frames=" + s); o.frm = true; }
  if (r.chance(.5)) { Str s = spec(r, o.bdsc, r.chance(.3) ? "a\\%\\%.de" : "%-%.de", o.fdsc, o.fdsc); a.push_back(s.empty() ? "--descriptors" : "--descriptors=" + s); o.dsc = true; }
  if (r.chance(.3)) { if (r.chance(.5)) { a.push_back("--meta"); } else { a.push_back("--meta=%.mt"); o.fmet = "%.mt"; } o.met = true; }
  if (r.chance(.3)) { if (r.chance(.5)) { a.push_back("--gss"); } else { a.push_back("--gss=g%.gss"); o.fgss = "g%.gss"; } o.gss = true; }
  o.out = force || (!o.frm && !o.dsc);
  return o;
}
static Str subst(Str p, Str base) { Str s; for (char ch : p) if (ch == '%') s += base; else s.push_back(ch); return s; }
static void judgeOutputs(Ctx &c, Dir &d, Outputs const &o, Str base, Str input, std::vector<Feat> const &v, std::vector<Level> const &g, bool orEmpty = false) {
  struct { bool on, bin, fr, de; Str f; char const *n; } w[] = {{o.out, o.bout, true, true, subst(o.fout, base), "output"}, {o.frm, o.bfrm, true, false, subst(o.ffrm, base), "frames"}, {o.dsc, o.bdsc, false, true, subst(o.fdsc, base), "descriptors"}};
  for (auto &x : w) {
    if (d.has(x.f) != x.on) c.fail("files", "%s file '%s' is %s", x.n, x.f.c_str(), x.on ? "missing" : "present though not asked for");
    if (x.on) judge(c, d.get(x.f), x.bin, x.fr, x.de, v, x.n);
  }
  if (o.met) {
    Str m = d.get(subst(o.fmet, base));
    if (m.find("<sift") == Str::npos || m.find(input) == Str::npos || (o.frm && m.find(subst(o.ffrm, base)) == Str::npos) || (o.dsc && m.find(subst(o.fdsc, base)) == Str::npos)) c.fail("meta", "meta file is '%s'", m.substr(0, 200).c_str());
  }
  if (o.gss) for (auto &l : g) {
    Str n = subst(o.fgss, base + fmt("_%02d_%03d", l.o, l.s)), s = d.get(n), head = fmt("P5\n%d\n%d\n255\n", l.w, l.h);
    if (s.size() != head.size() + l.p.size() || s.compare(0, head.size(), head)) c.fail("gss-file", "'%s' has %d bytes, expected a %dx%d image", n.c_str(), (int)s.size(), l.w, l.h);
    for (size_t i = 0; i < l.p.size(); ++i) { float x = l.p[i]; int e = x <= 0 ? 0 : x >= 255 ? 255 : (int)x; if ((unsigned char)s[head.size() + i] != e) c.fail("gss-pixel", "'%s' pixel %d is %d, level has %g", n.c_str(), (int)i, (unsigned char)s[head.size() + i], x); }
    c.count("levels compared");
  }
}

VT_GROUP(C37, sift, 500, 6000, 0) {
  Rng &r = c.rng;
  Dir d;
  mkdir(d.path("sub").c_str(), 0700);
  int n = r.chance(.75) ? 1 : (int)r.range(2, 3);
  std::vector<Image> q;
  std::vector<Str> bases;
  for (int i = 0; i < n; ++i) q.push_back(picture(r, n > 1 ? 4 : 2));
  Opt o = options(r, q[0]);
  if (n > 1) o.omin = std::min(o.omin, 0);
  std::vector<Str> a = o.args(r), files;
  Outputs w = outputs(r, a);
  if (r.chance(.1)) a.push_back(r.chance(.5) ? "-v" : "-vv");
  uint64_t h = 0;
  int broken = n > 1 && r.chance(.5) ? (int)r.range(0, n - 1) : -1; // one of several inputs is bad
  for (int i = 0; i < n; ++i) {
    Str base = fmt(i ? "im%d.x" : r.chance(.5) ? "a%d" : "some.image%d", i), f = (r.chance(.3) ? "sub/" : "") + base + r.pick<char const *>({".pgm", ".p"});
    Str s = pgm(r, q[i]);
    if (i == broken) s.resize((size_t)r.range(0, 8));
    if (i != broken || r.chance(.7)) d.put(f, s);
    bases.push_back(base); files.push_back(f); a.push_back(f);
    h ^= hash(s);
  }
  Out x = run(c, d, "sift", a);
  if (broken >= 0) bad(c, x, "one of the files is bad"); else good(c, x);
  for (int i = 0; i < n; ++i) if (i != broken) {
    std::vector<Level> g;
    std::vector<Feat> v = features(q[i], o, 0, &g);
    judgeOutputs(c, d, w, bases[i], files[i], v, g);
    c.count("images judged");
  }
  for (auto &s : a) h = h * 31 + hash(s);
  c.nontrivial(h);
}

static std::vector<double> someFrames(Rng &r, Image const &q) {
  std::vector<double> f;
  int n = r.chance(.1) ? 0 : (int)r.range(1, r.chance(.1) ? 300 : 12);
  for (int i = 0; i < n; ++i) {
    f.push_back(r.chance(.1) ? r.uni(-20, q.w + 20) : r.chance(.2) ? (double)r.range(0, q.w - 1) : r.uni(0, q.w - 1));
    f.push_back(r.chance(.1) ? r.uni(-20, q.h + 20) : r.chance(.2) ? (double)r.range(0, q.h - 1) : r.uni(0, q.h - 1));
    f.push_back(r.chance(.1) ? pow(10, r.uni(-6, 6)) : pow(2, r.uni(-.5, 4)) * (1 + 1e-9 * i));
    f.push_back(r.chance(.1) ? r.uni(-100, 100) : r.uni(0, 6.2831853));
  }
  return f;
}
static std::vector<double> sorted(std::vector<double> const &f) {
  std::vector<size_t> k(f.size() / 4);
  for (size_t i = 0; i < k.size(); ++i) k[i] = i;
  std::stable_sort(k.begin(), k.end(), [&](size_t a, size_t b) { return f[4 * a + 2] < f[4 * b + 2]; });
  std::vector<double> g;
  for (size_t i : k) g.insert(g.end(), f.begin() + 4 * (long)i, f.begin() + 4 * (long)i + 4);
  return g;
}
static Str frameFile(Rng &r, std::vector<double> const &f, bool binary) {
  Str s;
  for (size_t i = 0; i < f.size(); ++i) if (binary) s += big8s(f[i]); else { if (r.chance(.1)) s += "  "; s += fmt(r.chance(.5) ? "%.17g" : "%.17e", f[i]); s += i % 4 == 3 ? (r.chance(.1) ? "\r\n" : "\n") : r.chance(.1) ? "\t" : " "; }
  if (!binary && !s.empty() && r.chance(.2)) s.resize(s.size() - 1); // no newline at the end
  return s;
}
VT_GROUP(C37, frames, 500, 6000, 0) {
  Rng &r = c.rng;
  Dir d;
  mkdir(d.path("sub").c_str(), 0700);
  Image q = picture(r, 4);
  Opt o = options(r, q);
  if (o.O == 0) o.O = 1;
  d.put("im.pgm", pgm(r, q));
  bool binary = r.chance(.5);
  std::vector<double> f;
  if (r.chance(.5)) { // frames the tool itself wrote
    std::vector<Str> a = o.args(r);
    a.push_back(binary ? "--frames=bin://my-%.f" : "--frames=my-%.f");
    a.push_back("im.pgm");
    good(c, run(c, d, "sift", a));
    Str s = d.get("my-im.f");
    if (binary) for (size_t i = 0; i + 8 <= s.size(); i += 8) f.push_back(big8(s.data() + i));
    else { char *p = (char *)s.c_str(), *e; for (;;) { double v = strtod(p, &e); if (e == p) break; f.push_back(v); p = e; } }
    c.count("lists written by the tool");
  } else {
    f = someFrames(r, q);
    d.put("my-im.f", frameFile(r, f, binary));
  }
  o.orient = r.chance(.4);
  std::vector<Str> a = o.args(r);
  a.push_back(binary ? "--read-frames=bin://my-%.f" : r.chance(.5) ? "--read-frames=ascii://my-%.f" : "--read-frames=my-%.f");
  Outputs w = outputs(r, a);
  if (r.chance(.15)) a.push_back(r.chance(.5) ? "-v" : "-vv");
  a.push_back("im.pgm");
  Out x = run(c, d, "sift", a);
  good(c, x);
  f = sorted(f);
  std::vector<Level> g;
  std::vector<Feat> v = features(q, o, &f, &g);
  // frames of one scale and octave may come in any order: skip those lists
  bool ties = false;
  for (size_t i = 1; i < f.size() / 4; ++i) ties |= f[4 * i + 2] == f[4 * i - 2];
  if (ties && f.size() / 4 != v.size()) ties = true;
  if (ties) { // count only
    Str s = w.frm ? d.get(subst(w.ffrm, "im")) : Str();
    if (w.frm && w.bfrm && s.size() != 32 * v.size()) c.fail("file-size", "%d bytes of frames, expected %d frames", (int)s.size(), (int)v.size());
    c.count("lists with equal scales");
  } else judgeOutputs(c, d, w, "im", "im.pgm", v, g);
  c.count("lists read");
  uint64_t h = fnv(f.data(), f.size() * 8);
  for (auto &s : a) h = h * 31 + hash(s);
  c.nontrivial(h);
}

// --------------------------------------------------------------------- mser
struct Mopt { double delta, maxA, minA, maxV, minD; int bright, dark; };
VT_GROUP(C37, mser, 500, 6000, 0) {
  Rng &r = c.rng;
  Dir d;
  int n = r.chance(.75) ? 1 : (int)r.range(2, 3), broken = n > 1 && r.chance(.5) ? (int)r.range(0, n - 1) : -1;
  Mopt m = {r.chance(.4) ? -1 : (double)r.range(0, r.chance(.8) ? 20 : 255), r.chance(.5) ? -1 : r.uni(0, 1), r.chance(.3) ? -1 : r.uni(0, .1), r.chance(.4) ? -1 : r.uni(0, 5), r.chance(.4) ? -1 : r.uni(0, 1), r.chance(.6) ? -1 : (int)r.range(0, 1), r.chance(.6) ? -1 : (int)r.range(0, 1)};
  if (r.chance(.1)) m.delta = 0;
  for (double *v : {&m.maxA, &m.minA, &m.maxV, &m.minD}) if (r.chance(.1)) *v = v == &m.maxV ? 0 : r.chance(.6) ? 0 : 1;
  std::vector<Str> a;
  if (m.delta >= 0) { if (r.chance(.5)) { a.push_back("-d"); a.push_back(fmt("%g", m.delta)); } else a.push_back(fmt("--delta=%g", m.delta)); }
  if (m.maxA >= 0) a.push_back(fmt("--max-area=%.17g", m.maxA));
  if (m.minA >= 0) a.push_back(fmt("--min-area=%.17g", m.minA));
  if (m.maxV >= 0) a.push_back(fmt("--max-variation=%.17g", m.maxV));
  if (m.minD >= 0) a.push_back(fmt("--min-diversity=%.17g", m.minD));
  if (m.bright >= 0) a.push_back(fmt("--bright-on-dark=%d", m.bright));
  if (m.dark >= 0) a.push_back(fmt("--dark-on-bright=%d", m.dark));
  bool piv = r.chance(.6), frm = r.chance(.6), met = r.chance(.3), bp = false, bf = false;
  Str fp = "%.mser", ff = "%.frame";
  if (piv) { Str s = spec(r, bp, "s-%", fp, fp); a.push_back(s.empty() ? "--seeds" : "--seeds=" + s); }
  if (frm) { Str s = spec(r, bf, "f-%", ff, ff); a.push_back(s.empty() ? "--frames" : "--frames=" + s); }
  if (met) a.push_back("--meta");
  if (!piv && !frm) frm = true;
  std::vector<Image> q;
  uint64_t h = 0;
  for (int i = 0; i < n; ++i) {
    q.push_back(picture(r, 1, 40));
    Str s = pgm(r, q[i]);
    if (i == broken) s.resize((size_t)r.range(0, 8));
    d.put(fmt("im%d.pgm", i), s);
    a.push_back(fmt("im%d.pgm", i));
    h ^= hash(s);
  }
  Out x = run(c, d, "mser", a);
  if (broken >= 0) bad(c, x, "one of the files is bad"); else good(c, x);
  for (int i = 0; i < n; ++i) if (i != broken) {
    Str base = fmt("im%d", i);
    std::vector<double> seeds, frames;
    int dims[2] = {q[i].w, q[i].h};
    for (int inv = 0; inv < 2; ++inv) {
      if (inv ? m.bright == 0 : m.dark == 0) continue;
      VlMserFilt *f = vl_mser_new(2, dims);
      if (m.delta >= 0) vl_mser_set_delta(f, (vl_mser_pix)m.delta);
      if (m.maxA >= 0) vl_mser_set_max_area(f, m.maxA);
      if (m.minA >= 0) vl_mser_set_min_area(f, m.minA);
      if (m.maxV >= 0) vl_mser_set_max_variation(f, m.maxV);
      if (m.minD >= 0) vl_mser_set_min_diversity(f, m.minD);
      std::vector<unsigned char> p = q[i].p;
      if (inv) for (auto &v : p) v = (unsigned char)(255 - v);
      vl_mser_process(f, p.data());
      for (unsigned k = 0; k < vl_mser_get_regions_num(f); ++k) seeds.push_back(inv ? -(double)vl_mser_get_regions(f)[k] : (double)vl_mser_get_regions(f)[k]);
      vl_mser_ell_fit(f);
      frames.insert(frames.end(), vl_mser_get_ell(f), vl_mser_get_ell(f) + vl_mser_get_ell_num(f) * vl_mser_get_ell_dof(f));
      vl_mser_delete(f);
    }
    struct { bool on, bin; Str f; std::vector<double> *v; char const *n; } w[] = {{piv, bp, subst(fp, base), &seeds, "seeds"}, {frm, bf, subst(ff, base), &frames, "frames"}};
    for (auto &y : w) {
      if (d.has(y.f) != y.on) c.fail("files", "%s file '%s' is %s", y.n, y.f.c_str(), y.on ? "missing" : "present though not asked for");
      if (!y.on) continue;
      Str s = d.get(y.f);
      std::vector<double> g;
      if (y.bin && y.v == &frames) { if (s.size() % 8) c.fail("file-size", "%d bytes of %s", (int)s.size(), y.n); for (size_t k = 0; k < s.size(); k += 8) g.push_back(big8(s.data() + k)); }
      else if (y.bin) { if (s.size() % 4) c.fail("file-size", "%d bytes of %s", (int)s.size(), y.n); for (size_t k = 0; k < s.size(); k += 4) g.push_back((int32_t)((uint32_t)(unsigned char)s[k] << 24 | (unsigned char)s[k + 1] << 16 | (unsigned char)s[k + 2] << 8 | (unsigned char)s[k + 3])); }
      else { char *p = (char *)s.c_str(), *e; for (;;) { double v = strtod(p, &e); if (e == p) break; g.push_back(v); p = e; } }
      if (g.size() != y.v->size()) c.fail("count", "%d numbers in the %s file, the library gives %d", (int)g.size(), y.n, (int)y.v->size());
      for (size_t k = 0; k < g.size(); ++k) if (!close(g[k], (*y.v)[k], y.bin ? 0 : 1e-7, y.bin ? 0 : 6e-7)) c.fail("value", "number %d of the %s is %.9g, the library gives %.9g", (int)k, y.n, g[k], (*y.v)[k]);
    }
    if (met && d.get(base + ".meta").find("<mser") == Str::npos) c.fail("meta", "no meta file for '%s'", base.c_str());
    c.count("regions compared", (double)seeds.size());
    c.count("images judged");
  }
  for (auto &s : a) h = h * 31 + hash(s);
  c.nontrivial(h);
}

// ----------------------------------------------------------------- bad uses
static Str badPgm(Rng &r, Image const &q, char const *&what) {
  Str good = fmt("P5\n%d %d\n255\n", q.w, q.h), head = good;
  good.append((char const *)q.p.data(), q.p.size());
  switch (r.range(0, 8)) {
  case 0: what = "truncated"; return good.substr(0, (size_t)r.range(0, (long)good.size() - 1));
  case 1: what = "magic"; good[r.range(0, 1)] = r.pick<char>({'X', '3', 'p', 0, ' '}); return good;
  case 2: what = "word"; return fmt(r.pick<char const *>({"P5\n%d x\n255\n", "P5\n%d\n\n", "P5 # %d", "P5%d 3 255\n", "P2\n%d -- 255\n"}), q.w);
  case 3: what = "huge"; return fmt("P%d\n%ld %ld\n255\n", r.chance(.5) ? 5 : 2, r.pick<long>({2147483647, 1000000, 65536}), r.pick<long>({2147483647, 1000000, 46341})) + "abc";
  case 4: what = "negative size"; return fmt("P5\n%d %d\n255\n", r.chance(.5) ? -q.w : q.w, -q.h) + good.substr(head.size());
  case 5: what = "maximum out of range"; return fmt("P5\n%d %d\n%ld\n", q.w, q.h, r.pick<long>({0, -1, 65536, 1000000, 2147483647})) + good.substr(head.size()) + good;
  case 6: what = "16 bits"; { Str s = fmt("P5\n%d %d\n%d\n", q.w, q.h, r.pick<int>({65535, 256, 1000})); for (unsigned char ch : q.p) { s.push_back((char)(ch & 1)); s.push_back((char)ch); } return s; }
  case 7: what = "empty image"; return r.chance(.5) ? fmt("P5\n0 %d\n255\n", q.h) : fmt("P5\n%d 0\n255\n", q.w);
  default: { what = "noise"; Str s; for (int i = (int)r.range(0, 50); i > 0; --i) s.push_back((char)r.range(0, 255)); if (s.size() > 1) s[1] = 'Q'; return s; }
  }
}
VT_GROUP(C37, bad, 1500, 15000, 0) {
  Rng &r = c.rng;
  Dir d;
  bool sift = r.chance(.6);
  char const *tool = sift ? "sift" : "mser", *what = "";
  Image q = picture(r, 4, 24);
  Str ok = pgm(r, q);
  std::vector<Str> a;
  d.put("im.pgm", ok);
  switch (r.range(0, 7)) {
  case 0: case 1: case 2: { // images
    Str s = badPgm(r, q, what);
    d.put("bad.pgm", s);
    if (r.chance(.3)) a.push_back("-v");
    a.push_back("bad.pgm");
    break; }
  case 3: // inputs that cannot be opened or read
    what = "unreadable";
    a.push_back(r.pick<char const *>({"missing.pgm", "", ".", "no/such/dir.pgm", "/dev/null"}));
    if (r.chance(.1)) { what = "overlong name"; a.back() = Str((size_t)r.pick<int>({1023, 1024, 1025, 4000}), 'x'); }
    break;
  case 4: { // options
    what = "option";
    static char const *const so[] = {"--octaves=x", "--octaves=", "-O", "-Ox", "--octaves=-1", "-O-3", "--levels=x", "--levels=", "--levels=-1", "--levels=0", "-Sx", "-S0", "--levels=2147483647", "--first-octave=x", "--first-octave=", "--first-octave=40", "--first-octave=-40",
      "--first-octave=2147483647", "--first-octave=-2147483648", "--first-octave=12", "--edge-thresh=x", "--edge-thresh=.5", "--edge-thresh=-1", "--edge-thresh=", "--peak-thresh=x", "--peak-thresh=-1", "--peak-thresh=", "--magnif=x", "--magnif=-1", "--magnif=", "--magnif=0",
      "--output=foo://x", "-ofoo://", "--frames=foo://x", "--frames=://", "--descriptors=asci://x", "--meta=bin://x", "--meta=bin://", "--meta=foo://", "--gss=foo://x", "--read-frames=foo://x", "--unknown", "--unknown=3", "-Z", "--help=x", "--verbose=3", "--output", "--read-frames", "--orientations=1"};
    static char const *const mo[] = {"-dx", "-d-1", "-d", "--delta=", "--delta=x", "--delta=-1", "--delta=256", "--delta=1e300", "--max-area=x", "--max-area=-1", "--max-area=2", "--max-area=", "--min-area=x", "--min-area=-.1", "--min-area=1.1", "--min-area=", "--max-variation=x", "--max-variation=-1", "--max-variation=",
      "--min-diversity=x", "--min-diversity=-1", "--min-diversity=1.5", "--min-diversity=", "--bright-on-dark=2", "--bright-on-dark=-1", "--bright-on-dark=x", "--bright-on-dark=", "--dark-on-bright=2", "--dark-on-bright=x", "--dark-on-bright=", "--seeds=foo://x", "--frames=foo://x", "--meta=bin://x", "--meta=foo://", "--unknown", "-q", "--verbose=2", "--max-area"};
    Str o = sift ? so[r.range(0, (long)(sizeof so / sizeof *so) - 1)] : mo[r.range(0, (long)(sizeof mo / sizeof *mo) - 1)];
    if (r.chance(.5) && o != "-O" && o != "-d" && o != "--output" && o != "--read-frames" && o != "--max-area") { a.push_back(o); a.push_back("im.pgm"); }
    else { a.push_back("im.pgm"); a.push_back(o); }
    break; }
  case 5: { // outputs that cannot be written
    what = "output";
    static char const *const s1[] = {"--output=", "--frames=", "--descriptors=", "--meta=", "--gss="}, *const m1[] = {"--seeds=", "--frames=", "--meta="};
    Str o = sift ? s1[r.range(0, 4)] : m1[r.range(0, 2)];
    if (o != "--meta=" && r.chance(.5)) o += r.chance(.5) ? "bin://" : "ascii://";
    switch (r.range(0, 2)) {
    case 0: o += "no-such-dir/%.x"; break;
    case 1: o += "."; if (o.find("gss") != Str::npos) o += "/"; break;
    default: what = "overlong pattern"; o += Str((size_t)r.pick<int>({1024, 1500, 1024 / 2}), '%') + Str((size_t)r.pick<int>({0, 600}), 'x'); if (o.size() < 1000) o += Str(600, '%'); break;
    }
    a.push_back(o);
    if (o.find("gss") != Str::npos) a.push_back("-O1");
    a.push_back("im.pgm");
    break; }
  case 6: { // no room for the output
    what = "disk full";
    // something must come out: an image with a strong blob and lenient settings
    Image z; z.w = z.h = 40; z.p.resize(1600);
    for (int i = 0; i < 1600; ++i) { double x = i % 40 - 20, y = i / 40 - 20; z.p[i] = (unsigned char)(20 + 200 * exp(-(x * x + y * y) / 30)); }
    d.put("im.pgm", pgm(r, z));
    static char const *const s1[] = {"--output=", "--frames=", "--descriptors=", "--meta=", "--gss="}, *const m1[] = {"--seeds=", "--frames=", "--meta="};
    Str o = sift ? s1[r.range(0, 4)] : m1[r.range(0, 2)];
    if (o != "--meta=" && r.chance(.5)) o += "bin://";
    a.push_back(o + "/dev/full");
    if (!sift) { a.push_back("--max-area=1"); a.push_back("--max-variation=100"); }
    a.push_back("im.pgm");
    break; }
  default: { // frame files
    if (!sift) throw Skip();
    what = "frame file";
    bool binary = r.chance(.5);
    std::vector<double> f = someFrames(r, q);
    if (f.empty()) { f.push_back(1); f.push_back(1); f.push_back(2); f.push_back(0); }
    Str s;
    size_t at = (size_t)r.range(0, (long)f.size() - 1);
    switch (r.range(0, 3)) {
    case 0: { s = frameFile(r, f, true); binary = true; size_t n = s.size(); do n = (size_t)r.range(1, (long)s.size() - 1); while (n % 32 == 0); s.resize(n); what = "truncated binary frames"; break; }
    case 1: { size_t n = f.size() - (size_t)r.range(1, 3); f.resize(n); s = frameFile(r, f, binary); what = "incomplete frames"; break; }
    case 2: f[at] = r.pick<double>({NAN, INFINITY, -INFINITY, 1e300, -1e300, DBL_MAX}); s = frameFile(r, f, binary); what = "non-finite frames"; break;
    default: at = at / 4 * 4 + 2; f[at] = r.pick<double>({0., -1., -1e-3, NAN}); s = frameFile(r, f, binary); what = "frames of impossible scale"; break;
    }
    if (!binary && r.chance(.3)) { what = "word in frames"; s = "1 2 3 x " + s; }
    d.put("im.frame", s);
    if (r.chance(.1)) { unlink(d.path("im.frame").c_str()); what = "missing frames"; }
    a.push_back(binary ? "--read-frames=bin://" : "--read-frames=%.frame");
    if (r.chance(.5)) a.push_back("--orientations");
    a.push_back("im.pgm");
    break; }
  }
  Out x = run(c, d, tool, a);
  if (!strcmp(what, "empty image") && x.code == 0) c.count("empty images processed");
  else bad(c, x, what);
  uint64_t h = hash(what) + sift;
  for (auto &s : a) h = h * 31 + hash(s);
  h ^= hash(d.get("bad.pgm")) ^ hash(d.get("im.frame"));
  c.nontrivial(h);
}

// legal but unusual settings: the tool agrees with the library or refuses
VT_GROUP(C37, extreme, 300, 3000, 0) {
  Rng &r = c.rng;
  Dir d;
  Image q = picture(r, 1, r.chance(.5) ? 6 : 24);
  d.put("im.pgm", pgm(r, q));
  Opt o = {r.pick<int>({-1, 0, 1, 2, 7, 30, 31, 32, 40, 1000}), r.pick<int>({1, 2, 3, 8, 20}), r.pick<int>({-3, -2, -1, 0, 1, 2, 3, 5}), r.pick<double>({-1, 1, 1e9, INFINITY}), r.pick<double>({-1, 0, 1e-300, 1e300}), r.pick<double>({-1, 1, 30, 1e5, 1e9, 1e30}), false};
  if (o.omin < -1 && q.w * q.h > 150) o.omin = -1;
  std::vector<Str> a = o.args(r);
  a.push_back("--frames=bin://");
  a.push_back("--descriptors=bin://");
  a.push_back("-o%.sift");
  std::vector<double> f;
  bool read = r.chance(.4);
  if (read) { f = someFrames(r, q); d.put("my.f", frameFile(r, f, true)); f = sorted(f); a.push_back("--read-frames=bin://my.f"); }
  a.push_back("im.pgm");
  Out x = run(c, d, "sift", a);
  double s = pow(2, -o.omin);
  if (floor(q.w * s) < 1 || floor(q.h * s) < 1) bad(c, x, "empty first octave");
  else if (x.code) { if (x.err.empty()) c.fail("silent", "status %d without a diagnostic", x.code); c.count("extreme settings refused"); }
  else if (o.O <= 16) {
    std::vector<Feat> v = features(q, o, read ? &f : 0, 0);
    judge(c, d.get("im.frame"), true, true, false, v, "frames");
    judge(c, d.get("im.descr"), true, false, true, v, "descriptors");
    judge(c, d.get("im.sift"), false, true, true, v, "output");
    c.count("extreme settings judged");
  } else c.count("extreme settings run");
  uint64_t h = hash(d.get("im.pgm"));
  for (auto &t : a) h = h * 31 + hash(t);
  c.nontrivial(h);
}

VT_GROUP(C37, others, 6, 12, 0) {
  Dir d;
  switch (c.idx % 6) {
  case 0: { // the information bottleneck demonstration prints what the library computes
    Out x = run(c, d, "aib", {});
    good(c, x);
    std::vector<double> t;
    size_t k = x.out.find("[");
    char *p = (char *)x.out.c_str() + k + 1, *e;
    while (t.size() < 30) { double v = strtod(p, &e); if (e == p) { while (*p && !strchr("0123456789", *p)) ++p; if (!*p) break; continue; } t.push_back(v); p = e; }
    if (t.size() != 30) c.fail("aib", "only %d of the 30 probabilities printed", (int)t.size());
    std::vector<double> u = t;
    VlAIB *aib = vl_aib_new(u.data(), 10, 3);
    vl_aib_process(aib);
    vl_uint *par = vl_aib_get_parents(aib);
    for (int i = 0; i < 19; ++i) {
      Str s = fmt("\n%d => %d\n", i, (int)par[i]);
      if (x.out.find(s) == Str::npos) c.fail("aib", "'%d => %d' is not printed", i, (int)par[i]);
    }
    vl_aib_delete(aib);
    break; }
  case 1: case 2: { // no arguments or --help print the usage, status 0
    for (char const *tool : {"sift", "mser"}) {
      Out x = run(c, d, tool, c.idx % 6 == 1 ? std::vector<Str>{} : std::vector<Str>{"--help"});
      good(c, x);
      if (x.out.find("Usage") == Str::npos || x.out.find(vl_get_version_string()) == Str::npos) c.fail("help", "%s prints '%s'", tool, x.out.substr(0, 100).c_str());
    }
    break; }
  default: { // many images in a row, with and without features
    Rng &r = c.rng;
    std::vector<Str> a = {"--frames=bin://"};
    std::vector<Image> q;
    for (int i = 0; i < 20; ++i) { q.push_back(picture(r, 3, 30)); d.put(fmt("i%d.pgm", i), pgm(r, q[i])); a.push_back(fmt("i%d.pgm", i)); }
    good(c, run(c, d, "sift", a));
    Opt o = {-1, 3, -1, -1, -1, -1, false};
    for (int i = 0; i < 20; ++i) judge(c, d.get(fmt("i%d.frame", i)), true, true, false, features(q[i], o, 0, 0), "frames");
    break; }
  }
  c.nontrivial((uint64_t)c.idx);
}
