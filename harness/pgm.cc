// PGM files, byte order and host information (C36).
#include "vt.h"
#include "gen.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include <vl/pgm.h>
#include <vl/host.h>
}
using namespace vt;
typedef std::vector<unsigned char> B;

static void put(B &b, char const *s) { b.insert(b.end(), s, s + strlen(s)); }
static void num(B &b, long v) { char t[32]; snprintf(t, sizeof t, "%ld", v); put(b, t); }
// a scratch file of our own, removed at once when closed
struct Tmp {
  char name[64];
  Tmp() {
    strcpy(name, "/tmp/vt-pgm-XXXXXX");
    int fd = mkstemp(name);
    if (fd < 0) { perror("mkstemp"); abort(); }
    close(fd);
  }
  ~Tmp() { unlink(name); }
  void set(B const &b) { FILE *f = fopen(name, "wb"); if (!b.empty()) fwrite(b.data(), 1, b.size(), f); fclose(f); }
  B get() { B b; FILE *f = fopen(name, "rb"); int ch; while ((ch = fgetc(f)) != EOF) b.push_back((unsigned char)ch); fclose(f); return b; }
};
static FILE *mem(B &b) {
  FILE *f = tmpfile();
  if (!f) { perror("tmpfile"); abort(); }
  if (!b.empty()) fwrite(b.data(), 1, b.size(), f);
  rewind(f);
  return f;
}
static int lowest_fd() { int fd = open("/dev/null", O_RDONLY); close(fd); return fd; }

struct Picture { int w, h, max; bool wide; std::vector<unsigned> p; };
static Picture picture(Rng &r, bool only8 = false) {
  Picture q;
  q.w = (int)(r.chance(.3) ? r.range(1, 3) : r.range(1, 40));
  q.h = (int)(r.chance(.3) ? r.range(1, 3) : r.range(1, 40));
  if (r.chance(.05)) { q.w = (int)r.range(40, 200); q.h = (int)r.range(1, 120); }
  q.max = only8 ? (r.chance(.5) ? 255 : (int)r.range(1, 255)) : r.pick<int>({255, 65535, 256, 257, 1, 254, 32768, 65534, (int)r.range(1, 65535), (int)r.range(1, 255)});
  q.wide = q.max >= 256;
  q.p.resize((size_t)q.w * q.h);
  int kind = (int)r.range(0, 3);
  for (auto &v : q.p) v = kind == 0 ? q.max : kind == 1 ? r.pick<unsigned>({0, (unsigned)q.max, 10u % (q.max + 1), 32u % (q.max + 1), 35u % (q.max + 1)}) : (unsigned)r.range(0, q.max);
  return q;
}
static void blanks(Rng &r, B &b, bool need = true) {
  int n = (int)r.range(need ? 1 : 0, r.chance(.3) ? 6 : 1);
  for (int i = 0; i < n; ++i) {
    if (r.chance(.25)) {
      put(b, "#");
      for (int k = (int)r.range(0, 12); k > 0; --k) b.push_back((unsigned char)r.pick<char>({'a', '#', ' ', '7', '\t', 'P', '5', (char)200, '-'}));
      put(b, "\n");
    } else b.push_back((unsigned char)r.pick<char>({' ', '\n', '\t', '\r'}));
  }
}
static B header(Rng &r, Picture const &q, bool raw) {
  B b;
  put(b, raw ? "P5" : "P2");
  bool plain = r.chance(.3);
  plain ? put(b, "\n") : blanks(r, b);
  num(b, q.w); plain ? put(b, " ") : blanks(r, b);
  num(b, q.h); plain ? put(b, "\n") : blanks(r, b);
  num(b, q.max);
  b.push_back((unsigned char)r.pick<char>({' ', '\n', '\t', '\r'}));
  return b;
}
static void body(Rng &r, B &b, Picture const &q, bool raw) {
  for (unsigned v : q.p) {
    if (raw) { if (q.wide) b.push_back((unsigned char)(v >> 8)); b.push_back((unsigned char)v); }
    else {
      int n = (int)r.range(1, r.chance(.2) ? 4 : 1);
      if (&v != &q.p[0] || r.chance(.5)) while (n--) b.push_back((unsigned char)r.pick<char>({' ', '\n', '\t', '\r'}));
      if (r.chance(.1)) put(b, "00");
      num(b, v);
    }
  }
  if (!raw) put(b, "\n");
}
static void meta(Ctx &c, VlPgmImage const &im, Picture const &q) {
  if ((int)im.width != q.w || (int)im.height != q.h || (int)im.max_value != q.max)
    c.fail("meta", "read %dx%d max %d, the file says %dx%d max %d", (int)im.width, (int)im.height, (int)im.max_value, q.w, q.h, q.max);
  if (vl_pgm_get_npixels(&im) != q.p.size()) c.fail("npixels", "%d, expected %d", (int)vl_pgm_get_npixels(&im), (int)q.p.size());
  if (vl_pgm_get_bpp(&im) != (vl_size)(q.wide ? 2 : 1)) c.fail("bpp", "%d for max %d", (int)vl_pgm_get_bpp(&im), q.max);
}
static void pixels(Ctx &c, Picture const &q, void const *d) {
  for (size_t i = 0; i < q.p.size(); ++i) {
    unsigned v = q.wide ? ((uint16_t const *)d)[i] : ((uint8_t const *)d)[i];
    if (v != q.p[i]) c.fail("pixels", "pixel %d of %dx%d max %d reads %u, written %u", (int)i, q.w, q.h, q.max, v, q.p[i]);
  }
  c.count("pixels compared", (double)q.p.size());
}
// reads one picture from the stream, as written by us or by the library
static void readBack(Ctx &c, FILE *f, Picture const &q, bool raw) {
  VlPgmImage im;
  memset(&im, 0xee, sizeof im);
  int e = vl_pgm_extract_head(f, &im);
  if (e) c.fail("head-refused", "error %d (%s) for a valid header", e, vl_get_last_error_message());
  meta(c, im, q);
  if (!!im.is_raw != raw) c.fail("format", "is_raw %d", (int)im.is_raw);
  if (q.wide) {
    Guarded<uint16_t> g(q.p.size(), 8, 0xa5a5);
    e = vl_pgm_extract_data(f, &im, g.data());
    if (e) c.fail("data-refused", "error %d for valid data", e);
    if (!g.intact()) c.fail("overrun", "wrote outside the pixel buffer");
    pixels(c, q, g.data());
  } else {
    Guarded<uint8_t> g(q.p.size(), 16, 0xa5);
    e = vl_pgm_extract_data(f, &im, g.data());
    if (e) c.fail("data-refused", "error %d for valid data", e);
    if (!g.intact()) c.fail("overrun", "wrote outside the pixel buffer");
    pixels(c, q, g.data());
  }
}
static std::vector<unsigned char> bytes(Picture const &q) {
  B d(q.p.size() * (q.wide ? 2 : 1));
  for (size_t i = 0; i < q.p.size(); ++i) if (q.wide) ((uint16_t *)d.data())[i] = (uint16_t)q.p[i]; else d[i] = (unsigned char)q.p[i];
  return d;
}

VT_GROUP(C36, read, 1500, 20000) {
  Rng &r = c.rng;
  // several pictures in one stream: each must be consumed exactly
  int n = (int)r.range(1, 3);
  std::vector<Picture> qs;
  B b;
  bool raw[3];
  for (int i = 0; i < n; ++i) {
    qs.push_back(picture(r));
    raw[i] = i < n - 1 ? true : r.chance(.5);
    B h = header(r, qs[i], raw[i]);
    b.insert(b.end(), h.begin(), h.end());
    body(r, b, qs[i], raw[i]);
  }
  c.desc("%d pictures, first %dx%d max %d %s", n, qs[0].w, qs[0].h, qs[0].max, raw[0] ? "raw" : "ascii");
  c.nontrivial(b);
  FILE *f = mem(b);
  for (int i = 0; i < n; ++i) { readBack(c, f, qs[i], raw[i]); c.count(raw[i] ? "raw pictures" : "ascii pictures"); }
  fclose(f);
}

VT_GROUP(C36, write, 1500, 20000) {
  Rng &r = c.rng;
  Picture q = picture(r);
  B d = bytes(q), keep = d;
  c.desc("%dx%d max %d", q.w, q.h, q.max);
  VlPgmImage im;
  im.width = q.w; im.height = q.h; im.max_value = q.max; im.is_raw = 1;
  FILE *f = tmpfile();
  int e = vl_pgm_insert(f, &im, d.data());
  if (e) c.fail("write-error", "error %d writing to a file", e);
  if (d != keep) c.fail("input-changed", "writing changed the caller's pixels");
  if (r.chance(.5)) { // a second one after it
    if (vl_pgm_insert(f, &im, d.data())) c.fail("write-error", "second picture");
    rewind(f);
    readBack(c, f, q, true);
    readBack(c, f, q, true);
  } else {
    long size = ftell(f);
    rewind(f);
    // an independent reading of the file: header, then big-endian pixels at the very end
    B all((size_t)size);
    if (fread(all.data(), 1, all.size(), f) != all.size()) abort();
    size_t bytesN = q.p.size() * (q.wide ? 2 : 1);
    char head[64];
    int hl = snprintf(head, sizeof head, "P5 %d %d %d ", q.w, q.h, q.max);
    if (all.size() != bytesN + hl) c.fail("file-size", "file of %d bytes, expected %d", (int)all.size(), (int)bytesN + hl);
    for (int i = 0; i < hl; ++i) if (head[i] == ' ' ? !strchr(" \n\r\t", all[i]) : head[i] != all[i]) c.fail("file-header", "byte %d is %d", i, all[i]);
    for (size_t i = 0; i < q.p.size(); ++i) {
      unsigned v = q.wide ? all[hl + 2 * i] * 256u + all[hl + 2 * i + 1] : all[hl + i];
      if (v != q.p[i]) c.fail("file-pixels", "pixel %d stored as %u, is %u", (int)i, v, q.p[i]);
    }
    rewind(f);
    readBack(c, f, q, true);
  }
  fclose(f);
  c.count(q.wide ? "16-bit pictures" : "8-bit pictures");
  c.nontrivial(d);
}

VT_GROUP(C36, files, 600, 6000) {
  Rng &r = c.rng;
  int fd = lowest_fd();
  Tmp t;
  VlPgmImage im;
  int mode = (int)r.range(0, 2);
  uint64_t h = mode;
  if (mode == 0) { // bytes to file and back, also as floats
    Picture q = picture(r, true);
    q.max = 255;
    B d(q.p.size());
    for (size_t i = 0; i < d.size(); ++i) { q.p[i] = (unsigned)r.range(0, 255); d[i] = (unsigned char)q.p[i]; }
    c.desc("bytes %dx%d", q.w, q.h);
    int e = vl_pgm_write(t.name, d.data(), q.w, q.h);
    if (e) c.fail("write-error", "error %d", e);
    vl_uint8 *x = 0;
    e = vl_pgm_read_new(t.name, &im, &x);
    if (e) c.fail("read-refused", "error %d (%s)", e, vl_get_last_error_message());
    meta(c, im, q);
    pixels(c, q, x);
    vl_free(x);
    h = fnv(d.data(), d.size());
  } else if (mode == 1) { // files of others, read as bytes and floats
    Picture q = picture(r);
    bool raw = r.chance(.5);
    B b = header(r, q, raw);
    body(r, b, q, raw);
    t.set(b);
    c.desc("read_new %dx%d max %d", q.w, q.h, q.max);
    vl_uint8 *x = 0;
    float *y = 0;
    int e = vl_pgm_read_new(t.name, &im, &x), e2 = vl_pgm_read_new_f(t.name, &im, &y);
    if (q.wide) { // documented: only one byte per pixel; must be refused without leaks
      if (e != VL_ERR_BAD_ARG || e2 != VL_ERR_BAD_ARG) c.fail("wide-accepted", "read_new returned %d and %d for a 16-bit file", e, e2);
    } else {
      if (e || e2) c.fail("read-refused", "errors %d %d (%s)", e, e2, vl_get_last_error_message());
      meta(c, im, q);
      pixels(c, q, x);
      for (size_t i = 0; i < q.p.size(); ++i)
        if (!close(y[i], q.p[i] / (double)q.max, 1e-6, 0)) c.fail("float-pixels", "pixel %d is %g, expected %d/%d", (int)i, y[i], q.p[i], q.max);
      vl_free(x);
      vl_free(y);
    }
    h = fnv(b.data(), b.size());
  } else { // floats rescaled into a file
    int w = (int)r.range(1, 30), hh = (int)r.range(1, 30);
    std::vector<double> p = image<double>(r, w, hh, 0, 1);
    double a = r.chance(.3) ? 1 : pow(10, r.uni(-2, 4)), o = r.chance(.3) ? 0 : r.uni(-2, 2) * a;
    std::vector<float> d(p.size());
    for (size_t i = 0; i < d.size(); ++i) d[i] = (float)(o + a * p[i]);
    c.desc("floats %dx%d scale %g offset %g", w, hh, a, o);
    int e = vl_pgm_write_f(t.name, d.data(), w, hh);
    if (e) c.fail("write-error", "error %d", e);
    vl_uint8 *x = 0;
    e = vl_pgm_read_new(t.name, &im, &x);
    if (e || (int)im.width != w || (int)im.height != hh || im.max_value != 255) c.fail("read-refused", "error %d, %dx%d", e, (int)im.width, (int)im.height);
    double mn = INFINITY, mx = -INFINITY;
    for (float v : d) { mn = std::min(mn, (double)v); mx = std::max(mx, (double)v); }
    for (size_t i = 0; i < d.size(); ++i) {
      double u = mx > mn ? (d[i] - mn) / (mx - mn + VL_EPSILON_F) * 255 : 0;
      if (x[i] < u - 1 - 1e-3 || x[i] > u + 1e-3) // rounds down
        c.fail("rescaled", "pixel %d: %g in [%g,%g] written as %d", (int)i, d[i], mn, mx, x[i]);
    }
    vl_free(x);
    h = fnv(d.data(), d.size() * 4);
  }
  int fd2 = lowest_fd();
  if (fd2 != fd) c.fail("descriptor-leak", "a file was left open (%d free before, %d after)", fd, fd2);
  c.nontrivial(h);
}

// ---------------------------------------------------------------- bad files
VT_GROUP(C36, malformed, 6000, 80000) {
  Rng &r = c.rng;
  Picture q = picture(r);
  if (r.chance(.5)) q.p.resize(q.p.size()); 
  bool raw = r.chance(.5);
  B h = header(r, q, raw), b = h;
  body(r, b, q, raw);
  size_t hl = h.size();
  bool mustFail = false; // the case is certainly not a PGM file
  char const *kind = "";
  switch (r.range(0, 9)) {
  case 0: case 1: { // truncated
    kind = "truncated";
    size_t n = (size_t)r.range(0, (long)b.size() - 1);
    b.resize(n);
    if (n < hl || raw) mustFail = true; // ASCII data may merely lose its last digits or newline
    else { // fewer numbers than pixels?
      size_t k = 0; bool in = false;
      for (size_t i = hl; i < n; ++i) { bool dg = b[i] >= '0' && b[i] <= '9'; if (dg && !in) ++k; in = dg; }
      mustFail = k < q.p.size();
    }
    break; }
  case 2: kind = "magic"; b[r.range(0, 1)] = (unsigned char)r.pick<char>({'P', '1', '3', '4', '6', 'p', 0, ' ', '#', (char)255}); mustFail = !(b[0] == 'P' && (b[1] == '2' || b[1] == '5')); break;
  case 3: { // a number replaced by a word
    kind = "word";
    B g; put(g, raw ? "P5 " : "P2 ");
    int which = (int)r.range(0, 2);
    for (int i = 0; i < 3; ++i) { if (i == which) put(g, r.pick<char const *>({"x", "", "--3", "+", "%n", "\xff", "#"})); else num(g, i == 0 ? q.w : i == 1 ? q.h : q.max); put(g, i == 2 ? "\n" : " "); }
    b = g;
    mustFail = true; // nothing follows
    break; }
  case 4: { // hostile numbers: nothing of that size follows
    kind = "huge";
    B g; put(g, raw ? "P5\n" : "P2\n");
    long big = r.pick<long>({2147483647, 65535, 1000000, 46341, 2147483646});
    num(g, r.chance(.7) ? big : q.w); put(g, " ");
    num(g, big); put(g, "\n");
    num(g, r.pick<long>({255, 65535, q.max})); put(g, "\n");
    g.insert(g.end(), b.begin() + (long)hl, b.end());
    b = g; mustFail = true;
    break; }
  case 5: { // numbers outside what the format allows
    kind = "range";
    B g; put(g, raw ? "P5\n" : "P2\n");
    int which = (int)r.range(0, 2);
    num(g, which == 0 ? r.pick<long>({-1, -3, -2147483647}) : q.w); put(g, " ");
    num(g, which == 1 ? r.pick<long>({-1, -2, -2147483647}) : q.h); put(g, "\n");
    num(g, which == 2 ? r.pick<long>({65536, 65537, 100000, 2147483647, -1, -255, 0}) : q.max); put(g, "\n");
    g.insert(g.end(), b.begin() + (long)hl, b.end());
    b = g; mustFail = true;
    break; }
  case 6: { // no blank after the largest value
    kind = "unterminated";
    b[hl - 1] = (unsigned char)r.pick<char>({'x', '#', 0, '.', (char)128});
    mustFail = true;
    break; }
  case 7: { // a random byte anywhere
    kind = "flipped";
    b[(size_t)r.range(0, (long)std::min(b.size() - 1, hl + 3))] = (unsigned char)r.range(0, 255);
    break; }
  case 8: { // ASCII data that is not a number
    kind = "non-number";
    Picture s = q;
    b = header(r, s, false);
    long cut = r.range(0, (long)q.p.size() - 1);
    for (long i = 0; i < (long)q.p.size(); ++i) { if (i == cut) put(b, r.pick<char const *>({" x", " .", " #", " \xff", " -"})); else { put(b, " "); num(b, q.p[i]); } }
    mustFail = true;
    break; }
  default: { // noise
    kind = "noise";
    b.clear();
    if (r.chance(.7)) put(b, r.chance(.5) ? "P5" : "P2");
    for (int i = (int)r.range(0, 40); i > 0; --i) b.push_back((unsigned char)(r.chance(.7) ? r.pick<char>({'0', '1', '2', ' ', '\n', '#', '-'}) : (char)r.range(0, 255)));
    break; }
  }
  c.desc("%s: %d bytes", kind, (int)b.size());
  c.nontrivial(b);
  int fd = lowest_fd();
  Tmp t;
  t.set(b);
  VlPgmImage im;
  vl_uint8 *x = 0;
  float *y = 0;
  vl_set_last_error(VL_ERR_OK, "");
  int e = vl_pgm_read_new(t.name, &im, &x);
  if (e && vl_get_last_error() != e) c.fail("last-error", "%s: returned %d, last error is %d", kind, e, vl_get_last_error());
  int f2 = vl_pgm_read_new_f(t.name, &im, &y);
  if (mustFail && (!e || !f2)) c.fail("accepted", "%s: a file that is not a PGM image is read as %dx%d max %d", kind, (int)im.width, (int)im.height, (int)im.max_value);
  if (!!e != !!f2) c.fail("disagree", "%s: read_new returns %d, read_new_f %d", kind, e, f2);
  if (!e) { // what was accepted must be complete
    size_t n = vl_pgm_get_npixels(&im);
    uint64_t hsum = fnv(x, n);
    c.count("odd but readable");
    for (size_t i = 0; i < n; ++i) if (!close(y[i], x[i] / (double)im.max_value, 1e-6, 0)) c.fail("float-pixels", "pixel %d", (int)i);
    (void)hsum;
    vl_free(x);
    vl_free(y);
  } else c.count("files refused");
  if (!e && mustFail) c.count("impossible");
  // the streaming interface, which a caller uses with its own buffer
  FILE *f = mem(b);
  e = vl_pgm_extract_head(f, &im);
  if (!e) {
    if (im.max_value < 1 || im.max_value > 65535 || im.width > 2147483647 || im.height > 2147483647) c.fail("head-range", "%s: accepted %dx%d max %d", kind, (int)im.width, (int)im.height, (int)im.max_value);
    size_t n = vl_pgm_get_npixels(&im) * vl_pgm_get_bpp(&im);
    if (n < 1u << 22) {
      Guarded<uint8_t> g(n, 16, 0x5a);
      e = vl_pgm_extract_data(f, &im, g.data());
      if (!g.intact()) c.fail("overrun", "%s: wrote outside the pixel buffer", kind);
      if (mustFail && !e) c.fail("accepted", "%s: streaming interface accepts it", kind);
    }
  } else if (vl_get_last_error() != e) c.fail("last-error", "%s: returned %d, last error is %d", kind, e, vl_get_last_error());
  fclose(f);
  int fd2 = lowest_fd();
  if (fd2 != fd) c.fail("descriptor-leak", "%s: a file was left open", kind);
}

// input/output errors injected below stdio
struct Fault { B data; size_t pos, limit; long calls; };
static ssize_t f_read(void *k, char *buf, size_t n) {
  Fault *f = (Fault *)k;
  ++f->calls;
  if (f->pos >= f->limit) { errno = EIO; return -1; }
  size_t m = std::min(n, f->limit - f->pos);
  memcpy(buf, f->data.data() + f->pos, m);
  f->pos += m;
  return (ssize_t)m;
}
static ssize_t f_write(void *k, char const *, size_t n) {
  Fault *f = (Fault *)k;
  ++f->calls;
  if (f->pos >= f->limit) { errno = ENOSPC; return 0; }
  size_t m = std::min(n, f->limit - f->pos);
  f->pos += m;
  return (ssize_t)m;
}
VT_GROUP(C36, faults, 1500, 15000, 0) {
  Rng &r = c.rng;
  Picture q = picture(r);
  Fault f;
  f.pos = 0; f.calls = 0;
  uint64_t h;
  if (r.chance(.4)) { // reading stops in the middle
    bool raw = r.chance(.5);
    f.data = header(r, q, raw);
    body(r, f.data, q, raw);
    size_t full = f.data.size() - (raw ? 0 : 7);
    f.limit = (size_t)r.range(0, (long)full - 1);
    c.desc("read error after %d of %d bytes", (int)f.limit, (int)f.data.size());
    cookie_io_functions_t io = {f_read, 0, 0, 0};
    FILE *s = fopencookie(&f, "rb", io);
    if (r.chance(.5)) setvbuf(s, 0, _IONBF, 0);
    VlPgmImage im;
    int e = vl_pgm_extract_head(s, &im);
    if (!e) { Guarded<uint8_t> g(q.p.size() * 2, 16, 1); e = vl_pgm_extract_data(s, &im, g.data()); }
    if (!e) c.fail("read-error-ignored", "%d of %d bytes could be read, no error", (int)f.limit, (int)f.data.size());
    fclose(s);
    h = fnv(f.data.data(), f.limit);
  } else if (r.chance(.7)) {
    B d = bytes(q);
    f.limit = (size_t)r.range(0, (long)d.size() + 8);
    c.desc("disk full after %d bytes, %d pixels bytes", (int)f.limit, (int)d.size());
    cookie_io_functions_t io = {0, f_write, 0, 0};
    FILE *s = fopencookie(&f, "wb", io);
    setvbuf(s, 0, _IONBF, 0);
    VlPgmImage im;
    im.width = q.w; im.height = q.h; im.max_value = q.max; im.is_raw = 1;
    int e = vl_pgm_insert(s, &im, d.data());
    if (!e) c.fail("write-error-ignored", "only %d bytes of at least %d fit, no error", (int)f.limit, (int)d.size() + 11);
    fclose(s);
    h = fnv(d.data(), d.size(), f.limit);
  } else {
    B d((size_t)q.w * q.h, 7);
    std::vector<float> fl(d.size(), .5f);
    int fd = lowest_fd();
    char const *name = r.pick<char const *>({"/dev/full", "/nonexistent-dir/x.pgm", "/"});
    c.desc("write %dx%d to %s", q.w, q.h, name);
    vl_set_last_error(VL_ERR_OK, "");
    int e = vl_pgm_write(name, d.data(), q.w, q.h);
    if (!e) c.fail("write-error-ignored", "writing %s gives no error", name);
    if (vl_get_last_error() != e) c.fail("last-error", "returned %d, last error %d", e, vl_get_last_error());
    if (!vl_pgm_write_f(name, fl.data(), q.w, q.h)) c.fail("write-error-ignored", "writing %s gives no error (floats)", name);
    vl_uint8 *x; float *y; VlPgmImage im;
    char const *miss = r.pick<char const *>({"/nonexistent-dir/x.pgm", "/", "/dev/null"});
    if (!vl_pgm_read_new(miss, &im, &x) || !vl_pgm_read_new_f(miss, &im, &y)) c.fail("read-error-ignored", "reading %s gives no error", miss);
    if (lowest_fd() != fd) c.fail("descriptor-leak", "a file was left open after errors");
    h = fnv(d.data(), d.size(), (uint64_t)(name[1] * 256 + miss[1]));
  }
  c.count("faults injected");
  c.nontrivial(h);
}

// --------------------------------------------------------------- host layer
template <int N> static void swapCase(Ctx &c, void (*fn)(void *, void *)) {
  Rng &r = c.rng;
  unsigned char s[N + 8], d[N + 8], keep[N + 8];
  for (auto &v : s) v = (unsigned char)r.range(0, 255);
  memcpy(keep, s, sizeof s);
  for (auto &v : d) v = 0x77;
  int so = (int)r.range(0, 7), to = (int)r.range(0, 7);
  fn(d + to, s + so);
  if (memcmp(keep, s, sizeof s)) c.fail("swap-source", "%d-byte swap changed its source", N);
  for (int i = 0; i < N; ++i) if (d[to + i] != s[so + N - 1 - i]) c.fail("swap", "%d-byte swap: byte %d is %d, expected %d", N, i, d[to + i], s[so + N - 1 - i]);
  for (int i = 0; i < N + 8; ++i) if ((i < to || i >= to + N) && d[i] != 0x77) c.fail("swap-overrun", "%d-byte swap wrote byte %d", N, i - to);
}
VT_GROUP(C36, swap, 300, 3000) {
  c.desc("swap");
  for (int i = 0; i < 40; ++i) {
    swapCase<8>(c, vl_swap_host_big_endianness_8);
    swapCase<4>(c, vl_swap_host_big_endianness_4);
    swapCase<2>(c, vl_swap_host_big_endianness_2);
  }
  // numbers, through the definition of big endian
  Rng &r = c.rng;
  double v = r.normal() * pow(10, r.uni(-30, 30)), w;
  unsigned char b[8];
  vl_swap_host_big_endianness_8(b, &v);
  uint64_t k = 0, bits;
  for (int i = 0; i < 8; ++i) k = k << 8 | b[i];
  memcpy(&bits, &v, 8);
  if (k != bits) c.fail("big-endian", "stored bytes are not big endian");
  vl_swap_host_big_endianness_8(&w, b);
  if (memcmp(&v, &w, 8)) c.fail("swap-twice", "%g becomes %g", v, w);
  c.count("swaps", 120);
  c.nontrivial(bits);
}
VT_GROUP(C36, host, 8, 16) {
  c.desc("host");
  __builtin_cpu_init();
  if (!!vl_cpu_has_sse2() != !!__builtin_cpu_supports("sse2")) c.fail("cpu-feature", "sse2 reported %d", (int)vl_cpu_has_sse2());
  if (!!vl_cpu_has_sse3() != !!__builtin_cpu_supports("sse3")) c.fail("cpu-feature", "sse3 reported %d", (int)vl_cpu_has_sse3());
  if (vl_cpu_has_avx() && !__builtin_cpu_supports("avx")) c.fail("cpu-feature", "avx reported but not usable");
  char *b = vl_static_configuration_to_string_copy(), *d = vl_configuration_to_string_copy();
  if (!b || !d || strlen(b) < 5 || strlen(d) < strlen(b) || !strstr(d, vl_get_version_string())) c.fail("configuration", "configuration strings '%s' '%s'", b ? b : "(null)", d ? d : "(null)");
  vl_free(b); vl_free(d);
  if (vl_get_num_cpus() < 1) c.fail("cpus", "%d processors", (int)vl_get_num_cpus());
  if (sizeof(vl_int8) != 1 || sizeof(vl_int16) != 2 || sizeof(vl_int32) != 4 || sizeof(vl_int64) != 8 || sizeof(vl_intptr) != sizeof(void *)) c.fail("types", "integer sizes");
  c.nontrivial((uint64_t)c.idx);
}
