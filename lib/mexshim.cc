#include "mexshim.h"
#include <csetjmp>
#include <limits>
#include <strings.h>
extern "C" {
#include <vl/generic.h>
}
using namespace mx;

namespace {
struct Block { void *p; size_t n; bool live; };
std::vector<Block> *blocks;
std::vector<Arr *> *arrays;
jmp_buf *target;
char errmsg[512];

void init() {
  if (!blocks) { blocks = new std::vector<Block>; arrays = new std::vector<Arr *>; }
}
void *track(void *p, size_t n) {
  init();
  if (p) blocks->push_back(Block{p, n, true});
  return p;
}
// blocks are found by the last one first: they are few
Block *find(void *p) {
  init();
  for (size_t i = blocks->size(); i-- > 0;) if ((*blocks)[i].p == p) return &(*blocks)[i];
  return 0;
}
void forget(void *p) {
  Block *b = find(p);
  if (!b) { fprintf(stderr, "mexshim: release of a block the host did not allocate\n"); abort(); }
  *b = blocks->back();
  blocks->pop_back();
}
// data of an array: not null even without elements, as memcpy and the like want it
void *dataBlock(size_t n) { return track(calloc(1, n), n); }
[[noreturn]] void raise_(char const *s) {
  snprintf(errmsg, sizeof errmsg, "%s", s);
  if (!target) { fprintf(stderr, "mexshim: error outside of a call: %s\n", s); abort(); }
  longjmp(*target, 1);
}
void die(char const *what) { fprintf(stderr, "mexshim: %s\n", what); abort(); }
Arr *blank(mxClassID c) {
  init();
  Arr *a = new Arr;
  memset(a, 0, sizeof *a);
  a->cls = c;
  arrays->push_back(a);
  return a;
}
void setDims(Arr *a, mwSize const *d, int n) {
  // as MATLAB: at least two dimensions, no trailing singletons beyond them
  std::vector<mwSize> v(d, d + n);
  while (v.size() < 2) v.push_back(1);
  while (v.size() > 2 && v.back() == 1) v.pop_back();
  free(a->dims);
  a->ndims = (int)v.size();
  a->dims = (mwSize *)malloc(sizeof(mwSize) * v.size());
  memcpy(a->dims, v.data(), sizeof(mwSize) * v.size());
}
Arr *build(mxClassID c, mwSize const *d, int n, bool cplx) {
  for (int i = 0; i < n; ++i) if (d[i] < 0) die("array created with a negative dimension");
  double el = 1;
  for (int i = 0; i < n; ++i) el *= d[i];
  if (el * elsize(c) > 2e9) raise_("out of memory or dimension too large");
  Arr *a = blank(c);
  setDims(a, d, n);
  a->cplx = cplx;
  a->pr = dataBlock(numel(a) * elsize(c));
  if (cplx) a->pi = dataBlock(numel(a) * elsize(c));
  return a;
}
uint64_t digestOf(mxArray const *m, int depth = 0) {
  if (!m) return 0;
  Arr *a = A(m);
  uint64_t h = vt::fnv(&a->cls, sizeof a->cls);
  h = vt::fnv(a->dims, sizeof(mwSize) * a->ndims, h);
  h = vt::fnv(&a->pr, sizeof a->pr, h);
  size_t n = numel(m);
  if (a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS) {
    size_t k = a->cls == mxCELL_CLASS ? n : n * a->nfields;
    for (size_t i = 0; i < k; ++i) { uint64_t d = digestOf(((mxArray **)a->pr)[i], depth + 1); h = vt::fnv(&d, sizeof d, h); }
  } else if (a->sparse) {
    h = vt::fnv(a->jc, sizeof(mwIndex) * (a->dims[1] + 1), h);
    if (a->nzmax) { h = vt::fnv(a->ir, sizeof(mwIndex) * a->nzmax, h); h = vt::fnv(a->pr, 8 * a->nzmax, h); }
  } else if (n) {
    h = vt::fnv(a->pr, n * elsize(a->cls), h);
    if (a->pi) h = vt::fnv(a->pi, n * elsize(a->cls), h);
  }
  return h;
}
// an output must have the storage its dimensions announce
char const *malformed(mxArray const *m) {
  if (!m) return "not set";
  Arr *a = A(m);
  bool known = false;
  for (Arr *x : *arrays) if (x == a) known = true;
  if (!known) return "not an array of the host (or destroyed)";
  size_t n = numel(m);
  for (int i = 0; i < a->ndims; ++i) if (a->dims[i] < 0) return "negative dimension";
  if (a->cls == mxCELL_CLASS) {
    for (size_t i = 0; i < n; ++i) if (((mxArray **)a->pr)[i]) if (char const *e = malformed(((mxArray **)a->pr)[i])) return e;
    return 0;
  }
  if (a->cls == mxSTRUCT_CLASS) {
    for (size_t i = 0; i < n * a->nfields; ++i) if (((mxArray **)a->pr)[i]) if (char const *e = malformed(((mxArray **)a->pr)[i])) return e;
    return 0;
  }
  if (n == 0) return 0;
  if (!a->pr) return "no data";
  Block *b = find(a->pr);
  if (!b) return "data not allocated by the host (or released)";
  if (b->n < n * elsize(a->cls)) return "less data than its dimensions announce";
  return 0;
}
} // namespace

namespace mx {
long leftover;
size_t elsize(mxClassID c) {
  switch (c) {
    case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8;
    case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
    case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
    case mxINT8_CLASS: case mxUINT8_CLASS: case mxLOGICAL_CLASS: case mxCHAR_CLASS: return 1;
    case mxCELL_CLASS: case mxSTRUCT_CLASS: return sizeof(void *);
    default: return 1;
  }
}
void reset() {
  init();
  for (Arr *a : *arrays) { free(a->dims); free(a->fields); delete a; }
  arrays->clear();
  for (Block &b : *blocks) free(b.p);
  blocks->clear();
}
size_t numel(mxArray const *m) {
  size_t n = 1;
  for (int i = 0; i < A(m)->ndims; ++i) n *= A(m)->dims[i];
  return n;
}
mxArray *make(mxClassID c, std::vector<long> const &d, bool cplx) {
  std::vector<mwSize> v(d.begin(), d.end());
  return build(c, v.data(), (int)v.size(), cplx);
}
mxArray *scalar(double x) {
  mxArray *a = make(mxDOUBLE_CLASS, {1, 1});
  *data<double>(a) = x;
  return a;
}
mxArray *str(char const *s) {
  mxArray *a = make(mxCHAR_CLASS, {1, (long)strlen(s)});
  if (*s) memcpy(A(a)->pr, s, strlen(s));
  return a;
}
mxArray *sparse(long m, long n, std::vector<double> const &full) {
  Arr *a = blank(mxDOUBLE_CLASS);
  mwSize d[2] = {m, n};
  setDims(a, d, 2);
  a->sparse = true;
  std::vector<double> v;
  std::vector<mwIndex> r, j(1, 0);
  for (long c = 0; c < n; ++c) {
    for (long i = 0; i < m; ++i) if (full[c * m + i] != 0) { v.push_back(full[c * m + i]); r.push_back(i); }
    j.push_back((mwIndex)v.size());
  }
  a->nzmax = (mwIndex)v.size();
  a->pr = dataBlock(8 * v.size());
  a->ir = (mwIndex *)dataBlock(sizeof(mwIndex) * r.size());
  a->jc = (mwIndex *)dataBlock(sizeof(mwIndex) * j.size());
  if (!v.empty()) { memcpy(a->pr, v.data(), 8 * v.size()); memcpy(a->ir, r.data(), sizeof(mwIndex) * r.size()); }
  memcpy(a->jc, j.data(), sizeof(mwIndex) * j.size());
  return a;
}
bool isDims(mxArray const *m, std::vector<long> const &d) {
  int n = std::max(A(m)->ndims, (int)d.size());
  for (int i = 0; i < n; ++i) {
    long x = i < A(m)->ndims ? A(m)->dims[i] : 1, y = i < (int)d.size() ? d[i] : 1;
    if (x != y) return false;
  }
  return true;
}
char const *describe(mxArray const *m) {
  static char buf[8][128];
  static int k;
  char *b = buf[k = (k + 1) % 8];
  if (!m) return "null";
  static char const *names[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "fn"};
  int o = snprintf(b, 128, "%s%s", A(m)->sparse ? "sparse " : A(m)->cplx ? "complex " : "", names[std::min(16, (int)A(m)->cls)]);
  for (int i = 0; i < A(m)->ndims && o < 110; ++i) o += snprintf(b + o, 128 - o, "%c%ld", i ? 'x' : ' ', (long)A(m)->dims[i]);
  return b;
}

static int invoke(MexFn f, int nout, mxArray **out, int nin, mxArray const **in) {
  jmp_buf jb;
  target = &jb;
  int r = setjmp(jb);
  if (!r) f(nout, out, nin, in);
  target = 0;
  return r;
}

Res call(vt::Ctx &c, char const *name, MexFn f, int nout, std::vector<mxArray *> const &in, bool allSet) {
  Res r;
  r.msg[0] = 0;
  std::vector<uint64_t> before;
  for (mxArray *a : in) before.push_back(digestOf(a));
  // exactly as many slots as the host provides
  int slots = nout < 1 ? 1 : nout;
  mxArray **out = (mxArray **)calloc(slots, sizeof(mxArray *));
  mxArray const **inp = (mxArray const **)malloc(sizeof(mxArray *) * in.size() + (in.empty() ? 1 : 0));
  for (size_t i = 0; i < in.size(); ++i) inp[i] = in[i];
  errmsg[0] = 0;
  r.err = invoke(f, nout, out, (int)in.size(), inp) != 0;
  // gateways point the library at the host's allocator
  vl_set_alloc_func(malloc, realloc, calloc, free);
  vl_set_printf_func((printf_func_t)printf);
  memcpy(r.msg, errmsg, sizeof r.msg);
  for (int i = 0; i < slots; ++i) r.out.push_back(out[i]);
  bool sameIn = true;
  for (size_t i = 0; i < in.size(); ++i) sameIn &= inp[i] == in[i];
  free(out);
  free(inp);
  if (!sameIn) c.fail("input list", "%s changed its list of arguments", name);
  for (size_t i = 0; i < in.size(); ++i)
    if (digestOf(in[i]) != before[i]) c.fail("input modified", "%s changed its argument %zu (%s)", name, i + 1, describe(in[i]));
  if (!r.err)
    for (int i = 0; i < nout; ++i) if (allSet || r.out[i])
      if (char const *e = malformed(r.out[i])) c.fail("output malformed", "%s: output %d of %d is malformed: %s", name, i + 1, nout, e);
  if (!r.err && !r.out[0]) r.out[0] = 0;
  return r;
}
} // namespace mx

extern "C" {
void *mxMalloc(size_t n) { return track(malloc(n), n); }
void *mxCalloc(size_t n, size_t s) { return track(calloc(n, s), n * s); }
void *mxRealloc(void *p, size_t n) {
  if (!n) { mxFree(p); return 0; }
  void *q = realloc(p, n);
  if (!q) raise_("Out of memory"); // as the host does
  if (p) forget(p);
  return track(q, n);
}
void mxFree(void *p) {
  if (!p) return;
  forget(p);
  free(p);
}
int mexPrintf(char const *f, ...) {
  char b[2048];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return n;
}
void mexErrMsgTxt(char const *s) { raise_(s); }
void mexErrMsgIdAndTxt(char const *id, char const *f, ...) {
  char b[1024];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  raise_(b);
}
void mexWarnMsgTxt(char const *) {}
void mexWarnMsgIdAndTxt(char const *, char const *, ...) {}
int mexCallMATLAB(int, mxArray **, int, mxArray **, char const *) { return 0; }
int mexAtExit(void (*)(void)) { return 0; }
bool mxIsNumeric(mxArray const *m) { int c = A(m)->cls; return c >= mxDOUBLE_CLASS && c <= mxUINT64_CLASS; }
bool mxIsComplex(mxArray const *m) { return A(m)->cplx; }
bool mxIsSparse(mxArray const *m) { return A(m)->sparse; }
bool mxIsDouble(mxArray const *m) { return A(m)->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(mxArray const *m) { return A(m)->cls == mxSINGLE_CLASS; }
bool mxIsChar(mxArray const *m) { return A(m)->cls == mxCHAR_CLASS; }
bool mxIsStruct(mxArray const *m) { return A(m)->cls == mxSTRUCT_CLASS; }
bool mxIsCell(mxArray const *m) { return A(m)->cls == mxCELL_CLASS; }
bool mxIsLogical(mxArray const *m) { return A(m)->cls == mxLOGICAL_CLASS; }
bool mxIsLogicalScalar(mxArray const *m) { return A(m)->cls == mxLOGICAL_CLASS && numel(m) == 1; }
bool mxIsEmpty(mxArray const *m) { return numel(m) == 0; }
bool mxIsClass(mxArray const *m, char const *n) {
  static char const *names[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"};
  return (unsigned)A(m)->cls < 17 && !strcmp(names[A(m)->cls], n);
}
mxClassID mxGetClassID(mxArray const *m) { return A(m)->cls; }
double *mxGetPr(mxArray const *m) { return (double *)A(m)->pr; }
double *mxGetPi(mxArray const *m) { return (double *)A(m)->pi; }
void *mxGetData(mxArray const *m) { return A(m)->pr; }
mxLogical *mxGetLogicals(mxArray const *m) { return (mxLogical *)A(m)->pr; }
mwIndex *mxGetIr(mxArray const *m) { return A(m)->ir; }
mwIndex *mxGetJc(mxArray const *m) { return A(m)->jc; }
size_t mxGetM(mxArray const *m) { return A(m)->dims[0]; }
size_t mxGetN(mxArray const *m) {
  size_t n = 1;
  for (int i = 1; i < A(m)->ndims; ++i) n *= A(m)->dims[i];
  return n;
}
size_t mxGetElementSize(mxArray const *m) { return elsize(A(m)->cls); }
size_t mxGetNumberOfElements(mxArray const *m) { return numel(m); }
mwSize mxGetNumberOfDimensions(mxArray const *m) { return A(m)->ndims; }
mwSize const *mxGetDimensions(mxArray const *m) { return A(m)->dims; }
double mxGetInf(void) { return std::numeric_limits<double>::infinity(); }
double mxGetNaN(void) { return std::numeric_limits<double>::quiet_NaN(); }
double mxGetEps(void) { return std::numeric_limits<double>::epsilon(); }
double mxGetScalar(mxArray const *m) {
  Arr *a = A(m);
  if (!a->pr) return 0; // as Octave on an empty array: an error of the host
  switch (a->cls) {
    case mxDOUBLE_CLASS: return *(double *)a->pr;
    case mxSINGLE_CLASS: return *(float *)a->pr;
    case mxINT8_CLASS: return *(int8_t *)a->pr;
    case mxUINT8_CLASS: case mxLOGICAL_CLASS: return *(uint8_t *)a->pr;
    case mxCHAR_CLASS: return *(char *)a->pr;
    case mxINT16_CLASS: return *(int16_t *)a->pr;
    case mxUINT16_CLASS: return *(uint16_t *)a->pr;
    case mxINT32_CLASS: return *(int32_t *)a->pr;
    case mxUINT32_CLASS: return *(uint32_t *)a->pr;
    case mxINT64_CLASS: return (double)*(int64_t *)a->pr;
    case mxUINT64_CLASS: return (double)*(uint64_t *)a->pr;
    default: return 0;
  }
}
int mxGetString(mxArray const *m, char *b, mwSize n) {
  Arr *a = A(m);
  if (a->cls != mxCHAR_CLASS || n < 1) return 1;
  size_t k = numel(m), w = std::min(k, (size_t)n - 1);
  if (w) memcpy(b, a->pr, w);
  b[w] = 0;
  return k > w;
}
mxArray *mxCreateNumericArray(mwSize n, mwSize const *d, mxClassID c, mxComplexity f) { return build(c, d, (int)n, f == mxCOMPLEX); }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f) {
  mwSize d[2] = {m, n};
  return build(c, d, 2, f == mxCOMPLEX);
}
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, f); }
mxArray *mxCreateDoubleScalar(double x) { return scalar(x); }
mxArray *mxCreateString(char const *s) { return str(s); }
mxArray *mxCreateCellMatrix(mwSize m, mwSize n) {
  mwSize d[2] = {m, n};
  return build(mxCELL_CLASS, d, 2, false);
}
mxArray *mxCreateStructArray(mwSize n, mwSize const *d, int nf, char const **names) {
  Arr *a = blank(mxSTRUCT_CLASS);
  setDims(a, d, (int)n);
  a->nfields = nf;
  a->fields = (char(*)[64])calloc(nf + 1, 64);
  for (int i = 0; i < nf; ++i) snprintf(a->fields[i], 64, "%s", names[i]);
  a->pr = dataBlock(sizeof(void *) * numel(a) * nf);
  return a;
}
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, char const **names) {
  mwSize d[2] = {m, n};
  return mxCreateStructArray(2, d, nf, names);
}
static int fieldNumber(Arr *a, char const *f) {
  for (int i = 0; i < a->nfields; ++i) if (!strcmp(a->fields[i], f)) return i;
  return -1;
}
int mxGetFieldNumber(mxArray const *m, char const *f) { return fieldNumber(A(m), f); }
mxArray *mxGetFieldByNumber(mxArray const *m, mwIndex i, int k) {
  Arr *a = A(m);
  if (k < 0 || k >= a->nfields || i < 0 || (size_t)i >= numel(m)) return 0;
  return ((mxArray **)a->pr)[i * a->nfields + k];
}
mxArray *mxGetField(mxArray const *m, mwIndex i, char const *f) {
  if (A(m)->cls != mxSTRUCT_CLASS) return 0;
  return mxGetFieldByNumber(m, i, fieldNumber(A(m), f));
}
void mxSetFieldByNumber(mxArray *m, mwIndex i, int k, mxArray *v) {
  Arr *a = A(m);
  if (k < 0 || k >= a->nfields || i < 0 || (size_t)i >= numel(m)) die("mxSetFieldByNumber out of range");
  ((mxArray **)a->pr)[i * a->nfields + k] = v;
}
void mxSetField(mxArray *m, mwIndex i, char const *f, mxArray *v) {
  int k = fieldNumber(A(m), f);
  if (k >= 0) mxSetFieldByNumber(m, i, k, v);
}
mxArray *mxGetCell(mxArray const *m, mwIndex i) {
  if (i < 0 || (size_t)i >= numel(m)) return 0;
  return ((mxArray **)A(m)->pr)[i];
}
void mxSetCell(mxArray *m, mwIndex i, mxArray *v) {
  if (i < 0 || (size_t)i >= numel(m)) die("mxSetCell out of range");
  ((mxArray **)A(m)->pr)[i] = v;
}
mxArray *mxDuplicateArray(mxArray const *m) {
  if (!m) return 0;
  Arr *a = A(m), *b = blank(a->cls);
  setDims(b, a->dims, a->ndims);
  b->cplx = a->cplx;
  b->sparse = a->sparse;
  b->nzmax = a->nzmax;
  if (a->sparse) {
    b->pr = dataBlock(8 * a->nzmax);
    b->ir = (mwIndex *)dataBlock(sizeof(mwIndex) * a->nzmax);
    b->jc = (mwIndex *)dataBlock(sizeof(mwIndex) * (a->dims[1] + 1));
    if (a->nzmax) { memcpy(b->pr, a->pr, 8 * a->nzmax); memcpy(b->ir, a->ir, sizeof(mwIndex) * a->nzmax); }
    memcpy(b->jc, a->jc, sizeof(mwIndex) * (a->dims[1] + 1));
    return b;
  }
  size_t n = numel(m);
  if (a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS) {
    if (a->cls == mxSTRUCT_CLASS) {
      b->nfields = a->nfields;
      b->fields = (char(*)[64])calloc(a->nfields + 1, 64);
      memcpy(b->fields, a->fields, 64 * a->nfields);
      n *= a->nfields;
    }
    b->pr = dataBlock(n * sizeof(void *));
    for (size_t i = 0; i < n; ++i) ((mxArray **)b->pr)[i] = mxDuplicateArray(((mxArray **)a->pr)[i]);
    return b;
  }
  size_t bytes = n * elsize(a->cls);
  b->pr = dataBlock(bytes);
  if (bytes) memcpy(b->pr, a->pr, bytes);
  if (a->pi) { b->pi = dataBlock(bytes); if (bytes) memcpy(b->pi, a->pi, bytes); }
  return b;
}
void mxDestroyArray(mxArray *m) {
  if (!m) return;
  Arr *a = A(m);
  for (size_t i = 0; i < arrays->size(); ++i)
    if ((*arrays)[i] == a) {
      (*arrays)[i] = arrays->back();
      arrays->pop_back();
      size_t n = numel(m);
      if (a->cls == mxSTRUCT_CLASS) n *= a->nfields;
      if ((a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS) && a->pr)
        for (size_t k = 0; k < n; ++k) mxDestroyArray(((mxArray **)a->pr)[k]);
      if (a->pr) mxFree(a->pr);
      if (a->pi) mxFree(a->pi);
      if (a->ir) mxFree(a->ir);
      if (a->jc) mxFree(a->jc);
      free(a->dims);
      free(a->fields);
      delete a;
      return;
    }
  die("mxDestroyArray of an array that does not exist");
}
void mxSetData(mxArray *m, void *p) { A(m)->pr = p; }
void mxSetPr(mxArray *m, double *p) { A(m)->pr = p; }
void mxSetM(mxArray *m, mwSize n) { A(m)->dims[0] = n; }
void mxSetN(mxArray *m, mwSize n) {
  mwSize d[2] = {A(m)->dims[0], n};
  setDims(A(m), d, 2);
}
int mxSetDimensions(mxArray *m, mwSize const *d, mwSize n) {
  setDims(A(m), d, (int)n);
  return 0;
}
}
