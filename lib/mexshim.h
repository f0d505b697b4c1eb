// mexshim.h - an implementation of the part of the MEX API that the toolbox
// uses, so that the MEX gateways of /repo/toolbox run inside the monitors:
// every array has a heap block of exactly its size (sanitizers see any access
// outside of it), errors unwind to the caller, inputs are checked to be left
// as they were and outputs to have the storage their dimensions announce.
#ifndef MEXSHIM_H
#define MEXSHIM_H
#include <mex.h>
#include <cctype>
#include "vt.h"
#include <vector>
typedef void (*MexFn)(int, mxArray **, int, mxArray const **);
namespace mx {
struct Arr {
  mxClassID cls;
  bool cplx, sparse;
  int ndims;
  mwSize *dims;
  void *pr, *pi;
  mwIndex *ir, *jc;
  mwIndex nzmax;
  int nfields;
  char (*fields)[64];
};
size_t elsize(mxClassID);
inline Arr *A(mxArray const *a) { return (Arr *)a; }
// frees everything created through the API since the last call
void reset();
struct Scope {
  Scope() { reset(); }
  ~Scope() { reset(); }
};
mxArray *make(mxClassID, std::vector<long> const &dims, bool cplx = false);
mxArray *scalar(double);
mxArray *str(char const *);
mxArray *sparse(long m, long n, std::vector<double> const &full);
template <class T> struct Cls;
#define VT_CLS(T, C) template <> struct Cls<T> { static constexpr mxClassID id = C; };
VT_CLS(double, mxDOUBLE_CLASS)
VT_CLS(float, mxSINGLE_CLASS)
VT_CLS(int8_t, mxINT8_CLASS)
VT_CLS(uint8_t, mxUINT8_CLASS)
VT_CLS(int16_t, mxINT16_CLASS)
VT_CLS(uint16_t, mxUINT16_CLASS)
VT_CLS(int32_t, mxINT32_CLASS)
VT_CLS(uint32_t, mxUINT32_CLASS)
VT_CLS(int64_t, mxINT64_CLASS)
VT_CLS(uint64_t, mxUINT64_CLASS)
template <class T> mxArray *arr(std::vector<T> const &v, std::vector<long> const &dims) {
  mxArray *a = make(Cls<T>::id, dims);
  if (!v.empty()) memcpy(A(a)->pr, v.data(), v.size() * sizeof(T));
  return a;
}
size_t numel(mxArray const *);
template <class T> T *data(mxArray const *a) { return (T *)A(a)->pr; }
bool isDims(mxArray const *, std::vector<long> const &); // trailing ones ignored
struct Res {
  std::vector<mxArray *> out;
  bool err;
  char msg[512];
};
// calls a gateway; reports (c.fail) modified inputs and malformed outputs
Res call(vt::Ctx &c, char const *name, MexFn f, int nout, std::vector<mxArray *> const &in, bool allSet = true);
char const *describe(mxArray const *); // static buffers, for messages
extern long leftover;                  // blocks a gateway left to the host
} // namespace mx
#endif
