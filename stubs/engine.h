// Stand-in of MATLAB's engine.h and matrix.h (C API), for the A01 harness: a workspace of named arrays,
// counters of what is alive and switches that make calls fail. Written from the documented behaviour.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
typedef size_t mwSize; typedef size_t mwIndex; typedef bool mxLogical; typedef char16_t mxChar;
typedef double mxDouble; typedef float mxSingle;
enum mxComplexity { mxREAL = 0, mxCOMPLEX };
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS } mxClassID;
struct mxArray_tag { mxClassID cls; std::vector<size_t> dims; unsigned char* data; size_t nbytes; bool sparse; };  // data: exactly nbytes, so that ASan sees what lies outside
typedef struct mxArray_tag mxArray;
struct engine { bool open; char* out; int outSize; };
typedef struct engine Engine;
namespace mxstub {
struct World {
  std::map<std::string, mxArray*> vars; long live = 0, opened = 0, closed = 0, gets = 0; bool openFails = false, closeFails = false, putFails = false, evalFails = false;
  std::vector<std::string> commands, badNames; std::string misuse; std::function<std::string(const std::string&)> eval;
};
inline World& world() { static World w; return w; }
inline void misuse(const char* what) { if (world().misuse.empty()) world().misuse = what; }
inline size_t elemSize(mxClassID c) { switch (c) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; default: return 8; } }
inline size_t count(const std::vector<size_t>& d) { size_t n = 1; for (size_t x : d) n *= x; return n; }
inline mxArray* make(mxClassID c, std::vector<size_t> dims, bool sparse = false, size_t stored = 0) { mxArray* a = new mxArray; a->cls = c; a->dims = dims; a->sparse = sparse; a->nbytes = (sparse ? stored : count(dims)) * elemSize(c); a->data = (unsigned char*)calloc(a->nbytes ? a->nbytes : 1, 1); if (!a->nbytes) { free(a->data); a->data = (unsigned char*)malloc(1); } return a; }
inline mxArray* copy(const mxArray* s) { mxArray* a = new mxArray(*s); a->data = (unsigned char*)malloc(s->nbytes ? s->nbytes : 1); memcpy(a->data, s->data, s->nbytes); return a; }
inline void drop(mxArray* a) { free(a->data); delete a; }
inline mxArray* fresh(mxArray* a) { ++world().live; return a; }
inline void set(const std::string& n, mxArray* a) { mxArray*& v = world().vars[n]; if (v) drop(v); v = a; }
inline bool legal(const std::string& n) { if (n.empty() || !((n[0] >= 'a' && n[0] <= 'z') || (n[0] >= 'A' && n[0] <= 'Z'))) return false; for (char c : n) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) return false; return n.size() <= 63; }
inline bool usable(const ::engine* e) { if (!e) return misuse("a call with the engine NULL"), false; if (!e->open) return misuse("a call with a closed engine"), false; return true; }
inline void reset() { World& w = world(); for (auto& v : w.vars) drop(v.second); w = World(); }
}
inline Engine* engOpen(const char*) { if (mxstub::world().openFails) return NULL; ++mxstub::world().opened; engine* e = new engine; e->open = true; e->out = NULL; e->outSize = 0; return e; }
inline int engClose(Engine* e) { if (!mxstub::usable(e)) return 1; e->open = false; ++mxstub::world().closed; delete e; for (auto& v : mxstub::world().vars) mxstub::drop(v.second); mxstub::world().vars.clear(); /* a new MATLAB starts empty */ return mxstub::world().closeFails ? 1 : 0; }
inline int engOutputBuffer(Engine* e, char* p, int n) { if (!e) return 1; e->out = p; e->outSize = n; return 0; }
inline int engEvalString(Engine* e, const char* s) {
  if (!mxstub::usable(e)) return 1; if (mxstub::world().evalFails) return 1;
  mxstub::world().commands.push_back(s); std::string o = mxstub::world().eval ? mxstub::world().eval(s) : std::string();
  if (e->out) { size_t n = e->outSize; memset(e->out, 'Z', n); memcpy(e->out, o.data(), o.size() < n ? o.size() : n); if (o.size() < n) e->out[o.size()] = 0; }  // no end mark if the output fills the buffer
  return 0;
}
inline mxArray* engGetVariable(Engine* e, const char* n) { if (!mxstub::usable(e)) return NULL; ++mxstub::world().gets; auto i = mxstub::world().vars.find(n); return i == mxstub::world().vars.end() ? NULL : mxstub::fresh(mxstub::copy(i->second)); }
inline int engPutVariable(Engine* e, const char* n, const mxArray* a) { if (!mxstub::usable(e)) return 1; if (!a) { mxstub::misuse("engPutVariable of NULL"); return 1; } if (!mxstub::legal(n)) mxstub::world().badNames.push_back(n); if (mxstub::world().putFails) return 1; mxstub::set(n, mxstub::copy(a)); return 0; }
inline int engGetVisible(Engine*, bool* v) { *v = false; return 0; }
inline int engSetVisible(Engine*, bool) { return 0; }
inline mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { return mxstub::fresh(mxstub::make(mxDOUBLE_CLASS, {m, n})); }
inline mxArray* mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity) { return mxstub::fresh(mxstub::make(c, {m, n})); }
inline mxArray* mxCreateDoubleScalar(double d) { mxArray* a = mxCreateDoubleMatrix(1, 1, mxREAL); memcpy(a->data, &d, 8); return a; }
inline mxArray* mxCreateLogicalScalar(bool b) { mxArray* a = mxstub::fresh(mxstub::make(mxLOGICAL_CLASS, {1, 1})); a->data[0] = b; return a; }
inline mxArray* mxCreateString(const char* s) { size_t n = strlen(s); mxArray* a = mxstub::fresh(mxstub::make(mxCHAR_CLASS, {n ? size_t(1) : size_t(0), n})); for (size_t i = 0; i < n; ++i) { mxChar c = (unsigned char)s[i]; memcpy(a->data + 2 * i, &c, 2); } return a; }
inline mxArray* mxDuplicateArray(const mxArray* a) { return mxstub::fresh(mxstub::copy(a)); }
inline void mxDestroyArray(mxArray* a) { if (!a) return; --mxstub::world().live; mxstub::drop(a); }
inline void mxFree(void* p) { free(p); }
inline void* mxMalloc(size_t n) { return malloc(n); }
inline void* mxCalloc(size_t n, size_t m) { return calloc(n, m); }
inline mxClassID mxGetClassID(const mxArray* a) { return a->cls; }
inline size_t mxGetElementSize(const mxArray* a) { return mxstub::elemSize(a->cls); }
inline size_t mxGetM(const mxArray* a) { return a->dims[0]; }
inline size_t mxGetN(const mxArray* a) { size_t n = 1; for (size_t i = 1; i < a->dims.size(); ++i) n *= a->dims[i]; return n; }  // all further dimensions
inline size_t mxGetNumberOfElements(const mxArray* a) { return mxstub::count(a->dims); }
inline mwSize mxGetNumberOfDimensions(const mxArray* a) { return a->dims.size(); }
inline const mwSize* mxGetDimensions(const mxArray* a) { return a->dims.data(); }
inline double* mxGetPr(const mxArray* a) { return (double*)a->data; }
inline mxDouble* mxGetDoubles(const mxArray* a) { return a->cls == mxDOUBLE_CLASS ? (double*)a->data : NULL; }
inline mxLogical* mxGetLogicals(const mxArray* a) { return (bool*)a->data; }
inline mxChar* mxGetChars(const mxArray* a) { return (mxChar*)a->data; }
inline void* mxGetData(const mxArray* a) { return a->data; }
inline bool mxIsEmpty(const mxArray* a) { return mxstub::count(a->dims) == 0; }
inline bool mxIsChar(const mxArray* a) { return a->cls == mxCHAR_CLASS; }
inline bool mxIsLogical(const mxArray* a) { return a->cls == mxLOGICAL_CLASS; }
inline bool mxIsNumeric(const mxArray* a) { return a->cls >= mxDOUBLE_CLASS; }
inline bool mxIsDouble(const mxArray* a) { return a->cls == mxDOUBLE_CLASS; }
inline bool mxIsSingle(const mxArray* a) { return a->cls == mxSINGLE_CLASS; }
inline bool mxIsCell(const mxArray* a) { return a->cls == mxCELL_CLASS; }
inline bool mxIsStruct(const mxArray* a) { return a->cls == mxSTRUCT_CLASS; }
inline bool mxIsComplex(const mxArray*) { return false; }
inline bool mxIsSparse(const mxArray* a) { return a->sparse; }
inline bool mxIsInt64(const mxArray* a) { return a->cls == mxINT64_CLASS; }
inline bool mxIsScalar(const mxArray* a) { return mxstub::count(a->dims) == 1; }
inline bool mxIsLogicalScalar(const mxArray* a) { return mxIsLogical(a) && mxIsScalar(a); }
inline bool mxIsLogicalScalarTrue(const mxArray* a) { return mxIsLogicalScalar(a) && a->data[0]; }
inline double mxGetScalar(const mxArray* a) {
  if (!a->nbytes) return 0;
  switch (a->cls) {
    case mxDOUBLE_CLASS: return *(double*)a->data; case mxSINGLE_CLASS: return *(float*)a->data; case mxINT8_CLASS: return *(int8_t*)a->data; case mxUINT8_CLASS: case mxLOGICAL_CLASS: return *(uint8_t*)a->data;
    case mxINT16_CLASS: return *(int16_t*)a->data; case mxUINT16_CLASS: case mxCHAR_CLASS: return *(uint16_t*)a->data; case mxINT32_CLASS: return *(int32_t*)a->data; case mxUINT32_CLASS: return *(uint32_t*)a->data;
    case mxINT64_CLASS: return *(int64_t*)a->data; case mxUINT64_CLASS: return *(uint64_t*)a->data; default: return 0;
  }
}
inline int mxGetString(const mxArray* a, char* buf, mwSize n) { if (a->cls != mxCHAR_CLASS || !n) return 1; size_t k = mxstub::count(a->dims), m = k < n - 1 ? k : n - 1; for (size_t i = 0; i < m; ++i) { mxChar c; memcpy(&c, a->data + 2 * i, 2); buf[i] = (char)c; } buf[m] = 0; return m < k; }
inline char* mxArrayToString(const mxArray* a) { if (a->cls != mxCHAR_CLASS) return NULL; size_t k = mxstub::count(a->dims); char* b = (char*)malloc(k + 1); mxGetString(a, b, k + 1); return b; }
