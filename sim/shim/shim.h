// Calls into the library, compiled together with it (and instrumented the same way), so that the code
// in its headers runs under the simulator as well. No header of the library is visible to the simulator.
#pragma once
#include <cstddef>
#include <cstdint>

namespace shim
{
struct FmtObj;
struct Conv;
struct Value;
size_t fmtBytes();
size_t convBytes();
size_t valueBytes();

// Called for each error message; may throw.
using Callback = void (*)(void* ctx, const char* message);
// Passed instead of a callback: the error function is not given, so that the default one is used.
void defaultCallback(void* ctx, const char* message);

// Objects live in storage of the caller, so that creating them allocates nothing by itself.
FmtObj* fmtNew(void* at);
FmtObj* fmtCopy(void* at, const FmtObj* f);
FmtObj* fmtMove(void* at, FmtObj* f);
void fmtAssign(FmtObj* d, const FmtObj* s);
void fmtMoveAssign(FmtObj* d, FmtObj* s);
void fmtDestroy(FmtObj* f);
int fmtAppend(FmtObj* f, const char* name, int lay, int typ);
uint32_t fmtStride(const FmtObj* f);
size_t fmtSize(const FmtObj* f);
bool fmtEmpty(const FmtObj* f);
int fmtFind(const FmtObj* f, const char* name, bool asString);
// Name is valid while the format is unchanged.
void fmtElem(const FmtObj* f, size_t i, const char*& name, int& lay, int& typ, uint32_t& off);
bool fmtContains(const FmtObj* a, const FmtObj* b);
bool fmtEqual(const FmtObj* a, const FmtObj* b);
void fmtClear(FmtObj* f);

Conv* convNew(void* at, const FmtObj* const* f, size_t n, bool single, int itype, int prim, uint32_t patch, bool hasMax, uint32_t maxIndex,
	Callback cb, void* ctx);
Conv* convMoveNew(void* at, Conv* c);
void convMoveAssign(Conv* d, Conv* s);
void convDestroy(Conv* c);
bool convAdd(Conv* c, const FmtObj* f, const void* v, uint32_t vcount, int itype, const void* ib, uint32_t icount, bool shortForm);
bool convConvert(Conv* c);
bool convSetTrName(Conv* c, const char* name, int tr, bool asString);
void convSetTr(Conv* c, size_t stream, size_t elem, int tr);
int convGetTrName(const Conv* c, const char* name, bool asString);
int convGetTr(const Conv* c, size_t stream, size_t elem);
bool convValid(const Conv* c, bool asBool);
size_t convFormats(const Conv* c);
const FmtObj* convFormat(const Conv* c, size_t i);
int convIndexType(const Conv* c);
int convPrim(const Conv* c);
uint32_t convPatch(const Conv* c);
uint32_t convMax(const Conv* c);
uint32_t convVertexCount(const Conv* c);
size_t convVertexStreams(const Conv* c);
size_t convVertexBytes(const Conv* c, size_t i);
void convCopyVertices(const Conv* c, size_t i, void* out);
size_t convBuffers(const Conv* c);
void convBuffer(const Conv* c, size_t i, const void*& data, int& type, uint32_t& count, int32_t& base);
void copyBytes(void* out, const void* in, size_t n);
uint32_t idxGet(int type, const void* data, size_t i);
bool idxSet(int type, void* data, size_t i, uint32_t v);
void idxFacts(int type, uint32_t& size, uint32_t& max, uint32_t& restart);
void convBounds(const Conv* c, size_t stream, size_t elem, double* lo, double* hi);
bool convBoundsName(const Conv* c, const char* name, bool asString, double* lo, double* hi);

int layFromName(const char* n);
int typFromName(const char* n);
int primFromName(const char* n);
const char* layName(int lay, bool color);
const char* typName(int typ);
const char* primName(int prim);
uint32_t laySize(int lay);
bool elemValid(int lay, int typ);
bool countValid(int prim, uint32_t n, uint32_t patch);

Value* valueNew(void* at);
void valueDestroy(Value* v);
bool valueFrom(Value* v, const void* d, int lay, int typ);
bool valueTo(const Value* v, void* d, int lay, int typ);
bool valueToBounds(const Value* v, void* d, int lay, int typ, const Value* lo, const Value* hi);
void valueGet(const Value* v, double* out);
bool valueEqual(const Value* a, const Value* b);
void valueExpand(const Value* v, Value* lo, Value* hi);
void boundsInit(double* lo, double* hi);
}
