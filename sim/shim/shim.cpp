#include "shim.h"
#include <VFC/Converter.h>
#include <cstring>
#include <new>
#include <utility>
using namespace vfc;

namespace shim
{
struct FmtObj
{
	VertexFormat f;
};
struct Conv
{
	Converter c;
};
struct Value
{
	VertexValue v;
};
static_assert(sizeof(FmtObj) == sizeof(VertexFormat), "");

size_t fmtBytes() { return sizeof(FmtObj); }
size_t convBytes() { return sizeof(Conv); }
size_t valueBytes() { return sizeof(Value); }

static IndexType it(int t) { return t == 1 ? IndexType::UInt16 : t == 2 ? IndexType::UInt32 : IndexType::NoIndices; }
static int ti(IndexType t) { return t == IndexType::UInt16 ? 1 : t == IndexType::UInt32 ? 2 : 0; }
static ElementLayout el(int x) { return static_cast<ElementLayout>(x); }
static ElementType et(int x) { return static_cast<ElementType>(x); }
static PrimitiveType pt(int x) { return static_cast<PrimitiveType>(x); }

struct Handler
{
	Callback cb;
	void* ctx;
	void operator()(const char* m) const { cb(ctx, m); }
};

FmtObj* fmtNew(void* at) { return new (at) FmtObj(); }
FmtObj* fmtCopy(void* at, const FmtObj* f) { return new (at) FmtObj(*f); }
FmtObj* fmtMove(void* at, FmtObj* f) { return new (at) FmtObj(std::move(*f)); }
void fmtAssign(FmtObj* d, const FmtObj* s) { d->f = s->f; }
void fmtMoveAssign(FmtObj* d, FmtObj* s) { d->f = std::move(s->f); }
void fmtDestroy(FmtObj* f) { f->~FmtObj(); }
int fmtAppend(FmtObj* f, const char* name, int lay, int typ) { return static_cast<int>(f->f.appendElement(name, el(lay), et(typ))); }
uint32_t fmtStride(const FmtObj* f) { return f->f.stride(); }
size_t fmtSize(const FmtObj* f) { return f->f.size(); }
bool fmtEmpty(const FmtObj* f) { return f->f.empty(); }
int fmtFind(const FmtObj* f, const char* name, bool asString)
{
	auto i = asString ? f->f.find(std::string(name)) : f->f.find(name);
	return i == f->f.end() ? -1 : static_cast<int>(i - f->f.begin());
}
void fmtElem(const FmtObj* f, size_t i, const char*& name, int& lay, int& typ, uint32_t& off)
{
	const VertexFormat& v = f->f;
	auto p = static_cast<std::ptrdiff_t>(i);
	auto q = static_cast<std::ptrdiff_t>(v.size() - i);
	const VertexElement& e = i % 7 == 0 ? (i ? v.at(i) : v.front()) : i + 1 == v.size() ? v.back() : i % 7 == 1 ? v[i] : i % 7 == 2 ? *(v.begin() + p)
		: i % 7 == 3 ? *(v.cend() - q) : i % 7 == 4 ? *(v.rbegin() + (q - 1)) : i % 7 == 5 ? *(v.crend() - (p + 1)) : v.cbegin()[p];
	name = e.name.c_str();
	lay = static_cast<int>(e.layout);
	typ = static_cast<int>(e.type);
	off = e.offset;
}
bool fmtContains(const FmtObj* a, const FmtObj* b) { return a->f.containsElements(b->f); }
bool fmtEqual(const FmtObj* a, const FmtObj* b)
{
	bool e = a->f == b->f;
	if ((a->f != b->f) == e)
		return !e;
	// The elements one by one have to agree.
	bool same = a->f.size() == b->f.size();
	for (std::size_t i = 0; i < a->f.size() && i < b->f.size(); ++i)
	{
		bool x = a->f[i] == b->f[i];
		if ((a->f[i] != b->f[i]) == x)
			return !e;
		same = same && x;
	}
	return same == e ? e : !e;
}
void fmtClear(FmtObj* f) { f->f.clear(); }

void defaultCallback(void*, const char* message) { Converter::stderrErrorFunction(message); }

Conv* convNew(void* at, const FmtObj* const* f, size_t n, bool single, int itype, int prim, uint32_t patch, bool hasMax, uint32_t maxIndex,
	Callback cb, void* ctx)
{
	Converter::ErrorFunction e;
	if (cb)
		e = Handler{cb, ctx};
	bool none = cb == &defaultCallback;
	if (single)
	{
		VertexFormat v = f[0]->f;
		if (none)
		{
			if (hasMax)
				return reinterpret_cast<Conv*>(new (at) Converter(std::move(v), it(itype), pt(prim), patch, maxIndex));
			if (patch)
				return reinterpret_cast<Conv*>(new (at) Converter(std::move(v), it(itype), pt(prim), patch));
			return reinterpret_cast<Conv*>(new (at) Converter(std::move(v), it(itype), pt(prim)));
		}
		if (hasMax)
			return reinterpret_cast<Conv*>(new (at) Converter(std::move(v), it(itype), pt(prim), patch, maxIndex, std::move(e)));
		return reinterpret_cast<Conv*>(new (at) Converter(std::move(v), it(itype), pt(prim), patch, std::move(e)));
	}
	std::vector<VertexFormat> v;
	for (size_t i = 0; i < n; ++i)
		v.push_back(f[i]->f);
	if (none)
	{
		if (hasMax)
			return reinterpret_cast<Conv*>(new (at) Converter(std::move(v), it(itype), pt(prim), patch, maxIndex));
		if (patch)
			return reinterpret_cast<Conv*>(new (at) Converter(std::move(v), it(itype), pt(prim), patch));
		return reinterpret_cast<Conv*>(new (at) Converter(std::move(v), it(itype), pt(prim)));
	}
	if (hasMax)
		return reinterpret_cast<Conv*>(new (at) Converter(std::move(v), it(itype), pt(prim), patch, maxIndex, std::move(e)));
	return reinterpret_cast<Conv*>(new (at) Converter(std::move(v), it(itype), pt(prim), patch, std::move(e)));
}
Conv* convMoveNew(void* at, Conv* c) { return reinterpret_cast<Conv*>(new (at) Converter(std::move(c->c))); }
void convMoveAssign(Conv* d, Conv* s) { d->c = std::move(s->c); }
void convDestroy(Conv* c) { c->c.~Converter(); }
bool convAdd(Conv* c, const FmtObj* f, const void* v, uint32_t vcount, int itype, const void* ib, uint32_t icount, bool shortForm)
{
	if (shortForm)
		return c->c.addVertexStream(f->f, v, vcount);
	return c->c.addVertexStream(f->f, v, vcount, it(itype), ib, icount);
}
bool convConvert(Conv* c) { return c->c.convert(); }
bool convSetTrName(Conv* c, const char* name, int tr, bool asString)
{
	auto t = static_cast<Converter::Transform>(tr);
	return asString ? c->c.setElementTransform(std::string(name), t) : c->c.setElementTransform(name, t);
}
void convSetTr(Conv* c, size_t stream, size_t elem, int tr) { c->c.setElementTransform(stream, elem, static_cast<Converter::Transform>(tr)); }
int convGetTrName(const Conv* c, const char* name, bool asString)
{
	return static_cast<int>(asString ? c->c.getElementTransform(std::string(name)) : c->c.getElementTransform(name));
}
int convGetTr(const Conv* c, size_t stream, size_t elem) { return static_cast<int>(c->c.getElementTransform(stream, elem)); }
bool convValid(const Conv* c, bool asBool) { return asBool ? static_cast<bool>(c->c) : c->c.isValid(); }
size_t convFormats(const Conv* c) { return c->c.getVertexFormat().size(); }
const FmtObj* convFormat(const Conv* c, size_t i) { return reinterpret_cast<const FmtObj*>(&c->c.getVertexFormat()[i]); }
int convIndexType(const Conv* c) { return ti(c->c.getIndexType()); }
int convPrim(const Conv* c) { return static_cast<int>(c->c.getPrimitiveType()); }
uint32_t convPatch(const Conv* c) { return c->c.getPatchPoints(); }
uint32_t convMax(const Conv* c) { return c->c.getMaxIndexValue(); }
uint32_t convVertexCount(const Conv* c) { return c->c.getVertexCount(); }
size_t convVertexStreams(const Conv* c) { return c->c.getVertices().size(); }
size_t convVertexBytes(const Conv* c, size_t i) { return c->c.getVertices()[i].size(); }
void convCopyVertices(const Conv* c, size_t i, void* out)
{
	auto& v = c->c.getVertices()[i];
	if (!v.empty())
		std::memcpy(out, v.data(), v.size());
}
size_t convBuffers(const Conv* c) { return c->c.getIndices().size(); }
void convBuffer(const Conv* c, size_t i, const void*& data, int& type, uint32_t& count, int32_t& base)
{
	const IndexData& d = c->c.getIndices()[i];
	data = d.data;
	type = ti(d.type);
	count = d.count;
	base = d.baseVertex;
}
uint32_t idxGet(int type, const void* data, size_t i) { return getIndexValue(it(type), data, i); }
bool idxSet(int type, void* data, size_t i, uint32_t v) { return setIndexValue(it(type), data, i, v); }
void idxFacts(int type, uint32_t& size, uint32_t& max, uint32_t& restart)
{
	size = indexSize(it(type));
	max = maxIndexValue(it(type));
	restart = primitiveRestartIndexValue(it(type));
}
void copyBytes(void* out, const void* in, size_t n)
{
	if (n)
		std::memcpy(out, in, n);
}
static void put(const VertexValue& v, double* o)
{
	for (unsigned int i = 0; i < 4; ++i)
		o[i] = v[i];
}
void convBounds(const Conv* c, size_t stream, size_t elem, double* lo, double* hi)
{
	VertexValue a, b;
	c->c.getVertexElementBounds(a, b, stream, elem);
	put(a, lo);
	put(b, hi);
}
bool convBoundsName(const Conv* c, const char* name, bool asString, double* lo, double* hi)
{
	VertexValue a, b;
	bool r = asString ? c->c.getVertexElementBounds(a, b, std::string(name)) : c->c.getVertexElementBounds(a, b, name);
	put(a, lo);
	put(b, hi);
	return r;
}

int layFromName(const char* n) { return static_cast<int>(elementLayoutFromName(n)); }
int typFromName(const char* n) { return static_cast<int>(elementTypeFromName(n)); }
int primFromName(const char* n) { return static_cast<int>(primitiveTypeFromName(n)); }
const char* layName(int lay, bool color) { return elementLayoutName(el(lay), color); }
const char* typName(int typ) { return elementTypeName(et(typ)); }
const char* primName(int prim) { return primitiveTypeName(pt(prim)); }
uint32_t laySize(int lay) { return elementLayoutSize(el(lay)); }
bool elemValid(int lay, int typ) { return isElementValid(el(lay), et(typ)); }
bool countValid(int prim, uint32_t n, uint32_t patch) { return isVertexCountValid(pt(prim), n, patch); }

Value* valueNew(void* at) { return new (at) Value(); }
void valueDestroy(Value* v) { v->~Value(); }
bool valueFrom(Value* v, const void* d, int lay, int typ) { return v->v.fromData(d, el(lay), et(typ)); }
bool valueTo(const Value* v, void* d, int lay, int typ) { return v->v.toData(d, el(lay), et(typ)); }
bool valueToBounds(const Value* v, void* d, int lay, int typ, const Value* lo, const Value* hi) { return v->v.toData(d, el(lay), et(typ), lo->v, hi->v); }
void valueGet(const Value* v, double* out) { put(v->v, out); }
bool valueEqual(const Value* a, const Value* b) { return a->v == b->v && !(a->v != b->v); }
void valueExpand(const Value* v, Value* lo, Value* hi) { v->v.expandBounds(lo->v, hi->v); }
void boundsInit(double* lo, double* hi)
{
	put(VertexValue::initialBoundsMin, lo);
	put(VertexValue::initialBoundsMax, hi);
}
}
