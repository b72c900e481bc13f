// Independent executable reference model of a conversion: what the documentation says must come out,
// written without looking at how the library computes it. All checks are on observable results.
#pragma once
#include "core.h"
#include <map>
#include <utility>

namespace mdl
{
enum Lay
{
	X8, X8Y8, X8Y8Z8, X8Y8Z8W8, WXYZ10, WZYX10, X16, X16Y16, X16Y16Z16, X16Y16Z16W16, X32, X32Y32,
	X32Y32Z32, X32Y32Z32W32, X64, X64Y64, X64Y64Z64, X64Y64Z64W64, UF11, E5, LAYS
};
enum Typ { UNorm, SNorm, UInt, SInt, Float, TYPS };
enum Prim { PointList, LineList, LineStrip, TriangleList, TriangleStrip, TriangleFan, PatchList, PRIMS };
enum Idx { NoIdx, U16, U32 };
enum Tr { Identity, Bounds, UToS, SToU };

extern const char* const layName[LAYS];
extern const char* const layColor[LAYS];
extern const char* const typName[TYPS];
extern const char* const primName[PRIMS];
extern const char* const trName[4];

int comps(int lay);
uint32_t laySize(int lay);
bool valid(int lay, int typ);
inline uint32_t idxSize(int t) { return t == U16 ? 2 : t == U32 ? 4 : 0; }
inline uint32_t idxRestart(int t) { return t == U16 ? 0xFFFFu : 0xFFFFFFFFu; }
inline bool hasRestart(int prim) { return prim == LineStrip || prim == TriangleStrip || prim == TriangleFan; }
uint32_t primStride(int prim, uint32_t patch);
uint32_t primMin(int prim, uint32_t patch);
bool countValid(int prim, uint64_t n, uint32_t patch);

struct Elem
{
	std::string name;
	int lay, typ;
	uint32_t off;
};
struct Fmt
{
	std::vector<Elem> e;
	uint32_t stride = 0;
	int find(const std::string& n) const
	{
		for (size_t i = 0; i < e.size(); ++i)
			if (e[i].name == n)
				return (int)i;
		return -1;
	}
	// 0 ok, 1 not unique, 2 invalid.
	int add(const std::string& n, int lay, int typ)
	{
		if (!valid(lay, typ))
			return 2;
		if (find(n) >= 0)
			return 1;
		e.push_back(Elem{n, lay, typ, stride});
		stride += laySize(lay);
		return 0;
	}
};

struct Val
{
	double v[4];
	bool unk[4]; // Component whose value is not judged.
};

Val decode(const uint8_t* d, int lay, int typ);
// Empty when the bytes are an acceptable encoding of the wanted value.
std::string encOk(const uint8_t* d, int lay, int typ, const Val& want);

struct InStream
{
	Fmt fmt;
	std::vector<uint8_t> v;
	uint32_t vcount = 0;
	uint32_t before = 0; // Unused vertices before the first one, for the caller only: indices here don't count them.
	int itype = NoIdx;
	std::vector<uint8_t> ib;
	uint32_t icount = 0;
	uint32_t count() const { return itype == NoIdx ? vcount : icount; }
	uint32_t index(uint32_t i) const
	{
		if (itype == U16)
		{
			uint16_t x;
			memcpy(&x, ib.data() + 2 * (size_t)i, 2);
			return x;
		}
		if (itype == U32)
		{
			uint32_t x;
			memcpy(&x, ib.data() + 4 * (size_t)i, 4);
			return x;
		}
		return i;
	}
};

struct Job
{
	std::vector<Fmt> out;
	int itype = NoIdx;
	int prim = TriangleList;
	uint32_t patch = 0;
	uint32_t maxIndex = 0;
	std::vector<InStream> in;
	std::vector<std::vector<int>> tr; // Per output stream and element.
	void defaultTr()
	{
		tr.clear();
		for (auto& f : out)
			tr.emplace_back(f.e.size(), (int)Identity);
	}
};

struct OutBuf
{
	uint32_t count = 0;
	int32_t base = 0;
	int type = 0;
	std::vector<uint8_t> bytes;
};
struct Out
{
	std::vector<std::vector<uint8_t>> verts;
	uint32_t vcount = 0;
	std::vector<OutBuf> bufs;
	std::vector<std::vector<std::pair<Val, Val>>> bounds;
};

struct Verdict
{
	bool ok = true;
	std::string why;
	uint32_t flips = 0;      // Pieces of strips whose orientation is inverted in the known way.
	uint32_t prims = 0, buffers = 0, splits = 0, dedups = 0, restarts = 0, splitInStrip = 0;
};

// What convert() must refuse although all streams were accepted ("" if it must succeed).
std::string rejectReason(const Job& j);
// 2: the bounds of some source component are not finite numbers; 1: not judged; 0: all finite.
int boundsState(const Job& j);
Verdict check(const Job& j, const Out& o);
}
