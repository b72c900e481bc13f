#include "model.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <unordered_map>

namespace mdl
{
const char* const layName[LAYS] = {"X8", "X8Y8", "X8Y8Z8", "X8Y8Z8W8", "W2X10Y10Z10", "W2Z10Y10X10",
	"X16", "X16Y16", "X16Y16Z16", "X16Y16Z16W16", "X32", "X32Y32", "X32Y32Z32", "X32Y32Z32W32", "X64",
	"X64Y64", "X64Y64Z64", "X64Y64Z64W64", "Z10Y11X11_UFloat", "E5Z9Y9X9_UFloat"};
const char* const layColor[LAYS] = {"R8", "R8G8", "R8G8B8", "R8G8B8A8", "A2R10G10B10", "A2B10G10R10",
	"R16", "R16G16", "R16G16B16", "R16G16B16A16", "R32", "R32G32", "R32G32B32", "R32G32B32A32", "R64",
	"R64G64", "R64G64B64", "R64G64B64A64", "B10G11R11_UFloat", "E5B9G9R9_UFloat"};
const char* const typName[TYPS] = {"UNorm", "SNorm", "UInt", "SInt", "Float"};
const char* const primName[PRIMS] = {"PointList", "LineList", "LineStrip", "TriangleList",
	"TriangleStrip", "TriangleFan", "PatchList"};
const char* const trName[4] = {"Identity", "Bounds", "UNormToSNorm", "SNormToUNorm"};

static int bitsOf(int lay)
{
	if (lay <= X8Y8Z8W8)
		return 8;
	if (lay <= WZYX10)
		return 10;
	if (lay <= X16Y16Z16W16)
		return 16;
	if (lay <= X32Y32Z32W32)
		return 32;
	if (lay <= X64Y64Z64W64)
		return 64;
	return 0;
}
int comps(int lay)
{
	if (lay <= X8Y8Z8W8)
		return lay - X8 + 1;
	if (lay <= WZYX10)
		return 4;
	if (lay <= X16Y16Z16W16)
		return lay - X16 + 1;
	if (lay <= X32Y32Z32W32)
		return lay - X32 + 1;
	if (lay <= X64Y64Z64W64)
		return lay - X64 + 1;
	return 3;
}
uint32_t laySize(int lay)
{
	int b = bitsOf(lay);
	if (b == 10 || b == 0)
		return 4;
	return (uint32_t)(comps(lay) * b / 8);
}
bool valid(int lay, int typ)
{
	if (lay < 0 || lay >= LAYS || typ < 0 || typ >= TYPS)
		return false;
	switch (bitsOf(lay))
	{
		case 8:
		case 10:
			return typ != Float;
		case 16:
			return true;
		case 32:
		case 64:
			return typ == UInt || typ == SInt || typ == Float;
		default:
			return typ == Float;
	}
}
uint32_t primStride(int prim, uint32_t patch)
{
	return prim == LineList ? 2 : prim == TriangleList ? 3 : prim == PatchList ? patch : 1;
}
uint32_t primMin(int prim, uint32_t patch)
{
	switch (prim)
	{
		case PointList:
			return 1;
		case LineList:
		case LineStrip:
			return 2;
		case PatchList:
			return patch ? patch : 1;
		default:
			return 3;
	}
}
bool countValid(int prim, uint64_t n, uint32_t patch)
{
	switch (prim)
	{
		case PointList:
			return true;
		case LineList:
			return n % 2 == 0;
		case LineStrip:
			return n != 1;
		case TriangleList:
			return n % 3 == 0;
		case TriangleStrip:
		case TriangleFan:
			return n == 0 || n >= 3;
		case PatchList:
			return patch && n % patch == 0;
	}
	return false;
}

// Raw fields of an element. Returns the bit width of each component.
static int fields(const uint8_t* d, int lay, uint64_t raw[4], int width[4])
{
	int b = bitsOf(lay), n = comps(lay);
	if (b == 10)
	{
		uint32_t w;
		memcpy(&w, d, 4);
		int sx = lay == WXYZ10 ? 20 : 0, sz = lay == WXYZ10 ? 0 : 20;
		raw[0] = (w >> sx) & 0x3FF;
		raw[1] = (w >> 10) & 0x3FF;
		raw[2] = (w >> sz) & 0x3FF;
		raw[3] = w >> 30;
		width[0] = width[1] = width[2] = 10;
		width[3] = 2;
		return 4;
	}
	for (int i = 0; i < n; ++i)
	{
		raw[i] = 0;
		memcpy(&raw[i], d + i * (b / 8), (size_t)b / 8);
		width[i] = b;
	}
	return n;
}
static double halfVal(uint16_t h)
{
	int e = (h >> 10) & 31, m = h & 0x3FF;
	double r;
	if (e == 31)
		r = m ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
	else if (e == 0)
		r = std::ldexp(m, -24);
	else
		r = std::ldexp(1024 + m, e - 25);
	return h & 0x8000 ? -r : r;
}
// Unsigned small float with 5 exponent bits and mb mantissa bits. False if not judged.
static bool smallVal(uint32_t x, int mb, double& r)
{
	uint32_t e = x >> mb, m = x & ((1u << mb) - 1);
	if (x == 0)
	{
		r = 0;
		return true;
	}
	if (e == 0 || e == 31)
	{
		r = 0;
		return false;
	}
	r = std::ldexp((double)((1u << mb) + m), (int)e - 15 - mb);
	return true;
}
static double maxU(int w) { return w == 64 ? 18446744073709551615.0 : (double)((1ull << w) - 1); }
static int64_t sext(uint64_t raw, int w)
{
	if (w == 64)
		return (int64_t)raw;
	uint64_t s = 1ull << (w - 1);
	return (int64_t)((raw ^ s)) - (int64_t)s;
}

Val decode(const uint8_t* d, int lay, int typ)
{
	Val r{{0, 0, 0, 1}, {false, false, false, false}};
	if (lay == UF11)
	{
		uint32_t w;
		memcpy(&w, d, 4);
		r.unk[0] = !smallVal(w & 0x7FF, 6, r.v[0]);
		r.unk[1] = !smallVal((w >> 11) & 0x7FF, 6, r.v[1]);
		r.unk[2] = !smallVal(w >> 22, 5, r.v[2]);
		// The dependency reads a zero as 2^-15 when the components above it are not all zero.
		for (int i = 0; i < 2; ++i)
			if (r.v[i] == 0 && (w >> (11 * i)) != 0)
				r.unk[i] = true;
		return r;
	}
	if (lay == E5)
	{
		uint32_t w;
		memcpy(&w, d, 4);
		int e = (int)(w >> 27);
		for (int i = 0; i < 3; ++i)
			r.v[i] = std::ldexp((double)((w >> (9 * i)) & 0x1FF), e - 24);
		return r;
	}
	uint64_t raw[4];
	int width[4];
	int n = fields(d, lay, raw, width);
	for (int i = 0; i < n; ++i)
	{
		int w = width[i];
		switch (typ)
		{
			case UNorm:
				r.v[i] = (double)raw[i] / maxU(w);
				break;
			case SNorm:
				r.v[i] = ((double)sext(raw[i], w) + std::ldexp(1.0, w - 1)) / maxU(w) * 2 - 1;
				break;
			case UInt:
				r.v[i] = (double)raw[i];
				break;
			case SInt:
				r.v[i] = (double)sext(raw[i], w);
				break;
			default:
				if (w == 16)
					r.v[i] = halfVal((uint16_t)raw[i]);
				else if (w == 32)
				{
					float f;
					uint32_t x = (uint32_t)raw[i];
					memcpy(&f, &x, 4);
					r.v[i] = f;
				}
				else
					memcpy(&r.v[i], &raw[i], 8);
		}
	}
	return r;
}

static double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }

std::string encOk(const uint8_t* d, int lay, int typ, const Val& want)
{
	auto bad = [&](int i, double got, const char* k)
	{ return fmt("%s %s component %d holds %.17g (%s) for value %.17g", layName[lay], typName[typ], i, got, k, want.v[i]); };
	if (lay == UF11)
	{
		uint32_t w;
		memcpy(&w, d, 4);
		uint32_t x[3] = {w & 0x7FF, (w >> 11) & 0x7FF, w >> 22};
		for (int i = 0; i < 3; ++i)
		{
			double v = want.v[i];
			if (want.unk[i] || std::isnan(v))
				continue;
			if (v < 0)
				v = 0;
			int mb = i == 2 ? 5 : 6;
			double g;
			bool known = smallVal(x[i], mb, g);
			if (v == 0)
			{
				if (x[i] != 0)
					return bad(i, g, "not zero");
				continue;
			}
			if (v < std::ldexp(1, -14) || v > 64512)
				continue; // Outside the range that the packing helper of the dependency handles.
			int e;
			std::frexp(v, &e);
			double ulp = std::ldexp(1.0, e - 1 - mb);
			if (!known || std::fabs(g - v) > ulp * 1.0001)
				return bad(i, g, "more than one step off");
		}
		return "";
	}
	if (lay == E5)
	{
		double m = 0, c[3];
		for (int i = 0; i < 3; ++i)
		{
			if (want.unk[i] || !std::isfinite(want.v[i]))
				return "";
			c[i] = clampd(want.v[i], 0, 65408);
			m = std::max(m, c[i]);
		}
		if (m > 32768)
			return ""; // The packing helper of the dependency saturates at 32768 instead of 65408.
		uint32_t w;
		memcpy(&w, d, 4);
		int e = (int)(w >> 27), x = 0;
		if (m > 0)
			std::frexp(m, &x); // m = f*2^x, 0.5 <= f < 1
		double ulp = std::ldexp(1.0, std::max(x, -15) - 9);
		for (int i = 0; i < 3; ++i)
		{
			double g = std::ldexp((double)((w >> (9 * i)) & 0x1FF), e - 24);
			if (std::fabs(g - c[i]) > ulp * 1.0001)
				return bad(i, g, "more than one step off");
		}
		return "";
	}
	uint64_t raw[4];
	int width[4];
	int n = fields(d, lay, raw, width);
	for (int i = 0; i < n; ++i)
	{
		int w = width[i];
		double v = want.v[i];
		if (want.unk[i])
			continue;
		if (typ == Float)
		{
			double g;
			if (w == 16)
			{
				g = halfVal((uint16_t)raw[i]);
				if (std::isnan(v) != std::isnan(g))
					return bad(i, g, "NaN mismatch");
				if (std::isnan(v))
					continue;
				double a = std::fabs(v), ga = std::fabs(g);
				if (a > 65519)
				{
					if (a < 65521 ? ga < 65504 : !std::isinf(g))
						return bad(i, g, "overflow");
					if ((v < 0) != (g < 0))
						return bad(i, g, "sign");
					continue;
				}
				int e = -14;
				if (a >= std::ldexp(1, -14))
				{
					std::frexp(a, &e);
					--e;
				}
				double ulp = std::ldexp(1.0, e - 10);
				if (!(std::fabs(g - v) <= 0.5 * ulp * 1.001))
					return bad(i, g, "not the nearest");
				continue;
			}
			if (w == 32)
			{
				float f;
				uint32_t x = (uint32_t)raw[i];
				memcpy(&f, &x, 4);
				g = f;
				if (std::isnan(v) != std::isnan(g))
					return bad(i, g, "NaN mismatch");
				if (std::isnan(v))
					continue;
				if (std::fabs(v) > (double)std::numeric_limits<float>::max())
				{
					if (std::fabs(g) < (double)std::numeric_limits<float>::max() || (g < 0) != (v < 0))
						return bad(i, g, "overflow");
					continue;
				}
				if (g != (double)(float)v)
					return bad(i, g, "not the nearest");
				continue;
			}
			memcpy(&g, &raw[i], 8);
			if (std::isnan(v) ? !std::isnan(g) : g != v)
				return bad(i, g, "differs");
			continue;
		}
		if (std::isnan(v))
			continue;
		if (typ == UNorm)
		{
			double t = clampd(v, 0, 1) * maxU(w);
			if (std::fabs((double)raw[i] - t) > 0.5 + 1e-6)
				return bad(i, (double)raw[i] / maxU(w), "not the nearest");
		}
		else if (typ == SNorm)
		{
			double t = (clampd(v, -1, 1) * 0.5 + 0.5) * maxU(w);
			double g = (double)sext(raw[i], w) + std::ldexp(1.0, w - 1);
			if (std::fabs(g - t) > 0.5 + 1e-6)
				return bad(i, g / maxU(w) * 2 - 1, "not the nearest");
		}
		else
		{
			long double lo = typ == UInt ? 0 : -std::ldexp(1.0L, w - 1);
			long double hi = typ == UInt ? std::ldexp(1.0L, w) - 1 : std::ldexp(1.0L, w - 1) - 1;
			long double t = v < lo ? lo : v > hi ? hi : (long double)v;
			long double g = typ == UInt ? (long double)raw[i] : (long double)sext(raw[i], w);
			long double tol = 0.5L + 1e-9L;
			if (w == 64 && t >= hi - 4096)
				tol = 2048;
			if (std::fabs(g - t) > tol)
				return bad(i, (double)g, "not the nearest integer");
		}
	}
	return "";
}

// ---------------------------------------------------------------------------------------------

namespace
{
struct Ref
{
	uint32_t stream, elem; // Source of one output element.
};

struct Ctx
{
	const Job& j;
	std::vector<std::vector<Ref>> map;
	uint32_t n = 0;
	std::vector<std::vector<std::pair<Val, Val>>> bounds;
	std::vector<std::vector<bool>> haveBounds;

	explicit Ctx(const Job& job) : j(job) {}
	bool build(std::string& why)
	{
		for (auto& f : j.out)
		{
			map.emplace_back();
			for (auto& e : f.e)
			{
				bool found = false;
				for (uint32_t s = 0; s < j.in.size() && !found; ++s)
				{
					int k = j.in[s].fmt.find(e.name);
					if (k >= 0)
					{
						map.back().push_back(Ref{s, (uint32_t)k});
						found = true;
					}
				}
				if (!found)
				{
					why = "element without stream";
					return false;
				}
			}
		}
		n = j.in.empty() ? 0 : j.in[0].count();
		for (auto& s : j.in)
			if (s.count() != n)
			{
				why = "counts differ";
				return false;
			}
		return true;
	}
	bool used(uint32_t s) const
	{
		for (auto& m : map)
			for (auto& r : m)
				if (r.stream == s)
					return true;
		return false;
	}
	bool restart(uint32_t i) const
	{
		if (!hasRestart(j.prim))
			return false;
		for (uint32_t s = 0; s < j.in.size(); ++s)
			if (j.in[s].itype != NoIdx && used(s) && j.in[s].index(i) == idxRestart(j.in[s].itype))
				return true;
		return false;
	}
	Val source(const Ref& r, uint32_t i) const
	{
		const InStream& s = j.in[r.stream];
		const Elem& e = s.fmt.e[r.elem];
		return decode(s.v.data() + (size_t)s.index(i) * s.fmt.stride + e.off, e.lay, e.typ);
	}
	void buildBounds()
	{
		for (size_t k = 0; k < map.size(); ++k)
		{
			bounds.emplace_back();
			haveBounds.emplace_back();
			for (auto& r : map[k])
			{
				Val lo, hi;
				const double big = std::numeric_limits<double>::max();
				for (int c = 0; c < 4; ++c)
				{
					lo.v[c] = big;
					hi.v[c] = -big;
					lo.unk[c] = hi.unk[c] = false;
				}
				bool any = false;
				const InStream& s = j.in[r.stream];
				for (uint32_t i = 0; i < n; ++i)
				{
					if (hasRestart(j.prim) && s.itype != NoIdx && s.index(i) == idxRestart(s.itype))
						continue;
					Val x = source(r, i);
					any = true;
					for (int c = 0; c < 4; ++c)
					{
						if (x.unk[c])
							lo.unk[c] = hi.unk[c] = true;
						else if (!std::isnan(x.v[c]))
						{
							lo.v[c] = std::min(lo.v[c], x.v[c]);
							hi.v[c] = std::max(hi.v[c], x.v[c]);
						}
					}
				}
				bounds.back().push_back({lo, hi});
				haveBounds.back().push_back(any);
			}
		}
	}
	Val wanted(size_t k, size_t l, uint32_t i) const
	{
		Val x = source(map[k][l], i);
		const Elem& de = j.out[k].e[l];
		switch (j.tr[k][l])
		{
			case Identity:
				break;
			case Bounds:
				if (de.typ == UNorm || de.typ == SNorm)
				{
					const Val &lo = bounds[k][l].first, &hi = bounds[k][l].second;
					Val r{{0, 0, 0, 1}, {false, false, false, false}};
					for (int c = 0; c < 4; ++c)
					{
						double range = hi.v[c] - lo.v[c];
						if (x.unk[c] || lo.unk[c] || std::isnan(x.v[c]) || !std::isfinite(range))
						{
							r.unk[c] = true;
							continue;
						}
						if (range < 1e-17)
							continue;
						if (range < 1e-14)
						{
							r.unk[c] = true;
							continue;
						}
						r.v[c] = (x.v[c] - lo.v[c]) / range;
						if (de.typ == SNorm)
							r.v[c] = r.v[c] * 2 - 1;
					}
					return r;
				}
				break;
			case UToS:
				for (double& v : x.v)
					v = v * 2 - 1;
				break;
			case SToU:
				for (double& v : x.v)
					v = v * 0.5 + 0.5;
				break;
		}
		return x;
	}
};
}

static std::string reject(const Job& j, Ctx& c)
{
	std::string why;
	if (!c.build(why))
		return why;
	for (size_t k = 0; k < c.map.size(); ++k)
		for (auto& r : c.map[k])
		{
			const InStream& s = j.in[r.stream];
			for (uint32_t i = 0; i < c.n; ++i)
			{
				uint32_t x = s.index(i);
				if (hasRestart(j.prim) && s.itype != NoIdx && x == idxRestart(s.itype))
				{
					if (j.itype == NoIdx)
						return "restart without output indices";
					continue;
				}
				if (x >= s.vcount)
					return "index out of range";
			}
		}
	return "";
}

std::string rejectReason(const Job& j)
{
	Ctx c(j);
	return reject(j, c);
}

int boundsState(const Job& j)
{
	Ctx c(j);
	if (!reject(j, c).empty())
		return 0;
	c.buildBounds();
	int r = 0;
	for (auto& k : c.bounds)
		for (auto& b : k)
			for (int i = 0; i < 4; ++i)
			{
				if (b.first.unk[i])
					r = std::max(r, 1);
				else if (!std::isfinite(b.first.v[i]) || !std::isfinite(b.second.v[i]))
					r = 2;
			}
	return r;
}

Verdict check(const Job& j, const Out& o)
{
	Verdict vd;
	auto fail = [&](const std::string& s)
	{
		if (vd.ok)
		{
			vd.ok = false;
			vd.why = s;
		}
	};
	Ctx c(j);
	std::string why = reject(j, c);
	if (!why.empty())
	{
		fail("conversion succeeded although it must be refused: " + why);
		return vd;
	}
	c.buildBounds();

	// Shape.
	if (o.verts.size() != j.out.size())
	{
		fail(fmt("%zu vertex streams instead of %zu", o.verts.size(), j.out.size()));
		return vd;
	}
	for (size_t k = 0; k < o.verts.size(); ++k)
		if (o.verts[k].size() != (size_t)o.vcount * j.out[k].stride)
		{
			fail(fmt("vertex stream %zu holds %zu bytes for %u vertices of stride %u", k,
				o.verts[k].size(), o.vcount, j.out[k].stride));
			return vd;
		}

	// Bounds.
	if (!o.bounds.empty())
		for (size_t k = 0; k < j.out.size(); ++k)
			for (size_t l = 0; l < j.out[k].e.size(); ++l)
			{
				if (!c.haveBounds[k][l])
					continue;
				for (int m = 0; m < 4; ++m)
				{
					double wl = c.bounds[k][l].first.v[m], wh = c.bounds[k][l].second.v[m];
					double gl = o.bounds[k][l].first.v[m], gh = o.bounds[k][l].second.v[m];
					if (c.bounds[k][l].first.unk[m])
						continue;
					auto close = [](double a, double b)
					{
						if (a == b)
							return true;
						return std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)) ||
							std::fabs(a - b) < 1e-300;
					};
					if (!close(wl, gl) || !close(wh, gh))
					{
						fail(fmt("bounds of '%s' component %d are [%.17g, %.17g] instead of [%.17g, %.17g]",
							j.out[k].e[l].name.c_str(), m, gl, gh, wl, wh));
						return vd;
					}
				}
			}

	// Does vertex v hold the value of corner i?
	std::unordered_map<uint64_t, bool> memo;
	std::string cornerWhy;
	auto corner = [&](uint32_t i, uint32_t v) -> bool
	{
		uint64_t key = (uint64_t)i << 32 | v;
		auto it = memo.find(key);
		if (it != memo.end())
			return it->second;
		bool ok = true;
		for (size_t k = 0; k < j.out.size() && ok; ++k)
			for (size_t l = 0; l < j.out[k].e.size() && ok; ++l)
			{
				const Elem& e = j.out[k].e[l];
				std::string s = encOk(o.verts[k].data() + (size_t)v * j.out[k].stride + e.off, e.lay,
					e.typ, c.wanted(k, l, i));
				if (!s.empty())
				{
					ok = false;
					cornerWhy = fmt("vertex %u, element '%s': ", v, e.name.c_str()) + s;
				}
			}
		memo[key] = ok;
		return ok;
	};

	if (j.itype == NoIdx)
	{
		if (!o.bufs.empty())
			fail("index buffers although none were requested");
		if (o.vcount != c.n)
			fail(fmt("%u vertices instead of %u", o.vcount, c.n));
		for (uint32_t i = 0; i < c.n && vd.ok; ++i)
			if (!corner(i, i))
				fail(cornerWhy);
		vd.prims = c.n;
		return vd;
	}

	if (o.bufs.empty())
	{
		fail("no index buffer");
		return vd;
	}
	vd.buffers = (uint32_t)o.bufs.size();
	vd.splits = vd.buffers - 1;

	// Expected primitives.
	uint32_t ps = primMin(j.prim, j.patch);
	struct P
	{
		uint32_t c0, seg, ord; // First entry in the corner list, segment, ordinal inside the segment.
	};
	auto expand = [&](const std::vector<int64_t>& seq, std::vector<uint32_t>& flat, std::vector<P>& prims)
	{
		// seq holds an identifier per index, or -1 for a restart.
		uint32_t seg = 0;
		size_t start = 0;
		for (size_t i = 0; i <= seq.size(); ++i)
		{
			if (i < seq.size() && seq[i] >= 0)
				continue;
			size_t len = i - start;
			uint32_t ord = 0;
			auto put = [&](std::initializer_list<size_t> l)
			{
				prims.push_back(P{(uint32_t)flat.size(), seg, ord++});
				for (size_t x : l)
					flat.push_back((uint32_t)seq[start + x]);
			};
			switch (j.prim)
			{
				case LineStrip:
					for (size_t t = 0; t + 1 < len; ++t)
						put({t, t + 1});
					break;
				case TriangleStrip:
					for (size_t t = 0; t + 2 < len; ++t)
						if (t & 1)
							put({t + 1, t, t + 2});
						else
							put({t, t + 1, t + 2});
					break;
				case TriangleFan:
					for (size_t t = 1; t + 1 < len; ++t)
						put({0, t, t + 1});
					break;
				default:
					for (size_t t = 0; t + ps <= len; t += ps)
					{
						prims.push_back(P{(uint32_t)flat.size(), seg, ord++});
						for (size_t x = 0; x < ps; ++x)
							flat.push_back((uint32_t)seq[start + t + x]);
					}
			}
			start = i + 1;
			++seg;
		}
	};
	std::vector<int64_t> seq(c.n);
	for (uint32_t i = 0; i < c.n; ++i)
	{
		bool r = c.restart(i);
		seq[i] = r ? -1 : (int64_t)i;
		vd.restarts += r;
	}
	std::vector<uint32_t> wf, gf;
	std::vector<P> wp;
	expand(seq, wf, wp);

	// Actual primitives.
	struct G
	{
		uint32_t c0, buf, seg, ord;
	};
	std::vector<G> gp;
	std::vector<bool> referenced(o.vcount, false);
	uint64_t counted = 0;
	for (uint32_t b = 0; b < o.bufs.size(); ++b)
	{
		const OutBuf& ob = o.bufs[b];
		if (ob.type != j.itype)
		{
			fail(fmt("index buffer %u has another index type", b));
			return vd;
		}
		if (ob.bytes.size() != (size_t)ob.count * idxSize(ob.type))
		{
			fail(fmt("index buffer %u holds %zu bytes for %u indices", b, ob.bytes.size(), ob.count));
			return vd;
		}
		std::vector<int64_t> s(ob.count);
		std::unordered_map<std::string, uint32_t> byBytes;
		std::unordered_map<uint32_t, bool> seen;
		for (uint32_t i = 0; i < ob.count; ++i)
		{
			uint32_t x = 0;
			memcpy(&x, ob.bytes.data() + (size_t)i * idxSize(ob.type), idxSize(ob.type));
			++counted;
			if (hasRestart(j.prim) && x == idxRestart(ob.type))
			{
				s[i] = -1;
				continue;
			}
			int64_t v = (int64_t)x + ob.base;
			if (x > j.maxIndex)
			{
				fail(fmt("index %u in buffer %u exceeds the maximum index value %u", x, b, j.maxIndex));
				return vd;
			}
			if (v < 0 || v >= (int64_t)o.vcount)
			{
				fail(fmt("index %u with base vertex %d in buffer %u is beyond the %u vertices", x, ob.base, b, o.vcount));
				return vd;
			}
			s[i] = v;
			referenced[(size_t)v] = true;
			if (seen.emplace((uint32_t)v, true).second)
			{
				std::string bytes;
				for (size_t k = 0; k < j.out.size(); ++k)
					bytes.append(reinterpret_cast<const char*>(o.verts[k].data()) + (size_t)v * j.out[k].stride, j.out[k].stride);
				auto ins = byBytes.emplace(bytes, (uint32_t)v);
				if (!ins.second)
				{
					fail(fmt("vertices %u and %u of index buffer %u are byte-identical but have different indices", ins.first->second, (uint32_t)v, b));
					return vd;
				}
			}
			else
				++vd.dedups;
		}
		std::vector<P> p;
		std::vector<uint32_t> f;
		expand(s, f, p);
		for (auto& q : p)
			gp.push_back(G{(uint32_t)gf.size() + q.c0, b, q.seg, q.ord});
		gf.insert(gf.end(), f.begin(), f.end());
		if (b + 1 < o.bufs.size())
		{
			int64_t used = (int64_t)o.bufs[b + 1].base - ob.base;
			if (used + (int64_t)primStride(j.prim, j.patch) - 1 <= (int64_t)j.maxIndex)
				fail(fmt("index buffer %u was ended with %lld vertices although the maximum index value is %u", b, (long long)used, j.maxIndex));
		}
	}
	if (!vd.ok)
		return vd;
	if (o.bufs.size() == 1)
	{
		for (uint32_t v = 0; v < o.vcount; ++v)
			if (!referenced[v])
			{
				fail(fmt("vertex %u is not referenced", v));
				return vd;
			}
		if (counted != c.n)
		{
			fail(fmt("%llu indices instead of %u", (unsigned long long)counted, c.n));
			return vd;
		}
	}

	vd.prims = (uint32_t)wp.size();
	if (wp.size() != gp.size())
	{
		fail(fmt("%zu primitives are drawn instead of %zu", gp.size(), wp.size()));
	}
	size_t m = std::min(wp.size(), gp.size());

	// Orientation of strips. A known finding inverts the rest of a strip that continues in the next
	// index buffer after an odd number of triangles; a piece may have the true orientation or, where
	// predicted, that one, but must keep it throughout.
	int prevState = 0, pieceState = -1, piecePred = 0;
	uint32_t prevSegW = UINT32_MAX, pieceTris = 0;
	uint32_t pieceBuf = UINT32_MAX, pieceSeg = UINT32_MAX;
	for (size_t i = 0; i < m && vd.ok; ++i)
	{
		const uint32_t* w = &wf[wp[i].c0];
		const uint32_t* g = &gf[gp[i].c0];
		bool match = true;
		cornerWhy.clear();
		if (j.prim != TriangleStrip)
		{
			for (uint32_t x = 0; x < ps && match; ++x)
				match = corner(w[x], g[x]);
			if (!match)
				fail(fmt("primitive %zu (in index buffer %u): ", i, gp[i].buf) + cornerWhy);
			if (wp[i].ord > 0 && gp[i].ord == 0 && gp[i].buf > 0)
				++vd.splitInStrip;
			continue;
		}
		if (gp[i].buf != pieceBuf || gp[i].seg != pieceSeg)
		{
			// A new piece of a strip begins here.
			prevState = pieceState < 0 ? piecePred : pieceState;
			int pred = 0;
			if (gp[i].seg == 0 && gp[i].buf > 0 && wp[i].ord >= 1)
			{
				int before = wp[i].seg == prevSegW ? prevState : 0;
				pred = before ^ (int)(pieceTris & 1);
				++vd.splitInStrip;
			}
			pieceBuf = gp[i].buf;
			pieceSeg = gp[i].seg;
			piecePred = pred;
			pieceState = -1;
			pieceTris = 0;
			prevSegW = wp[i].seg;
		}
		++pieceTris;
		auto rot = [&](bool flip) -> bool
		{
			uint32_t a[3] = {w[0], flip ? w[2] : w[1], flip ? w[1] : w[2]};
			for (int r = 0; r < 3; ++r)
				if (corner(a[0], g[r]) && corner(a[1], g[(r + 1) % 3]) && corner(a[2], g[(r + 2) % 3]))
					return true;
			return false;
		};
		bool t = rot(false), f = rot(true);
		if (!t && !f)
		{
			corner(w[0], g[0]);
			fail(fmt("triangle %zu (in index buffer %u) does not have the corners of the input: ", i, gp[i].buf) + cornerWhy);
		}
		else if (t != f)
		{
			int st = f ? 1 : 0;
			if (pieceState < 0)
			{
				pieceState = st;
				if (st == 1)
				{
					if (piecePred == 0)
						fail(fmt("triangle %zu (in index buffer %u) has inverted orientation", i, gp[i].buf));
					else
						++vd.flips;
				}
			}
			else if (pieceState != st)
				fail(fmt("triangle %zu (in index buffer %u) has another orientation than the triangles of its strip", i, gp[i].buf));
		}
	}
	return vd;
}
}
