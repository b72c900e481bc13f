#include "gen.h"
#include <algorithm>
#include <cmath>
using namespace mdl;

std::string genName(Choices& c, bool odd, int salt)
{
	static const char* const plain[] = {"pos", "uv", "nrm", "col", "Pos", "w0", "t", "POS"};
	static const char* const strange[] = {"a b", "x\"y", "back\\slash", "\xC3\xBC", "tab\there", "", "base64:", "%s%n"};
	std::string n;
	if (odd && c.chance(SCEN, 1, 10))
	{
		// Long names are allocated, and meet limits of fixed size buffers.
		static const uint32_t lengths[] = {15, 16, 17, 31, 33, 40, 63, 64, 65, 127, 129, 256, 300};
		uint32_t k = c.draw(SCEN, 14);
		if (k < 8)
			n = strange[k];
		else
		{
			uint32_t len = lengths[c.draw(SCEN, 13)];
			static const char* const word[] = {"Long-", "texture_coordinate_", "n", "LONG-", "\xC3\xBC", "w0"};
			while (n.size() < len)
				n += word[k - 8];
			n.resize(len);
			if ((unsigned char)n.back() == 0xC3)
				n.back() = '_';
		}
	}
	else
		n = plain[c.draw(SCEN, 8)];
	if (salt)
		n += std::to_string(salt);
	return n;
}

void genElemType(Choices& c, int& lay, int& typ)
{
	// Simplest: X8 UInt-like small elements first.
	lay = (int)c.draw(SCEN, LAYS);
	static const int order[TYPS] = {UInt, Float, UNorm, SNorm, SInt};
	int t = (int)c.draw(SCEN, TYPS);
	for (int i = 0; i < TYPS; ++i)
	{
		typ = order[(t + i) % TYPS];
		if (valid(lay, typ))
			return;
	}
	typ = Float;
}

std::vector<uint8_t> genValue(Bulk& b, int lay, int typ, bool specials)
{
	std::vector<uint8_t> r(laySize(lay), 0);
	auto put = [&](size_t at, uint64_t v, size_t n) { memcpy(r.data() + at, &v, n); };
	if (lay == UF11)
	{
		uint32_t w = 0;
		for (int i = 0; i < 3; ++i)
		{
			int mb = i == 2 ? 5 : 6;
			uint32_t e = 5 + b(20), m = b(1u << mb);
			uint32_t x = b(5) == 0 ? 0 : (e << mb | m);
			w |= x << (i == 0 ? 0 : i == 1 ? 11 : 22);
		}
		put(0, w, 4);
		return r;
	}
	if (lay == E5)
	{
		put(0, (uint64_t)b(1u << 27) | (uint64_t)(5 + b(20)) << 27, 4);
		return r;
	}
	int n = comps(lay);
	size_t sz = r.size() / (size_t)n;
	if (lay == WXYZ10 || lay == WZYX10)
	{
		uint32_t w = 0;
		static const uint32_t e10[] = {0, 1, 0x1FF, 0x200, 0x201, 0x3FF, 0x3FE};
		for (int i = 0; i < 3; ++i)
			w |= (b(2) ? e10[b(7)] : b(1024)) << (10 * i);
		w |= b(4) << 30;
		put(0, w, 4);
		return r;
	}
	for (int i = 0; i < n; ++i)
	{
		uint64_t v;
		if (typ == Float)
		{
			static const double nice[] = {0, 1, -1, 0.5, 0.25, 2, 0.75, -0.5, 100.5, -7.25, 0.001, 255, 65504, 1e-3, 3, -0.125, 1.0 / 3, 40000, -127.6, 0.99999};
			static const double wild[] = {1e30, -1e30, 3.4e38, 1e-40, 1e300, -1e300, 70000, 1e10, 1.8e19, -9.3e18, -0.0, 4e9, 2147483648.0};
			double d = nice[b(20)];
			if (b(3) == 0)
				d = (double)((int)b(4001) - 2000) / 16;
			if (specials && b(12) == 0)
				d = wild[b(13)];
			if (specials && b(40) == 0)
				d = b(3) == 0 ? NAN : b(2) ? INFINITY : -INFINITY;
			if (sz == 8)
				memcpy(&v, &d, 8);
			else if (sz == 4)
			{
				float f = (float)d;
				uint32_t x;
				memcpy(&x, &f, 4);
				v = x;
			}
			else
			{
				// Half: build normal values directly, some specials.
				uint32_t e = 8 + b(14), m = b(1024);
				static const uint32_t k[] = {0, 0x3C00, 0xBC00, 0x3800, 0x4000, 0x7BFF, 0xFBFF, 0x0400};
				v = b(2) ? k[b(8)] : ((e << 10 | m) | (b(2) << 15));
				if (specials && b(40) == 0)
					v = b(2) ? 0x7C00 : b(2) ? 0x7E00 : 0x0001;
			}
		}
		else
		{
			v = (uint64_t)b(65536) | (uint64_t)b(65536) << 16 | (uint64_t)b(65536) << 32 | (uint64_t)b(65536) << 48;
			switch (b(8))
			{
				case 0:
					v = 0;
					break;
				case 1:
					v = ~0ull;
					break;
				case 2:
					v = 1ull << (sz * 8 - 1);
					break;
				case 3:
					v = (1ull << (sz * 8 - 1)) - 1;
					break;
				case 4:
				case 5:
					v = b(100);
					break;
			}
		}
		put((size_t)i * sz, v, sz);
	}
	return r;
}

// Many index buffers from few vertices: a patch doesn't fit if any vertex is in the buffer already.
static Job genManyBuffers(Choices& c)
{
	Job j;
	j.prim = PatchList;
	j.itype = U16;
	j.patch = 65535 - c.draw(SCEN, 3);
	uint32_t n = j.patch * (1 + (c.draw(SCEN, 2) ? 12 + c.draw(SCEN, 12) : c.draw(SCEN, 6)));
	Bulk b(1 + c.draw(SCEN, 1 << 20));
	InStream in;
	in.fmt.add("pos", X8, UInt);
	in.vcount = n;
	in.itype = NoIdx;
	in.v.resize(n);
	uint32_t step = 1 + c.draw(SCEN, 20000);
	uint8_t x = 0;
	for (uint32_t i = 0; i < n; ++i)
		in.v[i] = b(step) ? x : ++x;
	j.in.push_back(in);
	Fmt f;
	f.add("pos", X8, UInt);
	j.out.push_back(f);
	j.maxIndex = 65534u;
	j.defaultTr();
	return j;
}

static Job genHuge(Choices& c, const GenOpt& o)
{
	if (c.draw(SCEN, 5) == 4)
		return genManyBuffers(c);
	Job j;
	static const int prims[] = {PointList, TriangleStrip, TriangleFan, LineStrip, TriangleList, LineList, PatchList};
	j.prim = prims[c.draw(SCEN, 7)];
	j.patch = j.prim == PatchList ? 3 + c.draw(SCEN, 3) : 0;
	j.itype = c.chance(SCEN, 1, 5) ? U32 : U16;
	Bulk b(1 + c.draw(SCEN, 1 << 20));
	uint32_t n = 65500 + c.draw(SCEN, 120);
	if (c.chance(SCEN, 1, 3))
		n += 65400 + c.draw(SCEN, 200);
	uint32_t s = j.prim == PatchList ? j.patch : primStride(j.prim, 0);
	n -= n % s;
	InStream in;
	in.fmt.add("pos", X32, UInt);
	in.itype = c.draw(SCEN, 2) ? U32 : NoIdx;
	in.vcount = n;
	in.v.resize((size_t)n * 4);
	uint32_t dup = c.draw(SCEN, 3); // Occasional duplicates.
	for (uint32_t i = 0; i < n; ++i)
	{
		uint32_t x = i * 7 + 1;
		if (dup && b(dup == 1 ? 1000 : 50) == 0 && i)
			x = b(i) * 7 + 1;
		memcpy(&in.v[(size_t)i * 4], &x, 4);
	}
	if (in.itype == U32)
	{
		in.icount = n;
		in.ib.resize((size_t)n * 4);
		uint32_t rate = hasRestart(j.prim) && c.draw(SCEN, 2) ? 200 : 0;
		for (uint32_t i = 0; i < n; ++i)
		{
			uint32_t x = rate && b(rate) == 0 ? 0xFFFFFFFFu : i;
			memcpy(&in.ib[(size_t)i * 4], &x, 4);
		}
	}
	j.in.push_back(in);
	Fmt f;
	f.add("pos", X32, UInt);
	j.out.push_back(f);
	if (c.chance(SCEN, 1, 3))
	{
		// A second attribute with few values: in a stream of its own or not, indexed or not.
		InStream at;
		at.fmt.add("uv", X8Y8, UInt);
		at.itype = c.draw(SCEN, 2) ? U16 : NoIdx;
		at.vcount = at.itype == NoIdx ? n : 1 + c.draw(SCEN, 300);
		for (uint32_t i = 0; i < at.vcount; ++i)
		{
			at.v.push_back((uint8_t)b(2));
			at.v.push_back((uint8_t)(at.itype == NoIdx ? 0 : i));
		}
		if (at.itype == U16)
		{
			at.icount = n;
			for (uint32_t i = 0; i < n; ++i)
			{
				uint32_t x = b(20) ? i * at.vcount / n : b(at.vcount);
				at.ib.push_back((uint8_t)x);
				at.ib.push_back((uint8_t)(x >> 8));
			}
		}
		j.in.push_back(at);
		if (c.draw(SCEN, 2))
		{
			j.out.emplace_back();
			j.out.back().add("uv", X8Y8, UInt);
		}
		else
			j.out.back().add("uv", X8Y8, UInt);
	}
	j.maxIndex = j.itype == U16 ? 65534u : 0xFFFFFFFEu;
	j.defaultTr();
	(void)o;
	return j;
}

// Different vertices with the same hash. Murmur hash can be inverted, and std::hash is the same function.
namespace murmur
{
const uint64_t m = 0xc6a4a7935bd1e995ull, seed = 0xc70f6907u;
uint64_t inverse()
{
	uint64_t x = m;
	for (int i = 0; i < 6; ++i)
		x *= 2 - m * x;
	return x;
}
const uint64_t mi = inverse();
uint64_t mix(uint64_t k)
{
	k *= m;
	k ^= k >> 47;
	return k * m;
}
uint64_t unmix(uint64_t k)
{
	k *= mi;
	k ^= k >> 47;
	return k * mi;
}
uint64_t finish(uint64_t h)
{
	h ^= h >> 47;
	h *= m;
	return h ^ h >> 47;
}
uint64_t unfinish(uint64_t h)
{
	h ^= h >> 47;
	h *= mi;
	return h ^ h >> 47;
}
uint64_t hash8(uint64_t w) { return finish((seed ^ 8 * m ^ mix(w)) * m); }
uint64_t unhash8(uint64_t h) { return unmix(unfinish(h) * mi ^ seed ^ 8 * m); }
uint64_t first(uint64_t w) { return (seed ^ 16 * m ^ mix(w)) * m; }
// The second word with which x gives the hash of a and b.
uint64_t same16(uint64_t a, uint64_t b, uint64_t x) { return unmix(first(x) ^ first(a) ^ mix(b)); }
uint64_t combine(uint64_t s, uint64_t v) { return s ^ (v + 0x9e3779b9 + (s << 6) + (s >> 2)); }
// The same for two words in streams of their own.
uint64_t same8(uint64_t a, uint64_t b, uint64_t x)
{
	uint64_t h = combine(combine(0, hash8(a)), hash8(b)), s = combine(0, hash8(x));
	return unhash8((h ^ s) - 0x9e3779b9 - (s << 6) - (s >> 2));
}
} // namespace murmur

static void genCollide(Choices& c, const GenOpt& o, Job& j)
{
	uint32_t kind = c.draw(SCEN, 4); // One element of 16 bytes, two of 8, the same and another stream, two streams.
	Bulk b(1 + c.draw(SCEN, 1 << 20));
	auto word = [&] { return (uint64_t)b(1u << 31) << 33 ^ (uint64_t)b(1u << 31) << 2 ^ b(4); };
	std::vector<std::pair<uint64_t, uint64_t>> pal;
	uint32_t groups = 1 + c.draw(SCEN, 6);
	for (uint32_t g = 0; g < groups; ++g)
	{
		uint64_t p = word(), q = word(), x = word();
		if (b(4) == 0)
		{
			p &= 0xFF000000FFull;
			q &= 0xFF000000FFull;
			x &= 0xFF;
		}
		pal.emplace_back(p, q);
		switch (b(6))
		{
			case 0: // Words exchanged.
				pal.emplace_back(q, p);
				pal.emplace_back(p << 32 | p >> 32, q);
				break;
			case 1: // The same sum or the same exclusive or.
				pal.emplace_back(p ^ x, q ^ x);
				pal.emplace_back(p + x, q - x);
				break;
			case 2: // A small difference.
				pal.emplace_back(p ^ 1ull << b(64), q);
				pal.emplace_back(p, q ^ 1ull << b(64));
				break;
			default:
				for (int i = 0; i < 2; ++i, x = word())
					pal.emplace_back(x, kind == 3 ? murmur::same8(p, q, x) : murmur::same16(p, q, x));
				break;
		}
	}
	uint32_t np = (uint32_t)pal.size();
	uint32_t s = j.prim == PatchList ? j.patch : primStride(j.prim, 0);
	uint32_t n = std::max(primMin(j.prim, j.patch), 2 + c.draw(SCEN, 2 * o.maxCorners));
	n += (s - n % s) % s;
	std::vector<uint32_t> at(n);
	for (auto& x : at)
		x = b(np);
	bool apart = kind && c.draw(SCEN, 2);
	auto add = [&](std::vector<std::pair<const char*, int>> elems)
	{
		InStream in;
		static const int its[] = {U32, U16, NoIdx};
		in.itype = its[c.draw(SCEN, 3)];
		for (auto& e : elems)
			in.fmt.add(e.first, e.second, UInt);
		in.vcount = in.itype == NoIdx ? n : np;
		for (uint32_t i = 0; i < in.vcount; ++i)
		{
			auto& w = pal[in.itype == NoIdx ? at[i] : i];
			uint64_t v[2] = {w.first, w.second};
			for (auto& e : elems)
			{
				const uint8_t* f = (const uint8_t*)(e.first[0] == 'b' ? &v[1] : &v[0]);
				uint8_t z[4] = {0, 0, 0, 0};
				if (e.first[0] == 'z')
					f = z;
				in.v.insert(in.v.end(), f, f + laySize(e.second));
			}
		}
		if (in.itype != NoIdx)
		{
			in.icount = n;
			in.ib.resize(n * idxSize(in.itype));
			for (uint32_t i = 0; i < n; ++i)
				memcpy(in.ib.data() + i * idxSize(in.itype), &at[i], idxSize(in.itype));
		}
		j.in.push_back(in);
	};
	j.out.resize(kind >= 2 ? 2 : 1);
	if (kind == 0)
	{
		j.out[0].add("a", X32Y32Z32W32, UInt);
		add({{"a", X32Y32Z32W32}});
	}
	else
	{
		j.out[0].add("a", X32Y32, UInt);
		j.out[kind == 3].add("b", X32Y32, UInt);
		if (kind == 2)
			j.out[1].add("z", X32, UInt);
		if (apart)
		{
			add({{"b", X32Y32}});
			add({{"a", X32Y32}});
		}
		else
			add({{"a", X32Y32}, {"b", X32Y32}});
		if (kind == 2)
			add({{"z", X32}});
	}
	j.maxIndex = j.itype == U16 ? 65534u : j.itype == U32 ? 0xFFFFFFFEu : 0;
	if (o.smallMax && j.itype != NoIdx && c.draw(SCEN, 3) == 2)
		j.maxIndex = primMin(j.prim, j.patch) - 1 + c.draw(SCEN, 12);
	j.defaultTr();
}

Job genJob(Choices& c, const GenOpt& o)
{
	if (o.huge)
		return genHuge(c, o);
	Job j;
	static const int prims[] = {TriangleList, TriangleStrip, PointList, LineList, LineStrip, TriangleFan, PatchList};
	static const int strips[] = {TriangleStrip, TriangleFan, LineStrip};
	j.prim = o.stripsOnly ? strips[c.draw(SCEN, 3)] : prims[c.draw(SCEN, 7)];
	if (o.strictMax && !o.stripsOnly && c.chance(SCEN, 1, 4))
		j.prim = PatchList;
	j.patch = j.prim == PatchList ? 1 + c.draw(SCEN, 5) : 0;
	bool fewPatches = false;
	if (j.patch && c.chance(SCEN, 1, o.strictMax ? 3 : 6))
	{
		static const uint32_t sizes[] = {40, 40, 70, 300};
		j.patch = 1 + c.draw(SCEN, sizes[c.draw(SCEN, 4)]);
		fewPatches = c.draw(SCEN, 2);
	}
	static const int its[] = {U32, U16, NoIdx};
	j.itype = its[c.draw(SCEN, o.wantIndexed ? 2 : 3)];

	// Output elements, distributed over streams.
	bool wide = c.chance(SCEN, 1, 14); // Many elements and streams.
	bool tall = !wide && c.chance(SCEN, 1, 50); // Many corners.
	bool fat = wide && c.chance(SCEN, 1, 5); // Large vertices.
	uint32_t rare = wide || tall ? 0 : c.draw(SCEN, 130);
	bool crowd = rare == 129; // More elements than fit in a mask, or in 8 bits.
	if (rare >= 126 && rare <= 128 && o.maxOut > 1)
	{
		genCollide(c, o, j);
		return j;
	}
	uint32_t nelem = crowd ? (c.draw(SCEN, 3) == 2 ? 256 + c.draw(SCEN, 40) : 32 + c.draw(SCEN, 64)) : fat ? 9 + c.draw(SCEN, 28) : 1 + c.draw(SCEN, wide ? 14 : tall ? 2 : 4);
	auto share = [&] { return std::min(nelem, c.draw(SCEN, 3) ? 1 + c.draw(SCEN, 5) : nelem - c.draw(SCEN, 20)); };
	uint32_t nstreams = crowd ? std::min(share(), o.maxOut) : 1 + c.draw(SCEN, fat ? 2 : std::min(nelem, wide ? 13u : 3u));
	std::vector<std::string> names;
	for (uint32_t i = 0; i < nelem; ++i)
	{
		std::string n = genName(c, o.oddNames, 0);
		if (crowd)
			n += std::to_string(i);
		while (std::find(names.begin(), names.end(), n) != names.end())
			n += "x";
		names.push_back(n);
	}
	j.out.resize(nstreams);
	for (uint32_t i = 0; i < nelem; ++i)
	{
		int lay, typ;
		genElemType(c, lay, typ);
		if (fat && i % 4)
		{
			lay = 17; // X64Y64Z64W64
			typ = 4;  // Float
		}
		uint32_t s = i < nstreams ? i : c.draw(SCEN, nstreams);
		j.out[s].add(names[i], lay, typ);
	}

	// Input streams.
	uint32_t nin = crowd ? share() : 1 + c.draw(SCEN, fat ? 2 : std::min(nelem, wide ? 12u : 3u));
	j.in.resize(nin);
	std::vector<std::vector<std::string>> inNames(nin);
	for (uint32_t i = 0; i < nelem; ++i)
		inNames[i < nin ? i : c.draw(SCEN, nin)].push_back(names[i]);
	bool extra = c.chance(SCEN, 1, 4);
	if (extra)
	{
		uint32_t s = c.draw(SCEN, nin);
		auto& v = inNames[s];
		v.insert(v.begin() + c.draw(SCEN, (uint32_t)v.size() + 1), "unused");
	}
	if (c.chance(SCEN, 1, 12))
	{
		// A stream whose elements are all ignored.
		j.in.emplace_back();
		inNames.push_back({"ignored"});
		++nin;
	}

	// Number of corners.
	uint32_t n = 1 + c.draw(SCEN, crowd ? 4 : o.maxCorners * (tall ? 20 : 1));
	switch (j.prim)
	{
		case LineList:
			n += n & 1;
			break;
		case TriangleList:
			n += (3 - n % 3) % 3;
			break;
		case LineStrip:
			n = std::max(n, 2u);
			break;
		case TriangleStrip:
		case TriangleFan:
			n = std::max(n, 3u);
			break;
		case PatchList:
			if (fewPatches)
				n = j.patch * (1 + c.draw(SCEN, 6));
			n += (j.patch - n % j.patch) % j.patch;
			break;
	}

	// Restart positions.
	std::vector<bool> restart(n, false);
	uint32_t restartRate = 0;
	if (hasRestart(j.prim) && j.itype != NoIdx)
		restartRate = c.draw(SCEN, 3);
	if (restartRate)
	{
		// Now and then nothing but restarts, or all but one corner.
		uint32_t rate = c.chance(SCEN, 1, 8) ? 8 : restartRate;
		for (uint32_t i = 0; i < n; ++i)
			restart[i] = c.chance(SCEN, rate, 8);
		if (rate == 8 && c.chance(SCEN, 1, 3))
			restart[c.draw(SCEN, n)] = false;
	}

	Bulk vals(c.draw(SCEN, 1 << 24));
	uint32_t palette = 2 + c.draw(SCEN, tall || fewPatches ? 600 : 14);
	for (uint32_t s = 0; s < nin; ++s)
	{
		InStream& in = j.in[s];
		// Now and then the same indices or the same vertex memory as another stream, as with interleaved data.
		uint32_t alike = s && c.chance(SCEN, 1, 6) ? 1 + c.draw(SCEN, 3) : 0;
		const InStream* other = alike ? &j.in[c.draw(SCEN, s)] : nullptr;
		bool sameElems = (alike & 2) && other->fmt.e.size() == inNames[s].size();
		for (auto& nm : inNames[s])
		{
			int lay, typ;
			if (sameElems)
			{
				auto& e = other->fmt.e[in.fmt.e.size()];
				in.fmt.add(nm, e.lay, e.typ);
				continue;
			}
			genElemType(c, lay, typ);
			if (fat && in.fmt.e.size() % 5)
			{
				lay = 17;
				typ = 4;
			}
			in.fmt.add(nm, lay, typ);
		}
		static const int iits[] = {U32, U16, NoIdx};
		in.itype = iits[c.draw(SCEN, 3)];
		bool sameIndices = (alike & 1) && other->itype != NoIdx;
		if (sameIndices)
			in.itype = other->itype == U32 && c.draw(SCEN, 4) == 3 ? U16 : other->itype;
		in.vcount = in.itype == NoIdx ? n : 1 + c.draw(SCEN, palette + 2);
		if (sameIndices)
			in.vcount = other->vcount;
		bool sameVertices = (alike & 2) && (sameElems || o.specials) && other->v.size() / in.fmt.stride >= (in.itype == NoIdx ? n : 1);
		if (sameVertices)
		{
			if (in.itype != NoIdx)
				in.vcount = (uint32_t)(other->v.size() / in.fmt.stride);
			in.v.assign(other->v.begin(), other->v.begin() + (ptrdiff_t)((size_t)in.vcount * in.fmt.stride));
		}
		std::vector<std::vector<std::vector<uint8_t>>> pal;
		uint32_t pn = 1 + c.draw(SCEN, palette);
		for (auto& e : in.fmt.e)
		{
			pal.emplace_back();
			for (uint32_t i = 0; i < pn; ++i)
				pal.back().push_back(genValue(vals, e.lay, e.typ, o.specials));
		}
		for (uint32_t i = 0; i < in.vcount && !sameVertices; ++i)
		{
			bool same = in.itype == NoIdx || vals(3) == 0;
			uint32_t q = in.itype == NoIdx ? c.draw(SCEN, pn) : i % pn;
			for (size_t e = 0; e < in.fmt.e.size(); ++e)
			{
				auto& v = pal[e][same ? q : vals(pn)];
				in.v.insert(in.v.end(), v.begin(), v.end());
			}
		}
		bool ints = !in.v.empty() && !sameVertices;
		for (auto& e : in.fmt.e)
			ints = ints && e.typ != Float;
		if (ints && c.chance(SCEN, 1, 20))
		{
			// Bytes that some programs treat specially at the start or the end of a file.
			static const char* const magic[] = {"\xEF\xBB\xBF", "base64:", "\r\n", "\x1F\x8B", "\xFF\xFE", "  ", "{", "#", "\n", "\r\n", "\x1A", "=", "\xFF", " ", "\t"};
			uint32_t k = c.draw(SCEN, 15);
			size_t len = std::min(strlen(magic[k]), in.v.size());
			memcpy(k < 8 ? in.v.data() : in.v.data() + in.v.size() - len, magic[k], len);
		}
		if (in.itype != NoIdx)
		{
			in.icount = n;
			if (sameIndices)
			{
				in.ib.assign(other->ib.begin(), other->ib.begin() + (ptrdiff_t)(n * idxSize(in.itype)));
				for (uint32_t i = 0; i < n; ++i)
					sameIndices &= in.index(i) < in.vcount || (in.index(i) == idxRestart(in.itype) && hasRestart(j.prim) && j.itype != NoIdx);
				if (sameIndices)
					continue;
				in.ib.clear();
			}
			bool honour = s == 0 || c.draw(SCEN, 4) != 1;
			uint32_t mode = c.draw(SCEN, 3); // Random, sequential, sequential with repeats.
			for (uint32_t i = 0; i < n; ++i)
			{
				uint32_t x;
				if (restart[i] && honour)
					x = idxRestart(in.itype);
				else if (mode == 0)
					x = c.draw(SCEN, in.vcount);
				else if (mode == 1)
					x = i % in.vcount;
				else
					x = c.chance(SCEN, 1, 4) ? c.draw(SCEN, in.vcount) : i % in.vcount;
				size_t at = in.ib.size();
				in.ib.resize(at + idxSize(in.itype));
				memcpy(in.ib.data() + at, &x, idxSize(in.itype));
			}
		}
	}

	j.maxIndex = j.itype == U16 ? 65534u : j.itype == U32 ? 0xFFFFFFFEu : 0;
	if (o.smallMax && j.itype != NoIdx && (o.strictMax || c.draw(SCEN, 3)))
		j.maxIndex = primMin(j.prim, j.patch) - 1 + c.draw(SCEN, tall ? 280 : j.patch > 8 && c.draw(SCEN, 2) ? 3 * j.patch : 7);
	j.defaultTr();
	for (auto& k : j.tr)
		for (auto& t : k)
			t = (int)(c.draw(SCEN, 2) ? c.draw(SCEN, 4) : 0);
	return j;
}

static std::string hex(const std::vector<uint8_t>& v)
{
	static const char* d = "0123456789abcdef";
	std::string r;
	for (size_t i = 0; i < v.size() && i < 160; ++i)
	{
		r += d[v[i] >> 4];
		r += d[v[i] & 15];
	}
	if (v.size() > 160)
		r += fmt("...(%zu bytes)", v.size());
	return r;
}

std::string describe(const Job& j)
{
	std::string r = fmt("prim=%s patch=%u itype=%d maxIndex=%u out=[", primName[j.prim], j.patch, j.itype, j.maxIndex);
	for (size_t k = 0; k < j.out.size(); ++k)
	{
		r += k ? " | " : "";
		for (size_t l = 0; l < j.out[k].e.size(); ++l)
		{
			auto& e = j.out[k].e[l];
			r += fmt("%s%s:%s:%s", l ? ", " : "", e.name.c_str(), layName[e.lay], typName[e.typ]);
			if (k < j.tr.size() && l < j.tr[k].size() && j.tr[k][l])
				r += fmt("(%s)", trName[j.tr[k][l]]);
		}
	}
	r += "]";
	for (auto& s : j.in)
	{
		r += fmt(" in{%u vertices:", s.vcount);
		for (auto& e : s.fmt.e)
			r += fmt(" %s:%s:%s", e.name.c_str(), layName[e.lay], typName[e.typ]);
		r += " data=" + hex(s.v);
		if (s.itype != NoIdx)
		{
			r += fmt(" idx%d=[", s.itype);
			for (uint32_t i = 0; i < s.icount && i < 60 && (i + 1) * idxSize(s.itype) <= s.ib.size(); ++i)
				r += s.index(i) == idxRestart(s.itype) && hasRestart(j.prim) ? std::string(i ? ",R" : "R") : fmt("%s%u", i ? "," : "", s.index(i));
			r += s.icount > 60 ? ",...]" : "]";
		}
		r += "}";
	}
	return r;
}
