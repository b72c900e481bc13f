#include "oracle.h"
#include <cmath>
#include <rapidjson/document.h>
#include <strings.h>
using namespace mdl;

namespace orc
{
std::string b64(const std::string& d)
{
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	for (size_t i = 0; i < d.size(); i += 3)
	{
		uint32_t x = 0;
		size_t n = std::min<size_t>(3, d.size() - i);
		for (size_t k = 0; k < 3; ++k)
			x = x << 8 | (k < n ? (uint8_t)d[i + k] : 0u);
		for (size_t k = 0; k < 4; ++k)
			r += k <= n ? t[x >> (18 - 6 * k) & 63] : '=';
	}
	return r;
}

// 0 invalid, 1 valid, 2 valid but with unused bits set.
static int unb64(const std::string& s, std::string& out)
{
	out.clear();
	if (s.size() % 4)
		return 0;
	int res = 1;
	for (size_t i = 0; i < s.size(); i += 4)
	{
		uint32_t x = 0;
		int pad = 0;
		for (size_t k = 0; k < 4; ++k)
		{
			char c = s[i + k];
			int v;
			if (c >= 'A' && c <= 'Z')
				v = c - 'A';
			else if (c >= 'a' && c <= 'z')
				v = c - 'a' + 26;
			else if (c >= '0' && c <= '9')
				v = c - '0' + 52;
			else if (c == '+')
				v = 62;
			else if (c == '/')
				v = 63;
			else if (c == '=' && i + 4 == s.size() && k >= 2)
			{
				++pad;
				v = 0;
			}
			else
				return 0;
			if (pad && c != '=')
				return 0;
			x = x << 6 | (uint32_t)v;
		}
		for (int k = 0; k < 3 - pad; ++k)
			out += (char)(x >> (16 - 8 * k) & 255);
		if ((pad == 1 && (x & 0xFF)) || (pad == 2 && (x & 0xFFFF)))
			res = 2;
	}
	return res;
}

static std::string joinPath(const std::string& dir, const std::string& f)
{
	if (dir.empty() || (!f.empty() && f[0] == '/'))
		return f;
	if (f.empty())
		return dir;
	return dir.back() == '/' ? dir + f : dir + "/" + f;
}

namespace
{
struct Reject
{
	std::string why;
};

struct Eval
{
	Expect& e;
	bool either = false;
	using V = rapidjson::Value;

	const V* member(const V& o, const char* n) const
	{
		auto it = o.FindMember(n);
		return it == o.MemberEnd() ? nullptr : &it->value;
	}
	std::string str(const V* v, const char* what)
	{
		if (!v || !v->IsString())
			throw Reject{std::string("missing string ") + what};
		std::string s = v->GetString();
		if (s.size() != v->GetStringLength())
			throw Reject{std::string(what) + " contains a null character"};
		return s;
	}
	Fmt format(const V& v, const char* what)
	{
		Fmt f;
		if (!v.IsArray())
			throw Reject{std::string(what) + " is not an array"};
		for (auto& x : v.GetArray())
		{
			if (!x.IsObject())
				throw Reject{std::string(what) + " element is not an object"};
			std::string name = str(member(x, "name"), "name");
			std::string lay = str(member(x, "layout"), "layout");
			std::string typ = str(member(x, "type"), "type");
			int l = -1, t = -1;
			for (int i = 0; i < LAYS; ++i)
				if (!strcasecmp(lay.c_str(), layName[i]) || !strcasecmp(lay.c_str(), layColor[i]))
					l = i;
			for (int i = 0; i < TYPS; ++i)
				if (!strcasecmp(typ.c_str(), typName[i]))
					t = i;
			if (l < 0 || t < 0)
				throw Reject{"unknown layout or type"};
			int r = f.add(name, l, t);
			if (r)
				throw Reject{r == 1 ? "element name not unique" : "layout and type do not combine"};
		}
		if (f.e.empty())
			throw Reject{std::string(what) + " is empty"};
		return f;
	}
	int indexType(const V& o)
	{
		const V* v = member(o, "indexType");
		if (!v || v->IsNull())
			return NoIdx;
		std::string s = str(v, "indexType");
		if (!strcasecmp(s.c_str(), "uint16"))
			return U16;
		if (!strcasecmp(s.c_str(), "uint32"))
			return U32;
		throw Reject{"unknown index type"};
	}
};
}

Expect evaluate(const std::vector<std::string>& argv, const std::string& stdinData, const Reader& rd)
{
	Expect e;
	std::string input;
	for (size_t i = 1; i < argv.size(); ++i)
	{
		const std::string& a = argv[i];
		if (a == "-h" || a == "--help")
		{
			e.v = HELP;
			return e;
		}
		bool in = a == "-i" || a == "--input", out = a == "-o" || a == "--output";
		if (!in && !out)
		{
			e.errArgs = true;
			e.why = "unknown argument";
			return e;
		}
		if (i + 1 == argv.size())
		{
			e.errArgs = true;
			e.why = "missing argument";
			return e;
		}
		(in ? input : e.outDir) = argv[++i];
	}
	std::string text, dir;
	if (input.empty())
		text = stdinData;
	else
	{
		e.inputs.push_back(input);
		if (!rd(input, text))
		{
			e.errConfig = true;
			e.why = "configuration file cannot be read";
			return e;
		}
		size_t p = input.find_last_of('/');
		if (p != std::string::npos)
			dir = p == 0 ? "/" : input.substr(0, p);
	}
	Eval ev{e};
	if (text.find('\0') != std::string::npos)
	{
		ev.either = true;
		text.resize(text.find('\0'));
	}
	// Nesting so deep that an implementation limit is legitimate.
	int depth = 0, maxDepth = 0;
	for (char c : text)
	{
		depth += c == '[' || c == '{' ? 1 : c == ']' || c == '}' ? -1 : 0;
		maxDepth = std::max(maxDepth, depth);
	}
	if (maxDepth > 200)
		ev.either = true;
	bool inConvert = false, inData = false;
	try
	{
		rapidjson::Document d;
		d.Parse<rapidjson::kParseIterativeFlag>(text.c_str());
		if (d.HasParseError())
			throw Reject{"not JSON"};
		if (!d.IsObject())
			throw Reject{"root is not an object"};
		Job& j = e.job;
		auto* vf = ev.member(d, "vertexFormat");
		if (!vf || !vf->IsArray())
			throw Reject{"vertexFormat is not an array"};
		for (auto& x : vf->GetArray())
		{
			j.out.push_back(ev.format(x, "vertexFormat"));
			for (size_t k = 0; k + 1 < j.out.size(); ++k)
				for (auto& q : j.out.back().e)
					if (j.out[k].find(q.name) >= 0)
						throw Reject{"element name not unique across streams"};
		}
		if (j.out.empty())
			throw Reject{"vertexFormat is empty"};
		j.itype = ev.indexType(d);
		j.prim = TriangleList;
		auto* pt = ev.member(d, "primitiveType");
		if (pt && !pt->IsNull())
		{
			std::string s = ev.str(pt, "primitiveType");
			j.prim = -1;
			for (int i = 0; i < PRIMS; ++i)
				if (!strcasecmp(s.c_str(), primName[i]))
					j.prim = i;
			if (j.prim < 0)
				throw Reject{"unknown primitive type"};
			if (j.prim == PatchList)
			{
				auto* pp = ev.member(d, "patchPoints");
				if (!pp || !pp->IsNumber())
					throw Reject{"patchPoints missing"};
				if (!pp->IsInt())
				{
					if (pp->IsUint())
						ev.either = true;
					else if (pp->IsDouble() && pp->GetDouble() == std::floor(pp->GetDouble()))
						ev.either = true;
					throw Reject{"patchPoints is not an int"};
				}
				if (pp->GetInt() <= 0)
					throw Reject{"patchPoints is not positive"};
				j.patch = (uint32_t)pp->GetInt();
			}
		}
		auto* vs = ev.member(d, "vertexStreams");
		if (!vs || !vs->IsArray())
			throw Reject{"vertexStreams is not an array"};
		struct Src
		{
			std::string v, i;
		};
		std::vector<Src> src;
		for (auto& x : vs->GetArray())
		{
			if (!x.IsObject())
				throw Reject{"vertex stream is not an object"};
			InStream s;
			auto* f = ev.member(x, "vertexFormat");
			if (!f)
				throw Reject{"stream vertexFormat missing"};
			s.fmt = ev.format(*f, "stream vertexFormat");
			Src q;
			q.v = ev.str(ev.member(x, "vertexData"), "vertexData");
			s.itype = ev.indexType(x);
			if (s.itype != NoIdx)
				q.i = ev.str(ev.member(x, "indexData"), "indexData");
			j.in.push_back(s);
			src.push_back(q);
		}
		if (j.in.empty())
			throw Reject{"vertexStreams is empty"};
		std::vector<std::pair<std::string, int>> trs;
		auto* vt = ev.member(d, "vertexTransforms");
		if (vt)
		{
			if (vt->IsNull())
				ev.either = true;
			if (!vt->IsArray())
				throw Reject{"vertexTransforms is not an array"};
			for (auto& x : vt->GetArray())
			{
				if (!x.IsObject())
					throw Reject{"transform is not an object"};
				std::string n = ev.str(ev.member(x, "name"), "name");
				std::string t = ev.str(ev.member(x, "transform"), "transform");
				int k = -1;
				for (int i = 0; i < 4; ++i)
					if (!strcasecmp(t.c_str(), trName[i]))
						k = i;
				if (k < 0)
					throw Reject{"unknown transform"};
				trs.push_back({n, k});
			}
		}
		inData = true;
		auto load = [&](const std::string& s, std::string& out)
		{
			if (!strncasecmp(s.c_str(), "base64:", 7))
			{
				int r = unb64(s.substr(7), out);
				if (!r)
					throw Reject{"invalid base64"};
				if (r == 2)
					ev.either = true;
				return;
			}
			std::string p = joinPath(dir, s);
			e.inputs.push_back(p);
			if (!rd(p, out))
				throw Reject{"data file '" + p + "' cannot be read"};
		};
		for (size_t i = 0; i < j.in.size(); ++i)
		{
			InStream& s = j.in[i];
			std::string b;
			load(src[i].v, b);
			if (b.size() % s.fmt.stride)
				throw Reject{"vertex data size"};
			s.v.assign(b.begin(), b.end());
			s.vcount = (uint32_t)(b.size() / s.fmt.stride);
			if (s.itype != NoIdx)
			{
				load(src[i].i, b);
				if (b.size() % idxSize(s.itype))
					throw Reject{"index data size"};
				s.ib.assign(b.begin(), b.end());
				s.icount = (uint32_t)(b.size() / idxSize(s.itype));
			}
		}
		inConvert = true;
		bool empty = false;
		for (auto& s : j.in)
			empty |= s.vcount == 0 || s.count() == 0;
		for (auto& s : j.in)
		{
			if (s.count() != j.in[0].count())
				throw Reject{"streams disagree about the count"};
			if (!countValid(j.prim, s.count(), j.patch))
				throw Reject{"count does not fit the primitive"};
		}
		// Elements fed by two streams.
		for (auto& f : j.out)
			for (auto& q : f.e)
			{
				int n = 0;
				for (auto& s : j.in)
					n += s.fmt.find(q.name) >= 0;
				if (n > 1)
					throw Reject{"element in several streams"};
				if (n == 0)
					throw Reject{"element without a stream"};
			}
		j.defaultTr();
		for (auto& t : trs)
		{
			bool found = false;
			for (size_t k = 0; k < j.out.size() && !found; ++k)
			{
				int l = j.out[k].find(t.first);
				if (l >= 0)
				{
					j.tr[k][(size_t)l] = t.second;
					found = true;
				}
			}
			if (!found)
				throw Reject{"transform of an unknown element"};
		}
		if (empty)
		{
			// A stream without data: refused by the library; nothing to convert in any case.
			ev.either = true;
			throw Reject{"empty stream"};
		}
		j.maxIndex = j.itype == U16 ? 65534u : j.itype == U32 ? 0xFFFFFFFEu : 0;
		if (j.itype != NoIdx && primMin(j.prim, j.patch) - 1 > j.maxIndex)
			throw Reject{"patch larger than the index type"};
		std::string why = rejectReason(j);
		if (!why.empty())
			throw Reject{why};
		int bs = boundsState(j);
		if (bs == 2)
			throw Reject{"bounds are not finite numbers"};
		if (bs == 1)
			ev.either = true;
		e.v = ACCEPT;
	}
	catch (const Reject& r)
	{
		e.v = REJECT;
		e.why = r.why;
		e.errConvert = inConvert;
		e.errData = inData && !inConvert;
		e.errConfig = !inData;
	}
	if (ev.either)
		e.v = EITHER;
	return e;
}

Parsed parseResult(const std::string& out)
{
	Parsed p;
	if (out.find('\0') != std::string::npos)
	{
		p.why = "stdout contains a NUL byte";
		return p;
	}
	rapidjson::Document d;
	d.Parse<rapidjson::kParseFullPrecisionFlag>(out.c_str());
	if (d.HasParseError())
	{
		p.why = fmt("stdout is not one complete JSON document (error at byte %zu of %zu)", d.GetErrorOffset(), out.size());
		return p;
	}
	if (!d.IsObject() || !d.HasMember("vertices") || !d["vertices"].IsArray())
	{
		p.why = "stdout holds no result object";
		return p;
	}
	p.complete = true;
	auto add = [&](const rapidjson::Value& v, const char* m, bool idx)
	{
		if (!v.IsObject() || !v.HasMember(m) || !v[m].IsString())
			return;
		std::string s(v[m].GetString(), v[m].GetStringLength());
		p.data.push_back(s);
		p.isIndex.push_back(idx);
		if (strncmp(s.c_str(), "base64:", 7))
			p.paths.push_back(s);
	};
	for (auto& v : d["vertices"].GetArray())
		add(v, "vertexData", false);
	if (d.HasMember("indexBuffers") && d["indexBuffers"].IsArray())
		for (auto& v : d["indexBuffers"].GetArray())
			add(v, "indexData", true);
	return p;
}

mdl::Verdict verify(const Expect& e, const std::string& out, const Reader& rd,
	const std::function<bool(const std::string& path)>& inOutDir)
{
	mdl::Verdict bad;
	bad.ok = false;
	auto fail = [&](const std::string& s) -> mdl::Verdict
	{
		bad.why = s;
		return bad;
	};
	Parsed p = parseResult(out);
	if (!p.complete)
		return fail(p.why);
	const Job& j = e.job;
	rapidjson::Document d;
	d.Parse<rapidjson::kParseFullPrecisionFlag>(out.c_str());
	Out o;
	std::vector<std::string> used;
	std::string err;
	auto bytes = [&](const rapidjson::Value& v, const char* m, std::vector<uint8_t>& b) -> bool
	{
		if (!v.IsObject() || !v.HasMember(m) || !v[m].IsString())
		{
			err = fmt("no %s string", m);
			return false;
		}
		std::string s(v[m].GetString(), v[m].GetStringLength()), data;
		if (e.outDir.empty())
		{
			if (s.compare(0, 7, "base64:") || unb64(s.substr(7), data) != 1)
			{
				err = fmt("%s is not embedded base64 data: '%.60s'", m, s.c_str());
				return false;
			}
		}
		else
		{
			if (!inOutDir(s))
			{
				err = "file '" + s + "' is not in the output directory";
				return false;
			}
			for (auto& u : used)
				if (u == s)
				{
					err = "file '" + s + "' is named twice";
					return false;
				}
			used.push_back(s);
			if (!rd(s, data))
			{
				err = "file '" + s + "' does not exist";
				return false;
			}
		}
		b.assign(data.begin(), data.end());
		return true;
	};
	auto& vs = d["vertices"];
	if (vs.Size() != j.out.size())
		return fail(fmt("%u vertex streams in the result instead of %zu", vs.Size(), j.out.size()));
	if (!d.HasMember("vertexCount") || !d["vertexCount"].IsUint())
		return fail("no vertexCount");
	o.vcount = d["vertexCount"].GetUint();
	for (rapidjson::SizeType k = 0; k < vs.Size(); ++k)
	{
		auto& v = vs[k];
		if (!v.IsObject() || !v.HasMember("vertexFormat") || !v["vertexFormat"].IsArray())
			return fail("no vertexFormat in the result");
		auto& f = v["vertexFormat"];
		if (f.Size() != j.out[k].e.size())
			return fail("wrong number of elements in the result");
		o.bounds.emplace_back();
		for (rapidjson::SizeType l = 0; l < f.Size(); ++l)
		{
			auto& q = f[l];
			const Elem& w = j.out[k].e[l];
			auto s = [&](const char* m) -> std::string
			{
				return q.IsObject() && q.HasMember(m) && q[m].IsString() ? std::string(q[m].GetString(), q[m].GetStringLength()) : "?missing";
			};
			if (s("name") != w.name)
				return fail("element name is '" + s("name") + "' instead of '" + w.name + "'");
			if (strcasecmp(s("layout").c_str(), layName[w.lay]) && strcasecmp(s("layout").c_str(), layColor[w.lay]))
				return fail("element layout is " + s("layout"));
			if (strcasecmp(s("type").c_str(), typName[w.typ]))
				return fail("element type is " + s("type"));
			if (!q.HasMember("offset") || !q["offset"].IsUint() || q["offset"].GetUint() != w.off)
				return fail("wrong element offset for '" + w.name + "'");
			std::pair<Val, Val> b;
			for (int m = 0; m < 2; ++m)
			{
				const char* n = m ? "maxValue" : "minValue";
				if (!q.HasMember(n) || !q[n].IsArray() || q[n].Size() != 4)
					return fail(std::string("no ") + n);
				for (rapidjson::SizeType c = 0; c < 4; ++c)
				{
					if (!q[n][c].IsNumber())
						return fail("bounds are not numbers");
					(m ? b.second : b.first).v[c] = q[n][c].GetDouble();
					b.first.unk[c] = b.second.unk[c] = false;
				}
			}
			o.bounds.back().push_back(b);
		}
		if (!v.HasMember("vertexStride") || !v["vertexStride"].IsUint() || v["vertexStride"].GetUint() != j.out[k].stride)
			return fail("wrong vertexStride");
		o.verts.emplace_back();
		if (!bytes(v, "vertexData", o.verts.back()))
			return fail(err);
	}
	if (j.itype == NoIdx)
	{
		if (d.HasMember("indexType") || d.HasMember("indexBuffers"))
			return fail("index members although no indices were requested");
	}
	else
	{
		if (!d.HasMember("indexType") || !d["indexType"].IsString() || strcasecmp(d["indexType"].GetString(), j.itype == U16 ? "UInt16" : "UInt32"))
			return fail("wrong indexType");
		if (!d.HasMember("indexBuffers") || !d["indexBuffers"].IsArray())
			return fail("no indexBuffers");
		for (auto& v : d["indexBuffers"].GetArray())
		{
			OutBuf b;
			if (!v.IsObject() || !v.HasMember("indexCount") || !v["indexCount"].IsUint() || !v.HasMember("baseVertex") || !v["baseVertex"].IsInt())
				return fail("incomplete index buffer");
			b.count = v["indexCount"].GetUint();
			b.base = v["baseVertex"].GetInt();
			b.type = j.itype;
			if (!bytes(v, "indexData", b.bytes))
				return fail(err);
			o.bufs.push_back(b);
		}
	}
	return check(j, o);
}
}
