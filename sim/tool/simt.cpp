// Simulations of the vfc tool as a whole: one or several processes on a simulated kernel.
#include "../common/gen.h"
#include "kernel.h"
#include "oracle.h"
#include <algorithm>
#include <map>
#include <sys/resource.h>
#include <unistd.h>
using namespace k;
using namespace mdl;

const char* const kSimName = "vfc-tool-simulator";
const char* const kCounterNames[kCounters] = {
	"fault_open_input_error", "fault_read_error", "fault_read_short", "fault_open_output_error", "fault_write_error", "fault_write_short",
	"fault_close_lost_data", "fault_mkdir_error", "fault_stdout_error", "fault_stdout_short", "fault_disk_full", "fault_rename_unlink_error",
	"fault_allocation_failure", "fault_kill", "fault_kill_mid_write", "fault_power_loss", "fault_input_changed_midrun", "sched_preemptions",
	"race_mkdir_eexist", "fault_stdin_short",
	"simulated_processes", "exit_0", "exit_1", "jobs_valid", "jobs_invalid", "jobs_undecided", "results_fully_verified", "help_runs",
	"embedded_output", "output_directory", "config_on_stdin", "strips_or_fans", "split_into_buffers", "huge_meshes", "known_finding_flips",
	"overwrites_earlier_output", "input_is_output", "partial_stdout", "killed_after_full_stdout", "reruns_after_kill",
	"invalid_config", "invalid_data", "invalid_arguments", "invalid_conversion", "corrupted_inputs", "reads", "writes", "system_calls",
	"unknown_system_calls", "nonfinite_bounds", "restarts", "primitives_verified", "missing_ancestors_created", "bad_sectors", "deep_json",
	"closed_standard_streams", "machines_without_half_floats", "long_paths", "symbolic_links",
	nullptr
};

void simServerInit(Shared&) { initKernel(); }
uint64_t simCpuLimitSeconds() { return 20; }

namespace
{
using Fs = std::map<std::string, FsEntry>;
Choices& ch() { return gShared->ch; }
uint32_t D(uint32_t n) { return ch().draw(SCEN, n); }
bool P(uint32_t num, uint32_t den) { return ch().chance(SCEN, num, den); }

Fs fsMap()
{
	Fs m;
	for (int i = 0; i < kMaxDents; ++i)
		if (W->dents[i].used)
		{
			int ino = W->dents[i].ino;
			FsEntry e{W->inodes[ino].kind, W->inodes[ino].kind != K_DIR ? inodeStr(ino) : std::string(), modeOf(ino)};
			m[W->dents[i].path] = e;
		}
	return m;
}

//--------------------------------------------------------------------------------------------------
// A JSON tree that is rendered with varying layout and can be damaged.

struct J
{
	enum T { NUL, BOOL, NUM, STR, ARR, OBJ, RAW } t = NUL;
	std::string s;
	std::vector<std::pair<std::string, J>> m;
	static J str(const std::string& v)
	{
		J j;
		j.t = STR;
		j.s = v;
		return j;
	}
	static J raw(const std::string& v)
	{
		J j;
		j.t = RAW;
		j.s = v;
		return j;
	}
	static J arr()
	{
		J j;
		j.t = ARR;
		return j;
	}
	static J obj()
	{
		J j;
		j.t = OBJ;
		return j;
	}
	J& add(const std::string& k, J v)
	{
		m.emplace_back(k, std::move(v));
		return m.back().second;
	}
	void all(std::vector<J*>& out)
	{
		out.push_back(this);
		for (auto& x : m)
			x.second.all(out);
	}
};

std::string quote(const std::string& s, bool esc)
{
	std::string r = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
		{
			r += '\\';
			r += (char)c;
		}
		else if (c < 0x20)
			r += fmt("\\u%04x", c);
		else if (esc && c < 0x7f && (c % 5) == 0)
			r += fmt("\\u%04X", c);
		else
			r += (char)c;
	}
	return r + "\"";
}

void renderJ(const J& j, int style, int depth, std::string& o)
{
	std::string nl = style == 0 ? "" : style == 1 ? "\n" + std::string((size_t)depth * 2 + 2, ' ') : style == 2 ? "\r\n\t" : " ";
	switch (j.t)
	{
		case J::NUL:
			o += "null";
			break;
		case J::BOOL:
		case J::NUM:
		case J::RAW:
			o += j.s;
			break;
		case J::STR:
			o += quote(j.s, style == 3 && j.s.size() < 40);
			break;
		case J::ARR:
		case J::OBJ:
			o += j.t == J::ARR ? "[" : "{";
			for (size_t i = 0; i < j.m.size(); ++i)
			{
				o += i ? "," : "";
				o += nl;
				if (j.t == J::OBJ)
					o += quote(j.m[i].first, style == 3) + (style == 1 ? ": " : style == 2 ? " :\t" : ":");
				renderJ(j.m[i].second, style, depth + 1, o);
			}
			if (style == 1 && !j.m.empty())
				o += "\n" + std::string((size_t)depth * 2, ' ');
			o += j.t == J::ARR ? "]" : "}";
	}
}

std::string caseMix(const std::string& s, uint32_t mode)
{
	std::string r = s;
	for (size_t i = 0; i < r.size(); ++i)
		r[i] = (char)(mode == 1 ? toupper(r[i]) : mode == 2 ? tolower(r[i]) : mode == 3 && i % 2 ? toupper(r[i]) : r[i]);
	return r;
}

struct Scenario
{
	Job job;
	std::vector<std::string> argv;
	std::string cwd = "/w";
	std::string config;     // Text.
	std::string configPath; // As given, empty for stdin.
	std::string outDir;     // As given, empty for none.
	bool viaStdin = false;
	bool envBroken = false; // Something about the file system itself makes success impossible or uncertain.
	bool damaged = false;
	std::vector<std::string> inputFiles; // Canonical.
	std::vector<std::string> text;
};

J fmtJson(const Fmt& f, uint32_t mode)
{
	J a = J::arr();
	for (auto& e : f.e)
	{
		J o = J::obj();
		bool color = mode & 4;
		auto lay = J::str(caseMix(color ? layColor[e.lay] : layName[e.lay], mode & 3));
		auto typ = J::str(caseMix(typName[e.typ], mode & 3));
		if (mode & 8)
		{
			o.add("type", typ);
			o.add("layout", lay);
			o.add("name", J::str(e.name));
		}
		else
		{
			o.add("name", J::str(e.name));
			o.add("layout", lay);
			o.add("type", typ);
		}
		a.add("", o);
	}
	return a;
}

// Makes every directory that the path walks through.
void mkPath(const std::string& cwd, const std::string& path, bool lastToo)
{
	std::string p = path[0] == '/' ? path : cwd + "/" + path;
	size_t i = 1;
	while (i <= p.size())
	{
		size_t e = p.find('/', i);
		bool last = e == std::string::npos;
		if (last && !lastToo)
			break;
		std::string pre = lexical("/", p.substr(0, last ? p.size() : e));
		if (pre != "/")
			addDir(pre.c_str());
		if (last)
			break;
		i = e + 1;
	}
}

struct GenCfg
{
	int invalid = 0;        // Per cent of jobs made invalid.
	bool envFaults = false; // Broken file systems.
	int out = 0;            // 0 drawn, 1 always a directory, 2 never.
	bool simple = false;    // Plain paths only.
	bool huge = false;
	bool specials = true;
	uint32_t corners = 14;
	std::string tag;        // Distinguishes the files of concurrent processes.
	bool noStdin = false;
	bool tinyBuffers = false;
};

std::string dataBytes(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }

void damage(Scenario& sc, std::vector<std::pair<std::string, std::string>>& files, J& root, bool& textDamage)
{
	sc.damaged = true;
	std::vector<J*> nodes;
	root.all(nodes);
	switch (D(28))
	{
		case 24: // A member with a chosen name gets another value.
		case 25:
		case 26:
		{
			std::vector<std::string> keys;
			for (auto* n : nodes)
				if (n->t == J::OBJ)
					for (auto& m : n->m)
						if (std::find(keys.begin(), keys.end(), m.first) == keys.end())
							keys.push_back(m.first);
			if (keys.empty())
				break;
			std::string key = keys[D((uint32_t)keys.size())];
			std::vector<J*> at;
			for (auto* n : nodes)
				if (n->t == J::OBJ)
					for (auto& m : n->m)
						if (m.first == key)
							at.push_back(&m.second);
			static const char* const r[] = {"3.5", "4294967299", "-4294967293", "2147483648", "null", "0", "-1", "1e2", "2.0", "true", "false", "\"2\"", "[]", "{}", "[3]", "{\"name\":1}", "18446744073709551617", "\"\"", "-0.0", "[[]]"};
			*at[D((uint32_t)at.size())] = J::raw(r[D(20)]);
			break;
		}
		case 27: // A member appears twice or in another spelling.
		{
			std::vector<J*> objs;
			for (auto* n : nodes)
				if (n->t == J::OBJ && !n->m.empty())
					objs.push_back(n);
			if (objs.empty())
				break;
			J* o = objs[D((uint32_t)objs.size())];
			auto& m = o->m[D((uint32_t)o->m.size())];
			if (!m.first.empty())
				m.first[0] = (char)(m.first[0] ^ 0x20);
			break;
		}
		case 0: // A member is missing.
		case 1:
		{
			std::vector<J*> objs;
			for (auto* n : nodes)
				if (n->t == J::OBJ && !n->m.empty())
					objs.push_back(n);
			if (objs.empty())
				break;
			J* o = objs[D((uint32_t)objs.size())];
			o->m.erase(o->m.begin() + D((uint32_t)o->m.size()));
			break;
		}
		case 2: // A value of another type.
		case 3:
		{
			J* n = nodes[D((uint32_t)nodes.size())];
			static const char* const r[] = {"null", "0", "-1", "\"x\"", "[]", "{}", "true", "1.5", "[[]]", "\"\"", "4294967296", "1e400", "[null]", "[{}]"};
			*n = J::raw(r[D(14)]);
			break;
		}
		case 4: // A string changes.
		case 5:
		{
			std::vector<J*> s;
			for (auto* n : nodes)
				if (n->t == J::STR)
					s.push_back(n);
			if (!s.empty())
			{
				J* n = s[D((uint32_t)s.size())];
				static const char* const v[] = {"", "nope", "UInt64", "base64:", "base64:A", "base64:AAA=", "base64:!!!!", "base64:AA=A", "/", ".", "X8Y8Z8W8", "PatchList", "Bounds", "missing.bin"};
				uint32_t q = D(18);
				if (q < 14)
					n->s = v[q];
				else if (q >= 16) // A null character at the end or inside.
				{
					n->s += '\0';
					if (q == 17)
						n->s += "x";
				}
				else if (q == 14 && !n->s.empty())
					n->s.pop_back();
				else
					n->s += "A";
			}
			break;
		}
		case 6: // An array element disappears or is doubled.
		case 7:
		{
			std::vector<J*> a;
			for (auto* n : nodes)
				if (n->t == J::ARR && !n->m.empty())
					a.push_back(n);
			if (!a.empty())
			{
				J* n = a[D((uint32_t)a.size())];
				uint32_t at = D((uint32_t)n->m.size());
				if (D(2))
					n->m.erase(n->m.begin() + at);
				else
				{
					auto copy = n->m[at];
					n->m.push_back(copy);
				}
			}
			break;
		}
		case 8:
		{
			static const char* const pp[] = {"-3", "0", "3.5", "1.0", "4294967299", "2147483648", "2147483647", "null", "\"3\"", "true", "-2147483649", "1e1"};
			J v = J::raw(pp[D(12)]);
			bool found = false;
			for (auto& m : root.m)
				if (m.first == "patchPoints")
				{
					m.second = v;
					found = true;
				}
			if (!found)
			{
				root.add("patchPoints", v);
				if (D(2))
				{
					for (auto& m : root.m)
						if (m.first == "primitiveType")
							m.second = J::str("PatchList");
				}
			}
			break;
		}
		case 9:
			textDamage = true;
			break;
		case 10:
			textDamage = true;
			break;
		case 11: // Arguments.
		{
			// Arguments that resemble options.
			static const char* const near[] = {"--bogus", "-x", "-", "--", "--out", "--outputs", "-oo", "--output=/w/o2", "-o/w/o3", "-O", "-I", "--INPUT", "--inputs", "--in", "-ii",
				"input", "help", "--helpme", "-help", "-H", "-?", "--version", "/w", "0", "-io", "--output ", " -o"};
			switch (D(11))
			{
				case 7:
					sc.argv.push_back(near[D(27)]);
					if (D(2))
						sc.argv.push_back("/w/o4");
					break;
				case 8: // In place of an option.
					if (sc.argv.size() > 1)
						sc.argv[1 + 2 * D(std::max(1u, (uint32_t)(sc.argv.size() - 1) / 2))] = near[D(27)];
					break;
				case 9: // Between options.
					sc.argv.insert(sc.argv.begin() + 1 + 2 * D((uint32_t)(sc.argv.size() + 1) / 2), near[D(27)]);
					break;
				case 10: // The last one counts.
					sc.argv.insert(sc.argv.begin() + 1, "absent.json");
					sc.argv.insert(sc.argv.begin() + 1, "-i");
					break;
				case 0:
					sc.argv.push_back("--bogus");
					break;
				case 1:
					sc.argv.push_back("-i");
					break;
				case 2:
					sc.argv.push_back("-o");
					break;
				case 3:
					sc.argv.push_back("-i");
					sc.argv.push_back("absent.json");
					break;
				case 4:
					sc.argv.push_back("--input");
					sc.argv.push_back("/w");
					break;
				case 5:
					sc.argv.insert(sc.argv.begin() + 1, "x");
					break;
				case 6:
					sc.argv.push_back("");
					break;
			}
			break;
		}
		case 12: // Deep nesting.
		{
			count(C_DEEP);
			std::string s;
			uint32_t n = D(3) == 2 ? 300000 : 100 + D(3000);
			for (uint32_t i = 0; i < n; ++i)
				s += "[";
			if (D(2))
				for (uint32_t i = 0; i < n; ++i)
					s += "]";
			root.add("note", J::raw(s));
			break;
		}
		case 13:
			// Transforms.
			root.add("vertexTransforms", J::raw("[{\"name\":\"ghost\",\"transform\":\"bounds\"}]"));
			break;
		default: // Data files.
		{
			if (files.empty())
				break;
			uint32_t i = D((uint32_t)files.size());
			std::string& d = files[i].second;
			switch (D(9))
			{
				case 0:
					d.clear();
					break;
				case 1:
					d.resize(d.size() - std::min<size_t>(d.size(), 1 + D(8)));
					break;
				case 2:
					d += std::string(1 + D(12), '\7');
					break;
				case 3:
					files[i].first += "\1missing";
					break;
				case 4:
					files[i].first += "\1dir";
					break;
				case 5: // One byte: index values, vertex values.
				case 6:
					if (!d.empty())
						d[D((uint32_t)d.size())] ^= (char)(1 << D(8));
					break;
				case 7:
					if (!d.empty())
					{
						size_t a = D((uint32_t)d.size()), n = std::min<size_t>(d.size() - a, 1 + D(16));
						for (size_t x = 0; x < n; ++x)
							d[a + x] = (char)0xFF;
					}
					break;
				case 8:
				{
					uint32_t o = D((uint32_t)files.size());
					std::swap(d, files[o].second);
					break;
				}
			}
		}
	}
}

// Damage to the buffers of a job, wherever they are stored.
void damageJob(Job& j)
{
	InStream& s = j.in[D((uint32_t)j.in.size())];
	bool idx = s.itype != NoIdx && D(3);
	std::vector<uint8_t>& d = idx ? s.ib : s.v;
	uint32_t unit = idx ? idxSize(s.itype) : s.fmt.stride;
	switch (D(6))
	{
		case 0:
		case 1: // An index at or near the end of the vertices.
		case 2:
			if (s.itype != NoIdx && s.icount)
			{
				uint32_t n = s.fmt.stride ? (uint32_t)s.v.size() / s.fmt.stride : 0;
				static const uint32_t far[] = {0, 1, 2, 100, 0x7FFF, 0x8000, 0x10000, 0x7FFFFFFF, 0x80000000u};
				uint32_t x = n + far[D(9)];
				if (D(8) == 0)
					x = idxRestart(s.itype) - D(2);
				memcpy(s.ib.data() + (size_t)D(s.icount) * idxSize(s.itype), &x, idxSize(s.itype));
			}
			break;
		case 3: // Whole units are missing or too many.
			if (D(2) && d.size() >= unit)
				d.resize(d.size() - unit);
			else
				d.resize(d.size() + unit * (size_t)(1 + D(3)), 0);
			break;
		case 4: // Parts of units.
			if (D(2) && !d.empty())
				d.resize(d.size() - 1 - D((uint32_t)std::min<size_t>(d.size(), 3)));
			else
				d.resize(d.size() + 1 + D(3), 0);
			break;
		case 5:
			if (D(3) == 0)
				d.clear();
			else if (idx)
				std::fill(d.begin(), d.end(), (uint8_t)0xFF);
			else
				d.resize(unit * (size_t)D(3));
			break;
	}
}

// Files that end where a block of the reader does, or close to it.
void blockSizes(Job& j)
{
	InStream& s = j.in[D((uint32_t)j.in.size())];
	bool spare = s.itype != NoIdx && D(2); // Vertices that no index uses.
	uint32_t unit = s.itype != NoIdx && !spare ? idxSize(s.itype) : s.fmt.stride;
	static const uint32_t blocks[] = {4096, 512, 8192, 1024, 8191, 65536};
	uint32_t block = blocks[D(6)];
	if (!unit)
		return;
	uint32_t a = unit, b = block;
	while (b)
	{
		a %= b;
		std::swap(a, b);
	}
	uint32_t n = block / a; // Units that fill whole blocks.
	if (D(2))
		n *= 1 + D(3);
	if (D(4) == 3)
		n += D(2) ? 1 : -1;
	if ((uint64_t)n * unit > 200000 || n < 3)
		return;
	if (spare)
	{
		if (n > s.vcount && n < 65000)
		{
			std::vector<uint8_t> v = s.v;
			while (s.v.size() < (size_t)n * unit)
				s.v.insert(s.v.end(), v.begin(), v.end());
			s.v.resize((size_t)n * unit);
			s.vcount = n;
		}
		return;
	}
	if (n % primStride(j.prim, j.patch))
		n *= primStride(j.prim, j.patch);
	if (n > 20000)
		return;
	for (auto& i : j.in)
	{
		std::vector<uint8_t>& d = i.itype == NoIdx ? i.v : i.ib;
		if (d.empty())
			return;
	}
	for (auto& i : j.in)
	{
		std::vector<uint8_t>& d = i.itype == NoIdx ? i.v : i.ib;
		std::vector<uint8_t> v = d;
		size_t want = (size_t)n * (i.itype == NoIdx ? i.fmt.stride : idxSize(i.itype));
		while (d.size() < want)
			d.insert(d.end(), v.begin(), v.end());
		d.resize(want);
		(i.itype == NoIdx ? i.vcount : i.icount) = n;
	}
}

// A relative path of directories that is longer than buffers of usual sizes.
std::string longPath(const char* first)
{
	static const uint32_t around[] = {64, 100, 128, 250, 256, 260, 500, 512, 1000, 1024};
	uint32_t want = around[D(10)] - 12 + D(28);
	std::string r = first;
	while (r.size() < want)
	{
		uint32_t n = std::min<uint32_t>(want - (uint32_t)r.size(), 20 + D(220));
		if (n < 2)
			n = 2;
		r += "/" + std::string(n - 1, (char)('a' + r.size() % 26));
	}
	count(C_LONG_PATH);
	return r;
}

Scenario genScenario(const GenCfg& g)
{
	Scenario sc;
	GenOpt o;
	o.maxCorners = g.corners;
	o.specials = g.specials && P(1, 3);
	o.huge = g.huge;
	o.maxOut = 16;
	sc.job = genJob(ch(), o);
	if (sc.job.out.size() > 1 && P(1, 20))
	{
		// The same element in two output streams. A transform given by name is that of the first one.
		int lay, typ;
		genElemType(ch(), lay, typ);
		if (sc.job.out[1].add(sc.job.out[0].e[0].name, lay, typ) == 0)
			sc.job.tr[1].push_back(0);
	}
	if (!g.huge && P(1, 40))
		blockSizes(sc.job);
	if (g.invalid && D(300) >= 300u - (uint32_t)g.invalid)
	{
		sc.damaged = true;
		damageJob(sc.job);
	}
	const Job& job = sc.job;
	if (job.prim >= LineStrip && hasRestart(job.prim))
		count(C_STRIPS);
	if (g.huge)
		count(C_HUGE);
	addDir("/w");

	// Where the configuration lives.
	std::string t = g.tag;
	static const char* const cfgs[] = {"job.json", "./job.json", "/w/job.json", "in/job.json", "in//x/job.json", "../w/job.json", "/j.json", "in/../job.json"};
	static const char* const oddCfgs[] = {"d:/job.json", "c:job.json", "job", "in dir/job.json", "b\\s/job.json", "j:", "-x/job.json", "\xC3\xA4/job", "-", "~/job.json"};
	std::string cfg = g.simple ? "job.json" : P(1, 12) ? oddCfgs[D(10)] : cfgs[D(8)];
	sc.viaStdin = !g.noStdin && P(1, 4);
	if (!t.empty())
		cfg = cfg.substr(0, cfg.rfind('/') + 1) + t + "-" + cfg.substr(cfg.rfind('/') + 1);
	// Symbolic links: 1 and 2 to the directory of the configuration or output, 3 in place of the output directory, 4 in
	// place of the configuration, 5 in place of data files.
	uint32_t links = !g.simple && P(1, 10) ? 1 + D(5) : 0;
	if (links == 1 || links == 2)
	{
		addLink("/ln", "/w");
		if (links == 1)
			cfg = cfg[0] == '/' ? "/ln/.." + cfg : "/ln/" + cfg;
	}
	if (links)
	{
		addDir("/real");
		count(C_LINKS);
	}
	std::string dir;
	if (!sc.viaStdin)
	{
		sc.configPath = cfg;
		size_t p = cfg.rfind('/');
		dir = p == std::string::npos ? "" : p == 0 ? "/" : cfg.substr(0, p);
	}
	else
		count(C_STDIN);

	// Output directory.
	int out = g.out ? g.out : P(1, 3) ? 2 : 1;
	if (out == 1)
	{
		static const char* const outs[] = {"out", "out/", "./out", "/w/out", "out/a/b", "/deep/er/out//", "in", ".", "../w/o", "out/../out2", "/", "/w/"};
		static const char* const odd[] = {"out dir", "o\"ut", "back\\slash", "\xC3\xBC\xE4\xB8\xAD", "tab\there", "line\nfeed", "...", "-o", "out.d/vertices.0.dat",
			"a-rather-long-name-for-a-directory-that-is-meant-to-hold-the-results-of-a-conversion-and-nothing-else-at-all-whatever-happens"};
		sc.outDir = g.simple ? "out" : P(1, 10) ? odd[D(10)] : outs[D(12)];
		if (sc.outDir == "out/../out2")
			addDir("/w/out");
		if (!g.simple && P(1, 30))
			sc.outDir = longPath("o");
		if (!t.empty())
			sc.outDir = "out-" + t;
		if (links == 2)
			sc.outDir = sc.outDir[0] == '/' ? "/ln/.." + sc.outDir : "/ln/" + sc.outDir;
		if (links == 3)
		{
			mkPath(sc.cwd, sc.outDir, false);
			std::string o = lexical(sc.cwd, sc.outDir), real = "/real/out" + t;
			if (findDent(o.c_str()) < 0)
			{
				addDir(real.c_str());
				addLink(o.c_str(), real);
			}
		}
		count(C_OUTDIR);
	}
	else
		count(C_BASE64);

	// The files.
	std::vector<std::pair<std::string, std::string>> files; // As named in the configuration.
	uint32_t mode = D(16);
	J root = J::obj();
	J vf = J::arr();
	for (auto& f : job.out)
		vf.add("", fmtJson(f, mode));
	root.add("vertexFormat", vf);
	if (job.itype != NoIdx)
		root.add("indexType", J::str(caseMix(job.itype == U16 ? "UInt16" : "UInt32", mode & 3)));
	else if (P(1, 3))
		root.add("indexType", J());
	if (job.prim != TriangleList || !P(1, 2))
		root.add("primitiveType", J::str(caseMix(primName[job.prim], mode & 3)));
	if (job.prim == PatchList)
		root.add("patchPoints", J::raw(fmt("%u", job.patch)));
	J vs = J::arr();
	int nfile = 0;
	bool alikeNames = !g.simple && P(1, 8);
	std::string prefix = alikeNames && P(1, 4) ? std::string(30 + D(150), 'p') : std::string();
	auto place = [&](const std::vector<uint8_t>& bytes, const char* kind) -> std::string
	{
		uint32_t how = D(g.simple ? 2 : 6); // 0 file, 1 embedded, others: other places.
		if (how == 1 || files.size() >= 24)
		{
			static const char* const pre[] = {"base64:", "BASE64:", "Base64:"};
			return pre[g.simple ? 0 : D(3)] + orc::b64(dataBytes(bytes));
		}
		static const char* const places[] = {"", "", "data/", "/d/", "./", "../d/"};
		std::string n = places[how] + fmt("%s%s%d.bin", kind, t.c_str(), nfile++);
		if (!g.simple && P(1, how >= 2 ? 6 : 12))
		{
			static const char* const odd[] = {"odd name %d.bin", "v:%d.bin", "c:%d", "base64%d", "base64 :%d", "xbase64:%d", "-%d", "~%d", "$HOME%d",
				"%%41%d", "a\\b%d.bin", ".%d", "%d.", "\xC3\xA4%d.bin", "q\"%d", "'%d'", "*%d", "?%d", "file:%d", "n\n%d", " %d ", "%d;x", "#%d", "//%d"};
			n = places[how] + fmt(odd[D(24)], nfile) + t;
		}
		// Names that only differ in the directory, in letter case or at their end.
		if (alikeNames && how <= 3)
		{
			static const char* const alike[] = {"same.bin", "same.bin", "same.bin", "same", "SAME", "Same.bin", "same.bin.0", "vertices", "indices", "result"};
			std::string m = prefix + alike[D(10)];
			m = places[how] + m + t;
			bool taken = false;
			for (auto& f : files)
				taken |= f.first == m;
			if (!taken)
				n = m;
		}
		if (how >= 2 && P(1, 40))
			n = longPath("d") + "/" + n.substr(n.rfind('/') + 1);
		// Same file used twice.
		for (auto& f : files)
			if (f.second == dataBytes(bytes) && P(1, 2))
				return f.first;
		files.emplace_back(n, dataBytes(bytes));
		return n;
	};
	std::vector<std::pair<size_t, bool>> where; // Which J string names which file.
	for (auto& s : job.in)
	{
		J o2 = J::obj();
		o2.add("vertexFormat", fmtJson(s.fmt, mode));
		o2.add("vertexData", J::str(place(s.v, "v")));
		if (s.itype != NoIdx)
		{
			o2.add("indexType", J::str(caseMix(s.itype == U16 ? "UInt16" : "UInt32", mode & 3)));
			o2.add("indexData", J::str(place(s.ib, "i")));
		}
		vs.add("", o2);
	}
	root.add("vertexStreams", vs);
	J tr = J::arr();
	for (size_t a = 0; a < job.out.size(); ++a)
		for (size_t b = 0; b < job.out[a].e.size(); ++b)
		{
			// The last transform of an element counts.
			uint32_t before = !g.simple && P(1, 8) ? 1 + D(2) : 0;
			if (job.tr[a][b] || before)
				for (uint32_t k = 0; k <= before; ++k)
				{
					J o2 = J::obj();
					o2.add("name", J::str(job.out[a].e[b].name));
					o2.add("transform", J::str(caseMix(trName[k < before ? (int)D(4) : job.tr[a][b]], mode & 3)));
					tr.add("", o2);
				}
		}
	if (!tr.m.empty() || P(1, 4))
		root.add("vertexTransforms", tr);
	if (P(1, 5))
		root.add("comment", J::str("ignored \"member\" \\ \x7f"));
	if (!g.simple && P(1, 4))
		std::rotate(root.m.begin(), root.m.begin() + D((uint32_t)root.m.size()), root.m.end());

	sc.argv.push_back("vfc");
	std::vector<std::vector<std::string>> args;
	if (!sc.viaStdin)
		args.push_back({P(1, 4) ? "--input" : "-i", sc.configPath});
	if (!sc.outDir.empty())
		args.push_back({P(1, 4) ? "--output" : "-o", sc.outDir});
	if (args.size() == 2 && P(1, 3))
		std::swap(args[0], args[1]);
	for (auto& a : args)
		sc.argv.insert(sc.argv.end(), a.begin(), a.end());

	bool textDamage = false;
	if (g.invalid && D(100) >= 100u - (uint32_t)g.invalid)
	{
		uint32_t n = 1 + (D(4) == 3);
		for (uint32_t i = 0; i < n; ++i)
			damage(sc, files, root, textDamage);
	}
	uint32_t more = D(150);
	if (more == 149)
	{
		// Anywhere, with other options before and after.
		uint32_t how = D(6), opts = (uint32_t)(sc.argv.size() - 1) / 2;
		auto at = sc.argv.end();
		if (how >= 2 && !sc.damaged)
			at = sc.argv.begin() + 1 + 2 * std::min(opts, how == 5 ? 1u : 0u);
		sc.argv.insert(at, how & 1 ? "-h" : "--help");
	}
	else if (more >= 147 && !sc.outDir.empty() && !g.simple)
	{
		// The last one counts.
		sc.argv.insert(sc.argv.begin() + 1, more == 147 ? "in" : "unused/dir");
		sc.argv.insert(sc.argv.begin() + 1, more == 147 ? "-o" : "--output");
	}
	renderJ(root, (int)D(4), 0, sc.config);
	if (P(1, 8))
		sc.config += "\n\n";
	if (textDamage && !sc.config.empty())
	{
		uint32_t n = (uint32_t)sc.config.size();
		switch (D(6))
		{
			case 0:
				sc.config.resize(D(n));
				break;
			case 1:
				sc.config += D(2) ? "x" : "{}";
				break;
			case 2:
				sc.config[D(n)] ^= (char)(1 << D(7));
				break;
			case 3:
				sc.config.erase(D(n), 1 + D(4));
				break;
			case 4:
				sc.config.insert(D(n), std::string(1, "\"{}[],:\\0e-. "[D(14)]));
				break;
			case 5:
				sc.config = D(2) ? "" : "[]";
				break;
		}
	}
	if (!sc.viaStdin)
	{
		mkPath(sc.cwd, sc.configPath, false);
		std::string c = lexical(sc.cwd, sc.configPath);
		if (links == 4 && findDent(c.c_str()) < 0)
		{
			addLink(c.c_str(), "/real/job" + t);
			c = "/real/job" + t;
		}
		addFile(c.c_str(), sc.config);
		sc.inputFiles.push_back(c);
	}
	for (auto& f : files)
	{
		std::string n = f.first, flag;
		size_t m = n.find('\1');
		if (m != std::string::npos)
		{
			flag = n.substr(m + 1);
			n.resize(m);
		}
		std::string p = n[0] == '/' ? n : dir.empty() ? n : dir + "/" + n;
		mkPath(sc.cwd, p, flag == "dir");
		if (!flag.empty())
		{
			// A file of that name where it doesn't belong.
			std::string decoy = lexical(sc.cwd, n);
			if (flag == "missing" && n[0] != '/' && decoy != lexical(sc.cwd, p) && P(2, 3) && findDent(decoy.c_str()) < 0)
			{
				mkPath(sc.cwd, n, false);
				addFile(decoy.c_str(), f.second);
			}
			continue;
		}
		std::string c = lexical(sc.cwd, p);
		if (links == 5 && findDent(c.c_str()) < 0 && P(1, 2))
		{
			std::string real = "/real/data" + t + fmt("%zu", sc.inputFiles.size());
			addLink(c.c_str(), real);
			c = real;
		}
		addFile(c.c_str(), f.second);
		if (std::find(sc.inputFiles.begin(), sc.inputFiles.end(), c) == sc.inputFiles.end())
			sc.inputFiles.push_back(c);
	}
	// Files that have nothing to do with the run.
	addFile("/w/bystander.txt", "do not touch");
	if (!sc.outDir.empty() && P(1, 2))
	{
		// The output directory exists already, with leftovers.
		mkPath(sc.cwd, sc.outDir, true);
		std::string od = lexical(sc.cwd, sc.outDir);
		std::string pre = od == "/" ? "" : od;
		uint32_t n = D(5);
		for (uint32_t i = 0; i < n; ++i)
		{
			static const char* const left[] = {"vertices.0.dat", "indices.0.dat", "vertices.1.dat", "indices.1.dat", "notes.txt", "vertices.7.dat", "vertices.0.dat.bak", "vertices.0.dat.tmp"};
			std::string p = pre + "/" + left[D(8)];
			static const uint32_t sizes[] = {0, 3, 40, 700, 9000};
			uint32_t sz = sizes[D(5)];
			std::string junk;
			for (uint32_t x = 0; x < sz; ++x)
				junk += (char)(x * 31 + 5);
			if (findDent(p.c_str()) < 0)
			{
				addFile(p.c_str(), junk);
				count(C_OVERWRITE);
			}
		}
	}
	if (g.envFaults && P(1, 5))
	{
		sc.envBroken = true;
		auto anyInput = [&]() -> int
		{
			if (sc.inputFiles.empty())
				return -1;
			int d = findDent(sc.inputFiles[D((uint32_t)sc.inputFiles.size())].c_str());
			return d < 0 ? -1 : W->dents[d].ino;
		};
		std::string od = sc.outDir.empty() ? "" : lexical(sc.cwd, sc.outDir);
		std::string pre = od == "/" ? "" : od;
		switch (D(8))
		{
			case 0:
			{
				int i = anyInput();
				if (i >= 0 && W->inodes[i].size)
					W->inodes[i].badAt = (int32_t)D(W->inodes[i].size);
				break;
			}
			case 1:
			{
				int i = anyInput();
				if (i >= 0)
					W->inodes[i].noRead = true;
				break;
			}
			case 2:
				if (!od.empty() && findDent(od.c_str()) < 0)
					addFile(od.c_str(), "a file where the directory should be");
				break;
			case 3:
				if (!od.empty() && od != "/")
				{
					mkPath(sc.cwd, sc.outDir, true);
					W->inodes[W->dents[findDent(od.c_str())].ino].noWrite = true;
				}
				break;
			case 4:
			case 5:
				if (!od.empty())
				{
					mkPath(sc.cwd, sc.outDir, true);
					static const char* const n[] = {"/vertices.0.dat", "/indices.0.dat", "/vertices.1.dat"};
					std::string p = pre + n[D(3)];
					if (D(2))
					{
						if (findDent(p.c_str()) < 0)
							addDir(p.c_str());
					}
					else
					{
						int i = findDent(p.c_str()) < 0 ? addFile(p.c_str(), "read only") : W->dents[findDent(p.c_str())].ino;
						W->inodes[i].noWrite = true;
					}
				}
				break;
			case 6:
				W->diskFree = D(600);
				break;
			case 7:
				W->diskFree = D(8);
				break;
		}
	}
	return sc;
}

FaultCfg genFaults(uint32_t allowed, uint32_t modes)
{
	// modes: 1 none allowed, 2 single, 4 rate.
	FaultCfg f{0, 0, -1, false, false, -1, 0, -1, false};
	std::vector<int> m;
	for (int i = 0; i < 3; ++i)
		if (modes & (1u << i))
			m.push_back(i);
	int k = m[ch().draw(FAULT, (uint32_t)m.size())];
	if (k == 0)
		return f;
	f.classes = allowed;
	if (ch().draw(FAULT, 3))
	{
		// A random subset of the kinds.
		uint32_t keep = 0;
		for (uint32_t b = 1; b && b <= allowed; b <<= 1)
			if ((allowed & b) && ch().draw(FAULT, 2))
				keep |= b;
		if (keep)
			f.classes = keep;
	}
	f.sticky = ch().draw(FAULT, 2);
	f.tiny = ch().draw(FAULT, 4) == 3;
	if (k == 1)
		f.single = (int32_t)ch().draw(FAULT, 24);
	else
	{
		static const uint32_t rates[] = {30, 100, 300, 700, 1000};
		f.rate = rates[ch().draw(FAULT, 5)];
	}
	return f;
}

int32_t allocIndex()
{
	if (ch().draw(FAULT, 4) != 3)
		return (int32_t)ch().draw(FAULT, 400);
	return (int32_t)ch().draw(FAULT, 16u << ch().draw(FAULT, 11));
}

// Standard streams that the caller has closed.
void closeStreams(Scenario& sc, SpawnOpt& o)
{
	if (ch().draw(FAULT, 40) != 39)
		return;
	o.closed = (uint8_t)(1 + ch().draw(FAULT, 7));
	if ((o.closed & 2) || ((o.closed & 1) && sc.viaStdin))
		sc.envBroken = true;
	renderLine(fmt("  closed standard streams:%s%s%s", o.closed & 1 ? " stdin" : "", o.closed & 2 ? " stdout" : "", o.closed & 4 ? " stderr" : ""));
}

SpawnOpt spawnOf(const Scenario& sc)
{
	SpawnOpt o;
	o.argv = sc.argv;
	o.cwd = sc.cwd;
	o.hasStdin = sc.viaStdin;
	o.stdinData = sc.viaStdin ? sc.config : "";
	o.stdinKind = sc.viaStdin && D(2) ? STD_FILE : STD_PIPE;
	o.stdoutKind = (StdKind)D(3);
	o.perturb = 0;
	if (D(4) == 3)
	{
		// What a login shell sets, with directories that may be written to.
		mkPath("/", "/home/u/x", false);
		mkPath("/", "/tmp/x", false);
		static const char* const vars[][2] = {{"HOME", "/home/u"}, {"TMPDIR", "/tmp"}, {"XDG_CACHE_HOME", "/home/u/.cache"}, {"XDG_CONFIG_HOME", "/home/u"}, {"USER", "u"},
			{"PATH", "/usr/bin"}, {"TERM", "xterm"}, {"LANG", "C.UTF-8"}, {"SHELL", "/bin/sh"}, {"XDG_RUNTIME_DIR", "/tmp"}};
		for (auto& v : vars)
			o.env.push_back({v[0], v[1]});
	}
	return o;
}

// Files of any age, some from the future.
void ageFiles()
{
	if (!ch().draw(FAULT, 2))
		return;
	static const int64_t ages[] = {0, 1, -1, 3600, -3600, 90000000};
	for (auto& d : W->dents)
		if (d.used)
			W->inodes[d.ino].mtime = W->clock - ages[ch().draw(FAULT, 6)] * 1000000000ll;
}

std::string joinArgs(const std::vector<std::string>& a)
{
	std::string r;
	for (auto& x : a)
		r += (r.empty() ? "" : " ") + (x.empty() || x.find(' ') != std::string::npos ? "'" + x + "'" : x);
	return r;
}

std::string clip(const std::string& s, size_t n = 1200)
{
	return s.size() <= n ? s : s.substr(0, n) + fmt("...(%zu bytes)", s.size());
}

void renderScenario(const Scenario& sc, const char* name)
{
	if (!gShared->wantRender)
		return;
	renderLine(fmt("%s: cwd=%s command: ", name, sc.cwd.c_str()) + joinArgs(sc.argv));
	renderLine("  job: " + clip(describe(sc.job)));
	renderLine(std::string("  configuration") + (sc.viaStdin ? " (on stdin): " : ": ") + clip(sc.config));
	Fs m = fsMap();
	for (auto& f : m)
		if (f.second.kind == K_LINK)
			renderLine("  link " + f.first + " -> " + f.second.data);
		else if (f.second.kind == K_FILE)
		{
			int i = W->dents[findDent(f.first.c_str())].ino;
			renderLine(fmt("  file %s (%zu bytes)%s%s%s", f.first.c_str(), f.second.data.size(), W->inodes[i].noRead ? " unreadable" : "",
				W->inodes[i].noWrite ? " read-only" : "", W->inodes[i].badAt >= 0 ? fmt(" bad sector at %d", W->inodes[i].badAt).c_str() : ""));
		}
	if (W->diskFree >= 0)
		renderLine(fmt("  disk has %lld bytes free", (long long)W->diskFree));
}

void renderEvents(const char* title)
{
	if (!gShared->wantRender)
		return;
	renderLine(std::string(title) + ":");
	uint32_t n = std::min(W->nevents, kMaxEvents);
	for (uint32_t i = 0; i < n; ++i)
		if (n < 400 || i < 200 || i + 200 > n || W->events[i].fault || W->events[i].nr < 0)
			renderLine("  " + renderEvent(W->events[i]));
	W->nevents = 0;
}

void renderResult(int p)
{
	if (!gShared->wantRender)
		return;
	ProcResult r = result(p);
	static const char* const st[] = {"none", "ready", "exited", "killed", "crashed"};
	renderLine(fmt("  p%d %s, status %d, signal %d%s", p, st[r.state], r.exitCode, r.signal, r.hang ? " (hang)" : ""));
	if (!r.err.empty())
		renderLine("  stderr: " + clip(r.err, 600));
	renderLine("  stdout: " + clip(r.out, 900));
}

bool readWorld(const std::string& cwd, const std::string& path, std::string& out)
{
	char cp[kPathCap];
	bool slash;
	if (canonical(cwd.c_str(), path.c_str(), cp, &slash) != 0)
		return false;
	int d = findDent(cp);
	if (d < 0 || slash)
		return false;
	Inode& n = W->inodes[W->dents[d].ino];
	if (n.kind != K_FILE || n.noRead)
		return false;
	if (n.badAt >= 0)
		return false;
	out = inodeStr(W->dents[d].ino);
	return true;
}

bool inDir(const std::string& cwd, const std::string& dir, const std::string& path)
{
	std::string d = lexical(cwd, dir), p = lexical(cwd, path);
	size_t s = p.rfind('/');
	std::string par = s == 0 ? "/" : p.substr(0, s);
	return par == d;
}

orc::Expect expectOf(const Scenario& sc)
{
	orc::Expect e = orc::evaluate(sc.argv, sc.viaStdin ? sc.config : "", [&](const std::string& p, std::string& o) { return readWorld(sc.cwd, p, o); });
	if (e.v == orc::HELP)
		count(C_HELP);
	else
		count(e.v == orc::ACCEPT ? C_ACCEPTED : e.v == orc::REJECT ? C_REJECTED : C_EITHER);
	if (e.v == orc::REJECT)
	{
		count(e.errArgs ? C_ERR_ARGS : e.errConfig ? C_ERR_CONFIG : e.errData ? C_ERR_DATA : C_ERR_CONVERT);
		if (e.why.find("finite") != std::string::npos)
			count(C_NONFINITE);
	}
	if (gShared->wantRender)
		renderLine(std::string("  expected: ") + (e.v == orc::ACCEPT ? "success" : e.v == orc::REJECT ? "rejection: " + e.why : e.v == orc::HELP ? "help" : "either (" + e.why + ")"));
	return e;
}

mdl::Verdict verifyRun(const Scenario& sc, const orc::Expect& e, const std::string& out)
{
	mdl::Verdict v = orc::verify(e, out, [&](const std::string& p, std::string& o) { return readWorld(sc.cwd, p, o); },
		[&](const std::string& p) { return inDir(sc.cwd, e.outDir, p); });
	if (v.ok)
	{
		count(C_VERIFIED);
		count(C_PRIMS, v.prims);
		count(C_RESTARTS, v.restarts);
		if (v.splits)
			count(C_MULTIBUF);
		if (v.flips && !gShared->listKnown)
			report("strip-orientation", "a strip continues with inverted orientation after an odd number of triangles");
		else if (v.flips)
		{
			count(C_KNOWN_FLIP, v.flips);
			gShared->rep.known += v.flips;
			snprintf(gShared->rep.knownMsg, sizeof gShared->rep.knownMsg, "%s", "strip-orientation");
		}
	}
	return v;
}

void finish()
{
	RunReport& r = gShared->rep;
	r.traceHash = W->eventHash;
	r.steps = W->steps;
	r.simTime = W->clock;
	// Outcome: files, standard streams, exits.
	uint64_t h = 0xcbf29ce484222325ull;
	for (auto& f : fsMap())
	{
		h = fnvs(f.first, h);
		h = fnvs(f.second.data, h);
	}
	for (int i = 0; i < W->nprocs; ++i)
	{
		ProcResult p = result(i);
		int x[3] = {p.state, p.exitCode, p.signal};
		h = fnv(x, sizeof x, h);
		h = fnvs(p.out, h);
	}
	r.stateHash = h;
	r.traceHash = fnv(&h, sizeof h, r.traceHash);
}

void countExit(const ProcResult& r)
{
	if (r.state == P_EXITED)
		count(r.exitCode == 0 ? C_EXIT0 : C_EXIT1);
}

std::string crashText(const ProcResult& r)
{
	if (r.hang)
		return "the tool hangs";
	if (r.exitCode == 99 || r.err.find("AddressSanitizer") != std::string::npos)
	{
		size_t p = r.err.find("ERROR: AddressSanitizer");
		return "memory error: " + (p == std::string::npos ? r.err.substr(0, 300) : r.err.substr(p, 300));
	}
	return fmt("the tool is terminated by signal %d (%s)", r.signal, clip(r.err, 300).c_str());
}

bool crashed(const ProcResult& r)
{
	return r.state == P_CRASHED || (r.state == P_EXITED && r.exitCode == 99 && r.err.find("AddressSanitizer") != std::string::npos);
}

// Common verdict of one finished run against the oracle. lie: report wrong results and acceptance of
// invalid input; clean: report crashes, missing diagnostics, spurious failures.
void judge(const Scenario& sc, const orc::Expect& e, int p, bool lie, bool clean)
{
	ProcResult r = result(p);
	Proc& pr = W->procs[p];
	countExit(r);
	bool hard = pr.hardFired || sc.envBroken || pr.allocFailed;
	if (crashed(r))
	{
		if (clean)
			report(r.hang ? "hang" : "crash", crashText(r));
		return;
	}
	if (r.state != P_EXITED)
		return;
	if (r.exitCode == 0)
	{
		if (e.v == orc::HELP)
		{
			if (clean && pr.stdoutFailed)
				report("help", "exit status 0 although the help couldn't be written");
			else if (clean && r.out.empty() && !hard)
				report("help", "help prints nothing");
			return;
		}
		if (e.v == orc::REJECT)
		{
			report("accepted-invalid", "exit status 0 although the input is invalid: " + e.why);
			return;
		}
		if (e.v == orc::EITHER && !e.why.empty())
		{
			orc::Parsed q = orc::parseResult(r.out);
			if (!q.complete && lie)
				report("lie", "exit status 0 but " + q.why);
			return;
		}
		if (lie || hard)
		{
			mdl::Verdict v = verifyRun(sc, e, r.out);
			if (!v.ok)
				report("lie", "exit status 0 but " + v.why);
		}
		return;
	}
	if (!clean)
		return;
	if (r.exitCode != 1)
	{
		report("status", fmt("exit status %d", r.exitCode));
		return;
	}
	if (e.v == orc::HELP)
	{
		if (!hard)
			report("spurious-failure", "help fails: " + clip(r.err, 300));
		return;
	}
	if (e.v == orc::ACCEPT && !hard)
	{
		report("spurious-failure", "exit status 1 although the input is valid and no operation failed; stderr: " + clip(r.err, 300));
		return;
	}
	if (r.err.empty() && !(pr.closedStd & 4))
	{
		report("no-diagnostic", "exit status 1 without a message on stderr");
		return;
	}
	if (!pr.stdoutFailed && orc::parseResult(r.out).complete)
		report("result-despite-failure", "exit status 1 but a complete result was printed");
}

//--------------------------------------------------------------------------------------------------
// C05: what may change.

void checkConfinement(const Scenario& sc, const orc::Expect& e, int p, const Fs& before, const Fs& after, const std::vector<std::string>& resultFiles,
	const std::vector<std::string>& foreign)
{
	ProcResult r = result(p);
	Proc& pr = W->procs[p];
	std::string od = e.outDir.empty() ? "" : lexical(sc.cwd, e.outDir);
	bool rejected = r.state == P_EXITED && r.exitCode != 0 &&
		(e.v == orc::REJECT || (pr.hardFired && !(pr.hardFired & ~(uint32_t)F_INPUT) && !sc.envBroken));
	auto isForeign = [&](const std::string& path)
	{
		for (auto& f : foreign)
			if (path == f || (path.size() > f.size() && path.compare(0, f.size(), f) == 0 && path[f.size()] == '/'))
				return true;
		return false;
	};
	for (auto& f : before)
	{
		auto it = after.find(f.first);
		if (isForeign(f.first))
			continue;
		if (it != after.end() && it->second == f.second)
		{
			// The output directory and the result files are the tool's own; nothing else may change its permissions.
			if (it->second.mode != f.second.mode && f.first != od &&
				(rejected || std::find(resultFiles.begin(), resultFiles.end(), f.first) == resultFiles.end()))
			{
				report("foreign-change", fmt("the permissions of %s were changed from %o to %o", f.first.c_str(), f.second.mode, it->second.mode));
				return;
			}
			continue;
		}
		std::string what = it == after.end() ? "removed" : "changed";
		if (f.second.kind == K_DIR)
		{
			report("foreign-change", "directory " + f.first + " was " + what);
			return;
		}
		bool own = !od.empty() && inDir("/", od, f.first) &&
			std::find(resultFiles.begin(), resultFiles.end(), f.first) != resultFiles.end();
		if (!own)
		{
			report("foreign-change", "file " + f.first + " was " + what + " although it is not a result file of the run");
			return;
		}
		if (rejected)
		{
			report("changed-by-rejected-run", "file " + f.first + " was " + what + " by a run that was rejected because of its input (" + e.why + ")");
			return;
		}
	}
	for (auto& f : after)
	{
		if (before.count(f.first) || isForeign(f.first))
			continue;
		if (od.empty())
		{
			report("foreign-create", f.first + " was created although no output directory was given");
			return;
		}
		if (f.second.kind == K_DIR)
		{
			bool anc = f.first == od || (od.compare(0, f.first.size(), f.first) == 0 && od[f.first.size()] == '/');
			// Directories that the given path walks through and leaves with "..".
			std::string walk = e.outDir[0] == '/' ? e.outDir : sc.cwd + "/" + e.outDir;
			for (size_t i = 1; i <= walk.size() && !anc; ++i)
				if (i == walk.size() || walk[i] == '/')
					anc = lexical("/", walk.substr(0, i)) == f.first;
			if (!anc)
			{
				report("foreign-create", "directory " + f.first + " was created outside the output path");
				return;
			}
			if (f.first != od)
				count(C_ANCESTORS);
			continue;
		}
		if (!inDir("/", od, f.first))
		{
			report("foreign-create", "file " + f.first + " was created outside the output directory");
			return;
		}
		if (rejected)
		{
			report("created-by-rejected-run", "file " + f.first + " was created by a run that was rejected because of its input (" + e.why + ")");
			return;
		}
	}
}

std::vector<std::string> resultFiles(const Scenario& sc, const std::string& out)
{
	std::vector<std::string> r;
	for (auto& p : orc::parseResult(out).paths)
		r.push_back(lexical(sc.cwd, p));
	return r;
}

struct Base
{
	ProcResult r;
	Fs fs;
	std::vector<std::string> files;
	uint32_t visible = 0;
	std::map<std::string, std::string> content;
};

// An undisturbed run of the scenario from the given image.
Base baseline(const Scenario& sc, SpawnOpt o, const Image& img)
{
	restore(img);
	o.f = FaultCfg{0, 0, -1, false, false, -1, 0, -1, false};
	runProcs({o});
	Base b;
	b.r = result(0);
	b.fs = fsMap();
	if (b.r.state == P_EXITED && b.r.exitCode == 0)
		b.files = resultFiles(sc, b.r.out);
	for (auto& f : b.files)
		b.content[f] = b.fs.count(f) ? b.fs[f].data : "<missing>";
	b.visible = W->procs[0].visible;
	return b;
}

void dumpFs(const char* title, const Fs& a)
{
	if (!gShared->wantRender)
		return;
	renderLine(title);
	for (auto& f : a)
		renderLine(fmt("    %s %zu bytes, hash %016llx", f.first.c_str(), f.second.data.size(), (unsigned long long)fnvs(f.second.data)));
}

//--------------------------------------------------------------------------------------------------

void runC01()
{
	GenCfg g;
	g.invalid = 10;
	g.envFaults = true;
	g.huge = P(1, 300);
	Scenario sc = genScenario(g);
	renderScenario(sc, "tool");
	orc::Expect e = expectOf(sc);
	ageFiles();
	SpawnOpt o = spawnOf(sc);
	bool alloc = ch().draw(FAULT, 8) == 7;
	o.f = genFaults(F_HARD | F_BENIGN, 7);
	if (alloc)
	{
		o.f.allocAt = allocIndex();
		o.f.allocSticky = ch().draw(FAULT, 2);
	}
	closeStreams(sc, o);
	runProcs({o});
	renderEvents("events");
	renderResult(0);
	judge(sc, e, 0, true, false);
	gShared->rep.nontrivial = e.v == orc::ACCEPT || e.v == orc::EITHER;
}

void runC02()
{
	GenCfg g;
	g.invalid = 55;
	g.envFaults = true;
	g.corners = 9;
	Scenario sc = genScenario(g);
	renderScenario(sc, "tool");
	orc::Expect e = expectOf(sc);
	SpawnOpt o = spawnOf(sc);
	bool alloc = ch().draw(FAULT, 6) == 5;
	o.f = genFaults(F_HARD | F_BENIGN, alloc ? 3 : 7);
	if (alloc)
	{
		o.f.allocAt = allocIndex();
		o.f.allocSticky = ch().draw(FAULT, 2);
	}
	closeStreams(sc, o);
	runProcs({o});
	renderEvents("events");
	renderResult(0);
	judge(sc, e, 0, false, true);
	gShared->rep.nontrivial = e.v != orc::HELP && (e.v != orc::ACCEPT || W->procs[0].hardFired || sc.envBroken);
}

std::string diffOut(const Base& b, const ProcResult& r)
{
	if (r.state == P_CRASHED && !r.signal && b.r.state != P_CRASHED)
		return "never ends; stderr: " + clip(r.err, 300);
	if (r.state != b.r.state || r.exitCode != b.r.exitCode || r.signal != b.r.signal)
		return fmt("exit status %d, signal %d instead of status %d, signal %d; stderr: ", r.exitCode, r.signal, b.r.exitCode, b.r.signal) + clip(r.err, 300);
	if (r.out != b.r.out)
	{
		size_t i = 0;
		while (i < r.out.size() && i < b.r.out.size() && r.out[i] == b.r.out[i])
			++i;
		return fmt("stdout differs at byte %zu (%zu bytes instead of %zu)", i, r.out.size(), b.r.out.size());
	}
	return "";
}

std::string diffFiles(const Base& b, const Fs& fs)
{
	for (auto& f : b.content)
	{
		auto it = fs.find(f.first);
		if (it == fs.end())
			return "result file " + f.first + " is missing";
		if (it->second.data != f.second)
		{
			size_t i = 0;
			while (i < it->second.data.size() && i < f.second.size() && it->second.data[i] == f.second[i])
				++i;
			return fmt("result file %s differs at byte %zu (%zu bytes instead of %zu)", f.first.c_str(), i, it->second.data.size(), f.second.size());
		}
	}
	return "";
}

void runC03()
{
	GenCfg g;
	g.invalid = 15;
	g.huge = P(1, 400);
	Scenario sc = genScenario(g);
	renderScenario(sc, "tool");
	expectOf(sc);
	ageFiles();
	SpawnOpt o = spawnOf(sc);
	Image img = snapshot();
	Base b = baseline(sc, o, img);
	renderEvents("undisturbed run");
	renderResult(0);
	restore(img);
	// Other contents in the result files.
	for (auto& f : b.files)
		if (ch().draw(FAULT, 3) == 2)
		{
			bool input = std::find(sc.inputFiles.begin(), sc.inputFiles.end(), f) != sc.inputFiles.end();
			if (input)
				continue;
			mkPath("/", f, false);
			static const uint32_t sizes[] = {0, 1, 100, 5000, 70000};
			addFile(f.c_str(), std::string(sizes[ch().draw(FAULT, 5)], 'z'));
			count(C_OVERWRITE);
		}
	o.f = genFaults(F_BENIGN, 6);
	o.stdinKind = sc.viaStdin && ch().draw(FAULT, 2) ? STD_FILE : STD_PIPE;
	o.stdoutKind = (StdKind)ch().draw(FAULT, 3);
	if (sc.viaStdin && ch().draw(FAULT, 2))
	{
		// A slow pipe: one byte at a time.
		o.f.classes |= F_STDIN_SHORT;
		o.f.rate = 1000;
		o.f.single = -1;
		o.f.tiny = true;
	}
	runProcs({o});
	renderEvents("run with split transfers");
	renderResult(0);
	ProcResult r = result(0);
	countExit(r);
	std::string d = diffOut(b, r);
	if (d.empty())
		d = diffFiles(b, fsMap());
	if (!d.empty())
		report("differs", d);
	gShared->rep.nontrivial = W->procs[0].benignFired != 0;
}

void powerLoss(const Fs& old, const std::vector<std::string>& files)
{
	for (auto& f : files)
	{
		int d = findDent(f.c_str());
		if (d < 0)
			continue;
		Inode& n = W->inodes[W->dents[d].ino];
		if (n.kind != K_FILE || !n.dirty)
			continue;
		int how = (int)ch().draw(FAULT, 6);
		if (how == 0)
			continue;
		count(C_POWER_LOSS);
		std::string data = inodeStr(W->dents[d].ino);
		uint32_t at = data.empty() ? 0 : ch().draw(FAULT, (uint32_t)data.size());
		switch (how)
		{
			case 1:
				data.resize(at);
				break;
			case 2:
				std::fill(data.begin() + at, data.end(), '\0');
				break;
			case 3:
				for (size_t i = at; i < data.size() && i < at + 512u; ++i)
					data[i] = (char)(i * 77 + 1);
				break;
			case 4:
				if (old.count(f))
					data = old.at(f).data;
				else
					data.clear();
				break;
			case 5:
				if (!old.count(f))
				{
					W->dents[d].used = false;
					continue;
				}
				data += "stale tail of another file";
				break;
		}
		inodeSet(W->dents[d].ino, data.data(), data.size());
		n.dirty = false;
		renderLine("  power loss damages " + f + fmt(" (way %d)", how));
	}
}

void runC04()
{
	GenCfg g;
	g.invalid = 0;
	g.out = P(1, 6) ? 2 : 1;
	g.specials = false;
	g.huge = P(1, 500);
	Scenario sc = genScenario(g);
	renderScenario(sc, "tool");
	orc::Expect e = expectOf(sc);
	ageFiles();
	SpawnOpt o = spawnOf(sc);
	Image img = snapshot();
	Fs before = fsMap();
	Base b = baseline(sc, o, img);
	renderEvents("undisturbed run");
	renderResult(0);
	if (b.r.state != P_EXITED || b.r.exitCode != 0 || !orc::parseResult(b.r.out).complete)
		return; // Not a job that succeeds: C01 and C02.
	// Result files that are inputs at the same time cannot be reproduced by a rerun.
	for (auto& f : b.files)
		if (std::find(sc.inputFiles.begin(), sc.inputFiles.end(), f) != sc.inputFiles.end())
		{
			count(C_OVERLAP);
			return;
		}
	gShared->rep.nontrivial = 1;
	restore(img);
	uint32_t kills = 1 + ch().draw(FAULT, 2);
	for (uint32_t i = 0; i < kills; ++i)
	{
		SpawnOpt q = o;
		q.f = genFaults(F_BENIGN, 5);
		// Most of the interesting instants are near the end.
		uint32_t n = b.visible + 2, at = ch().draw(FAULT, n);
		if (ch().draw(FAULT, 2))
			at = n - 1 - at / 2;
		q.f.killAt = (int32_t)at;
		static const int parts[] = {0, 1000, 500, 250, 900};
		q.f.killPart = parts[ch().draw(FAULT, 5)];
		runProcs({q});
		renderEvents("killed run");
		renderResult(0);
		ProcResult r = result(0);
		if (crashed(r))
		{
			report("crash", crashText(r));
			return;
		}
		Fs now = fsMap();
		if (!r.out.empty())
			count(C_PARTIAL_STDOUT);
		orc::Parsed pr = orc::parseResult(r.out);
		if (pr.complete)
		{
			count(C_FULL_STDOUT_KILLED);
			std::string d;
			// The final newline may be missing.
			std::string a = r.out, w = b.r.out;
			while (!a.empty() && isspace((unsigned char)a.back()))
				a.pop_back();
			while (!w.empty() && isspace((unsigned char)w.back()))
				w.pop_back();
			if (a != w)
				d = "the result printed before the kill differs from that of an undisturbed run";
			if (d.empty())
				d = diffFiles(b, now);
			if (!d.empty())
			{
				report("early-result", "killed after a complete result was printed, but " + d);
				return;
			}
		}
		for (auto& f : sc.inputFiles)
			if (now[f] != before[f])
			{
				report("input-changed", "input file " + f + " changed");
				return;
			}
		if (ch().draw(FAULT, 2))
		{
			std::vector<std::string> all = b.files;
			std::string od = e.outDir.empty() ? "" : lexical(sc.cwd, e.outDir);
			for (auto& f : now)
				if (!od.empty() && f.second.kind == K_FILE && inDir("/", od, f.first) && !before.count(f.first) &&
					std::find(all.begin(), all.end(), f.first) == all.end())
					all.push_back(f.first);
			powerLoss(before, all);
		}
	}
	count(C_RERUNS);
	o.f = genFaults(F_BENIGN, 5);
	runProcs({o});
	renderEvents("rerun");
	renderResult(0);
	ProcResult r = result(0);
	countExit(r);
	std::string d = diffOut(b, r);
	if (d.empty())
		d = diffFiles(b, fsMap());
	if (!d.empty())
		report("rerun-differs", "the rerun after a kill is not like an undisturbed run: " + d);
}

void runC05()
{
	GenCfg g;
	g.invalid = 50;
	g.envFaults = true;
	g.corners = 8;
	Scenario sc = genScenario(g);
	// Half of the jobs find the results of an earlier run.
	ageFiles();
	SpawnOpt o = spawnOf(sc);
	bool earlier = !sc.outDir.empty() && P(1, 2);
	if (earlier)
	{
		std::string od = lexical(sc.cwd, sc.outDir);
		if (findDent(od.c_str()) < 0 || W->inodes[W->dents[findDent(od.c_str())].ino].kind == K_DIR)
		{
			bool fileInWay = false;
			std::string walk;
			for (size_t i = 1; i <= od.size(); ++i)
				if (i == od.size() || od[i] == '/')
				{
					int d = findDent(od.substr(0, i).c_str());
					fileInWay |= d >= 0 && W->inodes[W->dents[d].ino].kind != K_DIR;
				}
			if (!fileInWay)
			{
				mkPath(sc.cwd, sc.outDir, true);
				std::string pre = od == "/" ? "" : od;
				static const char* const n[] = {"/vertices.0.dat", "/vertices.1.dat", "/indices.0.dat"};
				for (auto* x : n)
					if (findDent((pre + x).c_str()) < 0)
						addFile((pre + x).c_str(), std::string("result of an earlier run ") + x);
				count(C_OVERWRITE);
			}
		}
	}
	// Whatever permissions the owner's files and directories have, besides those that he needs.
	if (uint32_t seed = D(4) ? 0 : 1 + D(1 << 16))
	{
		Bulk bk(seed);
		for (auto& d : W->dents)
		{
			Inode& n = W->inodes[d.ino];
			if (d.used && !n.mode && !n.noRead && !n.noWrite)
				n.mode = (uint16_t)(kModeSet | (n.kind == K_DIR ? 0700 : 0600) | bk(64));
		}
	}
	// Sometimes an input file is one of the result files.
	renderScenario(sc, "tool");
	orc::Expect e = expectOf(sc);
	Image img = snapshot();
	Base b = baseline(sc, o, img);
	renderEvents("undisturbed run");
	renderResult(0);
	restore(img);
	Fs before = fsMap();
	// The result files of the run: from the undisturbed one, or the plain names when that fails because the file
	// system is broken.
	std::vector<std::string> files = b.files;
	if (files.empty() && sc.envBroken && e.v != orc::REJECT && !e.outDir.empty())
	{
		std::string od = lexical(sc.cwd, e.outDir), pre = od == "/" ? "" : od;
		for (int i = 0; i < 16; ++i)
		{
			files.push_back(pre + fmt("/vertices.%d.dat", i));
			files.push_back(pre + fmt("/indices.%d.dat", i));
		}
	}
	for (auto& f : files)
		if (std::find(sc.inputFiles.begin(), sc.inputFiles.end(), f) != sc.inputFiles.end())
			count(C_OVERLAP);
	o.f = genFaults(F_HARD | F_BENIGN, 7);
	if (ch().draw(FAULT, 8) == 7)
	{
		o.f.killAt = (int32_t)ch().draw(FAULT, b.visible + 2);
		o.f.killPart = ch().draw(FAULT, 2) ? 400 : 1000;
	}
	runProcs({o});
	renderEvents("events");
	renderResult(0);
	countExit(result(0));
	Fs after = fsMap();
	checkConfinement(sc, e, 0, before, after, files, {});
	gShared->rep.nontrivial = e.v == orc::REJECT || !sc.outDir.empty();
}

void runC06()
{
	uint32_t n = 2 + D(3);
	std::vector<Scenario> sc;
	std::vector<SpawnOpt> sp;
	static const char* const layouts[][4] = {
		{"out/a", "out/b", "out/c", "out/d"},
		{"out/x/a", "out/x/b", "out/x", "out"},
		{"p/q/r/a", "/w/p/q/r/b", "p/q/r2", "./p/q"},
		{"o1", "o2", "o3", "o4"},
		{"/n/e/w/1", "/n/e/w/2", "/n/e/v", "/n/f"},
		{"out/a/", "out/b//", "out//c", "./out/d"}};
	uint32_t lay = D(6);
	bool sameJob = P(1, 3);
	for (uint32_t i = 0; i < n; ++i)
	{
		if (i && sameJob)
		{
			Scenario s = sc[0];
			s.outDir = layouts[lay][i];
			for (size_t a = 0; a + 1 < s.argv.size(); ++a)
				if (s.argv[a] == "-o" || s.argv[a] == "--output")
					s.argv[a + 1] = s.outDir;
			sc.push_back(s);
			continue;
		}
		GenCfg g;
		g.invalid = 12;
		g.out = 1;
		g.simple = true;
		g.corners = 7;
		g.specials = false;
		g.tag = fmt("%u", i);
		Scenario s = genScenario(g);
		std::string old = s.outDir;
		s.outDir = layouts[lay][i];
		for (size_t a = 0; a + 1 < s.argv.size(); ++a)
			if ((s.argv[a] == "-o" || s.argv[a] == "--output") && s.argv[a + 1] == old)
				s.argv[a + 1] = s.outDir;
		sc.push_back(s);
	}
	// Only directories of their own.
	for (uint32_t i = 0; i < n; ++i)
	{
		renderScenario(sc[i], fmt("p%u", i).c_str());
		sp.push_back(spawnOf(sc[i]));
	}
	std::vector<orc::Expect> ex;
	for (auto& s : sc)
		ex.push_back(expectOf(s));
	Image img = snapshot();
	std::vector<Base> base;
	for (uint32_t i = 0; i < n; ++i)
	{
		base.push_back(baseline(sc[i], sp[i], img));
		W->nevents = 0;
	}
	restore(img);
	std::vector<bool> victim(n, false);
	for (uint32_t i = 0; i < n; ++i)
	{
		uint32_t k = ch().draw(FAULT, 6);
		if (k == 5)
		{
			victim[i] = true;
			sp[i].f.killAt = (int32_t)ch().draw(FAULT, base[i].visible + 1);
			sp[i].f.killPart = ch().draw(FAULT, 2) ? 400 : 1000;
		}
		else if (k == 4)
		{
			victim[i] = true;
			sp[i].f = genFaults(F_HARD | F_BENIGN, 6);
		}
		else if (k == 3)
			sp[i].f = genFaults(F_BENIGN, 6);
	}
	runProcs(sp);
	renderEvents("interleaved events");
	Fs fs = fsMap();
	for (uint32_t i = 0; i < n; ++i)
	{
		renderResult((int)i);
		ProcResult r = result((int)i);
		countExit(r);
		if (victim[i])
			continue;
		std::string d = diffOut(base[i], r);
		if (d.empty())
			d = diffFiles(base[i], fs);
		if (!d.empty())
		{
			report("disturbed", fmt("process %u does not behave as when run alone: ", i) + d);
			return;
		}
	}
	// Nothing but what the processes would have written alone.
	Fs before;
	restore(img);
	before = fsMap();
	for (auto& f : fs)
	{
		bool known = before.count(f.first);
		for (uint32_t i = 0; i < n && !known; ++i)
			known = base[i].fs.count(f.first) || (victim[i] && inDir(sc[i].cwd, sc[i].outDir, f.first)) ||
				(victim[i] && f.second.kind == K_DIR);
		if (!known)
		{
			report("stray", f.first + " was left behind although no process creates it when run alone");
			return;
		}
	}
	gShared->rep.nontrivial = 1;
}

void corruptFiles(Scenario& sc)
{
	count(C_CORRUPT);
	uint32_t n = 1 + D(3);
	for (uint32_t i = 0; i < n && !sc.inputFiles.empty(); ++i)
	{
		int dn = findDent(sc.inputFiles[D((uint32_t)sc.inputFiles.size())].c_str());
		if (dn < 0)
			continue;
		int ino = W->dents[dn].ino;
		std::string d = inodeStr(ino);
		uint32_t sz = (uint32_t)d.size();
		switch (D(9))
		{
			case 0:
			case 1:
				if (sz)
					d[D(sz)] ^= (char)(1 << D(8));
				break;
			case 2:
				d.resize(D(sz + 1));
				break;
			case 3: // Torn block.
				if (sz)
				{
					uint32_t a = D(sz), len = 1 + D(std::min(sz - a, 64u));
					std::fill(d.begin() + a, d.begin() + a + len, D(2) ? '\0' : (char)0xFF);
				}
				break;
			case 4: // Duplicated block.
				if (sz)
				{
					uint32_t a = D(sz), len = 1 + D(std::min(sz - a, 64u));
					d.insert(D(sz), d.substr(a, len));
				}
				break;
			case 5: // Lost block.
				if (sz)
				{
					uint32_t a = D(sz);
					d.erase(a, 1 + D(16));
				}
				break;
			case 6: // Content of another file.
			{
				int o = findDent(sc.inputFiles[D((uint32_t)sc.inputFiles.size())].c_str());
				d = inodeStr(W->dents[o].ino);
				break;
			}
			case 7:
			{
				Bulk b(D(1 << 20));
				for (auto& c : d)
					if (b(10) == 0)
						c = (char)b(256);
				break;
			}
			case 8:
				for (uint32_t x = 0; x < 4 && sz; ++x)
					d[D(sz)] = (char)D(256);
				break;
		}
		inodeSet(ino, d.data(), d.size());
	}
}

void runC07()
{
	GenCfg g;
	g.invalid = 10;
	g.corners = 8;
	g.noStdin = P(3, 4);
	Scenario sc = genScenario(g);
	bool dynamic = P(1, 2);
	if (!dynamic || P(1, 4))
		corruptFiles(sc);
	renderScenario(sc, "tool");
	SpawnOpt o = spawnOf(sc);
	o.f = genFaults(F_READ_SHORT | F_STDIN_SHORT, 5);
	orc::Expect e = expectOf(sc);
	if (dynamic)
	{
		// Inodes to mutate and to copy from.
		uint32_t n = 1 + ch().draw(FAULT, 3);
		for (uint32_t i = 0; i < n && !sc.inputFiles.empty(); ++i)
		{
			Mutation& m = W->mut[W->nmut];
			int a = findDent(sc.inputFiles[ch().draw(FAULT, (uint32_t)sc.inputFiles.size())].c_str());
			int b = findDent(sc.inputFiles[ch().draw(FAULT, (uint32_t)sc.inputFiles.size())].c_str());
			if (a < 0 || b < 0)
				continue;
			m.at = (int32_t)ch().draw(FAULT, 30);
			m.ino = W->dents[a].ino;
			m.other = W->dents[b].ino;
			m.op = (uint8_t)ch().draw(FAULT, 5);
			m.a = ch().draw(FAULT, 4096);
			m.b = ch().draw(FAULT, 4096);
			++W->nmut;
		}
	}
	runProcs({o});
	renderEvents("events");
	renderResult(0);
	ProcResult r = result(0);
	countExit(r);
	gShared->rep.nontrivial = 1;
	if (crashed(r))
	{
		report(r.hang ? "hang" : "crash", crashText(r));
		return;
	}
	if (!dynamic || W->nmut == 0)
	{
		judge(sc, e, 0, true, true);
		return;
	}
	if (r.exitCode == 1)
	{
		if (r.err.empty())
			report("no-diagnostic", "exit status 1 without a message on stderr");
		return;
	}
	if (r.exitCode != 0)
	{
		report("status", fmt("exit status %d", r.exitCode));
		return;
	}
	if (e.v == orc::HELP)
		return;
	// The result must be the conversion of the bytes that were delivered. A file that was opened several times may
	// have been seen in several versions.
	// mode 0: the first version, 1: the last one, 2: one version after the other.
	std::map<std::string, int> uses;
	auto delivered = [&](int mode)
	{
		uses.clear();
		return [&, mode](const std::string& p, std::string& out) -> bool
		{
			std::string c = lexical(sc.cwd, p);
			bool found = false;
			int skip = uses[c]++;
			for (int i = 0; i < W->nsessions; ++i)
				if (W->sessions[i].proc == 0 && c == W->sessions[i].path && (!found || mode == 1 || (mode == 2 && skip-- > 0)))
				{
					out = inodeStr(W->sessions[i].ino);
					found = true;
				}
			return found;
		};
	};
	std::string why;
	for (int mode = 0; mode < 3; ++mode)
	{
		orc::Expect q = orc::evaluate(sc.argv, sc.viaStdin ? sc.config : "", delivered(mode));
		if (q.v == orc::EITHER && !q.why.empty())
			return;
		if (q.v == orc::REJECT)
		{
			why = "exit status 0 although the bytes that were read are invalid: " + q.why;
			continue;
		}
		mdl::Verdict v = verifyRun(sc, q, r.out);
		if (v.ok)
			return;
		why = "exit status 0 but, for the bytes that were read, " + v.why;
	}
	for (auto& u : uses)
		if (u.second > 1)
			for (int i = 0; i < W->nsessions; ++i)
				for (int k = 0; k < i; ++k)
					if (u.first == W->sessions[i].path && u.first == W->sessions[k].path && inodeStr(W->sessions[i].ino) != inodeStr(W->sessions[k].ino))
						return; // Used for several streams in several versions: not attributable.
	for (int i = 0; i < W->nsessions; ++i)
		if (W->inodes[W->sessions[i].ino].odd)
			return; // Parts were read more than once: which version counts is not defined.
	report("not-as-read", why);
}

void runC13()
{
	GenCfg g;
	g.invalid = 12;
	g.noStdin = true;
	g.corners = 12;
	Scenario sc = genScenario(g);
	// Absolute paths only, so that the working directory is free.
	bool relative = false;
	for (size_t i = 1; i + 1 < sc.argv.size(); ++i)
		if (sc.argv[i] == "-i" || sc.argv[i] == "--input" || sc.argv[i] == "-o" || sc.argv[i] == "--output")
		{
			std::string& a = sc.argv[i + 1];
			if (!a.empty() && a[0] != '/' && a[0] != '-')
				a = lexical(sc.cwd, a, false);
			else if (a.empty() || a[0] != '/')
				relative = true;
			if (sc.argv[i][1] == 'i' || sc.argv[i] == "--input")
				sc.configPath = a;
			else
				sc.outDir = a;
			++i;
		}
	if (!sc.inputFiles.empty() && P(1, 12))
	{
		// An input is missing.
		size_t i = D((uint32_t)sc.inputFiles.size());
		int d = findDent(sc.inputFiles[i].c_str());
		if (d >= 0)
			W->dents[d].used = false;
		sc.inputFiles.erase(sc.inputFiles.begin() + (long)i);
		sc.damaged = true;
	}
	renderScenario(sc, "tool");
	orc::Expect e = expectOf(sc);
	ageFiles();
	SpawnOpt o = spawnOf(sc);
	Image img = snapshot();
	Base b = baseline(sc, o, img);
	renderEvents("first run");
	renderResult(0);
	restore(img);
	SpawnOpt q = o;
	q.perturb = (int)ch().draw(FAULT, 256);
	q.stackJunk = (int)ch().draw(FAULT, 256);
	q.heapJunk = ch().draw(FAULT, 1 << 16);
	W->envJunk = ch().draw(FAULT, 1 << 16);
	q.env.clear();
	W->entropy = ch().draw(FAULT, 1 << 20);
	W->pace = ch().draw(FAULT, 1 << 20);
	W->machine = ch().draw(FAULT, 1 << 16);
	W->uid = ch().draw(FAULT, 2) ? 0 : 1000;
	q.umask = (const uint32_t[]){022, 077, 002, 0}[ch().draw(FAULT, 4)];
	W->clock += (uint64_t)ch().draw(FAULT, 1u << 28) * 3000000000ull - 300000000ull * 1000000000ull;
	static const char* const vars[][2] = {{"LANG", "de_DE.UTF-8"}, {"LC_ALL", "tr_TR.UTF-8"}, {"HOME", "/nonexistent"}, {"TMPDIR", "/w/in"}, {"POSIXLY_CORRECT", "1"}, {"PWD", "/elsewhere"}, {"COLUMNS", "7"}, {"DEBUG", "1"}};
	for (auto& v : vars)
		if (ch().draw(FAULT, 3) == 2)
			q.env.push_back({v[0], v[1]});
	addDir("/other");
	if (ch().draw(FAULT, 2) && !relative)
		q.cwd = "/other";
	if (ch().draw(FAULT, 2))
	{
		// Files whose names, relative to the working directory, are those that the configuration uses.
		std::string dir = lexical(sc.cwd, sc.configPath, false);
		dir = dir.substr(0, dir.rfind('/'));
		size_t at = 0;
		while ((at = sc.config.find(".bin\"", at)) != std::string::npos)
		{
			size_t s = sc.config.rfind('"', at);
			std::string name = sc.config.substr(s + 1, at + 4 - s - 1);
			++at;
			if (name.empty() || name[0] == '/' || name.find('\\') != std::string::npos || name.size() > 100)
				continue;
			std::string decoy = lexical(q.cwd, name), real = lexical("/", dir + "/" + name);
			bool input = decoy == real;
			for (auto& f : sc.inputFiles)
				input |= decoy == f;
			for (auto& f : b.files)
				input |= decoy == f;
			if (input || findDent(decoy.c_str()) >= 0)
				continue;
			mkPath(q.cwd, name, false);
			int d = findDent(real.c_str());
			std::string data = d >= 0 && W->inodes[W->dents[d].ino].kind == K_FILE ? inodeStr(W->dents[d].ino) : std::string(48, '\0');
			for (auto& c : data)
				c = (char)(c ^ 1);
			addFile(decoy.c_str(), data);
		}
	}
	q.stdoutKind = (StdKind)ch().draw(FAULT, 3);
	if (ch().draw(FAULT, 2))
		q.stdinData = "unrelated {\"vertexFormat\": 1}";
	for (auto& f : b.files)
		if (ch().draw(FAULT, 3) == 2 && std::find(sc.inputFiles.begin(), sc.inputFiles.end(), f) == sc.inputFiles.end())
		{
			mkPath("/", f, false);
			addFile(f.c_str(), std::string(ch().draw(FAULT, 9000), 'q'));
		}
	q.f = genFaults(F_BENIGN, 5);
	runProcs({q});
	renderEvents("second run");
	renderResult(0);
	ProcResult r = result(0);
	countExit(r);
	std::string d = diffOut(b, r);
	if (d.empty())
		d = diffFiles(b, fsMap());
	if (!d.empty())
	{
		report("differs", "the same job in another environment: " + d);
		return;
	}
	gShared->rep.nontrivial = e.v == orc::ACCEPT;
	if (e.v != orc::ACCEPT || sc.damaged)
		return;
	// Third run: every data buffer embedded in the configuration instead of read from a file.
	restore(img);
	bool changed = false;
	std::string text = sc.config;
	for (auto& f : sc.inputFiles)
	{
		if (f == lexical(sc.cwd, sc.configPath))
			continue;
		// Every spelling of the path in the configuration.
		std::string data = inodeStr(W->dents[findDent(f.c_str())].ino);
		size_t p = 0;
		while ((p = text.find(".bin\"", p)) != std::string::npos)
		{
			size_t s = text.rfind('"', p);
			std::string name = text.substr(s + 1, p + 4 - s - 1);
			std::string dir = sc.configPath.substr(0, sc.configPath.rfind('/'));
			std::string full = name[0] == '/' ? name : dir + "/" + name;
			if (lexical(sc.cwd, full) == f)
			{
				std::string rep = "base64:" + orc::b64(data);
				text.replace(s + 1, p + 4 - s - 1, rep);
				p = s + rep.size();
				changed = true;
			}
			else
				++p;
		}
	}
	if (!changed)
		return;
	inodeSet(W->dents[findDent(lexical(sc.cwd, sc.configPath).c_str())].ino, text.data(), text.size());
	runProcs({o});
	renderEvents("run with embedded data");
	renderResult(0);
	r = result(0);
	d = diffOut(b, r);
	if (d.empty())
		d = diffFiles(b, fsMap());
	if (!d.empty())
		report("differs-embedded", "the same data embedded in the configuration: " + d);
}
}

void simRun(Shared& sh)
{
	rlimit lim{0, 0};
	setrlimit(RLIMIT_CORE, &lim);
	resetWorld();
	W->noHalf = gShared->ch.draw(FAULT, 6) == 5;
	W->entropy = W->machine = 12345;
	if (gShared->ch.draw(FAULT, 3) == 2)
		W->pace = 1 + gShared->ch.draw(FAULT, 1 << 20);
	W->uid = 1000;
	W->clock = 1700000000ull * 1000000000ull;
	uint64_t t0 = W->clock;
	std::string p = sh.prop;
	if (p == "C01")
		runC01();
	else if (p == "C02")
		runC02();
	else if (p == "C03")
		runC03();
	else if (p == "C04")
		runC04();
	else if (p == "C05")
		runC05();
	else if (p == "C06")
		runC06();
	else if (p == "C07")
		runC07();
	else if (p == "C13")
		runC13();
	else
		harnessError("unknown property");
	finish();
	gShared->rep.simTime = p == "C13" ? W->steps * 20000 : W->clock - t0;
}
