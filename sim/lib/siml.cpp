// Simulated runs of the library: scripts of API calls on simulated threads, with failing allocations,
// throwing error handlers and preemption, judged against the reference model.
#include "../common/gen.h"
#include "../shim/shim.h"
#include "sched.h"
#include <stdexcept>
#include <algorithm>
#include <cmath>
#include <memory>
#include <new>
#include <dlfcn.h>
#include <fcntl.h>
#include <strings.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace mdl;

const char* const kSimName = "vfc-library-simulator";
enum Counter
{
	C_ALLOC_FAIL, C_HANDLER_THROW, C_RETRY, C_SWITCH, C_BLOCKED, C_SYNC,
	C_CALLS, C_ACCEPT, C_REJECT, C_CONV_OK, C_CONV_FAIL, C_CONV_INT, C_ADD_INT, C_NEW_INT, C_FMT_INT, C_FMT_SIDE, C_MOVES, C_SPLIT, C_SPLITSTRIP, C_DEDUP,
	C_RESTART, C_PRIMS, C_FLIPS, C_INVALID, C_AMBIG, C_HUGE, C_THREADS, C_SHARED, C_COPIED, C_QUERIES, C_ALLOCS, C_RETRY_OK, C_AFTER_REJECT_OK, C_FULLSHADOW, C_ACCESSES,
	C_NULLHANDLER, C_MAXEDGE, C_DUPNAMES, C_EMPTY, C_STDERR, C_STDERR_FULL, C_NO_HALF, C_FAR, C_HANDED, C_ALIAS, C_NESTED
};
const char* const kCounterNames[kCounters] = {"fault_allocation_failure", "fault_error_handler_throws", "sched_retries_after_fault", "sched_switches", "sched_blocked_on_lock",
	"sched_synchronisation_points",
	"calls", "streams_accepted", "streams_rejected", "conversions_verified", "conversions_refused", "conversions_interrupted", "add_interrupted", "construction_interrupted",
	"format_calls_interrupted", "format_copies_moves_and_assignments", "moves", "conversions_split_into_buffers", "splits_inside_strips_or_fans", "vertices_shared", "restarts", "primitives_verified",
	"known_finding_flips", "invalid_converters", "interrupted_calls_with_two_outcomes", "huge_meshes", "threads", "shared_inputs", "formats_copied_from_one", "queries", "library_allocations",
	"retries_succeeded", "conversions_verified_after_rejected_calls", "shadow_full", "memory_accesses", "without_error_handler", "small_maximum_index", "duplicate_output_names",
	"empty_meshes", "messages_on_stderr", "fault_stderr_full", "machines_without_half_floats", "vertices_beyond_2_gigabytes", "objects_handed_between_threads", "streams_in_shared_memory", "converters_used_by_error_functions", nullptr};

uint64_t simCpuLimitSeconds() { return 20; }
static void finish();
void simServerInit(Shared&) { ls::init(); }

namespace
{
Choices& ch() { return gShared->ch; }
uint32_t D(uint32_t n) { return ch().draw(SCEN, n); }
bool P(uint32_t num, uint32_t den) { return ch().chance(SCEN, num, den); }
uint32_t DF(uint32_t n) { return ch().draw(FAULT, n); }
uint64_t gState = 0xcbf29ce484222325ull;
void outcome(const void* p, size_t n) { gState = fnv(p, n, gState); }

//--------------------------------------------------------------------------------------------------
// Scripts.

struct HandlerError
{
};

// Whatever an application throws, even what the library itself may meet on the way.
struct HandlerNoMemory : std::bad_alloc
{
};

struct HandlerFailure : std::runtime_error
{
	HandlerFailure() : std::runtime_error("from the error function") {}
};

struct Spec
{
	std::vector<Fmt> out;
	int itype, prim;
	uint32_t patch;
	bool hasMax;
	uint32_t max;
	bool single;
	bool handler = true;
	bool deflt = false;     // No error function is given: messages go to stderr.
	uint32_t effectiveMax() const
	{
		uint32_t m = hasMax ? max : itype == U16 ? 65534u : itype == U32 ? 0xFFFFFFFEu : 0u;
		return m;
	}
	bool valid() const
	{
		if (out.empty())
			return false;
		for (auto& f : out)
			if (f.e.empty())
				return false;
		if (prim < 0 || prim >= PRIMS)
			return false;
		if (prim == PatchList && patch == 0)
			return false;
		if (itype != NoIdx)
		{
			uint32_t m = effectiveMax();
			if (m < primMin(prim, patch) - 1 || m > idxRestart(itype))
				return false;
		}
		return true;
	}
};

enum OpKind { NEW, ADD, TRI, TRN, CONVERT, QUERY, MOVENEW, MOVEASSIGN, DESTROY, OPKINDS };
const char* const opName[] = {"construct", "addVertexStream", "setElementTransform(index)", "setElementTransform(name)", "convert", "query by name", "move construct",
	"move assign", "destroy"};

struct Op
{
	int kind;
	int slot = 0, slot2 = 0;
	int spec = 0;    // NEW
	int stream = -1; // ADD
	int null = 0;    // ADD: 1 null vertices, 2 null indices
	int a = 0, b = 0, tr = 0;
	std::string name;
	bool asString = false, shortForm = false;
	int retries = 0;
};

struct FmtStep
{
	std::string name;
	int lay, typ;
};

struct Script
{
	std::vector<Spec> specs;
	std::vector<InStream> streams;
	std::vector<Op> ops;
	bool faultAlloc = false, faultHandler = false;
	bool poison = true;
	uint32_t maxCorners = 0;
};

// Exact-size copies of the input data.
struct Buffers
{
	std::vector<uint8_t*> v, ib;
	std::vector<size_t> vn, in;
	uint64_t sum = 0;
	uint64_t checksum() const
	{
		uint64_t h = 7;
		for (size_t i = 0; i < v.size(); ++i)
		{
			h = fnv(v[i], vn[i], h);
			h = fnv(ib[i], in[i], h);
		}
		return h;
	}
	std::vector<std::pair<void*, size_t>> maps;
	std::vector<uint32_t> before;
	std::vector<size_t> stride;
	std::vector<bool> ownV, ownI;
	uint32_t shift; // From an aligned address. Vertices needn't be aligned.
	// Memory that begins like that of an earlier stream may be the same memory.
	static uint8_t* alias(const std::vector<uint8_t>& x, const std::vector<uint8_t>& y, uint8_t* at)
	{
		return !x.empty() && x.size() <= y.size() && !memcmp(x.data(), y.data(), x.size()) ? at : nullptr;
	}
	explicit Buffers(const std::vector<InStream>& s, bool share = false, uint32_t moved = 0) : shift(moved)
	{
		for (auto& x : s)
		{
			uint8_t *av = nullptr, *ai = nullptr;
			for (size_t k = 0; share && k < v.size(); ++k)
				if (!x.before && !before[k])
				{
					av = av ? av : alias(x.v, s[k].v, v[k]);
					ai = ai ? ai : alias(x.ib, s[k].ib, ib[k]);
				}
			if (av || ai)
				count(C_ALIAS);
			ownV.push_back(!av);
			ownI.push_back(!ai);
			vn.push_back(x.v.size());
			in.push_back(x.ib.size());
			uint32_t pre = x.before;
			if (pre)
			{
				// Address space without memory, except for the vertices that are used.
				size_t n = (size_t)pre * x.fmt.stride + x.v.size();
				void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (m == MAP_FAILED)
					pre = 0;
				else
				{
					maps.emplace_back(m, n);
					v.push_back(static_cast<uint8_t*>(m) + (size_t)pre * x.fmt.stride);
				}
			}
			before.push_back(pre);
			stride.push_back(x.fmt.stride);
			if (!pre)
				v.push_back(av ? av : static_cast<uint8_t*>(malloc(shift + (x.v.size() ? x.v.size() : 1))) + shift);
			ib.push_back(ai ? ai : static_cast<uint8_t*>(malloc(x.ib.size() ? x.ib.size() : 1)));
			if (!x.v.empty())
				memcpy(v.back(), x.v.data(), x.v.size());
			if (!x.ib.empty())
				memcpy(ib.back(), x.ib.data(), x.ib.size());
			if (pre)
				for (uint32_t i = 0; i < x.icount; ++i)
				{
					uint32_t k = x.index(i);
					if (k < 0xFFFFFFFFu - pre)
						k += pre;
					memcpy(ib.back() + 4 * (size_t)i, &k, 4);
				}
		}
		sum = checksum();
	}
	void poison()
	{
		for (size_t i = 0; i < v.size(); ++i)
		{
			memset(v[i], 0xEE, vn[i]);
			memset(ib[i], 0xEE, in[i]);
		}
	}
	const uint8_t* first(size_t i) const { return v[i] - before[i] * stride[i]; }
	~Buffers()
	{
		for (auto& m : maps)
			munmap(m.first, m.second);
		for (size_t i = 0; i < v.size(); ++i)
		{
			if (!before[i] && ownV[i])
				free(v[i] - shift);
			if (ownI[i])
				free(ib[i]);
		}
	}
};

struct Snap
{
	bool exists = false, valid = false;
	int itype = 0, prim = 0;
	uint32_t patch = 0, max = 0;
	std::vector<Fmt> fmt;
	std::vector<std::vector<int>> tr;
	std::vector<std::vector<std::pair<Val, Val>>> bounds;
	std::vector<std::vector<uint8_t>> verts;
	uint32_t vcount = 0;
	std::vector<OutBuf> bufs;
};
bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
std::string diffSnap(const Snap& a, const Snap& b, bool results = true, bool trs = true)
{
	if (a.exists != b.exists)
		return "existence";
	if (a.valid != b.valid)
		return "validity";
	if (a.itype != b.itype || a.prim != b.prim || a.patch != b.patch || a.max != b.max)
		return "index type, primitive type, patch points or maximum index value";
	if (a.fmt.size() != b.fmt.size())
		return "vertex formats";
	for (size_t i = 0; i < a.fmt.size(); ++i)
	{
		if (a.fmt[i].stride != b.fmt[i].stride || a.fmt[i].e.size() != b.fmt[i].e.size())
			return "vertex format";
		for (size_t k = 0; k < a.fmt[i].e.size(); ++k)
		{
			auto &x = a.fmt[i].e[k], &y = b.fmt[i].e[k];
			if (x.name != y.name || x.lay != y.lay || x.typ != y.typ || x.off != y.off)
				return "vertex element";
		}
	}
	if (trs && a.tr != b.tr)
		return "transforms";
	if (results)
	{
		if (a.bounds.size() != b.bounds.size())
			return "bounds";
		for (size_t i = 0; i < a.bounds.size(); ++i)
			for (size_t k = 0; k < a.bounds[i].size(); ++k)
				for (int c = 0; c < 4; ++c)
					if (!same(a.bounds[i][k].first.v[c], b.bounds[i][k].first.v[c]) || !same(a.bounds[i][k].second.v[c], b.bounds[i][k].second.v[c]))
						return "bounds";
		if (a.vcount != b.vcount || a.verts != b.verts)
			return "vertices";
		if (a.bufs.size() != b.bufs.size())
			return "index buffers";
		for (size_t i = 0; i < a.bufs.size(); ++i)
			if (a.bufs[i].count != b.bufs[i].count || a.bufs[i].base != b.bufs[i].base || a.bufs[i].type != b.bufs[i].type || a.bufs[i].bytes != b.bufs[i].bytes)
				return "indices";
	}
	return "";
}

constexpr int kSlots = 3;
struct Rec
{
	int op = 0;
	int ret = 0;
	int exc = 0; // 0 none, 1 bad_alloc, 2 the handler's exception, 3 another one
	int attempt = 0;
	uint32_t allocFailed = 0;
	bool threw = false;
	std::vector<std::string> msgs;
	std::vector<double> q;
	Snap snap[kSlots];
};

std::string diffRec(const Rec& a, const Rec& b)
{
	if (a.op != b.op || a.attempt != b.attempt)
		return "sequence of calls";
	if (a.ret != b.ret)
		return fmt("return value %d / %d", a.ret, b.ret);
	if (a.exc != b.exc)
		return "exception";
	if (a.msgs != b.msgs)
		return "error messages (" + (a.msgs.empty() ? std::string("none") : a.msgs[0]) + " / " + (b.msgs.empty() ? std::string("none") : b.msgs[0]) + ")";
	if (a.q.size() != b.q.size() || (!a.q.empty() && memcmp(a.q.data(), b.q.data(), a.q.size() * 8) != 0))
		return "query results";
	for (int s = 0; s < kSlots; ++s)
	{
		std::string d = diffSnap(a.snap[s], b.snap[s]);
		if (!d.empty())
			return d;
	}
	return "";
}

//--------------------------------------------------------------------------------------------------
// Execution.

struct FaultPlan
{
	bool alloc = false, handler = false;
};

struct FmtHolder
{
	std::unique_ptr<char[]> mem;
	shim::FmtObj* f = nullptr;
};

struct Actor
{
	const Script* sc;
	Buffers* buf;
	FaultPlan faults;
	std::vector<Rec> recs;
	std::string problem;  // Found while executing.
	const char* problemClass = "";
	shim::Conv* slot[kSlots] = {nullptr, nullptr, nullptr};
	bool moved[kSlots] = {false, false, false};
	int slotSpec[kSlots] = {0, 0, 0};
	std::unique_ptr<char[]> mem[kSlots];
	std::vector<std::vector<FmtHolder>> outFmts;
	std::vector<FmtHolder> inFmts;
	Rec* cur = nullptr;
	bool snapshots = true;
	uint8_t stackFill = 0;

	void bad(const char* k, const std::string& s)
	{
		if (problem.empty())
		{
			problem = s;
			problemClass = k;
		}
	}

	// What an error function may do on its way: use other converters.
	bool nests = false;
	std::vector<std::string> nestedMsgs;
	static void onNestedError(void* ctx, const char* msg)
	{
		ls::Out out;
		static_cast<Actor*>(ctx)->nestedMsgs.push_back(msg ? msg : "(null)");
	}
	void nest()
	{
		using namespace shim;
		count(C_NESTED);
		nestedMsgs.clear();
		std::unique_ptr<char[]> m(new char[convBytes()]), fm(new char[fmtBytes()]), gm(new char[fmtBytes()]);
		// Points of which the last equals the first, in the layout they have.
		static const uint8_t data[] = {1, 2, 3, 1};
		uint8_t got[64] = {0};
		uint16_t idx[] = {9, 9, 9, 9};
		std::string wrong;
		{
			ls::Sut in;
			FmtObj *f = fmtNew(fm.get()), *g = fmtNew(gm.get());
			fmtAppend(f, "nested", 0, UInt);
			fmtAppend(g, "nestedElementWithALongName", 0, UInt);
			const FmtObj* fs[] = {f, g};
			Conv* c = convNew(m.get(), fs, 2, false, U16, PointList, 0, false, 0, &onNestedError, this);
			bool none = convConvert(c);
			bool a = convAdd(c, f, data, 4, NoIdx, nullptr, 0, false);
			bool again = convAdd(c, f, data, 4, NoIdx, nullptr, 0, false);
			bool b = convAdd(c, g, data, 4, NoIdx, nullptr, 0, false);
			bool done = convConvert(c);
			size_t bytes = convVertexStreams(c) == 2 ? convVertexBytes(c, 0) : 0;
			if (bytes <= sizeof got && bytes)
				convCopyVertices(c, 0, got);
			const void* d = nullptr;
			int type = 0;
			uint32_t n = 0;
			int32_t base = 0;
			if (convBuffers(c) == 1)
			{
				convBuffer(c, 0, d, type, n, base);
				if (n == 4)
					copyBytes(idx, d, 8);
			}
			convDestroy(c);
			fmtDestroy(g);
			fmtDestroy(f);
			ls::Out x;
			// Neither the order of vertices nor the words of messages matter.
			bool right = bytes == 3;
			for (int i = 0; right && i < 4; ++i)
				right = idx[i] < 3 && got[idx[i]] == data[i];
			if (none || !a || again || !b || !done || !right)
				wrong = fmt("results %d %d %d %d %d %zu", none, a, again, b, done, bytes);
			else if (nestedMsgs.size() < 2)
				wrong = fmt("%zu messages for two rejected calls", nestedMsgs.size());
		}
		if (!wrong.empty())
			bad("nested", "another converter used by the error function goes wrong: " + wrong);
	}

	static void onError(void* ctx, const char* msg)
	{
		ls::Out out;
		Actor* a = static_cast<Actor*>(ctx);
		std::string m = msg ? msg : "(null)";
		ls::note(fnvs(m));
		if (!a->cur)
		{
			a->bad("message", "an error was reported outside any call: " + m);
			return;
		}
		a->cur->msgs.push_back(m);
		if (a->nests && DF(2))
		{
			a->nest();
			if (msg && m != msg)
				a->bad("message", "the text of a message changed while the error function used another converter: '" + m + "', then '" + msg + "'");
		}
		if (a->faults.handler && DF(3) == 2)
		{
			a->cur->threw = true;
			count(C_HANDLER_THROW);
			ls::note(0x7777);
			switch (DF(4))
			{
				case 1:
					throw HandlerNoMemory();
				case 2:
					throw HandlerFailure();
				case 3:
					throw 17;
				default:
					throw HandlerError();
			}
		}
	}

	void arm(bool on, bool heavy)
	{
		ls::T* t = ls::me();
		t->allocs = 0;
		t->callStart = t->steps;
		t->allocFailed = 0;
		t->failAt = -1;
		t->failSticky = false;
		if (!on || !faults.alloc)
			return;
		uint32_t mode = DF(heavy ? 3 : 4);
		if (mode == 0)
			return;
		static const uint32_t scale[] = {1, 2, 4, 8, 16, 32, 64, 128, 256};
		t->failAt = DF(scale[DF(heavy ? 9 : 5)]);
		t->failSticky = DF(3) == 2;
	}
	void disarm()
	{
		ls::T* t = ls::me();
		t->failAt = -1;
		t->failSticky = false;
	}

	// stderr of the calls, when converters use the default error function. Only for a single thread.
	int errFd = -1, realErr = -1;
	off_t errAt = 0;
	bool errFull = false;

	void captureStderr()
	{
		errFull = DF(12) == 11;
		errFd = errFull ? open("/dev/full", O_WRONLY) : (int)syscall(SYS_memfd_create, "stderr", 0u);
		realErr = dup(2);
		if (errFd < 0 || realErr < 0)
			harnessError("stderr cannot be captured");
		if (errFull)
			count(C_STDERR_FULL);
	}
	void beginStderr()
	{
		if (errFd >= 0)
			dup2(errFd, 2);
	}
	void endStderr(Rec& r)
	{
		if (errFd < 0)
			return;
		dup2(realErr, 2);
		if (errFull)
			return;
		std::string text;
		char part[4096];
		for (ssize_t n; (n = pread(errFd, part, sizeof part, errAt)) > 0; errAt += n)
			text.append(part, (size_t)n);
		if (text.empty())
			return;
		ls::note(fnvs(text));
		count(C_STDERR);
		size_t b = 0;
		while (b < text.size())
		{
			size_t e = std::min(text.find('\n', b), text.size());
			r.msgs.push_back(text.substr(b, e - b));
			b = e + 1;
		}
	}

	template <class F>
	void call(Rec& r, bool faulty, bool heavy, F f)
	{
		cur = &r;
		arm(faulty, heavy);
		if (stackFill)
			ls::scribbleStack(stackFill);
		int depth = ls::me()->inSut;
		beginStderr();
		try
		{
			ls::Sut in;
			f();
		}
		catch (HandlerError&)
		{
			r.exc = 2;
		}
		catch (HandlerNoMemory&)
		{
			r.exc = 2;
		}
		catch (HandlerFailure&)
		{
			r.exc = 2;
		}
		catch (int)
		{
			r.exc = 2;
		}
		catch (std::bad_alloc&)
		{
			r.exc = 1;
		}
		catch (std::exception& e)
		{
			r.exc = 3;
			r.msgs.push_back(std::string("exception: ") + e.what());
		}
		catch (...)
		{
			r.exc = 3;
		}
		ls::me()->inSut = depth;
		endStderr(r);
		r.allocFailed = ls::me()->allocFailed;
		if (r.allocFailed)
			count(C_ALLOC_FAIL, r.allocFailed);
		disarm();
		cur = nullptr;
		count(C_CALLS);
	}

	// Format built step by step, with invalid and repeated elements in between.
	bool buildFmt(FmtHolder& h, const Fmt& want, bool noise)
	{
		using namespace shim;
		h.mem.reset(new char[fmtBytes()]);
		Rec r;
		call(r, false, false, [&] { h.f = fmtNew(h.mem.get()); });
		Fmt have, sideHave;
		FmtHolder side;
		size_t sideAt = 0;
		for (size_t i = 0; i < want.e.size();)
		{
			std::string name = want.e[i].name;
			int lay = want.e[i].lay, typ = want.e[i].typ;
			bool real = true;
			if (noise && DF(6) == 5)
			{
				real = false;
				switch (DF(3))
				{
					case 0:
						if (!have.e.empty())
							name = have.e[DF((uint32_t)have.e.size())].name;
						else
							lay = -1;
						break;
					case 1:
						lay = UF11;
						typ = SInt;
						break;
					default:
						typ = -1;
				}
			}
			Rec q;
			ls::doing = "VertexFormat::appendElement";
			call(q, true, false, [&] { q.ret = fmtAppend(h.f, name.c_str(), lay, typ); });
			Fmt after = have;
			int wantRet = lay < 0 || typ < 0 ? 2 : after.add(name, lay, typ);
			bool ok = true;
			std::string got;
			Rec z;
			Fmt now;
			call(z, false, false, [&] { readFmt(h.f, now); });
			if (q.exc)
			{
				count(C_FMT_INT);
				ok = q.exc == 1 && q.allocFailed && (sameFmt(now, have) || sameFmt(now, after));
				if (ok && sameFmt(now, after) && wantRet == 0)
					have = after, i += real;
				if (!ok)
					bad("format", "appendElement interrupted by a failed allocation left a format that is neither the old nor the new one");
				if (!ok)
					return false;
				continue;
			}
			if (q.ret != wantRet || !sameFmt(now, after))
			{
				bad("format", fmt("appendElement('%s', %d, %d) returned %d instead of %d or left a wrong format (%zu elements, stride %u)", name.c_str(), lay, typ, q.ret, wantRet,
					now.e.size(), now.stride));
				return false;
			}
			have = after;
			if (real)
				++i;
			if (noise && DF(5) == 4 && !aside(h, have, i, side, sideHave, sideAt))
				return false;
		}
		Rec z;
		call(z, false, false, [&] {
			if (side.f)
				fmtDestroy(side.f);
		});
		return true;
	}

	static bool sameFmt(const Fmt& a, const Fmt& b)
	{
		if (a.stride != b.stride || a.e.size() != b.e.size())
			return false;
		for (size_t k = 0; k < a.e.size(); ++k)
			if (a.e[k].name != b.e[k].name || a.e[k].lay != b.e[k].lay || a.e[k].typ != b.e[k].typ || a.e[k].off != b.e[k].off)
				return false;
		return true;
	}

	// One operation between a format being built (contents have, i elements of the wanted one) and another one: copies, moves,
	// assignments and clearing leave each with the contents it must have, and an interrupted one changes nothing or everything.
	bool aside(FmtHolder& h, Fmt& have, size_t& i, FmtHolder& side, Fmt& sideHave, size_t& sideAt)
	{
		using namespace shim;
		Fmt wasHave = have, wasSide = sideHave;
		size_t was = i, wasAt = sideAt;
		uint32_t kind = DF(8);
		FmtHolder fresh;
		Rec q, z;
		const char* what = "";
		count(C_FMT_SIDE);
		ls::doing = "copies of a VertexFormat";
		if (!side.f || kind == 0)
		{
			what = "copy construction";
			fresh.mem.reset(new char[fmtBytes()]);
			call(q, true, false, [&] { fresh.f = fmtCopy(fresh.mem.get(), h.f); });
			if (fresh.f)
			{
				std::swap(fresh, side);
				sideHave = have;
				sideAt = i;
			}
			else if (!q.exc)
				return true;
			if (fresh.f)
				call(z, false, false, [&] { fmtDestroy(fresh.f); });
		}
		else
			switch (kind)
			{
				case 1:
					what = "assignment";
					call(q, true, false, [&] { fmtAssign(side.f, h.f); });
					sideHave = have;
					sideAt = i;
					break;
				case 2:
					if (sideAt == ~(size_t)0)
						return true;
					what = "assignment back";
					call(q, true, false, [&] { fmtAssign(h.f, side.f); });
					have = sideHave;
					i = sideAt;
					break;
				case 3:
				{
					what = "appendElement to a copy";
					for (uint32_t n = 1 + DF(4), k = 0; k < n && !q.exc; ++k)
					{
						std::string name = have.e.empty() || DF(3) ? fmt("extra element number %u", DF(6)) : have.e[DF((uint32_t)have.e.size())].name;
						int lay = (int)DF(LAYS), typ = (int)DF(TYPS);
						if (DF(4))
							while (!valid(lay, typ))
								typ = (typ + 1) % TYPS;
						wasSide = sideHave;
						sideHave.add(name, lay, typ);
						wasAt = sideAt = ~(size_t)0;
						call(q, true, false, [&] { fmtAppend(side.f, name.c_str(), lay, typ); });
					}
					break;
				}
				case 4:
					what = "clear of a copy";
					call(q, true, false, [&] { fmtClear(side.f); });
					sideHave = Fmt();
					sideAt = 0;
					break;
				case 5:
					what = "assignment to itself";
					call(q, true, false, [&] { fmtAssign(h.f, h.f); });
					break;
				case 6:
					what = "move construction";
					fresh.mem.reset(new char[fmtBytes()]);
					call(q, true, false, [&] { fresh.f = fmtMove(fresh.mem.get(), h.f); });
					if (fresh.f)
					{
						std::swap(fresh, h);
						call(z, false, false, [&] { fmtDestroy(fresh.f); });
					}
					break;
				default:
					what = "move assignment";
					call(q, true, false, [&] { fmtMoveAssign(side.f, h.f); });
					// And back, the wanted one going on.
					if (!q.exc)
					{
						Rec q2;
						std::swap(side, h);
						call(q2, false, false, [&] { fmtAssign(side.f, h.f); });
						sideHave = have;
						sideAt = i;
					}
			}
		Fmt now, nowSide;
		call(z, false, false, [&] {
			readFmt(h.f, now);
			if (side.f)
				readFmt(side.f, nowSide);
		});
		if (q.exc)
		{
			count(C_FMT_INT);
			bool ok = q.exc == 1 && q.allocFailed;
			if (!sameFmt(now, have))
			{
				have = wasHave;
				i = was;
			}
			if (!sameFmt(nowSide, sideHave))
			{
				sideHave = wasSide;
				sideAt = wasAt;
			}
			if (!ok || !sameFmt(now, have) || !sameFmt(nowSide, sideHave))
			{
				bad("format", fmt("%s of a VertexFormat interrupted by a failed allocation left a format that is neither the old nor the new one", what));
				return false;
			}
		}
		else if (!sameFmt(now, have) || (side.f && !sameFmt(nowSide, sideHave)))
		{
			bad("format", fmt("%s of a VertexFormat left a wrong format (%zu elements, stride %u; the other %zu elements, stride %u)", what, now.e.size(), now.stride, nowSide.e.size(),
				nowSide.stride));
			return false;
		}
		return true;
	}

	// Histories of a few formats on their own: appends, copies, moves, assignments and clearing, each of which may be interrupted.
	bool playFmts()
	{
		using namespace shim;
		constexpr int N = 3;
		static const char* const names[] = {"p", "uv", "a name that needs an allocation", "another name that needs one", "yet another, even longer, name for an element", "w0"};
		FmtHolder f[N];
		Fmt have[N];
		bool known[N];
		Rec z;
		ls::doing = "histories of VertexFormats";
		for (int k = 0; k < N; ++k)
		{
			f[k].mem.reset(new char[fmtBytes()]);
			call(z, false, false, [&] { f[k].f = fmtNew(f[k].mem.get()); });
			known[k] = true;
		}
		uint32_t n = 4 + DF(24);
		bool good = true;
		for (uint32_t step = 0; step < n && good; ++step)
		{
			int a = (int)DF(N), b = (int)DF(N);
			uint32_t kind = DF(10);
			Fmt old = have[a];
			bool wasKnown = known[a], moves = false;
			Rec q;
			int wantRet = 0;
			const char* what;
			count(C_FMT_SIDE);
			if (kind < 5)
			{
				if (!known[a])
					continue;
				what = "appendElement";
				const char* name = names[DF(6)];
				int lay = (int)DF(LAYS), typ = (int)DF(TYPS);
				if (DF(6))
					while (!valid(lay, typ))
						typ = (typ + 1) % TYPS;
				wantRet = have[a].add(name, lay, typ);
				call(q, true, false, [&] { q.ret = fmtAppend(f[a].f, name, lay, typ); });
			}
			else if (kind < 7)
			{
				what = "assignment";
				if (!known[b])
					continue;
				have[a] = have[b];
				known[a] = true;
				call(q, true, false, [&] { fmtAssign(f[a].f, f[b].f); });
			}
			else if (kind == 7)
			{
				what = "clear";
				have[a] = Fmt();
				known[a] = true;
				call(q, true, false, [&] { fmtClear(f[a].f); });
			}
			else if (a == b || !known[b])
				continue;
			else
			{
				what = kind == 8 ? "move assignment" : "construction";
				moves = kind == 8 || DF(2);
				have[a] = have[b];
				known[a] = true;
				if (kind == 8)
					call(q, true, false, [&] { fmtMoveAssign(f[a].f, f[b].f); });
				else
				{
					FmtHolder x;
					x.mem.reset(new char[fmtBytes()]);
					call(q, true, false, [&] { x.f = moves ? fmtMove(x.mem.get(), f[b].f) : fmtCopy(x.mem.get(), f[b].f); });
					if (x.f)
					{
						std::swap(x, f[a]);
						call(z, false, false, [&] { fmtDestroy(x.f); });
					}
					else
					{
						have[a] = old;
						known[a] = wasKnown;
					}
				}
				if (moves && !q.exc)
					known[b] = false; // Anything, but usable.
			}
			Fmt now[N];
			call(z, false, false, [&] {
				for (int k = 0; k < N; ++k)
					readFmt(f[k].f, now[k]);
			});
			if (q.exc)
			{
				count(C_FMT_INT);
				if (!sameFmt(now[a], have[a]) || !known[a])
				{
					have[a] = old;
					known[a] = wasKnown;
				}
				if (q.exc != 1 || !q.allocFailed)
					good = false;
			}
			else if (kind < 5)
				good = q.ret == wantRet;
			for (int k = 0; k < N; ++k)
				good = good && (!known[k] || sameFmt(now[k], have[k]));
			if (!good)
				bad("format", fmt("%s of a VertexFormat%s left a wrong format or returned a wrong result (%d; %zu elements, stride %u instead of %zu and %u)", what,
					q.exc ? " interrupted by a failed allocation" : "", q.ret, now[a].e.size(), now[a].stride, have[a].e.size(), have[a].stride));
		}
		call(z, false, false, [&] {
			for (auto& x : f)
				fmtDestroy(x.f);
		});
		return good;
	}

	// The formats of another actor, copied.
	void copyFormats(const Actor& o)
	{
		using namespace shim;
		Rec z;
		auto dup = [&](std::vector<FmtHolder>& to, const std::vector<FmtHolder>& from)
		{
			for (auto& x : from)
			{
				to.emplace_back();
				to.back().mem.reset(new char[fmtBytes()]);
				call(z, false, false, [&] { to.back().f = fmtCopy(to.back().mem.get(), x.f); });
			}
		};
		for (auto& v : o.outFmts)
		{
			outFmts.emplace_back();
			dup(outFmts.back(), v);
		}
		dup(inFmts, o.inFmts);
	}

	static void readFmt(const shim::FmtObj* f, Fmt& o)
	{
		using namespace shim;
		size_t n = fmtSize(f);
		o.stride = fmtStride(f);
		for (size_t i = 0; i < n; ++i)
		{
			const char* name;
			int lay, typ;
			uint32_t off;
			fmtElem(f, i, name, lay, typ, off);
			std::string copy;
			{
				ls::Out out;
				copy = name;
				o.e.push_back(Elem{copy, lay, typ, off});
			}
		}
	}

	void readSnap(int s, Snap& o)
	{
		using namespace shim;
		if (!slot[s] || moved[s])
			return;
		o.exists = true;
		const Conv* c = slot[s];
		o.valid = convValid(c, s & 1);
		o.itype = convIndexType(c);
		o.prim = convPrim(c);
		o.patch = convPatch(c);
		o.max = convMax(c);
		size_t n = convFormats(c);
		{
			ls::Out x;
			o.fmt.resize(n);
			o.tr.resize(n);
			o.bounds.resize(n);
		}
		for (size_t i = 0; i < n; ++i)
		{
			readFmt(convFormat(c, i), o.fmt[i]);
			for (size_t k = 0; k < o.fmt[i].e.size(); ++k)
			{
				int t = convGetTr(c, i, k);
				Val lo{}, hi{};
				convBounds(c, i, k, lo.v, hi.v);
				ls::Out x;
				o.tr[i].push_back(t);
				o.bounds[i].push_back({lo, hi});
			}
		}
		o.vcount = convVertexCount(c);
		size_t nv = convVertexStreams(c);
		{
			ls::Out x;
			o.verts.resize(nv);
		}
		for (size_t i = 0; i < nv; ++i)
		{
			size_t b = convVertexBytes(c, i);
			{
				ls::Out x;
				o.verts[i].resize(b);
			}
			convCopyVertices(c, i, o.verts[i].data());
		}
		size_t nb = convBuffers(c);
		for (size_t i = 0; i < nb; ++i)
		{
			OutBuf b;
			const void* d;
			convBuffer(c, i, d, b.type, b.count, b.base);
			size_t bytes = (size_t)b.count * idxSize(b.type);
			{
				ls::Out x;
				b.bytes.resize(bytes);
			}
			copyBytes(b.bytes.data(), d, bytes);
			ls::Out x;
			o.bufs.push_back(b);
		}
	}

	void snap(Rec& r)
	{
		if (!snapshots)
			return;
		ls::doing = "queries";
		for (int s = 0; s < kSlots; ++s)
		{
			Rec z;
			call(z, false, false, [&] { readSnap(s, r.snap[s]); });
			if (z.exc)
				bad("query", "a const query threw an exception");
			for (auto& v : r.snap[s].verts)
				ls::note(fnv(v.data(), v.size()));
			for (auto& b : r.snap[s].bufs)
				ls::note(fnv(b.bytes.data(), b.bytes.size()));
		}
	}

	void exec(const Op& o, Rec& r)
	{
		using namespace shim;
		ls::doing = opName[o.kind];
		ls::note(0x0b00 + (uint64_t)o.kind);
		switch (o.kind)
		{
			case NEW:
			{
				if (slot[o.slot])
				{
					Rec z;
					call(z, false, false, [&] { convDestroy(slot[o.slot]); });
					slot[o.slot] = nullptr;
				}
				moved[o.slot] = false;
				mem[o.slot].reset(new char[convBytes()]);
				memset(mem[o.slot].get(), ls::cfg.fillNew, convBytes());
				const Spec& sp = sc->specs[(size_t)o.spec];
				std::vector<const shim::FmtObj*> f;
				for (auto& h : outFmts[(size_t)o.spec])
					f.push_back(h.f);
				Conv* c = nullptr;
				call(r, true, false, [&] {
					c = convNew(mem[o.slot].get(), f.data(), f.size(), sp.single, sp.itype, sp.prim, sp.patch, sp.hasMax, sp.max, sp.deflt ? &shim::defaultCallback : sp.handler ? &onError : nullptr, this);
				});
				slot[o.slot] = c;
				slotSpec[o.slot] = o.spec;
				break;
			}
			case ADD:
			{
				const InStream& s = sc->streams[(size_t)o.stream];
				const void* v = o.null == 1 ? nullptr : buf->first((size_t)o.stream);
				uint32_t vcount = s.vcount + buf->before[(size_t)o.stream];
				const void* ib = o.null == 2 || s.itype == NoIdx ? nullptr : buf->ib[(size_t)o.stream];
				call(r, true, false, [&] {
					r.ret = convAdd(slot[o.slot], inFmts[(size_t)o.stream].f, v, vcount, s.itype, ib, s.icount, o.shortForm && s.itype == NoIdx);
				});
				break;
			}
			case TRI:
				call(r, true, false, [&] { convSetTr(slot[o.slot], (size_t)o.a, (size_t)o.b, o.tr); r.ret = 1; });
				break;
			case TRN:
				call(r, true, false, [&] { r.ret = convSetTrName(slot[o.slot], o.name.c_str(), o.tr, o.asString); });
				break;
			case CONVERT:
				call(r, true, true, [&] { r.ret = convConvert(slot[o.slot]); });
				break;
			case QUERY:
			{
				double lo[4] = {1, 2, 3, 4}, hi[4] = {5, 6, 7, 8};
				int t = 0;
				call(r, false, false, [&] {
					t = convGetTrName(slot[o.slot], o.name.c_str(), o.asString);
					r.ret = convBoundsName(slot[o.slot], o.name.c_str(), !o.asString, lo, hi);
				});
				r.q.push_back(t);
				if (r.ret)
				{
					r.q.insert(r.q.end(), lo, lo + 4);
					r.q.insert(r.q.end(), hi, hi + 4);
				}
				break;
			}
			case MOVENEW:
			{
				mem[o.slot2].reset(new char[convBytes()]);
				memset(mem[o.slot2].get(), ls::cfg.fillNew, convBytes());
				Conv* c = nullptr;
				call(r, true, false, [&] { c = convMoveNew(mem[o.slot2].get(), slot[o.slot]); });
				slot[o.slot2] = c;
				if (c)
				{
					moved[o.slot2] = false;
					moved[o.slot] = true;
					slotSpec[o.slot2] = slotSpec[o.slot];
				}
				count(C_MOVES);
				break;
			}
			case MOVEASSIGN:
				call(r, true, false, [&] { convMoveAssign(slot[o.slot2], slot[o.slot]); r.ret = 1; });
				if (r.ret)
				{
					moved[o.slot2] = false;
					moved[o.slot] = true;
					slotSpec[o.slot2] = slotSpec[o.slot];
				}
				count(C_MOVES);
				break;
			case DESTROY:
				call(r, false, false, [&] { convDestroy(slot[o.slot]); });
				slot[o.slot] = nullptr;
				moved[o.slot] = false;
				break;
		}
		ls::note((uint64_t)r.ret * 8 + (uint64_t)r.exc);
	}

	bool applicable(const Op& o)
	{
		switch (o.kind)
		{
			case NEW:
				return true;
			case MOVENEW:
				return slot[o.slot] && !moved[o.slot] && !slot[o.slot2] && o.slot != o.slot2;
			case MOVEASSIGN:
				return slot[o.slot] && !moved[o.slot] && slot[o.slot2] && o.slot != o.slot2;
			case DESTROY:
				return slot[o.slot] != nullptr;
			case TRI:
			{
				// A precondition of the call; only valid converters have elements.
				if (!slot[o.slot] || moved[o.slot])
					return false;
				const Spec& sp = sc->specs[(size_t)slotSpec[o.slot]];
				return sp.valid() && (size_t)o.a < sp.out.size() && (size_t)o.b < sp.out[(size_t)o.a].e.size();
			}
			default:
				return slot[o.slot] && !moved[o.slot];
		}
	}

	void prepare(bool noise)
	{
		if (noise && DF(4) == 3 && !playFmts())
			return;
		for (auto& sp : sc->specs)
		{
			outFmts.emplace_back(sp.out.size());
			for (size_t i = 0; i < sp.out.size(); ++i)
				if (!buildFmt(outFmts.back()[i], sp.out[i], noise))
					return;
		}
		inFmts.resize(sc->streams.size());
		for (size_t i = 0; i < sc->streams.size(); ++i)
			if (!buildFmt(inFmts[i], sc->streams[i].fmt, noise))
				return;
	}

	void go(size_t from = 0, size_t to = SIZE_MAX)
	{
		for (size_t i = from; i < std::min(to, sc->ops.size()) && problem.empty(); ++i)
		{
			const Op& o = sc->ops[i];
			for (int attempt = 0; attempt <= o.retries && problem.empty(); ++attempt)
			{
				if (!applicable(o))
					break;
				recs.emplace_back();
				Rec r;
				r.op = (int)i;
				r.attempt = attempt;
				exec(o, r);
				snap(r);
				recs.back() = std::move(r);
				if (attempt)
					count(C_RETRY);
				if (!recs.back().exc)
					break;
			}
		}
	}

	void cleanup()
	{
		using namespace shim;
		ls::doing = "destruction";
		Rec z;
		call(z, false, false, [&] {
			for (int s = 0; s < kSlots; ++s)
			{
				if (slot[s])
					convDestroy(slot[s]);
				slot[s] = nullptr;
			}
			for (auto& a : outFmts)
				for (auto& h : a)
					if (h.f)
						fmtDestroy(h.f);
			for (auto& h : inFmts)
				if (h.f)
					fmtDestroy(h.f);
		});
		outFmts.clear();
		inFmts.clear();
		if (z.exc)
			bad("destroy", "a destructor threw an exception");
	}
};

//--------------------------------------------------------------------------------------------------
// Model of a history.

struct M
{
	bool exists = false, moved = false, valid = false;
	int spec = -1;
	std::vector<int> acc;
	bool counted = false;
	uint32_t n = 0;
	std::vector<std::vector<int>> tr;
	bool converted = false;
	bool rejectedBefore = false;
};

struct Judge
{
	const Script& sc;
	std::string klass, why;
	std::vector<M> cand[kSlots];
	Snap prev[kSlots];
	Verdict last;
	bool anyAccepted = false, anyConvert = false;

	bool stderrSeen;

	explicit Judge(const Script& s, bool seen) : sc(s), stderrSeen(seen)
	{
		for (auto& c : cand)
			c.push_back(M());
	}
	bool fail(const char* k, const std::string& s)
	{
		if (why.empty())
		{
			klass = k;
			why = s;
		}
		return false;
	}

	Job jobOf(const M& m) const
	{
		const Spec& sp = sc.specs[(size_t)m.spec];
		Job j;
		j.out = sp.out;
		j.itype = sp.itype;
		j.prim = sp.prim;
		j.patch = sp.patch;
		j.maxIndex = sp.effectiveMax();
		if (sp.itype != NoIdx && hasRestart(sp.prim))
			j.maxIndex = std::min(j.maxIndex, idxRestart(sp.itype) - 1);
		for (int s : m.acc)
			j.in.push_back(sc.streams[(size_t)s]);
		j.tr = m.tr;
		return j;
	}
	// 1 accept, 0 reject, -1 not judged.
	int expectAdd(const M& m, const Op& o, bool& attaches) const
	{
		const Spec& sp = sc.specs[(size_t)m.spec];
		const InStream& s = sc.streams[(size_t)o.stream];
		attaches = false;
		if (!m.valid)
			return 0;
		if (o.null == 1 || (s.itype != NoIdx && o.null == 2))
			return 0;
		uint32_t n = s.count();
		if (m.counted && m.n != n)
			return 0;
		if (!countValid(sp.prim, n, sp.patch))
			return 0;
		bool has = false, dup = false;
		for (auto& f : sp.out)
			for (auto& e : f.e)
			{
				if (s.fmt.find(e.name) < 0)
					continue;
				has = true;
				for (int a : m.acc)
					if (sc.streams[(size_t)a].fmt.find(e.name) >= 0)
						dup = true;
			}
		attaches = has;
		return !dup;
	}
	std::string convertRefusal(const M& m) const
	{
		if (!m.valid)
			return "the converter is invalid";
		if (m.converted)
			return "it was converted before";
		const Spec& sp = sc.specs[(size_t)m.spec];
		for (auto& f : sp.out)
			for (auto& e : f.e)
			{
				bool found = false;
				for (int a : m.acc)
					found |= sc.streams[(size_t)a].fmt.find(e.name) >= 0;
				if (!found)
					return "element " + e.name + " has no stream";
			}
		return rejectReason(jobOf(m));
	}
	std::string verifyOutput(const M& m, const Snap& s)
	{
		Out o;
		o.verts = s.verts;
		o.vcount = s.vcount;
		o.bufs = s.bufs;
		o.bounds = s.bounds;
		last = check(jobOf(m), o);
		return last.ok ? "" : last.why;
	}
	void countOutput(const M& m)
	{
		count(C_CONV_OK);
		if (m.rejectedBefore)
			count(C_AFTER_REJECT_OK);
		count(C_PRIMS, last.prims);
		count(C_RESTART, last.restarts);
		count(C_DEDUP, last.dedups);
		if (last.splits)
			count(C_SPLIT);
		count(C_SPLITSTRIP, last.splitInStrip);
		if (last.flips)
		{
			if (!gShared->listKnown)
				fail("strip-orientation", "a strip continues with inverted orientation after an odd number of triangles");
			count(C_FLIPS, last.flips);
			gShared->rep.known += last.flips;
			snprintf(gShared->rep.knownMsg, sizeof gShared->rep.knownMsg, "%s", "strip-orientation");
		}
		anyConvert = true;
	}

	bool step(const Rec& r)
	{
		const Op& o = sc.ops[(size_t)r.op];
		std::string at = fmt("call %d (%s%s on converter %d): ", r.op, opName[o.kind], r.attempt ? ", repeated" : "", o.slot);
		const Spec* told = o.kind == NEW ? &sc.specs[(size_t)o.spec] : cand[o.slot][0].exists ? &sc.specs[(size_t)cand[o.slot][0].spec] : nullptr;
		bool handler = !told || told->handler || (told->deflt && stderrSeen);
		if (r.exc == 3)
			return fail("exception", at + "an unexpected exception reached the caller: " + (r.msgs.empty() ? "" : r.msgs.back()));
		if (r.exc == 1 && !r.allocFailed)
			return fail("exception", at + "bad_alloc although no allocation failed");
		if (r.exc == 2 && !r.threw)
			return fail("exception", at + "stray exception");
		if (r.threw && r.exc != 2)
			return fail("swallowed", at + "an exception thrown by the error handler did not reach the caller");
		for (auto& m : r.msgs)
			if (m.empty() || m == "(null)")
				return fail("message", at + "empty error message");

		// Other converters are not affected.
		for (int s = 0; s < kSlots; ++s)
			if (s != o.slot && !((o.kind == MOVENEW || o.kind == MOVEASSIGN) && s == o.slot2))
			{
				std::string d = diffSnap(prev[s], r.snap[s]);
				if (!d.empty())
					return fail("crosstalk", at + fmt("changed the %s of converter %d", d.c_str(), s));
			}
		const Snap& now = r.snap[o.slot];
		const Snap& old = prev[o.slot];
		auto unchanged = [&](const char* what) -> bool
		{
			std::string d = diffSnap(old, now);
			if (!d.empty())
				return fail("side-effect", at + what + " but changed the " + d);
			return true;
		};
		auto noisy = [&](bool rejected) -> bool
		{
			if (rejected && handler && r.msgs.empty())
				return fail("message", at + "failed without reporting an error");
			if (!rejected && !r.msgs.empty())
				return fail("message", at + "reported an error (" + r.msgs[0] + ") although the call succeeded");
			return true;
		};

		switch (o.kind)
		{
			case NEW:
			{
				M m;
				if (r.exc)
				{
					count(C_NEW_INT);
					cand[o.slot].assign(1, m);
					break;
				}
				m.exists = true;
				m.spec = o.spec;
				const Spec& sp = sc.specs[(size_t)o.spec];
				m.valid = sp.valid();
				if (now.valid != m.valid)
					return fail("validity", at + (m.valid ? "valid arguments gave an invalid converter" : "invalid arguments gave a valid converter") +
						(r.msgs.empty() ? "" : ": " + r.msgs[0]));
				if (!noisy(!m.valid))
					return false;
				if (m.valid)
				{
					for (auto& f : sp.out)
						m.tr.emplace_back(f.e.size(), (int)Identity);
					Snap w = now;
					w.fmt = sp.out;
					w.tr = m.tr;
					w.itype = sp.itype;
					w.prim = sp.prim;
					w.patch = sp.patch;
					w.max = sp.effectiveMax();
					std::string d = diffSnap(now, w);
					if (!d.empty())
						return fail("getters", at + "wrong " + d);
					if (now.vcount || !now.verts.empty() || !now.bufs.empty())
						return fail("getters", at + "results before any conversion");
				}
				else
					count(C_INVALID);
				cand[o.slot].assign(1, m);
				break;
			}
			case ADD:
			{
				if (!unchanged(r.exc ? "was interrupted" : "only adds a stream"))
					return false;
				std::vector<M> next;
				std::string w;
				for (auto& m : cand[o.slot])
				{
					bool attaches;
					int e = expectAdd(m, o, attaches);
					M full = m;
					full.counted = true;
					full.n = sc.streams[(size_t)o.stream].count();
					full.acc.push_back(o.stream);
					M rej = m;
					rej.rejectedBefore = true;
					if (r.exc)
					{
						if (r.exc == 2 && e == 1)
						{
							w = "reported an error for a stream that must be accepted: " + r.msgs[0];
							continue;
						}
						next.push_back(m);
						if (r.exc == 1 && e == 1)
							next.push_back(full);
						continue;
					}
					if (e < 0)
					{
						next.push_back(m);
						continue;
					}
					if ((r.ret != 0) != (e == 1))
					{
						w = e == 1 ? "rejected a stream that must be accepted" + (r.msgs.empty() ? std::string() : ": " + r.msgs[0]) : "accepted a stream that must be rejected";
						continue;
					}
					if (e == 1)
						next.push_back(full);
					else
						next.push_back(rej);
				}
				if (next.empty())
					return fail("add", at + w);
				if (r.exc)
				{
					count(C_ADD_INT);
					if (next.size() > cand[o.slot].size())
						count(C_AMBIG);
				}
				else
				{
					if (!noisy(!r.ret))
						return false;
					count(r.ret ? C_ACCEPT : C_REJECT);
					if (r.attempt && r.ret)
						count(C_RETRY_OK);
					anyAccepted |= r.ret != 0;
				}
				if (next.size() > 32)
					next.resize(32);
				cand[o.slot] = next;
				break;
			}
			case TRI:
			case TRN:
			{
				std::string d = diffSnap(old, now, true, false);
				if (!d.empty())
					return fail("side-effect", at + "changed the " + d);
				if (!noisy(false))
					return false;
				for (auto& m : cand[o.slot])
				{
					M full = m;
					bool found = false;
					if (m.valid)
					{
						const Spec& sp = sc.specs[(size_t)m.spec];
						if (o.kind == TRI)
						{
							full.tr[(size_t)o.a][(size_t)o.b] = o.tr;
							found = true;
						}
						else
							for (size_t k = 0; k < sp.out.size() && !found; ++k)
							{
								int l = sp.out[k].find(o.name);
								if (l >= 0)
								{
									full.tr[k][(size_t)l] = o.tr;
									found = true;
								}
							}
					}
					if (r.exc)
					{
						if (m.valid && now.tr != m.tr && now.tr != full.tr)
							return fail("transform", at + "left other transforms than before or after the call");
						if (m.valid)
							m.tr = now.tr;
						continue;
					}
					if ((r.ret != 0) != found)
						return fail("transform", at + (found ? "did not find the element" : "found an element that does not exist"));
					if (m.valid && now.tr != full.tr)
						return fail("transform", at + "set other transforms than requested");
					m = full;
				}
				break;
			}
			case CONVERT:
			{
				std::vector<M> next;
				std::string w;
				bool none = diffSnap(old, now).empty();
				bool verified = false;
				for (auto& m : cand[o.slot])
				{
					std::string refuse = convertRefusal(m);
					M full = m;
					full.converted = true;
					M rej = m;
					rej.rejectedBefore = true;
					if (r.exc)
					{
						if (r.exc == 2 && refuse.empty())
						{
							w = "reported an error for a conversion that must succeed: " + r.msgs[0];
							continue;
						}
						if (none && !(refuse.empty() && !now.verts.empty()))
							next.push_back(m);
						else if (refuse.empty() && diffSnap(old, now, false).empty())
						{
							std::string v = verifyOutput(m, now);
							if (v.empty())
								next.push_back(full);
							else
								w = "was interrupted and left a partial result: " + v;
						}
						else
							w = "was interrupted and changed the " + diffSnap(old, now);
						continue;
					}
					if (!r.ret)
					{
						if (refuse.empty())
							w = "failed although it must succeed" + (r.msgs.empty() ? std::string() : ": " + r.msgs[0]);
						else if (!none)
							w = "failed but changed the " + diffSnap(old, now);
						else
							next.push_back(rej);
						continue;
					}
					if (!refuse.empty())
					{
						w = "succeeded although " + refuse;
						continue;
					}
					std::string d = diffSnap(old, now, false);
					if (!d.empty())
					{
						w = "changed the " + d;
						continue;
					}
					std::string v = verifyOutput(m, now);
					if (!v.empty())
					{
						w = "wrong result: " + v;
						continue;
					}
					if (!verified)
						countOutput(m);
					verified = true;
					next.push_back(full);
				}
				if (next.empty())
					return fail("convert", at + w);
				if (!why.empty())
					return false;
				if (r.exc)
					count(C_CONV_INT);
				else
				{
					if (!noisy(!r.ret))
						return false;
					if (!r.ret)
						count(C_CONV_FAIL);
					if (r.attempt && r.ret)
						count(C_RETRY_OK);
				}
				cand[o.slot] = next;
				break;
			}
			case QUERY:
			{
				if (!unchanged("is a query"))
					return false;
				count(C_QUERIES);
				const M& m = cand[o.slot][0];
				int k = -1, l = -1;
				if (m.valid)
				{
					const Spec& sp = sc.specs[(size_t)m.spec];
					for (size_t i = 0; i < sp.out.size() && k < 0; ++i)
						if (sp.out[i].find(o.name) >= 0)
						{
							k = (int)i;
							l = sp.out[i].find(o.name);
						}
				}
				if ((r.ret != 0) != (k >= 0))
					return fail("query", at + "bounds found for '" + o.name + "' or not, contrary to the format");
				if ((int)r.q[0] != (k >= 0 ? now.tr[(size_t)k][(size_t)l] : (int)Identity))
					return fail("query", at + "wrong transform for '" + o.name + "'");
				if (k >= 0)
					for (int c = 0; c < 4; ++c)
						if (!same(r.q[1 + (size_t)c], now.bounds[(size_t)k][(size_t)l].first.v[c]) || !same(r.q[5 + (size_t)c], now.bounds[(size_t)k][(size_t)l].second.v[c]))
							return fail("query", at + "bounds by name differ from bounds by index for '" + o.name + "'");
				break;
			}
			case MOVENEW:
			case MOVEASSIGN:
			{
				const Snap& to = r.snap[o.slot2];
				if (r.exc)
				{
					std::string d = diffSnap(old, now);
					if (!d.empty())
						return fail("move", at + "an interrupted move changed the source");
					break;
				}
				std::string d = diffSnap(old, to);
				if (!d.empty())
					return fail("move", at + "the moved converter has other " + d);
				cand[o.slot2] = cand[o.slot];
				cand[o.slot].assign(1, M());
				if (o.kind == MOVEASSIGN)
					cand[o.slot][0].moved = true;
				break;
			}
			case DESTROY:
				cand[o.slot].assign(1, M());
				break;
		}
		for (int s = 0; s < kSlots; ++s)
			prev[s] = r.snap[s];
		return why.empty();
	}
};

//--------------------------------------------------------------------------------------------------
// Generation.

struct ScriptOpt
{
	uint32_t maxCorners = 16;
	bool smallMax = true;
	bool strictMax = false;
	bool wantIndexed = false;
	bool stripsOnly = false;
	bool alloc = false, handler = false;
	uint32_t noise = 3; // Noise operations per stage, at most.
	bool spoil = true;  // Also streams that make the conversion fail.
	bool slots = true;  // More than one converter.
	bool specials = true;
	int huge = 0;
};

InStream resized(const InStream& s, uint32_t n)
{
	InStream r = s;
	if (s.itype == NoIdx)
	{
		uint32_t stride = s.fmt.stride;
		r.v.resize((size_t)n * stride);
		for (uint32_t i = s.vcount; i < n && s.vcount; ++i)
			memcpy(&r.v[(size_t)i * stride], &s.v[(size_t)(i % s.vcount) * stride], stride);
		r.vcount = n;
	}
	else
	{
		uint32_t z = idxSize(s.itype);
		r.ib.resize((size_t)n * z);
		for (uint32_t i = s.icount; i < n && s.icount; ++i)
			memcpy(&r.ib[(size_t)i * z], &s.ib[(size_t)(i % s.icount) * z], z);
		r.icount = n;
	}
	return r;
}

Script genScript(const ScriptOpt& so)
{
	Script sc;
	sc.faultAlloc = so.alloc;
	sc.faultHandler = so.handler;
	GenOpt g;
	g.maxCorners = so.maxCorners;
	g.smallMax = so.smallMax;
	g.strictMax = so.strictMax;
	g.wantIndexed = so.wantIndexed;
	g.stripsOnly = so.stripsOnly;
	g.specials = so.specials;
	g.huge = so.huge;
	Job j = genJob(ch(), g);
	if (j.out.size() > 1 && P(1, 10))
	{
		// The same element in two output streams.
		int lay, typ;
		genElemType(ch(), lay, typ);
		if (j.out[1].add(j.out[0].e[0].name, lay, typ) == 0)
		{
			j.tr[1].push_back((int)D(4));
			count(C_DUPNAMES);
		}
	}
	Spec sp;
	sp.out = j.out;
	sp.itype = j.itype;
	sp.prim = j.prim;
	sp.patch = j.prim == PatchList ? j.patch : P(1, 8) ? D(4) : 0;
	uint32_t def = j.itype == U16 ? 65534u : j.itype == U32 ? 0xFFFFFFFEu : 0;
	sp.hasMax = j.maxIndex != def || P(1, 6);
	sp.max = j.itype == NoIdx ? D(4) : j.maxIndex;
	if (sp.hasMax && j.itype != NoIdx && sp.max == def && P(1, 2))
		sp.max = idxRestart(j.itype);
	sp.single = sp.out.size() == 1 && D(2);
	sp.handler = !P(1, 12);
	if (!sp.handler)
	{
		count(C_NULLHANDLER);
		sp.deflt = D(2);
	}
	if (j.itype != NoIdx && sp.hasMax && sp.max < 20)
		count(C_MAXEDGE);
	sc.specs.push_back(sp);
	if (P(1, 40))
	{
		// Vertices that lie gigabytes from the start of the data.
		for (auto& s : j.in)
			if (s.itype == U32 && s.fmt.stride >= 4 && s.vcount && P(2, 3))
			{
				static const uint64_t at[] = {1ull << 31, 1ull << 32, (1ull << 32) + (1 << 20), 1ull << 33};
				uint64_t n = at[D(4)] / s.fmt.stride + D(3);
				if (n < 0xC0000000u)
				{
					s.before = (uint32_t)n;
					count(C_FAR);
					ls::farRun = true;
				}
			}
	}
	if (so.spoil && P(1, 30))
	{
		// A stream that makes the conversion fail: with an index out of range, often because it has fewer vertices than others.
		InStream& s = j.in[D((uint32_t)j.in.size())];
		const InStream& t = j.in[D((uint32_t)j.in.size())];
		if (t.itype != NoIdx && &s != &t && !t.before && P(2, 3))
		{
			s.itype = t.itype;
			s.ib = t.ib;
			s.icount = t.icount;
			s.before = 0;
		}
		if (s.itype != NoIdx && s.icount && s.vcount)
		{
			if (P(2, 3))
			{
				s.vcount = std::min(s.vcount, t.vcount);
				s.vcount -= std::min(s.vcount, P(1, 2) ? 1 : D(s.vcount + 1));
				s.v.resize((size_t)s.vcount * s.fmt.stride);
			}
			else
			{
				uint32_t x = P(1, 3) ? idxRestart(s.itype) : P(1, 2) ? s.vcount : idxRestart(s.itype) - 1;
				memcpy(&s.ib[(size_t)D(s.icount) * idxSize(s.itype)], &x, idxSize(s.itype));
			}
		}
	}
	sc.streams = j.in;
	const size_t real = j.in.size();

	auto query = [&](int slot)
	{
		Op o;
		o.kind = QUERY;
		o.slot = slot;
		auto& f = sp.out[D((uint32_t)sp.out.size())];
		o.name = f.e[D((uint32_t)f.e.size())].name;
		if (P(1, 6))
			o.name = P(1, 2) ? "" : o.name + "?";
		o.asString = D(2);
		return o;
	};
	auto add = [&](int slot, const InStream& s)
	{
		Op o;
		o.kind = ADD;
		o.slot = slot;
		o.stream = (int)sc.streams.size();
		o.shortForm = D(2);
		sc.streams.push_back(s);
		return o;
	};
	auto setTr = [&](int slot, size_t k, size_t l, int tr)
	{
		Op o;
		o.slot = slot;
		o.tr = tr;
		o.kind = D(2) ? TRN : TRI;
		o.a = (int)k;
		o.b = (int)l;
		o.name = sp.out[k].e[l].name;
		o.asString = D(2);
		return o;
	};
	auto retries = [&](Op& o) { o.retries = so.alloc || so.handler ? (int)D(5) : 0; };

	int slot = 0;
	auto newOp = [&](int s, int spec)
	{
		Op o;
		o.kind = NEW;
		o.slot = s;
		o.spec = spec;
		o.retries = so.alloc || so.handler ? 4 : 0;
		return o;
	};
	auto noise = [&](int stage)
	{
		uint32_t n = so.noise ? D(so.noise + 1) : 0;
		for (uint32_t i = 0; i < n; ++i)
		{
			const InStream& some = j.in[D((uint32_t)real)];
			switch (D(16))
			{
				default:
				case 0:
					sc.ops.push_back(query(slot));
					break;
				case 1:
				{
					auto& f = sp.out[D((uint32_t)sp.out.size())];
					(void)f;
					size_t k = D((uint32_t)sp.out.size()), l = D((uint32_t)sp.out[k].e.size());
					Op o = setTr(slot, k, l, (int)D(4));
					if (P(1, 5))
					{
						o.kind = TRN;
						o.name += "_";
					}
					retries(o);
					sc.ops.push_back(o);
					break;
				}
				case 2:
				{
					Op o = add(slot, some);
					o.null = 1 + (int)D(2);
					sc.ops.push_back(o);
					break;
				}
				case 3:
				{
					// Another number of vertices or indices.
					uint32_t m = some.count(), k = D(5);
					InStream s = resized(some, k == 0 ? 0 : k == 1 ? m + primStride(sp.prim, sp.patch) : k == 2 ? m + 1 : k == 3 && m > 1 ? m - 1 : 2 * m);
					// Before the first stream this would be accepted and spoil the history.
					if (stage == 0 && !so.spoil)
						break;
					if (stage == 0 && !P(1, 6))
						break;
					sc.ops.push_back(add(slot, s));
					break;
				}
				case 4:
				{
					// Nothing in it is wanted.
					InStream s = some;
					for (auto& e : s.fmt.e)
						e.name += "~";
					sc.ops.push_back(add(slot, s));
					break;
				}
				case 5:
					if (stage > 0)
					{
						// A stream that was added already, or one element of it together with others.
						InStream s = j.in[D((uint32_t)std::min<size_t>((size_t)stage, real))];
						if (P(1, 2) && s.itype != NoIdx)
						{
							Elem e = j.in[D((uint32_t)real)].fmt.e[0];
							if (s.fmt.find(e.name) < 0)
							{
								Fmt f2 = s.fmt;
								f2.add(e.name, X8, UInt);
								std::vector<uint8_t> v;
								for (uint32_t k = 0; k < s.vcount; ++k)
								{
									v.insert(v.end(), s.v.begin() + (long)((size_t)k * s.fmt.stride), s.v.begin() + (long)((size_t)(k + 1) * s.fmt.stride));
									v.push_back((uint8_t)k);
								}
								s.fmt = f2;
								s.v = v;
							}
						}
						Op o = add(slot, s);
						retries(o);
						sc.ops.push_back(o);
					}
					break;
				case 6:
					if ((size_t)stage < real || P(1, 3))
					{
						Op o;
						o.kind = CONVERT;
						o.slot = slot;
						retries(o);
						sc.ops.push_back(o);
					}
					break;
				case 7:
					if (so.slots)
					{
						Op o;
						o.kind = D(2) ? MOVENEW : MOVEASSIGN;
						o.slot = slot;
						o.slot2 = (slot + 1 + (int)D(2)) % kSlots;
						if (o.kind == MOVEASSIGN)
						{
							// The target has to exist.
							sc.ops.push_back(newOp(o.slot2, (int)D((uint32_t)sc.specs.size())));
							if (P(1, 2))
							{
								Op a = add(o.slot2, some);
								sc.ops.push_back(a);
							}
						}
						else
						{
							Op d;
							d.kind = DESTROY;
							d.slot = o.slot2;
							sc.ops.push_back(d);
						}
						retries(o);
						sc.ops.push_back(o);
						slot = o.slot2;
					}
					break;
				case 8:
				{
					InStream s = some;
					s.fmt = Fmt();
					s.v.assign(1, 0);
					sc.ops.push_back(add(slot, s));
					break;
				}
				case 9:
					if (so.spoil && P(1, 6) && some.itype != NoIdx && some.icount)
					{
						// An index out of range, or a restart where none is allowed.
						InStream s = some;
						if (P(1, 3))
						{
							// Fewer vertices than the indices refer to.
							s.vcount = D(s.vcount);
							s.v.resize((size_t)s.vcount * s.fmt.stride);
							sc.ops.push_back(add(slot, s));
							break;
						}
						uint32_t x = P(1, 3) ? idxRestart(s.itype) : P(1, 2) ? s.vcount : idxRestart(s.itype) - 1;
						memcpy(&s.ib[(size_t)D(s.icount) * idxSize(s.itype)], &x, idxSize(s.itype));
						sc.ops.push_back(add(slot, s));
					}
					break;
				case 10:
					if (so.slots && P(1, 2))
					{
						// Another converter, valid or not.
						Spec x = sp;
						switch (D(9))
						{
							case 0:
								x.out.clear();
								x.single = false;
								break;
							case 1:
								x.out.push_back(Fmt());
								x.single = false;
								break;
							case 2:
								x.prim = -1;
								break;
							case 3:
								x.prim = PatchList;
								x.patch = 0;
								break;
							case 4:
								x.itype = U16;
								x.hasMax = true;
								x.max = 65535 + D(3);
								break;
							case 5:
								x.itype = U32;
								x.prim = TriangleList;
								x.hasMax = true;
								x.max = D(3);
								break;
							case 6:
								x.itype = x.itype == U16 ? U32 : U16;
								x.hasMax = false;
								break;
							case 7:
								x.handler = false;
								x.prim = -1;
								break;
						}
						int other = (slot + 1) % kSlots;
						sc.specs.push_back(x);
						sc.ops.push_back(newOp(other, (int)sc.specs.size() - 1));
						if (P(1, 2))
						{
							Op a = add(other, some);
							sc.ops.push_back(a);
							Op c;
							c.kind = CONVERT;
							c.slot = other;
							sc.ops.push_back(c);
						}
					}
					break;
			}
		}
	};

	sc.ops.push_back(newOp(0, 0));
	std::vector<size_t> order(real);
	for (size_t i = 0; i < real; ++i)
		order[i] = i;
	for (size_t i = real; i > 1; --i)
		std::swap(order[i - 1], order[i - 1 - D((uint32_t)i)]);
	std::vector<std::pair<size_t, size_t>> trs;
	for (size_t k = 0; k < j.tr.size(); ++k)
		for (size_t l = 0; l < j.tr[k].size(); ++l)
			if (j.tr[k][l])
				trs.push_back({k, l});
	size_t trAt = 0;
	for (size_t i = 0; i < real; ++i)
	{
		noise((int)i);
		while (trAt < trs.size() && D(2))
		{
			Op o = setTr(slot, trs[trAt].first, trs[trAt].second, j.tr[trs[trAt].first][trs[trAt].second]);
			retries(o);
			sc.ops.push_back(o);
			++trAt;
		}
		Op o;
		o.kind = ADD;
		o.slot = slot;
		o.stream = (int)order[i];
		o.shortForm = D(2);
		retries(o);
		sc.ops.push_back(o);
	}
	noise((int)real);
	for (; trAt < trs.size(); ++trAt)
	{
		Op o = setTr(slot, trs[trAt].first, trs[trAt].second, j.tr[trs[trAt].first][trs[trAt].second]);
		retries(o);
		sc.ops.push_back(o);
	}
	Op o;
	o.kind = CONVERT;
	o.slot = slot;
	o.retries = so.alloc || so.handler ? (int)D(9) : 0;
	sc.ops.push_back(o);
	noise((int)real);
	if (so.alloc || so.handler)
		sc.ops.push_back(o);
	return sc;
}

std::string describeSpec(const Spec& s)
{
	Job j;
	j.out = s.out;
	j.itype = s.itype;
	j.prim = s.prim < 0 ? 0 : s.prim;
	j.patch = s.patch;
	j.maxIndex = s.hasMax ? s.max : 0;
	j.defaultTr();
	std::string r = describe(j);
	if (s.prim < 0)
		r += " (invalid primitive type)";
	if (!s.hasMax)
		r += " (default maximum index)";
	if (!s.handler)
		r += s.deflt ? " (default error function)" : " (no error function)";
	return r;
}

void render(const Script& sc, const std::vector<Rec>* recs, const char* title)
{
	if (!gShared->wantRender)
		return;
	renderLine(title);
	for (size_t i = 0; i < sc.specs.size(); ++i)
		renderLine(fmt("  spec %zu: ", i) + describeSpec(sc.specs[i]));
	for (size_t i = 0; i < sc.streams.size(); ++i)
	{
		Job j;
		j.in.push_back(sc.streams[i]);
		j.prim = sc.specs[0].prim;
		j.maxIndex = 0;
		std::string d = describe(j);
		size_t p = d.find("in{");
		renderLine(fmt("  stream %zu: ", i) + (p == std::string::npos ? d : d.substr(p)));
	}
	auto opText = [&](const Op& o)
	{
		std::string r = fmt("%s on converter %d", opName[o.kind], o.slot);
		if (o.kind == NEW)
			r += fmt(" from spec %d", o.spec);
		if (o.kind == ADD)
			r += fmt(" stream %d%s", o.stream, o.null == 1 ? " (null vertices)" : o.null == 2 ? " (null indices)" : "");
		if (o.kind == TRI)
			r += fmt(" [%d][%d] = %s", o.a, o.b, trName[o.tr]);
		if (o.kind == TRN)
			r += " '" + o.name + "' = " + trName[o.tr];
		if (o.kind == QUERY)
			r += " '" + o.name + "'";
		if (o.kind == MOVENEW || o.kind == MOVEASSIGN)
			r += fmt(" to %d", o.slot2);
		return r;
	};
	if (!recs)
	{
		for (auto& o : sc.ops)
			renderLine("  " + opText(o));
		return;
	}
	for (auto& r : *recs)
	{
		std::string l = "  " + opText(sc.ops[(size_t)r.op]) + fmt(" -> %d", r.ret);
		if (r.exc)
			l += r.exc == 1 ? " bad_alloc" : r.exc == 2 ? " handler's exception" : " exception";
		if (r.allocFailed)
			l += fmt(" (%u failed allocations)", r.allocFailed);
		for (auto& m : r.msgs)
			l += " \"" + m + "\"";
		const Snap& s = r.snap[sc.ops[(size_t)r.op].slot];
		if (!s.verts.empty())
		{
			l += fmt(" [%u vertices", s.vcount);
			for (auto& b : s.bufs)
			{
				l += fmt("; base %d:", b.base);
				for (uint32_t i = 0; i < b.count && i < 40; ++i)
				{
					uint32_t x = 0;
					memcpy(&x, b.bytes.data() + (size_t)i * idxSize(b.type), idxSize(b.type));
					l += x == idxRestart(b.type) ? std::string(" R") : fmt(" %u", x);
				}
			}
			l += "]";
		}
		renderLine(l);
	}
}

void hashRecs(const std::vector<Rec>& recs)
{
	for (auto& r : recs)
	{
		int x[4] = {r.op, r.ret, r.exc, (int)r.msgs.size()};
		outcome(x, sizeof x);
		for (auto& s : r.snap)
		{
			for (auto& v : s.verts)
				outcome(v.data(), v.size());
			for (auto& b : s.bufs)
				outcome(b.bytes.data(), b.bytes.size());
		}
	}
}

bool judge(const Script& sc, Actor& a, const char* who, bool* nontrivial = nullptr)
{
	Judge j(sc, a.errFd >= 0 && !a.errFull);
	for (auto& r : a.recs)
		if (!j.step(r))
		{
			report(j.klass.c_str(), std::string(who) + j.why);
			return false;
		}
	if (!a.problem.empty())
	{
		report(a.problemClass, std::string(who) + a.problem);
		return false;
	}
	if (nontrivial)
		*nontrivial = j.anyAccepted && (j.anyConvert || gShared->rep.counters[C_CONV_FAIL] || gShared->rep.counters[C_CONV_INT]);
	return true;
}

// Runs one script on one simulated thread, judges it and looks for leaks.
void runScript(const ScriptOpt& so)
{
	Script sc = genScript(so);
	Buffers buf(sc.streams, D(2), DF(2) ? DF(16) : 0);
	Actor a;
	a.sc = &sc;
	a.buf = &buf;
	a.faults.alloc = so.alloc;
	a.faults.handler = so.handler;
	a.nests = !so.alloc && DF(4) == 3;
	for (auto& sp : sc.specs)
		if (sp.deflt && a.errFd < 0)
			a.captureStderr();
	render(sc, nullptr, "script");
	Rec fin;
	ls::run({[&] {
		a.prepare(so.alloc || P(1, 4));
		if (a.problem.empty())
			a.go();
		if (a.problem.empty() && !a.recs.empty())
		{
			if (buf.checksum() != buf.sum)
				a.bad("input", "the library modified its input data");
			buf.poison();
			a.snap(fin);
		}
		a.cleanup();
	}});
	render(sc, &a.recs, "history");
	hashRecs(a.recs);
	bool nt = false;
	if (!judge(sc, a, "", &nt))
		return;
	gShared->rep.nontrivial = nt;
	if (!a.recs.empty())
		for (int s = 0; s < kSlots; ++s)
		{
			std::string d = diffSnap(a.recs.back().snap[s], fin.snap[s]);
			if (!d.empty())
			{
				report("aliasing", "the " + d + " changed when the caller reused its input buffers");
				return;
			}
		}
	std::string what;
	if (size_t n = ls::leaks(what))
		report("leak", fmt("%zu blocks were never freed:", n) + what.substr(0, 400));
}

ScriptOpt baseOpt()
{
	ScriptOpt so;
	so.maxCorners = 4 + D(20);
	return so;
}

void randomPlacement()
{
	ls::cfg.fillNew = (uint8_t)DF(256);
	ls::cfg.fillFree = (uint8_t)(255 - DF(256));
	ls::cfg.pad = DF(4);
	ls::cfg.world = DF(1 << 20);
}

void runC08()
{
	randomPlacement();
	ScriptOpt so = baseOpt();
	uint32_t f = DF(6); // Fault-free and fault-injecting configurations are separate.
	so.handler = f == 5;
	so.noise = 1 + D(5);
	if (P(1, 300))
	{
		// More corners than 16 bit indices can address.
		so.huge = 1;
		so.spoil = so.slots = so.handler = false;
		so.noise = D(2);
		count(C_HUGE);
	}
	runScript(so);
}

void runC09()
{
	randomPlacement();
	ScriptOpt so = baseOpt();
	uint32_t f = 1 + DF(3);
	so.alloc = f & 1;
	so.handler = f & 2;
	so.noise = D(3);
	runScript(so);
	gShared->rep.nontrivial = gShared->rep.nontrivial && (gShared->rep.counters[C_ALLOC_FAIL] || gShared->rep.counters[C_HANDLER_THROW]);
}

void runC10()
{
	randomPlacement();
	ScriptOpt so;
	so.maxCorners = 6 + D(54);
	so.strictMax = true;
	so.wantIndexed = true;
	so.stripsOnly = D(3) > 0;
	so.spoil = false;
	so.slots = false;
	so.specials = false;
	so.noise = D(4) == 3;
	so.alloc = DF(2);
	if (P(1, 400))
	{
		so.huge = 1;
		count(C_HUGE);
	}
	runScript(so);
}

//--------------------------------------------------------------------------------------------------
// Threads.

void drawSchedule()
{
	ls::cfg.gapMode = (int)ch().draw(SCHED, 6);
	ls::cfg.hot = ch().draw(SCHED, 3) == 2;
	ls::cfg.maxSwitches = 50u << ch().draw(SCHED, 6);
}

void runC11()
{
	randomPlacement();
	uint32_t n = 2 + D(3);
	count(C_THREADS, n);
	bool shared = D(2);
	std::vector<Script> sc;
	std::vector<std::unique_ptr<Buffers>> bufs;
	uint32_t f = DF(5);
	bool nests = f != 4 && DF(4) == 3;
	for (uint32_t i = 0; i < n; ++i)
	{
		if (i && shared)
			sc.push_back(sc[0]);
		else
		{
			ScriptOpt so;
			so.maxCorners = 3 + D(12);
			so.noise = D(3);
			so.alloc = f == 4;
			so.handler = f == 3;
			sc.push_back(genScript(so));
		}
	}
	for (uint32_t i = 0; i < n; ++i)
		if (i == 0 || !shared)
			bufs.emplace_back(new Buffers(sc[i].streams, D(2), DF(2) ? DF(16) : 0));
	if (shared)
		count(C_SHARED);
	bool faulty = f >= 3;
	// The first calls on all objects made by one thread, and objects destroyed by another one.
	std::vector<size_t> handOver;
	bool late = false;
	if (P(1, 3))
	{
		for (uint32_t i = 0; i < n; ++i)
			handOver.push_back(1 + D((uint32_t)sc[i].ops.size()));
		late = D(2);
		count(C_HANDED);
	}
	// Formats of all threads copied from those of one, before the threads start.
	bool copied = shared && D(2);
	if (copied)
		count(C_COPIED);
	Actor origin;
	origin.sc = &sc[0];
	origin.buf = bufs[0].get();
	if (copied)
	{
		ls::run({[&] { origin.prepare(false); }});
		if (!origin.problem.empty())
		{
			report("format", "preparation: " + origin.problem);
			return;
		}
	}
	drawSchedule();
	auto make = [&](std::vector<std::unique_ptr<Actor>>& as)
	{
		for (uint32_t i = 0; i < n; ++i)
		{
			as.emplace_back(new Actor);
			as.back()->sc = &sc[i];
			as.back()->buf = bufs[shared ? 0 : i].get();
			as.back()->faults.alloc = f == 4;
			as.back()->faults.handler = f == 3;
			as.back()->nests = nests;
		}
		if (copied)
			ls::run({[&] {
				for (auto& a : as)
					a->copyFormats(origin);
			}});
	};
	auto body = [&](Actor* a, size_t from, size_t to, bool clean)
	{
		return [a, copied, from, to, clean] {
			if (!copied && !from)
				a->prepare(false);
			if (a->problem.empty())
				a->go(from, to);
			if (clean)
				a->cleanup();
		};
	};
	auto end = [&]
	{
		if (copied)
			ls::run({[&] { origin.cleanup(); }});
	};
	for (uint32_t i = 0; i < (shared ? 1 : n); ++i)
		render(sc[i], nullptr, fmt("script of %s %u", shared ? "every thread, shared inputs, like" : "thread", i + 1).c_str());
	std::vector<std::unique_ptr<Actor>> together, alone;
	make(together);
	std::vector<std::function<void()>> fns;
	if (!handOver.empty())
		ls::run({[&] {
			for (uint32_t i = 0; i < n; ++i)
				body(together[i].get(), 0, handOver[i], false)();
		}});
	for (uint32_t i = 0; i < n; ++i)
		fns.push_back(body(together[i].get(), handOver.empty() ? 0 : handOver[i], SIZE_MAX, !late));
	ls::run(fns);
	if (late)
		ls::run({[&] {
			for (auto& a : together)
				a->cleanup();
		}});
	for (auto& b : bufs)
		if (b->checksum() != b->sum)
			report("input", "the library modified its input data");
	bool nt = false;
	for (uint32_t i = 0; i < n; ++i)
	{
		render(sc[i], &together[i]->recs, fmt("history of thread %u", i + 1).c_str());
		hashRecs(together[i]->recs);
		if (!judge(sc[i], *together[i], fmt("thread %u, ", i + 1).c_str(), &nt))
			return;
	}
	gShared->rep.nontrivial = nt && ls::stats.switches > 0;
	if (faulty)
	{
		end();
		return;
	}
	make(alone);
	for (uint32_t i = 0; i < n; ++i)
	{
		ls::run({body(alone[i].get(), 0, SIZE_MAX, true)});
		Actor &x = *together[i], &y = *alone[i];
		std::string d = x.recs.size() != y.recs.size() ? "number of calls" : "";
		for (size_t k = 0; k < x.recs.size() && d.empty(); ++k)
		{
			d = diffRec(x.recs[k], y.recs[k]);
			if (!d.empty())
				d = fmt("call %d: ", x.recs[k].op) + d;
		}
		if (!d.empty())
		{
			report("differs", fmt("thread %u gives another result together with other threads than alone: ", i + 1) + d);
			return;
		}
	}
	end();
}

// A query script for shared objects: results are logged as text.
struct QOp
{
	int kind, a, b, c;
	std::string name;
};
struct SharedSet
{
	Actor* prep;                 // Owns converters and formats.
	std::vector<char*> vals;     // Shared values.
	std::vector<Val> model;      // What they hold.
	std::vector<std::string> names;
};

std::string caseOf(std::string s, int mode)
{
	for (size_t i = 0; i < s.size(); ++i)
		if (mode == 1)
			s[i] = (char)tolower(s[i]);
		else if (mode == 2)
			s[i] = (char)toupper(s[i]);
		else if (mode == 3 && i % 2)
			s[i] = (char)(isupper((unsigned char)s[i]) ? tolower(s[i]) : toupper(s[i]));
	return s;
}

void logf(std::vector<std::string>& log, const std::string& s)
{
	ls::Out x;
	log.push_back(s);
}

void runQueries(const SharedSet& sh, const std::vector<QOp>& ops, std::vector<std::string>& log, const Script& sc, Buffers& buf, std::string& wrong)
{
	using namespace shim;
	Actor me;
	me.sc = &sc;
	me.buf = &buf;
	auto text = [](const char* p) -> std::string { return p ? p : "(null)"; };
	for (auto& q : ops)
	{
		Rec r;
		std::string line;
		bool expectOk = true;
		switch (q.kind)
		{
			case 0: // Names of layouts.
			{
				ls::doing = "elementLayoutFromName";
				int k = 0;
				me.call(r, false, false, [&] { k = layFromName(q.name.c_str()); });
				line = fmt("layout %s %d", q.name.c_str(), k);
				int want = -1;
				for (int i = 0; i < LAYS; ++i)
					if (!strcasecmp(mdl::layName[i], q.name.c_str()) || !strcasecmp(layColor[i], q.name.c_str()))
						want = i;
				expectOk = k == want;
				break;
			}
			case 1:
			{
				ls::doing = "elementTypeFromName";
				int k = 0;
				me.call(r, false, false, [&] { k = typFromName(q.name.c_str()); });
				line = fmt("type %s %d", q.name.c_str(), k);
				int want = -1;
				for (int i = 0; i < TYPS; ++i)
					if (!strcasecmp(mdl::typName[i], q.name.c_str()))
						want = i;
				expectOk = k == want;
				break;
			}
			case 2:
			{
				ls::doing = "primitiveTypeFromName";
				int k = 0;
				me.call(r, false, false, [&] { k = primFromName(q.name.c_str()); });
				line = fmt("primitive %s %d", q.name.c_str(), k);
				int want = -1;
				for (int i = 0; i < PRIMS; ++i)
					if (!strcasecmp(mdl::primName[i], q.name.c_str()))
						want = i;
				expectOk = k == want;
				break;
			}
			case 3:
			{
				ls::doing = "name and validity functions";
				const char *x = nullptr, *y = nullptr, *z = nullptr;
				uint32_t s = 0;
				bool v = false, n = false;
				me.call(r, false, false, [&] {
					x = shim::layName(q.a % (LAYS + 1) - 1, q.b & 1);
					y = shim::typName(q.b % (TYPS + 1) - 1);
					z = shim::primName(q.c % (PRIMS + 1) - 1);
					s = shim::laySize(q.a % LAYS);
					v = elemValid(q.a % LAYS, q.b % TYPS);
					n = shim::countValid(q.c % PRIMS, (uint32_t)q.a, 3);
				});
				line = text(x) + " " + text(y) + " " + text(z) + fmt(" %u %d %d", s, v, n);
				int l = q.a % (LAYS + 1) - 1, t = q.b % (TYPS + 1) - 1, p = q.c % (PRIMS + 1) - 1;
				expectOk = text(x) == (l < 0 ? "(null)" : q.b & 1 ? layColor[l] : mdl::layName[l]) && text(y) == (t < 0 ? "(null)" : mdl::typName[t]) &&
					text(z) == (p < 0 ? "(null)" : mdl::primName[p]) && s == mdl::laySize(q.a % LAYS) && v == mdl::valid(q.a % LAYS, q.b % TYPS) &&
					n == mdl::countValid(q.c % PRIMS, (uint32_t)q.a, 3);
				break;
			}
			case 4: // Everything of a shared converter.
			{
				ls::doing = "const queries of a shared converter";
				int s = q.a % kSlots;
				if (!sh.prep->slot[s] || sh.prep->moved[s])
					break;
				Snap sn;
				me.call(r, false, false, [&] { sh.prep->readSnap(s, sn); });
				uint64_t h = 1;
				for (auto& v : sn.verts)
					h = fnv(v.data(), v.size(), h);
				for (auto& b : sn.bufs)
					h = fnv(b.bytes.data(), b.bytes.size(), h) + b.count * 7 + (uint64_t)b.base;
				for (auto& k : sn.bounds)
					for (auto& l : k)
					{
						h = fnv(l.first.v, 32, h);
						h = fnv(l.second.v, 32, h);
					}
				for (auto& k : sn.tr)
					for (int t : k)
						h = h * 31 + (uint64_t)t;
				line = fmt("snapshot %d %016llx %u", s, (unsigned long long)h, sn.vcount);
				std::string d = diffSnap(sh.prep->recs.back().snap[s], sn);
				if (!d.empty())
				{
					expectOk = false;
					line += " (other " + d + " than before the threads started)";
				}
				break;
			}
			case 5: // By name.
			{
				ls::doing = "queries by name of a shared converter";
				int s = q.a % kSlots;
				if (!sh.prep->slot[s] || sh.prep->moved[s])
					break;
				double lo[4] = {0}, hi[4] = {0};
				int t = 0;
				bool b = false;
				me.call(r, false, false, [&] {
					t = convGetTrName(sh.prep->slot[s], q.name.c_str(), q.b & 1);
					b = convBoundsName(sh.prep->slot[s], q.name.c_str(), q.b & 2, lo, hi);
				});
				line = fmt("by name %s %d %d %016llx", q.name.c_str(), t, b, (unsigned long long)(b ? fnv(lo, 32) ^ fnv(hi, 32) * 3 : 0));
				break;
			}
			case 6: // A shared format.
			{
				ls::doing = "const queries of a shared VertexFormat";
				size_t n = sh.prep->inFmts.size();
				const FmtHolder& h = q.b & 4 ? sh.prep->outFmts[0][(size_t)q.a % sh.prep->outFmts[0].size()] : sh.prep->inFmts[(size_t)q.a % n];
				const FmtHolder& g = sh.prep->inFmts[(size_t)q.c % n];
				const Fmt& mf = q.b & 4 ? sc.specs[0].out[(size_t)q.a % sc.specs[0].out.size()] : sc.streams[(size_t)q.a % n].fmt;
				Fmt f, mg = sc.streams[(size_t)q.c % n].fmt;
				int k = 0;
				bool c = false, e = false, em = false, alike = q.b & 8;
				std::unique_ptr<char[]> own(new char[fmtBytes()]);
				if (alike && !mf.e.empty())
				{
					// Compared with one of its own that differs in at most one element.
					mg = Fmt();
					size_t at = (size_t)q.a % mf.e.size();
					for (size_t i = 0; i < mf.e.size(); ++i)
					{
						Elem x = mf.e[i];
						if (i == at)
							switch (q.c % 6)
							{
								case 1:
									x.name += "_";
									break;
								case 2:
									x.name = caseOf(x.name, 3);
									break;
								case 3:
									for (int typ = 0; typ < TYPS; ++typ)
										if (typ != mf.e[i].typ && valid(x.lay, typ))
											x.typ = typ;
									break;
								case 4:
									for (int lay = 0; lay < LAYS; ++lay)
										if (lay != mf.e[i].lay && valid(lay, x.typ))
											x.lay = lay;
									break;
								case 5:
									continue;
							}
						mg.add(x.name, x.lay, x.typ);
					}
				}
				else
					alike = false;
				me.call(r, false, false, [&] {
					Actor::readFmt(h.f, f);
					k = fmtFind(h.f, q.name.c_str(), q.b & 1);
					shim::FmtObj* o = nullptr;
					if (alike)
					{
						o = fmtNew(own.get());
						for (auto& x : mg.e)
							fmtAppend(o, x.name.c_str(), x.lay, x.typ);
					}
					c = fmtContains(h.f, alike ? o : g.f);
					e = fmtEqual(h.f, alike ? o : g.f);
					em = fmtEmpty(h.f);
					if (o)
						fmtDestroy(o);
				});
				line = fmt("format %zu %u %d %d %d %d", f.e.size(), f.stride, k, c, e, em);
				bool contains = true, equal = mf.stride == mg.stride && mf.e.size() == mg.e.size();
				for (auto& x : mg.e)
					contains &= mf.find(x.name) >= 0;
				for (size_t i = 0; equal && i < mf.e.size(); ++i)
					equal = mf.e[i].name == mg.e[i].name && mf.e[i].lay == mg.e[i].lay && mf.e[i].typ == mg.e[i].typ && mf.e[i].off == mg.e[i].off;
				expectOk = f.stride == mf.stride && f.e.size() == mf.e.size() && k == mf.find(q.name) && c == contains && e == equal && em == mf.e.empty();
				break;
			}
			case 7: // A shared value.
			{
				ls::doing = "const functions of a shared VertexValue";
				const Value* v = reinterpret_cast<const Value*>(sh.vals[(size_t)q.a % sh.vals.size()]);
				const Value* w = reinterpret_cast<const Value*>(sh.vals[(size_t)q.c % sh.vals.size()]);
				uint8_t d[64], d2[64];
				memset(d, 0x5A, sizeof d);
				memset(d2, 0x5A, sizeof d2);
				double o[4];
				bool x = false, y = false, e = false;
				me.call(r, false, false, [&] {
					x = valueTo(v, d, q.b % LAYS, q.c % TYPS);
					y = valueToBounds(v, d2, q.c % LAYS, q.b % TYPS, w, v);
					valueGet(v, o);
					e = valueEqual(v, w);
				});
				{
					int lay = q.b % LAYS, typ = q.c % TYPS;
					bool want = valid(lay, typ), want2 = valid(q.c % LAYS, q.b % TYPS);
					const Val& mv = sh.model[(size_t)q.a % sh.vals.size()];
					size_t used = x ? mdl::laySize(lay) : 0, used2 = y ? mdl::laySize(q.c % LAYS) : 0;
					bool beyond = false;
					for (size_t i = 0; i < sizeof d; ++i)
						beyond |= (i >= used && d[i] != 0x5A) || (i >= used2 && d2[i] != 0x5A);
					line = fmt("value %d %d %d %016llx", x, y, e, (unsigned long long)(fnv(d, 64) ^ fnv(d2, 64) * 3 ^ fnv(o, 32) * 5));
					// Only formats that may be used in a VertexFormat must be supported.
					std::string bad = (want && !x) || (want2 && !y) ? "whether it can be written" : beyond ? "bytes written beyond the element" : want ? encOk(d, lay, typ, mv) : "";
					for (int i = 0; i < 4; ++i)
						if (!mv.unk[i] && !(o[i] == mv.v[i] || (std::isnan(o[i]) && std::isnan(mv.v[i]))))
							bad = fmt("component %d is %.17g instead of %.17g", i, o[i], mv.v[i]);
					if (!bad.empty())
					{
						expectOk = false;
						line += " (" + bad + ")";
					}
				}
				break;
			}
			case 8: // Build an own converter from the shared formats and inputs.
			{
				ls::doing = "an own converter from shared formats";
				std::unique_ptr<char[]> m(new char[convBytes()]);
				Conv* c = nullptr;
				const Spec& sp = sc.specs[0];
				std::vector<const shim::FmtObj*> f;
				for (auto& h : sh.prep->outFmts[0])
					f.push_back(h.f);
				bool ok = true, done = false;
				Snap sn;
				std::unique_ptr<char[]> copy(new char[fmtBytes()]);
				me.call(r, false, false, [&] {
					shim::FmtObj* fc = fmtCopy(copy.get(), sh.prep->inFmts[0].f);
					c = convNew(m.get(), f.data(), f.size(), sp.single, sp.itype, sp.prim, sp.patch, sp.hasMax, sp.max, &Actor::onError, &me);
					for (auto& o : sc.ops)
						if (o.kind == ADD && o.slot == 0 && !o.null)
						{
							const InStream& s = sc.streams[(size_t)o.stream];
							ok = convAdd(c, o.stream == 0 ? fc : sh.prep->inFmts[(size_t)o.stream].f, buf.first((size_t)o.stream), s.vcount + buf.before[(size_t)o.stream], s.itype,
								s.itype == NoIdx ? nullptr : buf.ib[(size_t)o.stream], s.icount, false) && ok;
						}
					done = convConvert(c);
					fmtDestroy(fc);
				});
				me.slot[0] = c;
				Rec z;
				me.call(z, false, false, [&] { me.readSnap(0, sn); });
				uint64_t h = 1;
				for (auto& v : sn.verts)
					h = fnv(v.data(), v.size(), h);
				for (auto& b : sn.bufs)
					h = fnv(b.bytes.data(), b.bytes.size(), h);
				line = fmt("own converter %d %d %016llx", ok, done, (unsigned long long)h);
				me.call(z, false, false, [&] {
					if (c)
						convDestroy(c);
				});
				me.slot[0] = nullptr;
				break;
			}
			case 10: // Shared index data.
			{
				ls::doing = "access to index data";
				size_t st = (size_t)q.a % sc.streams.size();
				const InStream& s = sc.streams[st];
				int t = s.itype;
				uint32_t got[4] = {}, fact[3] = {}, back = 0, i = s.icount ? (uint32_t)q.b % s.icount : 0;
				uint32_t put = (uint32_t)q.c * 0x01020305u;
				bool set = false, setNull = true;
				uint64_t own[2] = {~0ull, ~0ull};
				bool has = t != NoIdx && s.icount && buf.ib[st];
				me.call(r, false, false, [&] {
					if (has)
						got[0] = idxGet(t, buf.ib[st], i);
					got[1] = idxGet(t, nullptr, i);
					got[2] = idxGet(NoIdx, own, 0);
					set = idxSet(t, own, (size_t)(q.b & 1), put);
					setNull = idxSet(t, nullptr, 0, put);
					back = idxGet(t, own, (size_t)(q.b & 1));
					idxFacts(t, fact[0], fact[1], fact[2]);
				});
				uint32_t want = 0, none = ~0u, sz = idxSize(t), all = sz == 2 ? 0xFFFF : ~0u;
				uint64_t ownWant[2] = {~0ull, ~0ull};
				if (sz)
					memcpy((char*)ownWant + sz * (size_t)(q.b & 1), &put, sz);
				if (has)
					memcpy(&want, buf.ib[st] + (size_t)i * sz, sz);
				expectOk = got[0] == want && got[1] == none && got[2] == none && set == (t != NoIdx) && !setNull && back == (sz ? put & all : none)
					&& !memcmp(own, ownWant, 16) && fact[0] == sz && fact[1] == (sz ? all - 1 : 0) && fact[2] == all;
				line = fmt("index %u %u %u %d %d %u %u %u %u", got[0], got[1], got[2], set, setNull, back, fact[0], fact[1], fact[2]);
				break;
			}
			case 9: // Own value from shared input bytes.
			{
				ls::doing = "VertexValue::fromData of shared bytes";
				const InStream& s = sc.streams[0];
				if (s.fmt.e.empty() || !s.vcount)
					break;
				auto& e = s.fmt.e[(size_t)q.a % s.fmt.e.size()];
				std::unique_ptr<char[]> m(new char[valueBytes()]);
				double o[4];
				bool ok = false;
				me.call(r, false, false, [&] {
					Value* v = valueNew(m.get());
					ok = valueFrom(v, buf.v[0] + (size_t)(q.b % (int)s.vcount) * s.fmt.stride + e.off, e.lay, e.typ);
					valueGet(v, o);
					valueDestroy(v);
				});
				expectOk = ok;
				line = fmt("read value %d %016llx", ok, (unsigned long long)fnv(o, 32));
				break;
			}
		}
		if (r.exc)
			line += " exception";
		ls::note(fnvs(line));
		if (!expectOk && wrong.empty())
			wrong = line;
		log.push_back(line);
	}
}

void runC12()
{
	randomPlacement();
	ScriptOpt so;
	so.maxCorners = 3 + D(10);
	so.noise = D(2);
	so.spoil = false;
	Script sc = genScript(so);
	Buffers buf(sc.streams, D(2), DF(2) ? DF(16) : 0);
	Actor prep;
	prep.sc = &sc;
	prep.buf = &buf;
	SharedSet sh;
	sh.prep = &prep;
	uint32_t nv = 1 + D(3);
	std::vector<std::unique_ptr<char[]>> vm;
	std::vector<std::pair<int, int>> vt;
	std::vector<std::vector<uint8_t>> vd;
	Bulk b(1 + D(1 << 20));
	for (uint32_t i = 0; i < nv; ++i)
	{
		int lay, typ;
		genElemType(ch(), lay, typ);
		vt.push_back({lay, typ});
		vd.push_back(genValue(b, lay, typ, true));
		vm.emplace_back(new char[shim::valueBytes()]);
		sh.vals.push_back(vm.back().get());
		sh.model.push_back(decode(vd.back().data(), lay, typ));
	}
	ls::cfg.gapMode = 0;
	bool warm = D(3) == 0; // Rarely: otherwise the first use of everything happens concurrently.
	(void)warm;
	ls::run({[&] {
		prep.prepare(false);
		if (prep.problem.empty())
			prep.go();
		Rec z;
		prep.call(z, false, false, [&] {
			for (uint32_t i = 0; i < nv; ++i)
			{
				shim::Value* v = shim::valueNew(sh.vals[i]);
				shim::valueFrom(v, vd[i].data(), vt[i].first, vt[i].second);
			}
		});
	}});
	render(sc, &prep.recs, "preparation");
	bool nt = false;
	if (!judge(sc, prep, "preparation, ", &nt) || prep.recs.empty())
		return;
	uint32_t n = 2 + D(3);
	count(C_THREADS, n);
	std::vector<std::vector<QOp>> q(n);
	for (uint32_t i = 0; i < n; ++i)
	{
		uint32_t m = 1 + D(10);
		bool copy = i && D(3) == 0;
		if (copy)
			q[i] = q[0];
		else
			for (uint32_t k = 0; k < m; ++k)
			{
				QOp o;
				static const int kinds[] = {4, 5, 6, 0, 7, 3, 1, 2, 8, 9, 4, 6, 10};
				o.kind = kinds[D(13)];
				o.a = (int)D(64);
				o.b = (int)D(64);
				o.c = (int)D(64);
				switch (o.kind)
				{
					case 0:
						o.name = caseOf(D(2) ? layName[D(LAYS)] : layColor[D(LAYS)], (int)D(4));
						break;
					case 1:
						o.name = caseOf(typName[D(TYPS)], (int)D(4));
						break;
					case 2:
						o.name = caseOf(primName[D(PRIMS)], (int)D(4));
						break;
					default:
					{
						auto& f = sc.specs[0].out[D((uint32_t)sc.specs[0].out.size())];
						o.name = f.e[D((uint32_t)f.e.size())].name;
					}
				}
				if (P(1, 8))
					o.name += "?";
				q[i].push_back(o);
				count(C_QUERIES);
			}
	}
	if (gShared->wantRender)
		for (uint32_t i = 0; i < n; ++i)
			for (auto& o : q[i])
				renderLine(fmt("  thread %u: query kind %d (%d, %d, %d, '%s')", i + 1, o.kind, o.a, o.b, o.c, o.name.c_str()));
	drawSchedule();
	std::vector<std::vector<std::string>> logs(n), alone(n);
	std::vector<std::string> wrong(n);
	std::vector<std::function<void()>> fns;
	for (uint32_t i = 0; i < n; ++i)
		fns.push_back([&, i] { runQueries(sh, q[i], logs[i], sc, buf, wrong[i]); });
	ls::run(fns);
	for (uint32_t i = 0; i < n; ++i)
	{
		for (auto& l : logs[i])
			outcome(l.data(), l.size());
		if (!wrong[i].empty())
		{
			report("wrong", fmt("thread %u got a wrong answer: ", i + 1) + wrong[i]);
			return;
		}
	}
	for (uint32_t i = 0; i < n; ++i)
	{
		std::string w;
		ls::run({[&] { runQueries(sh, q[i], alone[i], sc, buf, w); }});
		for (size_t k = 0; k < logs[i].size(); ++k)
			if (logs[i][k] != alone[i][k])
			{
				report("differs", fmt("thread %u, query %zu: '%s' together with other threads, '%s' alone", i + 1, k, logs[i][k].c_str(), alone[i][k].c_str()));
				return;
			}
	}
	gShared->rep.nontrivial = ls::stats.switches > 0;
	ls::run({[&] { prep.cleanup(); }});
}

void runC13()
{
	ScriptOpt so = baseOpt();
	so.noise = D(3);
	Script sc = genScript(so);
	Buffers buf(sc.streams), elsewhere(sc.streams, D(2), DF(16));
	render(sc, nullptr, "script");
	Actor first, second;
	auto go = [&](Actor& a)
	{
		a.sc = &sc;
		a.buf = &a == &first ? &buf : &elsewhere;
		ls::run({[&] {
			a.prepare(false);
			if (a.problem.empty())
				a.go();
			a.cleanup();
		}});
	};
	randomPlacement();
	first.stackFill = (uint8_t)DF(256);
	go(first);
	render(sc, &first.recs, "history");
	hashRecs(first.recs);
	bool nt = false;
	if (!judge(sc, first, "", &nt))
		return;
	// Other conversions in between, then the same again elsewhere in memory.
	randomPlacement();
	std::vector<void*> junk;
	uint32_t n = DF(4);
	for (uint32_t i = 0; i < n; ++i)
	{
		ScriptOpt s2 = baseOpt();
		s2.noise = 1;
		Script other = genScript(s2);
		Buffers ob(other.streams);
		Actor a;
		a.sc = &other;
		a.buf = &ob;
		ls::run({[&] {
			a.prepare(false);
			if (a.problem.empty())
				a.go();
			a.cleanup();
		}});
		if (!judge(other, a, "in between, "))
			return;
	}
	uint32_t m = DF(40);
	Bulk b(1 + DF(1 << 16));
	for (uint32_t i = 0; i < m; ++i)
	{
		size_t z = 1 + b(600);
		junk.push_back(malloc(z));
		memset(junk.back(), (int)b(256), z);
	}
	for (size_t i = 0; i < junk.size(); i += 1 + b(3))
	{
		free(junk[i]);
		junk[i] = nullptr;
	}
	randomPlacement();
	second.stackFill = (uint8_t)DF(256);
	go(second);
	for (void* p : junk)
		free(p);
	std::string d = first.recs.size() != second.recs.size() ? "number of calls" : "";
	for (size_t i = 0; i < first.recs.size() && d.empty(); ++i)
	{
		d = diffRec(first.recs[i], second.recs[i]);
		if (!d.empty())
			d = fmt("call %d: ", first.recs[i].op) + d;
	}
	if (!d.empty())
		report("differs", "the same calls give another result the second time: " + d);
	gShared->rep.nontrivial = nt;
}
}

static void finish()
{
	RunReport& r = gShared->rep;
	r.traceHash = ls::traceHash();
	r.stateHash = gState;
	r.steps = ls::stats.steps + r.counters[C_CALLS];
	count(C_SWITCH, ls::stats.switches);
	count(C_BLOCKED, ls::stats.blocked);
	count(C_SYNC, ls::stats.syncOps);
	count(C_ALLOCS, ls::stats.allocs);
	count(C_FULLSHADOW, ls::stats.shadowFull);
	count(C_ACCESSES, ls::stats.steps);
	ls::stats = ls::Stats();
}

// The library decides at start whether the processor converts half floats; a machine that doesn't have the instructions
// is simulated by overwriting the answer (when it is still kept in that variable).
static void setMachine()
{
	if (DF(6) != 5)
		return;
	if (bool* at = static_cast<bool*>(dlsym(RTLD_DEFAULT, "_ZN3vfc20hasHardwareHalfFloatE")))
	{
		char no = 0;
		iovec l{&no, 1}, r{at, 1};
		if (process_vm_writev(getpid(), &l, 1, &r, 1, 0) == 1)
			count(C_NO_HALF);
	}
}

void simRun(Shared& sh)
{
	ls::finishRun = finish;
	ls::begin();
	setMachine();
	std::string p = sh.prop;
	if (p == "C08")
		runC08();
	else if (p == "C09")
		runC09();
	else if (p == "C10")
		runC10();
	else if (p == "C11")
		runC11();
	else if (p == "C12")
		runC12();
	else if (p == "C13")
		runC13();
	else
		harnessError("unknown property");
	finish();
}
