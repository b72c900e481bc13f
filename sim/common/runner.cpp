#include "runner.h"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <rapidjson/document.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

Shared* gShared = nullptr;
static void* const kSharedAddr = reinterpret_cast<void*>(0x200000000000ull);
static const size_t kSharedSize = (sizeof(Shared) + 4095) & ~size_t(4095);
enum { FD_MEM = 20, FD_CMD = 21, FD_REP = 22 };

static double now()
{
	timespec t;
	::clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

void report(const char* klass, const std::string& msg)
{
	RunReport& r = gShared->rep;
	if (r.status != RS_OK)
		return;
	r.status = RS_VIOLATION;
	snprintf(r.klass, sizeof r.klass, "%s", klass);
	snprintf(r.msg, sizeof r.msg, "%s", msg.c_str());
}

void harnessError(const std::string& msg)
{
	RunReport& r = gShared->rep;
	r.status = RS_ERROR;
	snprintf(r.klass, sizeof r.klass, "harness");
	snprintf(r.msg, sizeof r.msg, "%s", msg.c_str());
}

void renderLine(const std::string& s)
{
	RunReport& r = gShared->rep;
	if (!gShared->wantRender || r.renderLen + s.size() + 2 > kRenderCap)
		return;
	memcpy(r.render + r.renderLen, s.data(), s.size());
	r.renderLen += (uint32_t)s.size();
	r.render[r.renderLen++] = '\n';
}

//--------------------------------------------------------------------------------------------------
// Server: allocates nothing between runs.

static int serverMain()
{
	gShared = static_cast<Shared*>(mmap(kSharedAddr, kSharedSize, PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_FIXED_NOREPLACE, FD_MEM, 0));
	if (gShared == MAP_FAILED)
		return 90;
	rlimit lim{0, 0};
	setrlimit(RLIMIT_CORE, &lim);
	simServerInit(*gShared);
	for (;;)
	{
		char c;
		ssize_t n = read(FD_CMD, &c, 1);
		if (n != 1)
			return 0;
		pid_t pid = fork();
		if (pid < 0)
		{
			gShared->rep.status = RS_ERROR;
			strcpy(gShared->rep.klass, "harness");
			strcpy(gShared->rep.msg, "fork failed");
		}
		else if (pid == 0)
		{
			setpgid(0, 0);
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			itimerval tv{{0, 0}, {200, 0}}; // A simulator that never ends is an error of its own.
			setitimer(ITIMER_VIRTUAL, &tv, nullptr);
			close(FD_CMD);
			close(FD_REP);
			simRun(*gShared);
			_exit(0);
		}
		else
		{
			int st = 0;
			while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
				;
			kill(-pid, SIGKILL);
			if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
			{
				if (gShared->rep.status == RS_OK)
				{
					gShared->rep.status = RS_ERROR;
					strcpy(gShared->rep.klass, "harness");
					snprintf(gShared->rep.msg, sizeof gShared->rep.msg, "simulation process died, wait status %d", st);
				}
			}
		}
		if (write(FD_REP, &c, 1) != 1)
			return 0;
	}
}

//--------------------------------------------------------------------------------------------------
// Controller.

namespace
{
struct Streams
{
	std::vector<uint32_t> v[NSTREAMS];
};

struct Controller
{
	int cmd = -1, rep = -1;
	pid_t server = -1;
	bool start()
	{
		int mem = memfd_create("sim", 0);
		if (mem < 0 || ftruncate(mem, (off_t)kSharedSize) != 0)
			return false;
		int a[2], b[2];
		if (pipe(a) != 0 || pipe(b) != 0)
			return false;
		server = fork();
		if (server == 0)
		{
			// The descriptors are far below 20 in practice; move them out of the way first.
			int m = fcntl(mem, F_DUPFD, 40), x = fcntl(a[0], F_DUPFD, 40), y = fcntl(b[1], F_DUPFD, 40);
			dup2(m, FD_MEM);
			dup2(x, FD_CMD);
			dup2(y, FD_REP);
			int nul = open("/dev/null", O_RDWR);
			if (!getenv("SIM_STDERR"))
				dup2(nul, 2);
			for (int i = 3; i < 64; ++i)
				if (i != FD_MEM && i != FD_CMD && i != FD_REP)
					close(i);
			personality(ADDR_NO_RANDOMIZE);
			const char* const argv[] = {"server", nullptr};
			const char* const env[] = {"SIM=1",
				"ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:symbolize=0:"
				"detect_stack_use_after_return=0:max_allocation_size_mb=1024:handle_segv=1:handle_abort=0:print_summary=0:"
				"detect_container_overflow=1",
				nullptr};
			execve("/proc/self/exe", const_cast<char* const*>(argv), const_cast<char* const*>(env));
			_exit(91);
		}
		close(a[0]);
		close(b[1]);
		cmd = a[1];
		rep = b[0];
		gShared = static_cast<Shared*>(mmap(kSharedAddr, kSharedSize, PROT_READ | PROT_WRITE,
			MAP_SHARED | MAP_FIXED_NOREPLACE, mem, 0));
		close(mem);
		return gShared != MAP_FAILED;
	}
	bool go(bool render)
	{
		RunReport& r = gShared->rep;
		memset(&r, 0, offsetof(RunReport, render));
		gShared->wantRender = render;
		char c = 'r';
		if (write(cmd, &c, 1) != 1 || read(rep, &c, 1) != 1)
		{
			r.status = RS_ERROR;
			snprintf(r.msg, sizeof r.msg, "server is gone");
			return false;
		}
		return true;
	}
	bool seed(uint64_t s, bool render)
	{
		gShared->ch.seed(s);
		return go(render);
	}
	bool streams(const Streams& s, bool render)
	{
		gShared->ch.load(s.v);
		return go(render);
	}
};

uint64_t runSeed(const char* prop, uint64_t seed, uint64_t idx)
{
	uint64_t h = fnv(prop, strlen(prop));
	uint64_t s = h ^ (seed * 0x9E3779B97F4A7C15ull) ^ (idx * 0xD1342543DE82EF95ull + 12345);
	return splitmix(s);
}

std::string hex64(uint64_t x) { return fmt("%016llx", (unsigned long long)x); }

void writeText(const std::string& path, const std::string& s)
{
	std::ofstream o(path, std::ios::binary);
	o << s;
}

Streams current()
{
	Streams s;
	gShared->ch.save(s.v);
	return s;
}

std::string renderJson()
{
	std::string all(gShared->rep.render, gShared->rep.renderLen);
	std::string r = "[";
	std::istringstream is(all);
	std::string l;
	bool first = true;
	while (std::getline(is, l))
	{
		r += first ? "\n    " : ",\n    ";
		r += jsonStr(l);
		first = false;
	}
	return r + "]";
}

std::string replayJson(const Streams& s, uint64_t seed, uint64_t idx, uint64_t rs, const char* minimised)
{
	RunReport& r = gShared->rep;
	std::string o = "{\n";
	o += "  \"simulator\": " + jsonStr(kSimName) + ",\n";
	o += "  \"property\": " + jsonStr(gShared->prop) + ",\n";
	o += fmt("  \"verif_seed\": %llu,\n  \"run\": %llu,\n", (unsigned long long)seed, (unsigned long long)idx);
	o += "  \"run_seed\": \"" + hex64(rs) + "\",\n";
	o += "  \"class\": " + jsonStr(r.klass) + ",\n";
	o += "  \"violation\": " + jsonStr(r.msg) + ",\n";
	o += "  \"trace_hash\": \"" + hex64(r.traceHash) + "\",\n";
	o += "  \"minimised\": " + std::string(minimised) + ",\n";
	static const char* const names[] = {"scenario", "faults", "schedule"};
	o += "  \"choices\": {";
	for (int i = 0; i < NSTREAMS; ++i)
	{
		o += fmt("%s\n    \"%s\": [", i ? "," : "", names[i]);
		for (size_t k = 0; k < s.v[i].size(); ++k)
			o += fmt("%s%u", k ? "," : "", s.v[i][k]);
		o += "]";
	}
	o += "\n  },\n  \"trace\": " + renderJson() + "\n}\n";
	return o;
}

bool loadReplay(const std::string& path, Streams& s, std::string& prop, std::string& klass, std::string& hash)
{
	std::ifstream f(path, std::ios::binary);
	std::stringstream ss;
	ss << f.rdbuf();
	rapidjson::Document d;
	std::string t = ss.str();
	d.Parse(t.c_str());
	if (d.HasParseError() || !d.IsObject() || !d.HasMember("choices"))
		return false;
	prop = d["property"].GetString();
	klass = d["class"].GetString();
	hash = d["trace_hash"].GetString();
	static const char* const names[] = {"scenario", "faults", "schedule"};
	for (int i = 0; i < NSTREAMS; ++i)
		for (auto& x : d["choices"][names[i]].GetArray())
			s.v[i].push_back(x.GetUint());
	return true;
}

size_t weight(const Streams& s)
{
	size_t w = 0;
	for (auto& v : s.v)
		for (uint32_t x : v)
			w += 1 + (x != 0) + (x > 1);
	return w;
}

struct Shrinker
{
	Controller& c;
	std::string klass;
	Streams best;
	double until;
	uint64_t tries = 0, kept = 0;
	bool attempt(const Streams& s)
	{
		if (now() > until)
			return false;
		++tries;
		c.streams(s, false);
		if (gShared->rep.status != RS_VIOLATION || klass != gShared->rep.klass)
			return false;
		Streams got = current();
		// Drop trailing zeros: they are what a replay delivers anyway.
		for (auto& v : got.v)
			while (!v.empty() && v.back() == 0)
				v.pop_back();
		size_t wb = weight(best), wg = weight(got);
		if (wg > wb)
			return false;
		if (wg == wb)
		{
			// Same weight: accept only lexicographically smaller values.
			bool less = false;
			for (int i = 0; i < NSTREAMS && !less; ++i)
			{
				if (got.v[i] < best.v[i])
					less = true;
				else if (best.v[i] < got.v[i])
					return false;
			}
			if (!less)
				return false;
		}
		best = got;
		++kept;
		return true;
	}
	void run()
	{
		for (bool progress = true; progress && now() < until;)
		{
			progress = false;
			for (int i : {(int)FAULT, (int)SCHED, (int)SCEN})
			{
				// Truncate.
				for (size_t keep : {size_t(0), best.v[i].size() / 4, best.v[i].size() / 2})
				{
					Streams s = best;
					if (keep < s.v[i].size())
					{
						s.v[i].resize(keep);
						progress |= attempt(s);
					}
				}
				for (size_t len = std::max<size_t>(best.v[i].size() / 2, 1); len >= 1 && now() < until; len /= 2)
				{
					// Zero, then delete, chunks.
					for (int del = 0; del < 2; ++del)
						for (size_t at = 0; at < best.v[i].size() && now() < until;)
						{
							size_t n = std::min(len, best.v[i].size() - at);
							Streams s = best;
							bool useful = del;
							for (size_t k = at; k < at + n; ++k)
								useful |= s.v[i][k] != 0;
							if (del)
								s.v[i].erase(s.v[i].begin() + (long)at, s.v[i].begin() + (long)(at + n));
							else
								std::fill(s.v[i].begin() + (long)at, s.v[i].begin() + (long)(at + n), 0u);
							if (useful && attempt(s))
							{
								progress = true;
								if (!del)
									at += n;
							}
							else
								at += n;
						}
					if (len == 1)
						break;
				}
				for (size_t at = 0; at < best.v[i].size() && now() < until; ++at)
					while (at < best.v[i].size() && best.v[i][at] > 1)
					{
						Streams s = best;
						s.v[i][at] /= 2;
						if (attempt(s))
						{
							progress = true;
							continue;
						}
						s = best;
						s.v[i][at] -= 1;
						if (!attempt(s))
							break;
						progress = true;
					}
			}
		}
	}
};

void bindProp(const char* p, bool thorough)
{
	memset(gShared->prop, 0, sizeof gShared->prop);
	snprintf(gShared->prop, sizeof gShared->prop, "%s", p);
	gShared->thorough = thorough;
	const char* k = getenv("SIM_KNOWN");
	gShared->listKnown = !k || atoi(k) != 0;
}
}

// search PROP SEED START STRIDE SECONDS MAXRUNS THOROUGH OUT
static int search(Controller& c, char** a)
{
	bindProp(a[0], atoi(a[6]) != 0);
	uint64_t seed = strtoull(a[1], nullptr, 10), idx = strtoull(a[2], nullptr, 10), stride = strtoull(a[3], nullptr, 10);
	double secs = atof(a[4]), t0 = now();
	uint64_t maxRuns = strtoull(a[5], nullptr, 10);
	std::string out = a[7];
	std::unordered_set<uint64_t> traces, states, ntraces;
	std::map<std::string, uint64_t> knowns;
	uint64_t counters[kCounters] = {0}, runs = 0, steps = 0, nontrivial = 0, reruns = 0, maxSteps = 0, simTime = 0;
	std::vector<std::string> samples;
	std::string viol, flaky;
	bool error = false;
	for (; runs < maxRuns && now() - t0 < secs; idx += stride)
	{
		uint64_t rs = runSeed(a[0], seed, idx);
		bool render = runs < 2 || (runs % 977 == 0 && samples.size() < 4);
		c.seed(rs, render);
		RunReport& r = gShared->rep;
		if (render && r.status == RS_ERROR)
		{
			// Describing the run may fail where the run itself doesn't.
			render = false;
			c.seed(rs, false);
		}
		++runs;
		if (r.status == RS_ERROR)
		{
			viol = fmt("run %llu: harness error: %s", (unsigned long long)idx, r.msg);
			error = true;
			break;
		}
		if (r.status == RS_VIOLATION)
		{
			std::string klass = r.klass;
			uint64_t h = r.traceHash;
			Streams s = current();
			c.seed(rs, true);
			bool same = r.status == RS_VIOLATION && klass == r.klass && h == r.traceHash;
			if (same)
			{
				c.streams(s, true);
				same = r.status == RS_VIOLATION && klass == r.klass && h == r.traceHash;
			}
			if (!same)
			{
				// Not believed; keep looking for one that repeats.
				if (flaky.empty())
					flaky = fmt("run %llu: violation %s does not repeat (%s %s)", (unsigned long long)idx,
						klass.c_str(), r.klass, r.msg);
				continue;
			}
			writeText(out + ".viol.json", replayJson(s, seed, idx, rs, "false"));
			viol = fmt("%s: %s", r.klass, r.msg);
			break;
		}
		steps += r.steps;
		simTime += r.simTime;
		maxSteps = std::max(maxSteps, r.steps);
		traces.insert(r.traceHash);
		states.insert(r.stateHash);
		if (r.nontrivial)
		{
			++nontrivial;
			ntraces.insert(r.traceHash);
		}
		for (int i = 0; i < kCounters; ++i)
			counters[i] += r.counters[i];
		if (r.known)
		{
			uint64_t& k = knowns[r.knownMsg];
			++k;
		}
		if (render && samples.size() < 4)
			samples.push_back(std::string(r.render, std::min<size_t>(r.renderLen, 3000)));
		// Determinism self-check: every 64th run is executed twice.
		if (runs % 64 == 1)
		{
			uint64_t h = r.traceHash, st = r.stateHash;
			int k = r.status;
			c.seed(rs, false);
			++reruns;
			if (h != r.traceHash || st != r.stateHash || k != r.status)
			{
				if (flaky.empty())
					flaky = fmt("run %llu is not deterministic: trace %s / %s, status %d / %d %s", (unsigned long long)idx,
						hex64(h).c_str(), hex64(r.traceHash).c_str(), k, r.status, r.msg);
			}
		}
	}
	if (viol.empty() && !flaky.empty())
	{
		viol = flaky;
		error = true;
	}
	std::string o = "{\n";
	o += fmt("\"runs\": %llu, \"steps\": %llu, \"max_steps\": %llu, \"sim_ns\": %llu, \"nontrivial\": %llu, \"reruns\": %llu, \"wall\": %.3f,\n",
		(unsigned long long)runs, (unsigned long long)steps, (unsigned long long)maxSteps, (unsigned long long)simTime,
		(unsigned long long)nontrivial, (unsigned long long)reruns, now() - t0);
	o += fmt("\"error\": %s, \"violated\": %s, \"index\": %llu, \"message\": ", error ? "true" : "false",
		!viol.empty() && !error ? "true" : "false", (unsigned long long)idx) + jsonStr(viol) + ",\n";
	o += "\"counters\": {";
	bool first = true;
	for (int i = 0; i < kCounters && kCounterNames[i]; ++i)
	{
		o += fmt("%s\"%s\": %llu", first ? "" : ", ", kCounterNames[i], (unsigned long long)counters[i]);
		first = false;
	}
	o += "},\n\"known\": {";
	first = true;
	for (auto& k : knowns)
	{
		o += (first ? "" : ", ") + jsonStr(k.first) + fmt(": %llu", (unsigned long long)k.second);
		first = false;
	}
	o += "},\n\"samples\": [";
	first = true;
	for (auto& s : samples)
	{
		o += (first ? "\n" : ",\n") + jsonStr(s);
		first = false;
	}
	o += "]\n}\n";
	writeText(out, o);
	auto dump = [&](const char* suffix, const std::unordered_set<uint64_t>& s)
	{
		std::vector<uint64_t> v(s.begin(), s.end());
		writeText(out + suffix, std::string(reinterpret_cast<const char*>(v.data()), v.size() * 8));
	};
	dump(".traces", traces);
	dump(".ntraces", ntraces);
	dump(".states", states);
	return 0;
}

// shrink IN SECONDS THOROUGH OUT
static int shrink(Controller& c, char** a)
{
	Streams s;
	std::string prop, klass, hash;
	if (!loadReplay(a[0], s, prop, klass, hash))
		return 3;
	bindProp(prop.c_str(), atoi(a[2]) != 0);
	std::ifstream f(a[0], std::ios::binary);
	std::stringstream ss;
	ss << f.rdbuf();
	rapidjson::Document d;
	std::string t = ss.str();
	d.Parse(t.c_str());
	Shrinker k{c, klass, s, now() + atof(a[1])};
	k.run();
	c.streams(k.best, true);
	if (gShared->rep.status != RS_VIOLATION)
		return 4;
	std::string info = fmt("{\"tried\": %llu, \"accepted\": %llu, \"weight_before\": %zu, \"weight_after\": %zu}",
		(unsigned long long)k.tries, (unsigned long long)k.kept, weight(s), weight(k.best));
	writeText(a[3], replayJson(k.best, d["verif_seed"].GetUint64(), d["run"].GetUint64(),
		strtoull(d["run_seed"].GetString(), nullptr, 16), info.c_str()));
	return 0;
}

// replay FILE [THOROUGH]: exit 1 when the violation is reproduced exactly, 0 when it is not there any more.
static int replay(Controller& c, char** a, bool quiet)
{
	Streams s;
	std::string prop, klass, hash;
	if (!loadReplay(a[0], s, prop, klass, hash))
	{
		fprintf(stderr, "cannot read replay file %s\n", a[0]);
		return 2;
	}
	bindProp(prop.c_str(), false);
	c.streams(s, true);
	RunReport& r = gShared->rep;
	if (!quiet)
		fwrite(r.render, 1, r.renderLen, stdout);
	printf("status=%d class=%s trace_hash=%s expected=%s\n%s\n", r.status, r.klass, hex64(r.traceHash).c_str(),
		hash.c_str(), r.msg);
	if (r.status == RS_VIOLATION)
		return klass == r.klass && hash == hex64(r.traceHash) ? 1 : 5;
	return r.status == RS_OK ? 0 : 2;
}

// one PROP SEED IDX: renders one run.
static int one(Controller& c, char** a)
{
	bindProp(a[0], false);
	c.seed(runSeed(a[0], strtoull(a[1], nullptr, 10), strtoull(a[2], nullptr, 10)), true);
	RunReport& r = gShared->rep;
	fwrite(r.render, 1, r.renderLen, stdout);
	printf("status=%d class=%s trace=%s state=%s steps=%llu known=%s\n%s\n", r.status, r.klass,
		hex64(r.traceHash).c_str(), hex64(r.stateHash).c_str(), (unsigned long long)r.steps, r.knownMsg, r.msg);
	for (int i = 0; i < kCounters && kCounterNames[i]; ++i)
		if (r.counters[i])
			printf("  %s=%llu\n", kCounterNames[i], (unsigned long long)r.counters[i]);
	return r.status;
}

// hashes PROP SEED FROM COUNT: prints the trace hash of each run (determinism comparisons).
static int hashes(Controller& c, char** a)
{
	bindProp(a[0], false);
	uint64_t from = strtoull(a[2], nullptr, 10), n = strtoull(a[3], nullptr, 10);
	for (uint64_t i = from; i < from + n; ++i)
	{
		c.seed(runSeed(a[0], strtoull(a[1], nullptr, 10), i), false);
		RunReport& r = gShared->rep;
		printf("%llu %s %s %d %s\n", (unsigned long long)i, hex64(r.traceHash).c_str(), hex64(r.stateHash).c_str(),
			r.status, r.klass);
	}
	return 0;
}

int main(int argc, char** argv)
{
	if (argc == 1 && strcmp(argv[0], "server") == 0)
		return serverMain();
	signal(SIGPIPE, SIG_IGN);
	Controller c;
	if (!c.start())
	{
		fprintf(stderr, "cannot start the simulation server\n");
		return 2;
	}
	std::string m = argc > 1 ? argv[1] : "";
	if (m == "search" && argc == 10)
		return search(c, argv + 2);
	if (m == "shrink" && argc == 6)
		return shrink(c, argv + 2);
	if (m == "replay" && argc >= 3)
		return replay(c, argv + 2, argc > 3);
	if (m == "one" && argc == 5)
		return one(c, argv + 2);
	if (m == "hashes" && argc == 6)
		return hashes(c, argv + 2);
	fprintf(stderr, "usage: search PROP SEED START STRIDE SECONDS MAXRUNS THOROUGH OUT | shrink IN SECONDS THOROUGH OUT | "
		"replay FILE | one PROP SEED IDX | hashes PROP SEED FROM COUNT\n");
	return 2;
}
