// Choice streams, hashing and small helpers shared by both simulators.
//
// Every nondeterministic decision of a simulated run is drawn from one of three recorded choice
// streams (scenario, faults, schedule). A run is a pure function of the three streams and the code
// under test: in search mode the values come from a PRNG seeded by one integer, in replay mode from
// a replay file, and the minimiser edits the recorded values. By convention 0 is the simplest value
// (smallest size, no fault, keep running the same task).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

enum StreamId { SCEN = 0, FAULT = 1, SCHED = 2, NSTREAMS = 3 };

constexpr uint32_t kStreamCap = 1u << 15;

inline uint64_t splitmix(uint64_t& s)
{
	uint64_t z = (s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
	auto b = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n; ++i)
	{
		h ^= b[i];
		h *= 0x100000001b3ull;
	}
	return h;
}
inline uint64_t fnvs(const std::string& s, uint64_t h = 0xcbf29ce484222325ull)
{
	return fnv(s.data(), s.size(), h);
}

// Lives in shared memory, so that simulated processes can draw as well as the simulator.
struct Choices
{
	uint64_t rng[NSTREAMS];
	uint32_t pos[NSTREAMS];    // Number of draws made.
	uint32_t given[NSTREAMS];  // Number of values provided in replay mode.
	uint32_t replay;
	uint32_t val[NSTREAMS][kStreamCap];

	void seed(uint64_t s)
	{
		replay = 0;
		for (int i = 0; i < NSTREAMS; ++i)
		{
			pos[i] = given[i] = 0;
			uint64_t t = s + 0x1000003ull * (i + 1);
			rng[i] = splitmix(t) ^ (s << 1);
		}
	}
	void load(const std::vector<uint32_t> v[NSTREAMS])
	{
		replay = 1;
		for (int i = 0; i < NSTREAMS; ++i)
		{
			pos[i] = 0;
			given[i] = (uint32_t)std::min<size_t>(v[i].size(), kStreamCap);
			std::memcpy(val[i], v[i].data(), given[i] * sizeof(uint32_t));
		}
	}
	void save(std::vector<uint32_t> v[NSTREAMS]) const
	{
		for (int i = 0; i < NSTREAMS; ++i)
			v[i].assign(val[i], val[i] + std::min(pos[i], kStreamCap));
	}
	// Uniform value in [0, n).
	uint32_t draw(int s, uint32_t n)
	{
		if (n <= 1)
			return 0;
		uint32_t p = pos[s];
		if (p >= kStreamCap)
			return 0;
		pos[s] = p + 1;
		if (replay)
		{
			if (p >= given[s])
			{
				val[s][p] = 0;
				return 0;
			}
			return val[s][p] = val[s][p] % n;
		}
		return val[s][p] = (uint32_t)((splitmix(rng[s]) >> 11) % n);
	}
	bool chance(int s, uint32_t num, uint32_t den) { return draw(s, den) >= den - num; }
};

// Bulk pseudo-random data derived from a single choice.
struct Bulk
{
	uint64_t s;
	explicit Bulk(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 7) {}
	uint32_t operator()(uint32_t n) { return (uint32_t)((splitmix(s) >> 11) % n); }
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
inline std::string fmt(const char* f, ...)
{
	char buf[2048];
	va_list ap;
	va_start(ap, f);
	int n = vsnprintf(buf, sizeof(buf), f, ap);
	va_end(ap);
	if (n < 0)
		return "";
	return std::string(buf, std::min<size_t>((size_t)n, sizeof(buf) - 1));
}

inline std::string jsonStr(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
		{
			r += '\\';
			r += (char)c;
		}
		else if (c == '\n')
			r += "\\n";
		else if (c < 0x20 || c >= 0x7f)
		{
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			r += b;
		}
		else
			r += (char)c;
	}
	return r + "\"";
}
