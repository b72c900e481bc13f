// Simulated threads, allocator and synchronisation for the library under test.
//
// Threads are real pthreads of which exactly one runs at a time; who runs is drawn from the schedule
// stream at every instrumented memory access that the current slice ends on, and whenever a thread
// blocks or ends. The library is compiled with -fsanitize=thread, whose entry points are implemented
// here: they are the preemption points and feed a vector-clock race detector.
#pragma once
#include "../common/runner.h"
#include <functional>

namespace ls
{
constexpr int kMaxThreads = 12; // Including the coordinator, number 0. Threads that the library starts count from the end.

struct T
{
	int id = 0;
	int inSut = 0;          // Nesting of calls into the library; 0 inside callbacks.
	uint64_t steps = 0;     // Instrumented accesses.
	uint64_t callStart = 0; // Accesses before the current call.
	int64_t budget = -1;    // Accesses until the next preemption, negative for none.
	uint64_t allocs = 0;    // Allocations of the current call.
	int64_t failAt = -1;    // Allocation of the current call that fails.
	bool failSticky = false;
	uint32_t allocFailed = 0;
	uint32_t vc[kMaxThreads] = {0};
	char *stackLo = nullptr, *stackHi = nullptr;
	int state = 0;          // 0 unused, 1 ready, 2 blocked, 3 done.
	const void* waitOn = nullptr;
	// Threads that the library started.
	bool spawned = false, detached = false;
	void* (*fn)(void*) = nullptr;
	void *arg = nullptr, *ret = nullptr;
};
T* me();
void yieldNow(T* t); // Lets another thread run, when there is one.

struct Config
{
	int gapMode = 0;        // 0: no preemption; otherwise the scale of the slices.
	bool hot = false;       // Also consider switching after accesses to the library's globals and synchronisation.
	uint8_t fillNew = 0xA5, fillFree = 0xDD;
	uint32_t pad = 0;       // Varies the placement of blocks.
	uint32_t maxSwitches = 3000;
	uint32_t world = 0;     // Clocks, environment, entropy and so on as the library sees them.
};
extern Config cfg;

struct Stats
{
	uint64_t steps, switches, allocs, allocFails, syncOps, blocked, shadowFull, spawns, envReads;
};
extern Stats stats;

void init();                                        // In the pristine server.
void begin();                                       // At the start of a run.
void run(const std::vector<std::function<void()>>& fns); // Runs threads to completion.
void note(uint64_t x);                              // Adds to the trace.
uint64_t traceHash();
// Blocks that the library allocated and that nothing refers to any more.
size_t leaks(std::string& what);
void markBaseline();

// Marks a call into the library.
struct Sut
{
	Sut() { ++me()->inSut; }
	~Sut() { --me()->inSut; }
};
// Marks a callback out of the library.
struct Out
{
	int saved;
	Out() : saved(me()->inSut) { me()->inSut = 0; }
	~Out() { me()->inSut = saved; }
};
void scribbleStack(uint8_t v);
extern bool farRun; // The run has vertices far from the start of the data.
void crashExit(const char* klass, const std::string& msg); // Records the violation and ends the run.
extern void (*finishRun)(); // Completes the report.
extern thread_local const char* doing;
}
