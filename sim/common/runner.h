// Runs simulations: a controller process (search, minimise, replay) drives a pristine server process
// that forks one fresh process per simulated run, so that a run is a pure function of its choices.
#pragma once
#include "core.h"

enum { RS_OK = 0, RS_VIOLATION = 1, RS_ERROR = 2 };
constexpr int kCounters = 96;
constexpr size_t kRenderCap = 1 << 18;

struct RunReport
{
	int status;
	char klass[96];  // Class of the violation, stable under minimisation.
	char msg[4096];
	uint64_t traceHash; // Over every simulated event and its result.
	uint64_t stateHash; // Over the outcome (or the schedule, see the simulator).
	uint64_t steps;     // Simulated events.
	uint64_t simTime;   // Simulated nanoseconds.
	uint32_t nontrivial;
	uint32_t known;     // Known findings met.
	char knownMsg[1024];
	uint64_t counters[kCounters];
	uint32_t renderLen;
	char render[kRenderCap];
};

struct Shared
{
	char prop[8];
	uint32_t thorough;
	uint32_t wantRender;
	uint32_t listKnown; // The known findings are listed, so they are not violations.
	Choices ch;
	RunReport rep;
};

// Provided by each simulator.
extern const char* const kSimName;
extern const char* const kCounterNames[kCounters]; // nullptr terminated.
void simServerInit(Shared& sh);                     // Once, in the pristine server.
void simRun(Shared& sh);                            // In a fresh process.
uint64_t simCpuLimitSeconds();

// For simRun.
extern Shared* gShared;
void report(const char* klass, const std::string& msg); // Records a violation; keeps the first one.
void harnessError(const std::string& msg);
void renderLine(const std::string& s);
inline void count(int c, uint64_t n = 1) { gShared->rep.counters[c] += n; }
