#include "sched.h"
#include <cerrno>
#include <clocale>
#include <cstdarg>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <strings.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

namespace ls
{
Config cfg;
Stats stats;
void (*finishRun)() = nullptr;
thread_local const char* doing = "";

static T threads[kMaxThreads];
static sem_t sems[kMaxThreads];
static sem_t mainSem;
static int nthreads = 0;       // Highest number in use + 1 while threads run.
static bool running = false;   // Simulated threads are active.
static uint64_t trace;
static uint64_t switchesLeft;
static thread_local T* self = nullptr;

T* me() { return self ? self : &threads[0]; }

void note(uint64_t x) { trace = (trace ^ x) * 0x100000001b3ull; trace ^= trace >> 29; }
uint64_t traceHash() { return trace; }

bool farRun;

void crashExit(const char* klass, const std::string& msg)
{
	// With billions of vertices of which few are used, it is fair to need time or memory for each of them.
	if (!farRun || (strcmp(klass, "hang") != 0 && strcmp(klass, "memory-growth") != 0))
		report(klass, msg);
	if (finishRun)
		finishRun();
	_exit(0);
}

//--------------------------------------------------------------------------------------------------
// Where the library's code and data are.

static uintptr_t soLo, soHi, rwLo[4], rwHi[4];
static int nrw;

static int phdr(dl_phdr_info* i, size_t, void*)
{
	if (!i->dlpi_name || !strstr(i->dlpi_name, "libsut."))
		return 0;
	for (int k = 0; k < i->dlpi_phnum; ++k)
	{
		auto& p = i->dlpi_phdr[k];
		if (p.p_type != PT_LOAD)
			continue;
		uintptr_t a = i->dlpi_addr + p.p_vaddr, b = a + p.p_memsz;
		if (!soLo || a < soLo)
			soLo = a;
		if (b > soHi)
			soHi = b;
		if ((p.p_flags & PF_W) && nrw < 4)
		{
			rwLo[nrw] = a;
			rwHi[nrw++] = b;
		}
	}
	return 0;
}

static bool isGlobal(uintptr_t a)
{
	for (int i = 0; i < nrw; ++i)
		if (a >= rwLo[i] && a < rwHi[i])
			return true;
	return false;
}

//--------------------------------------------------------------------------------------------------
// Scheduler.

static void waitSem(sem_t* s)
{
	while (sem_wait(s) != 0)
		;
}

static void newSlice(T* t)
{
	Choices& c = gShared->ch;
	if (!cfg.gapMode || switchesLeft == 0)
	{
		t->budget = -1;
		return;
	}
	static const uint32_t scale[] = {0, 4, 24, 160, 1200, 9000};
	uint32_t d = c.draw(SCHED, scale[cfg.gapMode] + 1);
	// 0 is the simplest choice: run on without preemption for long.
	t->budget = d == 0 ? 30000 : (int64_t)d;
}

static void switchTo(T* from, int id, bool park)
{
	++stats.switches;
	note(0x5317000000ull + (uint64_t)from->id * 16 + (uint64_t)id);
	note(from->steps);
	sem_post(&sems[id]);
	if (park)
		waitSem(&sems[from->id]);
}

// Picks another ready thread, or -1.
static int pick(T* t, bool includeSelf)
{
	int c[kMaxThreads], n = 0;
	if (includeSelf)
		c[n++] = t->id;
	for (int i = 1; i < nthreads; ++i)
		if (i != t->id && threads[i].state == 1)
			c[n++] = i;
	if (!n)
		return -1;
	return c[gShared->ch.draw(SCHED, (uint32_t)n)];
}

static void preempt(T* t)
{
	if (switchesLeft)
		--switchesLeft;
	int saved = t->inSut;
	int id = pick(t, true);
	if (id > 0 && id != t->id)
		switchTo(t, id, true);
	t->inSut = saved;
	newSlice(t);
}

static volatile int ended;
static sem_t endSem;
static int mainsLeft;

static void block(T* t, const void* on)
{
	t->state = 2;
	t->waitOn = on;
	++stats.blocked;
	int id = pick(t, false);
	if (id < 0 && mainsLeft)
		crashExit("deadlock", fmt("every thread waits for a lock inside the library (thread %d in %s)", t->id, doing));
	if (id < 0)
	{
		// Only threads of the library are left, and wait for work.
		ended = -1;
		sem_post(&endSem);
		waitSem(&sems[t->id]);
	}
	else
		switchTo(t, id, true);
	t->waitOn = nullptr;
	newSlice(t);
}

constexpr uint64_t kYieldLimit = 3000000;

// Lets another thread run, when there is one.
void yieldNow(T* t)
{
	++t->steps;
	if (t->steps > t->callStart + kYieldLimit)
		crashExit("hang", fmt("no progress after %llu waits in %s", (unsigned long long)kYieldLimit, doing));
	int id = running && self ? pick(t, false) : -1;
	if (id < 0)
		return;
	int saved = t->inSut;
	switchTo(t, id, true);
	t->inSut = saved;
	newSlice(t);
}

static void wake(const void* on)
{
	for (int i = 1; i < nthreads; ++i)
		if (threads[i].state == 2 && threads[i].waitOn == on)
			threads[i].state = 1;
}

static const std::function<void()>* bodies[kMaxThreads];
static pthread_t handles[kMaxThreads];
using CreateFn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
using JoinFn = int (*)(pthread_t, void**);
static CreateFn realCreate;
static JoinFn realJoin;
constexpr size_t kSpawnStack = 512 * 1024;

// Waits until some thread has ended completely, or until (-1) the library's own threads wait for work.
static int joinAny()
{
	waitSem(&endSem);
	int i = ended;
	if (i >= 0)
		realJoin(handles[i], nullptr);
	return i;
}

// Threads that ended and were not joined yet. Their handles stay taken.
struct Gone
{
	pthread_t h;
	void* ret;
	char* stack;
	uint32_t vc[kMaxThreads];
};
static std::vector<Gone>* gone;
static char slotFreed;

static bool spawnedAlive()
{
	for (int i = 1; i < kMaxThreads; ++i)
		if (threads[i].spawned && (threads[i].state == 1 || threads[i].state == 2))
			return true;
	return false;
}

static void resetThread(int i, const T* parent)
{
	T& t = threads[i];
	uint32_t keep[kMaxThreads];
	memcpy(keep, t.vc, sizeof keep);
	t = T();
	t.id = i;
	t.state = 1;
	for (int k = 0; k < kMaxThreads; ++k)
		t.vc[k] = std::max(keep[k], parent->vc[k]);
	++t.vc[i];
	sem_init(&sems[i], 0, 0);
}

static void* threadMain(void* p)
{
	T* t = static_cast<T*>(p);
	self = t;
	pthread_attr_t a;
	pthread_getattr_np(pthread_self(), &a);
	void* lo;
	size_t sz;
	pthread_attr_getstack(&a, &lo, &sz);
	pthread_attr_destroy(&a);
	t->stackLo = static_cast<char*>(lo);
	t->stackHi = t->stackLo + sz;
	sem_post(&mainSem);
	waitSem(&sems[t->id]);
	newSlice(t);
	(*bodies[t->id])();
	t->state = 3;
	ended = t->id;
	sem_post(&endSem);
	// Thread-local objects of the library are destroyed next; the coordinator picks who runs after that.
	return nullptr;
}

void run(const std::vector<std::function<void()>>& fns)
{
	T* m = &threads[0];
	nthreads = (int)fns.size() + 1;
	mainsLeft = (int)fns.size();
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 512 * 1024);
	for (int i = 1; i < nthreads; ++i)
	{
		resetThread(i, m);
		bodies[i] = &fns[(size_t)i - 1];
		if (realCreate(&handles[i], &a, threadMain, &threads[i]) != 0)
		{
			harnessError("pthread_create failed");
			_exit(0);
		}
		waitSem(&mainSem);
	}
	++m->vc[0];
	bool pool = spawnedAlive();
	if (pool)
		nthreads = kMaxThreads;
	running = fns.size() > 1 || pool;
	switchesLeft = cfg.maxSwitches;
	int cur = 1 + (int)gShared->ch.draw(SCHED, (uint32_t)fns.size());
	for (;;)
	{
		sem_post(&sems[cur]);
		int done = joinAny();
		if (done < 0)
			break;
		note(0xD0E0000ull + (uint64_t)done);
		T& t = threads[done];
		if (t.spawned)
		{
			stats.steps += t.steps;
			wake(&t);
			if (t.detached)
				munmap(t.stackLo, kSpawnStack);
			else
			{
				gone->push_back(Gone{handles[done], t.ret, t.stackLo, {}});
				memcpy(gone->back().vc, t.vc, sizeof t.vc);
			}
			t.state = 0;
			t.spawned = false;
			wake(&slotFreed);
		}
		else
			--mainsLeft;
		cur = pick(m, false);
		if (cur >= 0)
			continue;
		if (!mainsLeft)
			break;
		crashExit("deadlock", "a thread waits for a lock that nobody will release");
	}
	running = false;
	for (int i = 1; i < kMaxThreads; ++i)
	{
		for (int k = 0; k < kMaxThreads; ++k)
			m->vc[k] = std::max(m->vc[k], threads[i].vc[k]);
		if (threads[i].spawned)
			continue;
		stats.steps += threads[i].steps;
		threads[i].steps = 0;
		threads[i].state = 0;
	}
	++m->vc[0];
	pthread_attr_destroy(&a);
	nthreads = 0;
}

// A thread that the library starts.
static void* spawnMain(void* p)
{
	T* t = static_cast<T*>(p);
	self = t;
	doing = "a thread that the library started";
	sem_post(&mainSem);
	waitSem(&sems[t->id]);
	newSlice(t);
	t->inSut = 1;
	t->ret = t->fn(t->arg);
	t->inSut = 0;
	t->state = 3;
	ended = t->id;
	sem_post(&endSem);
	return nullptr;
}

static int spawn(T* t, pthread_t* h, void* (*fn)(void*), void* arg)
{
	int id;
	for (;;)
	{
		for (id = kMaxThreads - 1; id > 4 && threads[id].state != 0; --id)
			;
		if (id > 4)
			break;
		// Until another one ends, creating one takes long.
		if (pick(t, false) < 0)
			return EAGAIN;
		block(t, &slotFreed);
	}
	++stats.spawns;
	nthreads = kMaxThreads;
	running = true;
	resetThread(id, t);
	++t->vc[t->id];
	T& n = threads[id];
	n.spawned = true;
	n.fn = fn;
	n.arg = arg;
	n.budget = -1;
	// A handle that no other thread gets before this one is joined.
	n.stackLo = static_cast<char*>(mmap(nullptr, kSpawnStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	n.stackHi = n.stackLo + kSpawnStack;
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstack(&a, n.stackLo, kSpawnStack);
	if (realCreate(&handles[id], &a, spawnMain, &n) != 0)
	{
		harnessError("pthread_create failed");
		_exit(0);
	}
	pthread_attr_destroy(&a);
	*h = handles[id];
	waitSem(&mainSem);
	return 0;
}

static T* spawnedBy(pthread_t h)
{
	for (int i = 1; i < kMaxThreads; ++i)
		if (threads[i].spawned && pthread_equal(handles[i], h))
			return &threads[i];
	return nullptr;
}

//--------------------------------------------------------------------------------------------------
// Race detector.

struct Cell
{
	uintptr_t key;
	uint32_t w[8];                // Clock of the last write of each byte...
	uint8_t wt[8];                // ... and its thread.
	uint32_t r[kMaxThreads][8];   // Clock of the last read of each byte by each thread.
};
constexpr uint32_t kCells = 1u << 15;
static Cell* cells;
static uint32_t usedCells;

static Cell* cell(uintptr_t key, bool make)
{
	uint32_t h = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> 49);
	for (uint32_t n = 0; n < 64; ++n)
	{
		Cell& c = cells[(h + n) & (kCells - 1)];
		if (c.key == key)
			return &c;
		if (!c.key)
		{
			if (!make || usedCells > kCells * 3 / 4)
			{
				stats.shadowFull += make;
				return nullptr;
			}
			c.key = key;
			++usedCells;
			return &c;
		}
	}
	stats.shadowFull += make;
	return nullptr;
}

static void forgetSyncs(uintptr_t a, size_t n);

static void forget(uintptr_t a, size_t n)
{
	forgetSyncs(a, n);
	if (!cells || !usedCells)
		return;
	for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3 && n; ++k)
		if (Cell* c = cell(k, false))
		{
			uintptr_t key = c->key;
			memset(c, 0, sizeof *c);
			c->key = key; // Keeps probe chains intact.
		}
}

static std::string where(uintptr_t a)
{
	Dl_info d;
	if (dladdr(reinterpret_cast<void*>(a), &d) && d.dli_sname)
	{
		int st;
		char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
		std::string r = n ? n : d.dli_sname;
		free(n);
		return r + fmt("+0x%lx", (unsigned long)(a - (uintptr_t)d.dli_saddr));
	}
	if (a >= soLo && a < soHi)
		return fmt("libsut+0x%lx", (unsigned long)(a - soLo));
	return isGlobal(a) ? "a global" : "heap or other memory";
}

static void race(T* t, uintptr_t a, bool w, int other, bool ow, void* pc)
{
	t->inSut = 0;
	crashExit("race", fmt("unsynchronised %s by thread %d (in %s, at %s) of memory %s by thread %d: %s%s", w ? "write" : "read", t->id,
		doing, where((uintptr_t)pc).c_str(), ow ? "written" : "read", other, where(a).c_str(), isGlobal(a) ? " (global data of the library)" : ""));
}

static void checkRace(T* t, uintptr_t a, size_t n, bool w, void* pc)
{
	while (n)
	{
		uint32_t at = a & 7, len = (uint32_t)std::min<size_t>(n, 8 - at);
		if (Cell* c = cell(a >> 3, true))
			for (uint32_t b = at; b < at + len; ++b)
			{
				if (c->w[b] && c->wt[b] != t->id && c->w[b] > t->vc[c->wt[b]])
					race(t, (a & ~7ull) + b, w, c->wt[b], true, pc);
				if (w)
				{
					for (int k = 1; k < kMaxThreads; ++k)
						if (k != t->id && c->r[k][b] && c->r[k][b] > t->vc[k])
							race(t, (a & ~7ull) + b, w, k, false, pc);
					c->w[b] = t->vc[t->id];
					c->wt[b] = (uint8_t)t->id;
				}
				else
					c->r[t->id][b] = t->vc[t->id];
			}
		a += len;
		n -= len;
	}
}

constexpr uint64_t kStepLimit = 300000000;

static void access(const void* p, size_t n, bool w, void* pc)
{
	T* t = self;
	if (!t || !t->inSut)
		return;
	++t->steps;
	if (t->steps > t->callStart + (farRun ? kStepLimit / 10 : kStepLimit))
		crashExit("hang", fmt("no progress after %llu memory accesses in %s", (unsigned long long)kStepLimit, doing));
	if (!running)
		return;
	if (p >= t->stackLo && p < t->stackHi)
		return;
	uintptr_t a = (uintptr_t)p;
	checkRace(t, a, n, w, pc);
	if (t->budget > 0 && --t->budget == 0)
		preempt(t);
	else if (cfg.hot && switchesLeft && isGlobal(a) && gShared->ch.draw(SCHED, 4) == 3)
		preempt(t);
}

//--------------------------------------------------------------------------------------------------
// Synchronisation objects, by address.

struct Sync
{
	uintptr_t addr;
	uint32_t vc[kMaxThreads];
	int owner, depth, readers; // Mutexes and locks; owner -1 for none.
	int state;                 // Once: 0 new, 1 running, 2 done.
};
constexpr int kSyncs = 1 << 16;
static Sync syncs[kSyncs];
static int usedSyncs[kSyncs], nUsedSyncs;

static Sync& sync(const void* p)
{
	uintptr_t a = (uintptr_t)p;
	uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 48);
	for (int n = 0; n < kSyncs; ++n)
	{
		int at = (int)((h + (uint32_t)n) % kSyncs);
		Sync& s = syncs[at];
		if (s.addr == a)
			return s;
		if (!s.addr)
		{
			s.addr = a;
			s.owner = -1;
			usedSyncs[nUsedSyncs++] = at;
			return s;
		}
	}
	harnessError("too many synchronisation objects");
	_exit(0);
}

// Objects in memory that is used anew start anew.
static void forgetSyncs(uintptr_t a, size_t n)
{
	for (int k = 0; k < nUsedSyncs; ++k)
		if (int at = usedSyncs[k]; syncs[at].addr - a < n)
		{
			uintptr_t addr = syncs[at].addr;
			memset(&syncs[at], 0, sizeof(Sync));
			syncs[at].addr = addr; // Keeps probe chains intact.
			syncs[at].owner = -1;
		}
}

static void acquire(T* t, Sync& s)
{
	for (int k = 0; k < kMaxThreads; ++k)
		t->vc[k] = std::max(t->vc[k], s.vc[k]);
}
static void releaseTo(T* t, Sync& s)
{
	for (int k = 0; k < kMaxThreads; ++k)
		s.vc[k] = std::max(s.vc[k], t->vc[k]);
	++t->vc[t->id];
}
static void syncPoint(T* t)
{
	++stats.syncOps;
	if (!running || !self)
		return;
	++t->steps;
	if (t->steps > t->callStart + kStepLimit)
		crashExit("hang", fmt("no progress after %llu steps in %s", (unsigned long long)kStepLimit, doing));
	if (t->budget > 0 && --t->budget == 0)
		preempt(t);
	else if (cfg.hot && switchesLeft && gShared->ch.draw(SCHED, 4) == 3)
		preempt(t);
}

static int lockMutex(const void* p, bool tryOnly)
{
	T* t = me();
	syncPoint(t);
	for (;;)
	{
		Sync& s = sync(p);
		if (s.owner < 0 && s.readers == 0)
		{
			s.owner = t->id;
			s.depth = 1;
			acquire(t, s);
			return 0;
		}
		if (s.owner == t->id)
		{
			const pthread_mutex_t* m = static_cast<const pthread_mutex_t*>(p);
			if (m->__data.__kind & PTHREAD_MUTEX_RECURSIVE_NP)
			{
				++s.depth;
				return 0;
			}
			if (tryOnly)
				return EBUSY;
			crashExit("deadlock", fmt("thread %d locks a mutex it already holds (in %s)", t->id, doing));
		}
		if (tryOnly)
			return EBUSY;
		block(t, p);
	}
}

static int unlockMutex(const void* p)
{
	T* t = me();
	Sync& s = sync(p);
	if (s.owner != t->id)
		return 0;
	if (--s.depth > 0)
		return 0;
	s.owner = -1;
	releaseTo(t, s);
	wake(p);
	syncPoint(t);
	return 0;
}

static int lockShared(const void* p, bool write, bool tryOnly)
{
	T* t = me();
	syncPoint(t);
	for (;;)
	{
		Sync& s = sync(p);
		if (s.owner < 0 && (!write || s.readers == 0))
		{
			if (write)
				s.owner = t->id;
			else
				++s.readers;
			acquire(t, s);
			return 0;
		}
		if (tryOnly)
			return EBUSY;
		if (s.owner == t->id)
			crashExit("deadlock", fmt("thread %d locks a lock it already holds (in %s)", t->id, doing));
		block(t, p);
	}
}

static int unlockShared(const void* p)
{
	T* t = me();
	Sync& s = sync(p);
	if (s.owner == t->id)
		s.owner = -1;
	else if (s.readers > 0)
		--s.readers;
	releaseTo(t, s);
	wake(p);
	syncPoint(t);
	return 0;
}

//--------------------------------------------------------------------------------------------------
// Allocator.

struct Block
{
	uintptr_t p;
	size_t n;
	uint32_t seq;
	uint8_t sut, mark;
};
constexpr uint32_t kBlocks = 1u << 16;
static Block* blocks;
static uint32_t nblocks, blockSeq;
static uint32_t baselineSeq;

static uint32_t bhash(uintptr_t p) { return (uint32_t)(((p >> 4) * 0x9E3779B97F4A7C15ull) >> 48); }

static void addBlock(void* p, size_t n, bool sut)
{
	if (!blocks || !sut)
		return;
	if (nblocks > kBlocks / 2)
		return;
	for (uint32_t h = bhash((uintptr_t)p);; h = (h + 1) & (kBlocks - 1))
		if (!blocks[h].p)
		{
			blocks[h] = Block{(uintptr_t)p, n, ++blockSeq, 1, 0};
			++nblocks;
			return;
		}
}

static Block* findBlock(uintptr_t p)
{
	for (uint32_t h = bhash(p);; h = (h + 1) & (kBlocks - 1))
	{
		if (blocks[h].p == p)
			return &blocks[h];
		if (!blocks[h].p)
			return nullptr;
	}
}

static void dropBlock(Block* b)
{
	--nblocks;
	// Close the gap, so that probing still finds what comes after it.
	uint32_t gap = (uint32_t)(b - blocks);
	for (uint32_t h = gap;;)
	{
		h = (h + 1) & (kBlocks - 1);
		if (!blocks[h].p)
			break;
		uint32_t home = bhash(blocks[h].p);
		if (((h - home) & (kBlocks - 1)) < ((h - gap) & (kBlocks - 1)))
			continue;
		blocks[gap] = blocks[h];
		gap = h;
	}
	blocks[gap] = Block();
}

constexpr size_t kMemLimit = (size_t)768 << 20;
static size_t liveBytes;

static void* allocate(size_t n, size_t align, bool nothrow)
{
	T* t = me();
	bool sut = t->inSut > 0 && self;
	if (sut)
	{
		++stats.allocs;
		int64_t k = (int64_t)t->allocs++;
		if (t->failAt >= 0 && (t->failSticky ? k >= t->failAt : k == t->failAt))
		{
			++t->allocFailed;
			++stats.allocFails;
			note(0xA110Cull + (uint64_t)k);
			if (nothrow)
				return nullptr;
			throw std::bad_alloc();
		}
		liveBytes += n;
		if (liveBytes > kMemLimit)
		{
			t->inSut = 0;
			crashExit("memory-growth", fmt("the library holds more than %zu MiB in %s", kMemLimit >> 20, doing));
		}
	}
	void* p;
	size_t want = n ? n : 1;
#ifndef SIM_ASAN
	if (sut && cfg.pad)
		want += cfg.pad * 16;
#endif
	if (align > 16)
	{
		if (posix_memalign(&p, align, want) != 0)
			p = nullptr;
	}
	else
		p = malloc(want);
	if (!p)
	{
		if (nothrow)
			return nullptr;
		throw std::bad_alloc();
	}
	if (sut && n <= 1 << 20)
		memset(p, cfg.fillNew, n);
	if (running)
		forget((uintptr_t)p, n); // Another lifetime.
	addBlock(p, n, sut);
	return p;
}

static void release(void* p)
{
	if (!p)
		return;
	T* t = me();
	if (blocks)
		if (Block* b = findBlock((uintptr_t)p))
		{
			if (running && self && t->inSut)
			{
				// Freeing counts as a write of the whole block.
				if (b->n <= 1 << 16)
					checkRace(t, (uintptr_t)p, b->n, true, __builtin_return_address(0));
				forget((uintptr_t)p, b->n);
			}
			if (b->n <= 1 << 20)
				memset(p, cfg.fillFree, b->n);
			if (b->sut)
				liveBytes -= std::min(liveBytes, b->n);
			dropBlock(b);
		}
	free(p);
}

void markBaseline() { baselineSeq = blockSeq; }

// The redzones between globals are read as well.
__attribute__((noinline, no_sanitize("address"))) static uintptr_t peek(uintptr_t a) { return *reinterpret_cast<volatile uintptr_t*>(a); }

size_t leaks(std::string& what)
{
	// Blocks referred to by the library's globals (caches, say), directly or not, are not lost.
	std::vector<Block*> todo;
	auto scan = [&](uintptr_t lo, uintptr_t hi)
	{
		for (uintptr_t a = (lo + 7) & ~7ull; a + 8 <= hi; a += 8)
		{
			uintptr_t v = peek(a);
			if (v < 4096)
				continue;
			Block* b = findBlock(v);
			if (b && !b->mark)
			{
				b->mark = 1;
				todo.push_back(b);
			}
		}
	};
	for (int i = 0; i < nrw; ++i)
		scan(rwLo[i], rwHi[i]);
	for (int i = 1; i < kMaxThreads; ++i)
		if (threads[i].spawned && (threads[i].state == 1 || threads[i].state == 2))
			scan((uintptr_t)threads[i].stackLo, (uintptr_t)threads[i].stackHi);
	while (!todo.empty())
	{
		Block* b = todo.back();
		todo.pop_back();
		scan(b->p, b->p + b->n);
	}
	size_t n = 0;
	for (uint32_t i = 0; i < kBlocks; ++i)
		if (blocks[i].p && !blocks[i].mark && blocks[i].seq > baselineSeq)
		{
			++n;
			what += fmt(" block of %zu bytes (allocation %u);", blocks[i].n, blocks[i].seq);
		}
	return n;
}

__attribute__((noinline)) void scribbleStack(uint8_t v)
{
	volatile char junk[24 * 1024];
	memset(const_cast<char*>(junk), v, sizeof junk);
	asm volatile("" ::"r"(junk) : "memory");
}

//--------------------------------------------------------------------------------------------------

static void onSignal(int sig, siginfo_t* si, void*)
{
	T* t = me();
	bool in = t->inSut > 0;
	t->inSut = 0;
	if (sig == SIGPROF)
		crashExit(in ? "hang" : "harness", fmt("no progress in %s", doing));
	if (in)
		crashExit("crash", fmt("signal %d in %s", sig, doing));
	harnessError(fmt("signal %d at %p outside the library (%s)", sig, si->si_addr, doing));
	_exit(0);
}

#ifdef SIM_ASAN
extern "C" void __asan_set_error_report_callback(void (*)(const char*));
static void onAsan(const char* text)
{
	T* t = me();
	bool in = t->inSut > 0;
	t->inSut = 0;
	std::string s = text ? text : "";
	size_t a = s.find("ERROR: AddressSanitizer: ");
	std::string kind = a == std::string::npos ? "error" : s.substr(a + 25, s.find('\n', a) - a - 25);
	// Addresses and process numbers would make reports differ from run to run.
	size_t on = kind.find(" on ");
	if (on != std::string::npos)
		kind.resize(on);
	if (in)
		crashExit("memory", fmt("AddressSanitizer: %s in %s", kind.c_str(), doing));
	harnessError(fmt("AddressSanitizer: %s outside the library (%s)\n", kind.c_str(), doing) + s.substr(0, 3000));
	_exit(0);
}
#endif

void init()
{
#ifdef SIM_ASAN
	__asan_set_error_report_callback(onAsan);
#endif
	dl_iterate_phdr(phdr, nullptr);
	if (!soLo)
	{
		fprintf(stderr, "libsut not found\n");
		_exit(93);
	}
	gone = new std::vector<Gone>;
	gone->reserve(4096);
	realCreate = reinterpret_cast<CreateFn>(dlsym(RTLD_NEXT, "pthread_create"));
	realJoin = reinterpret_cast<JoinFn>(dlsym(RTLD_NEXT, "pthread_join"));
	mallopt(M_ARENA_MAX, 1);
	mallopt(M_MMAP_THRESHOLD, 1 << 30);
	mallopt(M_TRIM_THRESHOLD, 1 << 30);
	cells = static_cast<Cell*>(mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	blocks = static_cast<Block*>(mmap(nullptr, sizeof(Block) * kBlocks, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	sem_init(&mainSem, 0, 0);
	sem_init(&endSem, 0, 0);
	threads[0].vc[0] = 1;
}

void begin()
{
	trace = 0x1234567;
	switchesLeft = cfg.maxSwitches;
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = onSignal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	int sigs[] = {SIGABRT, SIGFPE, SIGILL, SIGPROF
#ifndef SIM_ASAN
		, SIGSEGV, SIGBUS
#endif
	};
	for (int s : sigs)
		sigaction(s, &sa, nullptr);
	itimerval tv{{0, 0}, {20, 0}};
	setitimer(ITIMER_PROF, &tv, nullptr);
	rlimit as{0, 0};
	setrlimit(RLIMIT_CORE, &as);
}
}

using namespace ls;

//--------------------------------------------------------------------------------------------------
// operator new and delete.

void* operator new(size_t n) { return allocate(n, 16, false); }
void* operator new[](size_t n) { return allocate(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return allocate(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return allocate(n, (size_t)a, false); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }

extern "C"
{
//--------------------------------------------------------------------------------------------------
// pthread synchronisation, also for libstdc++.

int pthread_mutex_lock(pthread_mutex_t* m) { return lockMutex(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lockMutex(m, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return lockMutex(m, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return unlockMutex(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lockShared(m, false, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return lockShared(m, false, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lockShared(m, true, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return lockShared(m, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlockShared(m); }
int pthread_spin_lock(pthread_spinlock_t* m) { return lockMutex(const_cast<const int*>(reinterpret_cast<volatile int*>(m)), false); }
int pthread_spin_unlock(pthread_spinlock_t* m) { return unlockMutex(const_cast<const int*>(reinterpret_cast<volatile int*>(m))); }

static void unlockQuietly(T* t, const void* p)
{
	Sync& s = sync(p);
	if (s.owner != t->id)
		return;
	s.depth = 0;
	s.owner = -1;
	releaseTo(t, s);
	wake(p);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	T* t = me();
	unlockQuietly(t, m); // Releasing and waiting are one step.
	block(t, c);
	return lockMutex(m, false);
}
// Time passes as fast as the schedule wants: the wait ends when somebody else ran.
static int timedWait(pthread_mutex_t* m)
{
	T* t = me();
	unlockQuietly(t, m);
	yieldNow(t);
	lockMutex(m, false);
	return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const timespec*) { return timedWait(m); }
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const timespec*) { return timedWait(m); }

// Threads that the library starts are simulated threads as well.
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	T* t = self;
	if (!t || !t->inSut)
		return realCreate(h, a, fn, arg);
	int det = PTHREAD_CREATE_JOINABLE;
	if (a)
		pthread_attr_getdetachstate(a, &det);
	int r = spawn(t, h, fn, arg);
	if (r == 0 && det == PTHREAD_CREATE_DETACHED)
		spawnedBy(*h)->detached = true;
	if (r == 0)
		preempt(t);
	return r;
}
int pthread_join(pthread_t h, void** ret)
{
	T* t = self;
	if (!t)
		return realJoin(h, ret);
	for (;;)
	{
		if (T* o = spawnedBy(h))
		{
			block(t, o);
			continue;
		}
		for (size_t i = 0; i < gone->size(); ++i)
			if (pthread_equal((*gone)[i].h, h))
			{
				Gone g = (*gone)[i];
				gone->erase(gone->begin() + (long)i);
				for (int k = 0; k < kMaxThreads; ++k)
					t->vc[k] = std::max(t->vc[k], g.vc[k]);
				if (ret)
					*ret = g.ret;
				munmap(g.stack, kSpawnStack);
				return 0;
			}
		return realJoin(h, ret);
	}
}
int pthread_detach(pthread_t h)
{
	T* o = self ? spawnedBy(h) : nullptr;
	if (o)
		o->detached = true;
	else if (self)
		for (size_t i = 0; i < gone->size(); ++i)
			if (pthread_equal((*gone)[i].h, h))
			{
				munmap((*gone)[i].stack, kSpawnStack);
				gone->erase(gone->begin() + (long)i);
				break;
			}
	return 0;
}
int pthread_cond_signal(pthread_cond_t* c)
{
	// Waking more waiters than needed is allowed.
	wake(c);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
	wake(c);
	return 0;
}

// Futures wait on the address of their state.
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
	void*, unsigned* a, unsigned v, bool timed, long, long)
{
	T* t = me();
	if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v)
		return true;
	if (!timed)
	{
		block(t, a);
		return true;
	}
	yieldNow(t);
	return false;
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
	void*, unsigned* a, unsigned v, bool timed, long, long)
{
	T* t = me();
	if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v)
		return true;
	if (!timed)
	{
		block(t, a);
		return true;
	}
	yieldNow(t);
	return false;
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* a) { wake(a); }

int pthread_once(pthread_once_t* o, void (*f)(void))
{
	// The state is in the object: 0 new, 1 running, 2 done.
	T* t = me();
	syncPoint(t);
	for (;;)
	{
		if (*o == 2)
		{
			acquire(t, sync(o));
			return 0;
		}
		if (*o == 0)
		{
			*o = 1;
			try
			{
				f();
			}
			catch (...)
			{
				*o = 0;
				wake(o);
				throw;
			}
			*o = 2;
			releaseTo(t, sync(o));
			wake(o);
			return 0;
		}
		block(t, o);
	}
}

//--------------------------------------------------------------------------------------------------
// Guards of function-local statics.

int __cxa_guard_acquire(uint64_t* g)
{
	T* t = me();
	syncPoint(t);
	for (;;)
	{
		if (__atomic_load_n(reinterpret_cast<uint8_t*>(g), __ATOMIC_ACQUIRE))
		{
			acquire(t, sync(g));
			return 0;
		}
		Sync& s = sync(g);
		if (s.state == 0)
		{
			s.state = 1;
			acquire(t, s);
			return 1;
		}
		block(t, g);
	}
}
void __cxa_guard_release(uint64_t* g)
{
	T* t = me();
	Sync& s = sync(g);
	s.state = 2;
	releaseTo(t, s);
	__atomic_store_n(reinterpret_cast<uint8_t*>(g), 1, __ATOMIC_RELEASE);
	wake(g);
}
void __cxa_guard_abort(uint64_t* g)
{
	Sync& s = sync(g);
	s.state = 0;
	wake(g);
}

//--------------------------------------------------------------------------------------------------
// -fsanitize=thread entry points.

#define PC __builtin_return_address(0)
#define RW(n) \
	void __tsan_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_read_write##n(void* p) { access(p, n, false, PC); access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v)
{
	if (*p != v)
		access(p, 8, true, PC);
}
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

static void atomicOp(volatile void* p, int mo, bool load, bool store)
{
	T* t = self;
	if (!t || !t->inSut)
		return;
	syncPoint(t);
	if (!running)
		return;
	Sync& s = sync(const_cast<const void*>(p));
	if (load && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE)
		acquire(t, s);
	if (store && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST))
		releaseTo(t, s);
}
#define AT(n, ty) \
	ty __tsan_atomic##n##_load(const volatile ty* p, int mo) { atomicOp(const_cast<volatile ty*>(p), mo, true, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##n##_store(volatile ty* p, ty v, int mo) { atomicOp(p, mo, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##n##_exchange(volatile ty* p, ty v, int mo) { atomicOp(p, mo, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##n##_fetch_add(volatile ty* p, ty v, int mo) { atomicOp(p, mo, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##n##_fetch_sub(volatile ty* p, ty v, int mo) { atomicOp(p, mo, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##n##_fetch_and(volatile ty* p, ty v, int mo) { atomicOp(p, mo, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##n##_fetch_or(volatile ty* p, ty v, int mo) { atomicOp(p, mo, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##n##_fetch_xor(volatile ty* p, ty v, int mo) { atomicOp(p, mo, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##n##_fetch_nand(volatile ty* p, ty v, int mo) { atomicOp(p, mo, true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int mo, int) { atomicOp(p, mo, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int mo, int) { atomicOp(p, mo, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	ty __tsan_atomic##n##_compare_exchange_val(volatile ty* p, ty e, ty v, int mo, int) { atomicOp(p, mo, true, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
	// Fences synchronise through one common object: never reports a race that fences prevent.
	static char fence;
	atomicOp(&fence, __ATOMIC_SEQ_CST, true, true);
}
void __tsan_atomic_signal_fence(int) {}

// Memory functions called by the library (redirected with --wrap).
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
	if (n)
	{
		access(s, n, false, PC);
		access(d, n, true, PC);
	}
	return memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
	if (n)
	{
		access(s, n, false, PC);
		access(d, n, true, PC);
	}
	return memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n)
{
	if (n)
		access(d, n, true, PC);
	return memset(d, v, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
	if (n)
	{
		access(a, n, false, PC);
		access(b, n, false, PC);
	}
	return memcmp(a, b, n);
}
size_t __wrap_strlen(const char* s)
{
	size_t n = strlen(s);
	access(s, n + 1, false, PC);
	return n;
}
int __wrap_strcmp(const char* a, const char* b)
{
	access(a, strlen(a) + 1, false, PC);
	access(b, strlen(b) + 1, false, PC);
	return strcmp(a, b);
}
int __wrap_strcasecmp(const char* a, const char* b)
{
	access(a, strlen(a) + 1, false, PC);
	access(b, strlen(b) + 1, false, PC);
	return strcasecmp(a, b);
}
char* __wrap_strcpy(char* d, const char* s)
{
	size_t n = strlen(s) + 1;
	access(s, n, false, PC);
	access(d, n, true, PC);
	return strcpy(d, s);
}
char* __wrap_strncpy(char* d, const char* s, size_t n)
{
	if (n)
	{
		access(s, strnlen(s, n), false, PC);
		access(d, n, true, PC);
	}
	return strncpy(d, s, n);
}
char* __wrap_strcat(char* d, const char* s)
{
	size_t n = strlen(s) + 1, m = strlen(d);
	access(s, n, false, PC);
	access(d, m + 1, false, PC);
	access(d + m, n, true, PC);
	return strcat(d, s);
}
int __wrap_strncmp(const char* a, const char* b, size_t n)
{
	access(a, std::min(n, strnlen(a, n) + 1), false, PC);
	access(b, std::min(n, strnlen(b, n) + 1), false, PC);
	return strncmp(a, b, n);
}
int __wrap_strncasecmp(const char* a, const char* b, size_t n)
{
	access(a, std::min(n, strnlen(a, n) + 1), false, PC);
	access(b, std::min(n, strnlen(b, n) + 1), false, PC);
	return strncasecmp(a, b, n);
}
char* __wrap_strchr(const char* s, int c)
{
	access(s, strlen(s) + 1, false, PC);
	return const_cast<char*>(strchr(s, c));
}
char* __wrap_strrchr(const char* s, int c)
{
	access(s, strlen(s) + 1, false, PC);
	return const_cast<char*>(strrchr(s, c));
}
char* __wrap_strstr(const char* s, const char* t)
{
	access(s, strlen(s) + 1, false, PC);
	access(t, strlen(t) + 1, false, PC);
	return const_cast<char*>(strstr(s, t));
}
void* __wrap_memchr(const void* s, int c, size_t n)
{
	void* r = const_cast<void*>(memchr(s, c, n));
	size_t m = r ? (size_t)((char*)r - (const char*)s) + 1 : n;
	if (m)
		access(s, m, false, PC);
	return r;
}
// The written bytes; the arguments are read unseen.
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list a)
{
	int r = vsnprintf(d, n, f, a);
	if (n)
		access(d, r < 0 ? n : std::min(n, (size_t)r + 1), true, PC);
	return r;
}
int __wrap_snprintf(char* d, size_t n, const char* f, ...)
{
	va_list a;
	va_start(a, f);
	int r = vsnprintf(d, n, f, a);
	va_end(a);
	if (n)
		access(d, r < 0 ? n : std::min(n, (size_t)r + 1), true, PC);
	return r;
}
int __wrap_vsprintf(char* d, const char* f, va_list a)
{
	int r = vsprintf(d, f, a);
	access(d, (size_t)std::max(r, 0) + 1, true, PC);
	return r;
}
int __wrap_sprintf(char* d, const char* f, ...)
{
	va_list a;
	va_start(a, f);
	int r = vsprintf(d, f, a);
	va_end(a);
	access(d, (size_t)std::max(r, 0) + 1, true, PC);
	return r;
}

// Functions with hidden static state: the state is an access of its own.
static char hiddenToken, hiddenLocale, hiddenTime, hiddenEnv, hiddenCvt, hiddenMb;
char* __wrap_strtok(char* s, const char* d)
{
	access(&hiddenToken, 1, true, PC);
	if (s)
		access(s, strlen(s) + 1, true, PC);
	return strtok(s, d);
}
char* __wrap_setlocale(int c, const char* l)
{
	access(&hiddenLocale, 1, l != nullptr, PC);
	return setlocale(c, l);
}
lconv* __wrap_localeconv()
{
	access(&hiddenLocale, 1, true, PC);
	return localeconv();
}
tm* __wrap_localtime(const time_t* t)
{
	access(&hiddenTime, 1, true, PC);
	return localtime(t);
}
tm* __wrap_gmtime(const time_t* t)
{
	access(&hiddenTime, 1, true, PC);
	return gmtime(t);
}
char* __wrap_ctime(const time_t* t)
{
	access(&hiddenTime, 1, true, PC);
	return ctime(t);
}
char* __wrap_asctime(const tm* t)
{
	access(&hiddenTime, 1, true, PC);
	return asctime(t);
}
int __wrap_setenv(const char* n, const char* v, int o)
{
	access(&hiddenEnv, 1, true, PC);
	return setenv(n, v, o);
}
int __wrap_unsetenv(const char* n)
{
	access(&hiddenEnv, 1, true, PC);
	return unsetenv(n);
}
int __wrap_putenv(char* s)
{
	access(&hiddenEnv, 1, true, PC);
	return putenv(s);
}
char* __wrap_ecvt(double x, int n, int* d, int* s)
{
	access(&hiddenCvt, 1, true, PC);
	return ecvt(x, n, d, s);
}
char* __wrap_fcvt(double x, int n, int* d, int* s)
{
	access(&hiddenCvt, 1, true, PC);
	return fcvt(x, n, d, s);
}
int __wrap_mblen(const char* s, size_t n)
{
	access(&hiddenMb, 1, true, PC);
	return mblen(s, n);
}
int __wrap_mbtowc(wchar_t* w, const char* s, size_t n)
{
	access(&hiddenMb, 1, true, PC);
	return mbtowc(w, s, n);
}
int __wrap_wctomb(char* s, wchar_t w)
{
	access(&hiddenMb, 1, true, PC);
	return wctomb(s, w);
}
void* __wrap_malloc(size_t n)
{
	void* p = malloc(n);
	if (p)
	{
		memset(p, cfg.fillNew, n);
		forget((uintptr_t)p, n);
	}
	return p;
}
void* __wrap_calloc(size_t n, size_t m)
{
	void* p = calloc(n, m);
	if (p)
		forget((uintptr_t)p, n * m);
	return p;
}
void* __wrap_realloc(void* q, size_t n)
{
	void* p = realloc(q, n);
	if (p)
		forget((uintptr_t)p, n);
	return p;
}
void* __wrap___cxa_allocate_exception(size_t n)
{
	void* p = abi::__cxa_allocate_exception(n);
	forget((uintptr_t)p, n);
	return p;
}
}
