// What the library can see of the world outside its arguments: clocks, environment, entropy, identity of the
// process and the machine. The library's calls are redirected here with --wrap. Everything is derived from
// cfg.world, so that two executions of the same calls can happen in different worlds.
#include "sched.h"
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/utsname.h>
#include <unistd.h>

namespace ls
{
static uint64_t reads; // Since the beginning of the run.

static uint64_t worldly(uint64_t what)
{
	uint64_t x = cfg.world * 0x9E3779B97F4A7C15ull + what * 0xD1342543DE82EF95ull;
	return splitmix(x);
}
// Another value at each call.
static uint64_t fresh()
{
	++stats.envReads;
	return worldly(0x10000 + ++reads);
}
static int64_t nowNs()
{
	static int64_t last;
	int64_t base = 1000000000ll * (int64_t)(1500000000 + worldly(1) % 500000000);
	uint64_t f = fresh();
	static uint32_t of = ~0u;
	if (of != cfg.world)
		last = 0;
	of = cfg.world;
	// Mostly a little; now and then the process didn't run for a while.
	uint32_t kind = (uint32_t)(f >> 40) & 63;
	last += (int64_t)(f % (kind == 0 ? 20000000000ull : kind < 4 ? 100000000ull : kind < 32 ? 2000000ull : 3000ull));
	return base + last;
}
static const char* envOf(const char* name)
{
	++stats.envReads;
	static const char* const junk[] = {"1", "0", "", "2", "true", "/tmp", "17", "de_DE.UTF-8"};
	uint64_t h = worldly(fnv(name, strlen(name)));
	return cfg.world && h & 1 ? junk[(h >> 1) & 7] : nullptr;
}
static uint32_t cpus() { return 1 + (uint32_t)(worldly(2) % 5); }
}

using namespace ls;

extern "C"
{
time_t __wrap_time(time_t* t)
{
	time_t r = nowNs() / 1000000000;
	if (t)
		*t = r;
	return r;
}
clock_t __wrap_clock() { return (clock_t)(nowNs() / 1000 % 100000000); }
int __wrap_clock_gettime(clockid_t, timespec* t)
{
	int64_t n = nowNs();
	t->tv_sec = n / 1000000000;
	t->tv_nsec = n % 1000000000;
	return 0;
}
int __wrap_timespec_get(timespec* t, int b)
{
	__wrap_clock_gettime(0, t);
	return b;
}
int __wrap_gettimeofday(timeval* t, void*)
{
	int64_t n = nowNs();
	t->tv_sec = n / 1000000000;
	t->tv_usec = n % 1000000000 / 1000;
	return 0;
}
clock_t __wrap_times(tms* t)
{
	clock_t c = (clock_t)(nowNs() / 10000000 % 1000000000);
	if (t)
		t->tms_utime = t->tms_stime = t->tms_cutime = t->tms_cstime = c;
	return c;
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return nowNs(); }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return nowNs() % 1000000000000000; }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)(fresh() >> 16); }
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv() { return cpus(); }

pid_t __wrap_getpid() { return 1000 + (pid_t)(worldly(3) % 30000); }
pid_t __wrap_getppid() { return 1000 + (pid_t)(worldly(4) % 30000); }
pid_t __wrap_gettid() { return __wrap_getpid() + me()->id; }
uid_t __wrap_getuid() { return (uid_t)(worldly(5) % 3000); }
uid_t __wrap_geteuid() { return __wrap_getuid(); }
gid_t __wrap_getgid() { return __wrap_getuid(); }
gid_t __wrap_getegid() { return __wrap_getuid(); }
char* __wrap_getenv(const char* n) { return const_cast<char*>(envOf(n)); }
char* __wrap_secure_getenv(const char* n) { return const_cast<char*>(envOf(n)); }
ssize_t __wrap_getrandom(void* p, size_t n, unsigned)
{
	for (size_t i = 0; i < n; ++i)
		static_cast<uint8_t*>(p)[i] = (uint8_t)(fresh() >> 24);
	return (ssize_t)n;
}
int __wrap_getentropy(void* p, size_t n)
{
	__wrap_getrandom(p, n, 0);
	return 0;
}
uint32_t __wrap_arc4random() { return (uint32_t)(fresh() >> 24); }
long __wrap_sysconf(int n)
{
	if (n == _SC_NPROCESSORS_CONF || n == _SC_NPROCESSORS_ONLN)
		return cpus();
	if (n == _SC_PHYS_PAGES || n == _SC_AVPHYS_PAGES)
		return 1000 + (long)(worldly(6) % 10000000);
	return sysconf(n);
}
int __wrap_get_nprocs() { return (int)cpus(); }
int __wrap_get_nprocs_conf() { return (int)cpus(); }
int __wrap_sched_getcpu() { return (int)(fresh() % cpus()); }
int __wrap_gethostname(char* p, size_t n)
{
	snprintf(p, n, "host%u", (unsigned)(worldly(7) % 1000));
	return 0;
}
int __wrap_uname(utsname* u)
{
	memset(u, 0, sizeof *u);
	strcpy(u->sysname, "Linux");
	strcpy(u->machine, "x86_64");
	snprintf(u->nodename, sizeof u->nodename, "host%u", (unsigned)(worldly(7) % 1000));
	snprintf(u->release, sizeof u->release, "%u.%u.0", 4 + (unsigned)(worldly(8) % 3), (unsigned)(worldly(9) % 20));
	return 0;
}
int __wrap_sysinfo(struct sysinfo* s)
{
	memset(s, 0, sizeof *s);
	s->mem_unit = 1;
	s->totalram = (worldly(6) % 64 + 1) << 30;
	s->freeram = s->totalram / 2;
	s->uptime = (long)(worldly(10) % 1000000);
	s->procs = 100;
	return 0;
}
char* __wrap_getcwd(char* p, size_t n)
{
	char b[64];
	snprintf(b, sizeof b, "/work/%u", (unsigned)(worldly(11) % 100));
	if (!p)
		return strdup(b);
	if (strlen(b) >= n)
	{
		errno = ERANGE;
		return nullptr;
	}
	return strcpy(p, b);
}
int __wrap_isatty(int fd)
{
	if (fd >= 0 && fd <= 2 && worldly(12 + (uint64_t)fd) & 1)
		return 1;
	errno = ENOTTY;
	return 0;
}
// Sleeping lets the others run.
int __wrap_nanosleep(const timespec*, timespec*)
{
	yieldNow(me());
	return 0;
}
int __wrap_clock_nanosleep(clockid_t, int, const timespec*, timespec*)
{
	yieldNow(me());
	return 0;
}
int __wrap_usleep(unsigned)
{
	yieldNow(me());
	return 0;
}
unsigned __wrap_sleep(unsigned)
{
	yieldNow(me());
	return 0;
}
int __wrap_sched_yield()
{
	yieldNow(me());
	return 0;
}
}
