#include "kernel.h"
#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
#if defined(__SANITIZE_ADDRESS__)
#define NOSAN __attribute__((no_sanitize("address")))
#else
#define NOSAN
#endif

// Own system call stub and signal return, in a section of their own: the only code of a simulated
// process whose system calls reach the real kernel.
asm(R"(
.pushsection .simsys, "ax", @progbits
.globl sim_raw_begin, sim_raw_end, sim_raw, sim_restorer
.type sim_raw, @function
.type sim_restorer, @function
sim_raw_begin:
sim_raw:
	mov %rdi, %rax
	mov %rsi, %rdi
	mov %rdx, %rsi
	mov %rcx, %rdx
	mov %r8, %r10
	mov %r9, %r8
	mov 8(%rsp), %r9
	syscall
	ret
sim_restorer:
	mov $15, %eax
	syscall
	hlt
sim_raw_end:
.popsection
)");
extern "C" long sim_raw(long nr, long a, long b, long c, long d, long e, long f);
extern "C" void sim_restorer();
extern "C" char sim_raw_begin[], sim_raw_end[];

namespace vfc
{
extern const bool hasHardwareHalfFloat __attribute__((weak));
}

namespace k
{
World* W = nullptr;
uint8_t* arena = nullptr;
static int self = -1; // Index of the simulated process this process is, -1 for the simulator.
static volatile char selector = 0;

void initKernel()
{
	void* p = mmap(reinterpret_cast<void*>(0x210000000000ull), sizeof(World), PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	void* a = mmap(reinterpret_cast<void*>(0x220000000000ull), kArena, PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p == MAP_FAILED || a == MAP_FAILED)
		_exit(92);
	W = static_cast<World*>(p);
	arena = static_cast<uint8_t*>(a);
}

void resetWorld()
{
	memset(static_cast<void*>(W), 0, offsetof(World, events));
	W->diskFree = -1;
	W->eventHash = 0xcbf29ce484222325ull;
	W->turn = -1;
	// The root directory.
	int r = newInode(K_DIR);
	W->dents[0].used = true;
	W->dents[0].preexisting = true;
	W->dents[0].ino = (int16_t)r;
	strcpy(W->dents[0].path, "/");
}

NOSAN int newInode(Kind kind)
{
	for (int i = 0; i < kMaxInodes; ++i)
		if (W->inodes[i].kind == K_FREE)
		{
			Inode& n = W->inodes[i];
			n = Inode();
			n.kind = kind;
			n.badAt = -1;
			n.refs = 1;
			n.mtime = W->clock;
			return i;
		}
	W->overflow = true;
	return -1;
}

NOSAN static void grow(Inode& n, uint64_t need)
{
	if (need <= n.cap)
		return;
	uint64_t cap = std::max<uint64_t>(need, std::max<uint64_t>(256, n.cap * 2ull));
	cap = (cap + 63) & ~63ull;
	if (W->arenaUsed + cap > kArena)
	{
		W->overflow = true;
		return;
	}
	uint64_t off = W->arenaUsed;
	W->arenaUsed += cap;
	if (n.size)
		memcpy(arena + off, arena + n.off, n.size);
	memset(arena + off + n.size, 0, cap - n.size);
	n.off = off;
	n.cap = (uint32_t)cap;
}

NOSAN bool inodeWrite(int ino, uint64_t pos, const void* d, size_t n)
{
	Inode& f = W->inodes[ino];
	if (pos + n > (64u << 20))
		return false;
	grow(f, pos + n);
	if (W->overflow)
		return false;
	if (pos > f.size)
		memset(arena + f.off + f.size, 0, pos - f.size);
	if (n)
		memcpy(arena + f.off + pos, d, n);
	f.size = (uint32_t)std::max<uint64_t>(f.size, pos + n);
	f.mtime = W->clock;
	return true;
}

NOSAN static void inodeTruncate(int ino, uint64_t n)
{
	Inode& f = W->inodes[ino];
	if (n > f.size)
	{
		grow(f, n);
		memset(arena + f.off + f.size, 0, n - f.size);
	}
	f.size = (uint32_t)n;
	f.mtime = W->clock;
}

void inodeSet(int ino, const void* d, size_t n)
{
	W->inodes[ino].size = 0;
	inodeWrite(ino, 0, d, n);
}

NOSAN int findDent(const char* path)
{
	for (int i = 0; i < kMaxDents; ++i)
		if (W->dents[i].used && strcmp(W->dents[i].path, path) == 0)
			return i;
	return -1;
}

NOSAN static int addDent(const char* path, int ino)
{
	for (int i = 0; i < kMaxDents; ++i)
		if (!W->dents[i].used)
		{
			Dent& d = W->dents[i];
			d.used = true;
			d.preexisting = false;
			d.synced = false;
			d.ino = (int16_t)ino;
			strncpy(d.path, path, kPathCap - 1);
			d.path[kPathCap - 1] = 0;
			return i;
		}
	W->overflow = true;
	return -1;
}

int addDir(const char* path)
{
	int d = findDent(path);
	if (d >= 0)
		return W->dents[d].ino;
	int i = newInode(K_DIR);
	int e = addDent(path, i);
	W->dents[e].preexisting = true;
	W->dents[e].synced = true;
	return i;
}

int addFile(const char* path, const std::string& data)
{
	int d = findDent(path);
	int i;
	if (d >= 0)
		i = W->dents[d].ino;
	else
	{
		i = newInode(K_FILE);
		d = addDent(path, i);
	}
	if (i < 0 || d < 0)
		return -1;
	W->dents[d].preexisting = true;
	W->dents[d].synced = true;
	inodeSet(i, data.data(), data.size());
	W->inodes[i].syncedSize = W->inodes[i].size;
	return i;
}

int addLink(const char* path, const std::string& target)
{
	int i = addFile(path, target);
	if (i >= 0)
	{
		W->inodes[i].kind = K_LINK;
		W->links = true;
	}
	return i;
}

NOSAN int canonical(const char* cwd, const char* path, char* out, bool* slash, bool follow)
{
	*slash = false;
	if (!path)
		return -EFAULT;
	size_t len = strlen(path);
	if (len == 0)
		return -ENOENT;
	if (len >= 4096)
		return -ENAMETOOLONG;
	size_t n;
	if (path[0] == '/')
	{
		out[0] = '/';
		out[1] = 0;
		n = 1;
	}
	else
	{
		n = strlen(cwd);
		memcpy(out, cwd, n + 1);
	}
	size_t i = 0;
	while (i < len)
	{
		while (i < len && path[i] == '/')
			++i;
		size_t s = i;
		while (i < len && path[i] != '/')
			++i;
		size_t cl = i - s;
		if (cl == 0)
			break;
		// What precedes must be an existing directory.
		int d = findDent(out);
		if (d < 0)
			return -ENOENT;
		if (W->inodes[W->dents[d].ino].kind != K_DIR)
			return -ENOTDIR;
		if (cl > 255)
			return -ENAMETOOLONG;
		if (cl == 1 && path[s] == '.')
			continue;
		if (cl == 2 && path[s] == '.' && path[s + 1] == '.')
		{
			while (n > 1 && out[n - 1] != '/')
				--n;
			if (n > 1)
				--n;
			out[n] = 0;
			continue;
		}
		if (n + cl + 2 > (size_t)kPathCap)
			return -ENAMETOOLONG;
		if (n > 1)
			out[n++] = '/';
		memcpy(out + n, path + s, cl);
		n += cl;
		out[n] = 0;
		if (W->links && (follow || i < len))
		{
			int l = findDent(out);
			if (l >= 0 && W->inodes[W->dents[l].ino].kind == K_LINK)
			{
				const Inode& t = W->inodes[W->dents[l].ino];
				memcpy(out, arena + t.off, t.size);
				n = t.size;
				out[n] = 0;
			}
		}
	}
	*slash = path[len - 1] == '/' || (len >= 2 && path[len - 1] == '.' && path[len - 2] == '/') ||
		(len == 1 && path[0] == '.') || (len >= 3 && path[len - 1] == '.' && path[len - 2] == '.' && path[len - 3] == '/') ||
		(len == 2 && path[0] == '.' && path[1] == '.');
	return 0;
}

std::string lexical(const std::string& cwd, const std::string& path, bool follow)
{
	std::vector<std::string> parts;
	auto eat = [&](const std::string& p)
	{
		size_t i = 0;
		while (i < p.size())
		{
			size_t e = p.find('/', i);
			if (e == std::string::npos)
				e = p.size();
			std::string c = p.substr(i, e - i);
			if (c == "..")
			{
				if (!parts.empty())
					parts.pop_back();
			}
			else if (!c.empty() && c != ".")
			{
				parts.push_back(c);
				if (W->links && (follow || p.find_first_not_of('/', e) != std::string::npos))
				{
					std::string at;
					for (auto& x : parts)
						at += "/" + x;
					int d = findDent(at.c_str());
					if (d >= 0 && W->inodes[W->dents[d].ino].kind == K_LINK)
					{
						std::string target = inodeStr(W->dents[d].ino);
						parts.clear();
						for (size_t b = 1; b < target.size();)
						{
							size_t n = std::min(target.find('/', b), target.size());
							parts.push_back(target.substr(b, n - b));
							b = n + 1;
						}
					}
				}
			}
			i = e + 1;
		}
	};
	if (path.empty() || path[0] != '/')
		eat(cwd);
	eat(path);
	std::string r;
	for (auto& p : parts)
		r += "/" + p;
	return r.empty() ? "/" : r;
}

Image snapshot()
{
	Image i;
	i.inodes.assign(W->inodes, W->inodes + kMaxInodes);
	i.dents.assign(W->dents, W->dents + kMaxDents);
	i.bytes.assign(arena, arena + W->arenaUsed);
	i.diskFree = W->diskFree;
	return i;
}

void restore(const Image& i)
{
	std::copy(i.inodes.begin(), i.inodes.end(), W->inodes);
	std::copy(i.dents.begin(), i.dents.end(), W->dents);
	memcpy(arena, i.bytes.data(), i.bytes.size());
	W->arenaUsed = i.bytes.size();
	W->diskFree = i.diskFree;
	W->nsessions = 0;
	W->nmut = 0;
	W->nprocs = 0;
}

// Time between two looks at the clock: mostly little; now and then the process didn't run for a while.
static void tick()
{
	W->clock += 1000;
	if (!W->pace)
		return;
	uint64_t f = splitmix(W->pace);
	uint32_t kind = (uint32_t)(f >> 40) & 63;
	W->clock += f % (kind == 0 ? 20000000000ull : kind < 4 ? 100000000ull : kind < 32 ? 2000000ull : 3000ull);
}

//--------------------------------------------------------------------------------------------------
// Inside a simulated process.

NOSAN static Event* event(int nr, int fd, uint64_t arg, int64_t ret, const char* what, int fault)
{
	Proc& p = W->procs[self];
	(void)p;
	uint64_t h = W->eventHash;
	struct
	{
		int32_t a, b, c, d;
		int64_t r;
		uint64_t x;
	} rec = {self, nr, fd, fault, ret, arg};
	h = fnv(&rec, sizeof rec, h);
	if (what)
		h = fnv(what, strlen(what), h);
	W->eventHash = h;
	++W->steps;
	W->clock += 20000; // Every system call takes its time.
	Event* e = nullptr;
	if (W->nevents < kMaxEvents)
	{
		e = &W->events[W->nevents];
		e->proc = (uint8_t)self;
		e->nr = (int16_t)nr;
		e->fd = fd;
		e->arg = arg;
		e->ret = ret;
		e->fault = (uint8_t)fault;
		e->what[0] = 0;
		if (what)
		{
			size_t n = strlen(what);
			if (n > sizeof(e->what) - 1)
			{
				what += n - (sizeof(e->what) - 1);
				n = sizeof(e->what) - 1;
			}
			memcpy(e->what, what, n + 1);
		}
	}
	++W->nevents;
	return e;
}

NOSAN static void cnt(int c) { ++gShared->rep.counters[c]; }

[[noreturn]] NOSAN static void die(int code)
{
	for (;;)
		sim_raw(SYS_exit_group, code, 0, 0, 0, 0, 0);
}

NOSAN static void waitTurn()
{
	while (W->turn != self)
	{
		int t = W->turn;
		if (t == self)
			break;
		sim_raw(SYS_futex, (long)&W->turn, FUTEX_WAIT, t, 0, 0, 0);
	}
}

NOSAN static int pickNext(int cur, bool mayStay)
{
	int ready[kMaxProcs], n = 0;
	for (int i = 0; i < W->nprocs; ++i)
		if (W->procs[i].state == P_READY && (mayStay || i != cur))
			ready[n++] = i;
	if (n == 0)
		return -1;
	if (mayStay)
	{
		if (n == 1)
			return cur;
		if (gShared->ch.draw(SCHED, 3) == 0)
			return cur;
	}
	return ready[gShared->ch.draw(SCHED, (uint32_t)n)];
}

NOSAN static void yieldPoint()
{
	if (W->nprocs < 2)
		return;
	int nx = pickNext(self, true);
	if (nx == self || nx < 0)
		return;
	cnt(C_PREEMPT);
	event(-1, nx, 0, 0, "switch", 0);
	W->turn = nx;
	sim_raw(SYS_futex, (long)&W->turn, FUTEX_WAKE, 1 << 30, 0, 0, 0);
	waitTurn();
}

// Decides whether the operation gets a fault of one of the given classes; returns the class or 0.
NOSAN static uint32_t fault(uint32_t classes)
{
	Proc& p = W->procs[self];
	uint32_t c = classes & p.f.classes;
	if (!c)
		return 0;
	if (p.stuck & c & F_HARD)
		return p.stuck & c & F_HARD & (0 - (p.stuck & c & F_HARD));
	// Short transfers stop at some point, so that every run makes progress.
	if (p.benignCount >= 8000)
	{
		c &= ~(uint32_t)F_BENIGN;
		if (!c)
			return 0;
	}
	bool hit;
	uint32_t number = p.eligible++;
	if (p.f.single >= 0)
		hit = number == (uint32_t)p.f.single;
	else
		hit = p.f.rate && gShared->ch.draw(FAULT, 1000) >= 1000 - p.f.rate;
	if (!hit)
		return 0;
	// Choose among the enabled classes.
	int n = __builtin_popcount(c);
	uint32_t w = n > 1 ? gShared->ch.draw(FAULT, (uint32_t)n) : 0;
	for (uint32_t b = 1; b; b <<= 1)
		if (c & b)
		{
			if (w == 0)
				return b;
			--w;
		}
	return 0;
}

NOSAN static void fired(uint32_t cls)
{
	Proc& p = W->procs[self];
	if (cls & F_HARD)
	{
		p.hardFired |= cls;
		++p.hardCount;
		if (p.f.sticky)
			p.stuck |= cls;
	}
	else
	{
		p.benignFired |= cls;
		++p.benignCount;
	}
	switch (cls)
	{
		case F_OPEN_R: cnt(C_OPEN_R_FAIL); break;
		case F_READ: cnt(C_READ_FAIL); break;
		case F_READ_SHORT: cnt(C_READ_SHORT); break;
		case F_OPEN_W: cnt(C_OPEN_W_FAIL); break;
		case F_WRITE: cnt(C_WRITE_FAIL); break;
		case F_WRITE_SHORT: cnt(C_WRITE_SHORT); break;
		case F_CLOSE: cnt(C_CLOSE_FAIL); break;
		case F_MKDIR: cnt(C_MKDIR_FAIL); break;
		case F_STDOUT: cnt(C_STDOUT_FAIL); break;
		case F_STDOUT_SHORT: cnt(C_STDOUT_SHORT); break;
		case F_META: cnt(C_META_FAIL); break;
		case F_STDIN_SHORT: cnt(C_STDIN_SHORT); break;
	}
}

NOSAN static int pick(const int* v, int n) { return v[gShared->ch.draw(FAULT, (uint32_t)n)]; }

NOSAN static Fd* getFd(long fd)
{
	if (fd < 0 || fd >= kMaxFds)
		return nullptr;
	Fd& f = W->procs[self].fds[fd];
	return f.kind == FD_NONE ? nullptr : &f;
}

NOSAN static int allocFd(int from)
{
	for (int i = from; i < kMaxFds; ++i)
		if (W->procs[self].fds[i].kind == FD_NONE)
			return i;
	return -EMFILE;
}

NOSAN static const char* fdName(const Fd& f)
{
	if (f.kind == FD_STREAM)
		return f.std == 1 ? "<stdin>" : f.std == 2 ? "<stdout>" : "<stderr>";
	return f.dent >= 0 ? W->dents[f.dent].path : "?";
}

NOSAN static int newSession(const char* path)
{
	if (W->nsessions >= (int)(sizeof W->sessions / sizeof W->sessions[0]))
	{
		W->overflow = true;
		return -1;
	}
	Session& s = W->sessions[W->nsessions++];
	s.proc = (int16_t)self;
	s.ino = (int16_t)newInode(K_FILE);
	strncpy(s.path, path, kPathCap - 1);
	s.path[kPathCap - 1] = 0;
	return s.ino;
}

NOSAN static void parentOf(const char* path, char* out)
{
	size_t n = strlen(path);
	memcpy(out, path, n + 1);
	while (n > 1 && out[n - 1] != '/')
		--n;
	if (n > 1)
		--n;
	out[n] = 0;
}

NOSAN static bool parentWritable(const char* path)
{
	char par[kPathCap];
	parentOf(path, par);
	int d = findDent(par);
	return d >= 0 && !W->inodes[W->dents[d].ino].noWrite;
}

NOSAN static long resolveAt(long dirfd, const char* path, char* out, bool* slash, bool follow = true)
{
	Proc& p = W->procs[self];
	const char* base = p.cwd;
	if (path && path[0] && path[0] != '/' && (int)dirfd != AT_FDCWD)
	{
		Fd* f = getFd(dirfd);
		if (!f || f->kind != FD_INODE || f->dent < 0)
			return -EBADF;
		base = W->dents[f->dent].path;
	}
	return canonical(base, path, out, slash, follow);
}

// The process that creates a file may use it whatever its permissions are.
NOSAN static void setMode(int ino, uint32_t mode)
{
	W->inodes[ino].mode = (uint16_t)(kModeSet | (mode & 07777));
	W->inodes[ino].noRead = !(mode & 0400);
	W->inodes[ino].noWrite = !(mode & 0200);
}

NOSAN static long doOpen(long dirfd, const char* path, int flags, long mode)
{
	char cp[kPathCap];
	bool slash;
	long r = resolveAt(dirfd, path, cp, &slash, !(flags & O_NOFOLLOW) && (flags & (O_CREAT | O_EXCL)) != (O_CREAT | O_EXCL));
	bool wr = (flags & O_ACCMODE) != O_RDONLY;
	const char* shown = r == 0 ? cp : path;
	if (r == 0 && (flags & O_TMPFILE) == O_TMPFILE)
		r = -EOPNOTSUPP;
	uint32_t fc = 0;
	if (r == 0 && (fc = fault(wr ? F_OPEN_W : F_OPEN_R)))
	{
		static const int re[] = {EACCES, EMFILE, ENFILE, EIO, ENOMEM};
		static const int we[] = {EACCES, ENOSPC, EROFS, EDQUOT, EMFILE, EIO};
		r = wr ? -pick(we, 6) : -pick(re, 5);
		fired(fc);
		event(SYS_openat, -1, (uint64_t)flags, r, shown, 1);
		return r;
	}
	if (r == 0)
	{
		int d = findDent(cp);
		if (d >= 0)
		{
			Inode& n = W->inodes[W->dents[d].ino];
			if ((flags & O_CREAT) && (flags & O_EXCL))
				r = -EEXIST;
			else if (n.kind == K_LINK)
				r = -ELOOP;
			else if (n.kind == K_DIR && (wr || (flags & O_CREAT)))
				r = -EISDIR;
			else if (n.kind != K_DIR && ((flags & O_DIRECTORY) || slash))
				r = -ENOTDIR;
			else if ((wr && n.noWrite) || ((flags & O_ACCMODE) != O_WRONLY && n.noRead))
				r = -EACCES;
		}
		else if (!(flags & O_CREAT))
			r = -ENOENT;
		else if (slash)
			r = -EISDIR;
		else
		{
			// The parent was resolved by canonical() only when there was a component before.
			char par[kPathCap];
			parentOf(cp, par);
			int pd = findDent(par);
			if (pd < 0)
				r = -ENOENT;
			else if (W->inodes[W->dents[pd].ino].kind != K_DIR)
				r = -ENOTDIR;
			else if (!parentWritable(cp))
				r = -EACCES;
			else
			{
				int ino = newInode(K_FILE);
				d = ino < 0 ? -1 : addDent(cp, ino);
				if (d < 0)
					r = -ENOSPC;
				else
					setMode(ino, (uint32_t)mode & ~W->procs[self].umask);
			}
		}
		if (r == 0)
		{
			int fd = allocFd(3);
			if (fd < 0)
				r = fd;
			else
			{
				Fd& f = W->procs[self].fds[fd];
				f = Fd();
				f.kind = FD_INODE;
				f.ino = W->dents[d].ino;
				f.dent = (int16_t)d;
				f.flags = (uint32_t)flags;
				f.session = -1;
				if (W->inodes[f.ino].kind == K_FILE)
				{
					if ((flags & O_TRUNC) && wr)
					{
						inodeTruncate(f.ino, 0);
						W->inodes[f.ino].dirty = true;
						W->inodes[f.ino].syncedSize = 0;
					}
					if ((flags & O_ACCMODE) != O_WRONLY)
						f.session = (int16_t)newSession(cp);
				}
				r = fd;
			}
		}
	}
	event(SYS_openat, (int)r, (uint64_t)flags, r, shown, 0);
	return r;
}

NOSAN static uint32_t shortLen(uint64_t n)
{
	Proc& p = W->procs[self];
	if (n <= 1)
		return (uint32_t)n;
	if (p.f.tiny)
		return 1;
	return 1 + gShared->ch.draw(FAULT, (uint32_t)std::min<uint64_t>(n - 1, 1u << 20));
}

NOSAN static long doReadAt(Fd& f, int fdno, void* buf, uint64_t n, int64_t at, int nr)
{
	if (f.kind == FD_STREAM && f.std != 1)
		return -EBADF;
	if (f.kind == FD_INODE && (f.flags & O_ACCMODE) == O_WRONLY)
		return -EBADF;
	Inode& ino = W->inodes[f.ino];
	const char* name = fdName(f);
	if (ino.kind == K_DIR)
	{
		event(nr, fdno, n, -EISDIR, name, 0);
		return -EISDIR;
	}
	bool std = f.kind == FD_STREAM;
	cnt(C_READS);
	uint64_t pos = at >= 0 ? (uint64_t)at : f.pos;
	uint64_t avail = pos < ino.size ? ino.size - pos : 0;
	uint64_t len = std::min(n, avail);
	if (ino.badAt >= 0 && pos + len > (uint64_t)ino.badAt)
	{
		if (pos >= (uint64_t)ino.badAt)
		{
			fired(F_READ);
			cnt(C_BADSECTOR);
			event(nr, fdno, n, -EIO, name, 1);
			return -EIO;
		}
		len = (uint64_t)ino.badAt - pos;
	}
	int fl = 0;
	// A fault on a read that would return nothing tests the end of file path.
	uint32_t fc = fault(std ? F_READ | F_STDIN_SHORT : F_READ | (len > 1 ? F_READ_SHORT : 0));
	if (fc == F_READ)
	{
		static const int e[] = {EIO, EIO, ENOMEM};
		long r = -pick(e, 3);
		fired(fc);
		event(nr, fdno, n, r, name, 1);
		return r;
	}
	if (fc && len > 1)
	{
		len = shortLen(len);
		fired(fc);
		fl = 2;
	}
	if (len)
		memcpy(buf, arena + ino.off + pos, len);
	if (f.session >= 0)
	{
		Inode& s = W->inodes[f.session];
		if (pos < s.size && len)
			s.odd = true;
		if (len)
			inodeWrite(f.session, pos, buf, len);
	}
	if (at < 0)
		f.pos += len;
	event(nr, fdno, n, (int64_t)len, name, fl);
	return (long)len;
}

NOSAN static long doWriteAt(Fd& f, int fdno, const iovec* v, int nv, int64_t at, int nr)
{
	Proc& p = W->procs[self];
	if (f.kind == FD_STREAM && f.std == 1)
		return -EBADF;
	if (f.kind == FD_INODE && (f.flags & O_ACCMODE) == O_RDONLY)
		return -EBADF;
	uint64_t total = 0;
	for (int i = 0; i < nv; ++i)
		total += v[i].iov_len;
	const char* name = fdName(f);
	uint64_t len = total;
	int fl = 0;
	long err = 0;
	bool isOut = f.kind == FD_STREAM && f.std == 2;
	bool isErr = f.kind == FD_STREAM && f.std == 3;
	cnt(C_WRITES);
	bool killHere = p.f.killAt >= 0 && (uint32_t)p.f.killAt == p.visible - 1;
	if (killHere)
	{
		len = total * (uint64_t)p.f.killPart / 1000;
		fl = 3;
	}
	else if (!isErr && total)
	{
		uint32_t cls = isOut ? F_STDOUT | (total > 1 ? F_STDOUT_SHORT : 0) : F_WRITE | (total > 1 ? F_WRITE_SHORT : 0);
		uint32_t fc = fault(cls);
		if (fc == F_STDOUT || fc == F_WRITE)
		{
			static const int we[] = {ENOSPC, EIO, EDQUOT, EFBIG};
			static const int oe[] = {ENOSPC, EIO, EDQUOT, EAGAIN};
			fired(fc);
			if (isOut)
				p.stdoutFailed = true;
			err = isOut ? -pick(oe, p.stdoutKind == STD_FILE ? 3 : 2) : -pick(we, 4);
			fl = 1;
			len = 0;
			// Sometimes part of the data arrives first.
			if (total > 1 && gShared->ch.draw(FAULT, 2))
			{
				len = shortLen(total);
				p.stuck |= fc; // The rest meets the error.
				err = 0;
			}
		}
		else if (fc)
		{
			len = shortLen(total);
			fired(fc);
			fl = 2;
		}
	}
	if (!err && W->diskFree >= 0 && !isErr && !killHere && (f.kind == FD_INODE || p.stdoutKind == STD_FILE))
	{
		uint64_t pos = at >= 0 ? (uint64_t)at : (f.flags & O_APPEND) ? W->inodes[f.ino].size : f.pos;
		uint64_t have = W->inodes[f.ino].size;
		uint64_t extra = pos + len > have ? pos + len - have : 0;
		if (extra > (uint64_t)W->diskFree)
		{
			uint64_t can = len - (extra - (uint64_t)W->diskFree);
			cnt(C_DISK_FULL);
			p.hardFired |= isOut ? F_STDOUT : F_WRITE;
			++p.hardCount;
			if (isOut)
				p.stdoutFailed = true;
			fl = 1;
			if (can == 0 || can > len)
			{
				err = -ENOSPC;
				len = 0;
			}
			else
				len = can;
		}
	}
	if (err)
	{
		event(nr, fdno, total, err, name, fl);
		return err;
	}
	uint64_t done = 0;
	uint64_t before = W->inodes[f.ino].size;
	uint64_t pos = at >= 0 ? (uint64_t)at : (f.kind == FD_STREAM || (f.flags & O_APPEND)) ? before : f.pos;
	uint64_t content = 0xcbf29ce484222325ull;
	for (int i = 0; i < nv && done < len; ++i)
	{
		uint64_t n = std::min<uint64_t>(v[i].iov_len, len - done);
		if (!inodeWrite(f.ino, pos + done, v[i].iov_base, n))
		{
			event(nr, fdno, total, -EFBIG, name, fl);
			return done ? (long)done : -EFBIG;
		}
		if (!isErr)
			content = fnv(v[i].iov_base, n, content);
		done += n;
	}
	W->eventHash ^= content;
	if (W->diskFree >= 0 && W->inodes[f.ino].size > before)
		W->diskFree -= (int64_t)(W->inodes[f.ino].size - before);
	W->inodes[f.ino].dirty = true;
	f.wrote += (uint32_t)done;
	if (at < 0)
		f.pos = pos + done;
	event(nr, fdno, total, (int64_t)done, name, fl);
	if (killHere)
	{
		cnt(C_KILL);
		if (done && done < total)
			cnt(C_KILL_MID_WRITE);
		p.state = P_KILLED;
		die(137);
	}
	return (long)done;
}

NOSAN static long lateFault(Fd& f, int fdno, int nr)
{
	Inode& n = W->inodes[f.ino];
	if (f.kind != FD_INODE || !f.wrote || n.kind != K_FILE || !n.dirty)
		return 0;
	uint32_t fc = fault(F_CLOSE);
	if (!fc)
		return 0;
	static const int e[] = {ENOSPC, EIO, EDQUOT};
	long r = -pick(e, 3);
	// Part of the data written through this descriptor is lost.
	uint32_t keep = n.size ? gShared->ch.draw(FAULT, n.size) : 0;
	if (gShared->ch.draw(FAULT, 2))
		memset(arena + n.off + keep, 0, n.size - keep);
	else
		inodeTruncate(f.ino, keep);
	fired(fc);
	n.dirty = false;
	f.wrote = 0;
	event(nr, fdno, keep, r, fdName(f), 1);
	return r;
}

NOSAN static long doClose(long fd, int nr)
{
	Fd* f = getFd(fd);
	if (!f)
		return -EBADF;
	long r = lateFault(*f, (int)fd, nr);
	if (!r)
		event(nr, (int)fd, 0, 0, fdName(*f), 0);
	if (f->kind == FD_INODE)
		for (auto& l : W->locks)
			if (l.used && l.proc == self && (l.posix ? l.ino == f->ino : l.fd == fd))
				l.used = false;
	f->kind = FD_NONE;
	return r;
}

}
NOSAN uint32_t k::modeOf(int ino)
{
	Inode& n = W->inodes[ino];
	if (n.mode & kModeSet)
		return n.mode & 07777u;
	uint32_t m = n.kind == K_DIR ? 0755 : 0644;
	if (n.noRead)
		m &= ~0444u;
	if (n.noWrite)
		m &= ~0222u;
	return m;
}
namespace k
{
NOSAN static void fillStat(int ino, int std, StdKind sk, struct stat* st)
{
	memset(st, 0, sizeof *st);
	Inode& n = W->inodes[ino];
	st->st_dev = 8;
	st->st_ino = (ino_t)(1000 + ino);
	st->st_nlink = 1;
	st->st_uid = 1000;
	st->st_gid = 1000;
	st->st_blksize = 4096;
	if (std && sk == STD_PIPE)
	{
		st->st_mode = S_IFIFO | 0600;
		return;
	}
	if (std && sk == STD_TTY)
	{
		st->st_mode = S_IFCHR | 0620;
		st->st_rdev = 0x8801;
		st->st_blksize = 1024;
		return;
	}
	st->st_mode = n.kind == K_LINK ? S_IFLNK | 0777 : (n.kind == K_DIR ? S_IFDIR : S_IFREG) | modeOf(ino);
	st->st_size = n.kind == K_DIR ? 4096 : n.size;
	st->st_blocks = (n.size + 511) / 512;
	st->st_mtim.tv_sec = (time_t)(n.mtime / 1000000000u);
	st->st_mtim.tv_nsec = (long)(n.mtime % 1000000000u);
	st->st_ctim = st->st_atim = st->st_mtim;
}

NOSAN static void toStatx(const struct stat& s, struct statx* x)
{
	memset(x, 0, sizeof *x);
	x->stx_mask = STATX_BASIC_STATS;
	x->stx_blksize = (uint32_t)s.st_blksize;
	x->stx_nlink = 1;
	x->stx_uid = s.st_uid;
	x->stx_gid = s.st_gid;
	x->stx_mode = (uint16_t)s.st_mode;
	x->stx_ino = s.st_ino;
	x->stx_size = (uint64_t)s.st_size;
	x->stx_blocks = (uint64_t)s.st_blocks;
	x->stx_dev_minor = 8;
	x->stx_mtime.tv_sec = s.st_mtim.tv_sec;
	x->stx_mtime.tv_nsec = (uint32_t)s.st_mtim.tv_nsec;
	x->stx_ctime = x->stx_atime = x->stx_btime = x->stx_mtime;
}

NOSAN static void statFd(Fd& f, struct stat* st)
{
	Proc& p = W->procs[self];
	int std = f.kind == FD_STREAM ? f.std : 0;
	fillStat(f.ino, std, std == 1 ? p.stdinKind : std == 2 ? p.stdoutKind : STD_PIPE, st);
}

NOSAN static long doStat(long dirfd, const char* path, long flags, struct stat* st, int nr)
{
	if ((flags & AT_EMPTY_PATH) && (!path || !*path))
	{
		Fd* f = getFd(dirfd);
		if (!f)
			return -EBADF;
		statFd(*f, st);
		event(nr, (int)dirfd, 0, 0, fdName(*f), 0);
		return 0;
	}
	char cp[kPathCap];
	bool slash;
	long r = resolveAt(dirfd, path, cp, &slash, !(flags & AT_SYMLINK_NOFOLLOW));
	if (r == 0)
	{
		int d = findDent(cp);
		if (d < 0)
			r = -ENOENT;
		else if (slash && W->inodes[W->dents[d].ino].kind != K_DIR)
			r = -ENOTDIR;
		else
			fillStat(W->dents[d].ino, 0, STD_FILE, st);
	}
	event(nr, -1, 0, r, r == 0 ? cp : path, 0);
	return r;
}

NOSAN static long doMkdir(long dirfd, const char* path, long mode)
{
	char cp[kPathCap];
	bool slash;
	long r = resolveAt(dirfd, path, cp, &slash, false);
	int fl = 0;
	if (r == 0)
	{
		char par[kPathCap];
		parentOf(cp, par);
		int d = findDent(cp);
		if (d >= 0)
		{
			r = -EEXIST;
			if (!W->dents[d].preexisting)
				cnt(C_MKDIR_EEXIST_RACE);
		}
		else
		{
			int pd = findDent(par);
			if (pd < 0)
				r = -ENOENT;
			else if (W->inodes[W->dents[pd].ino].kind != K_DIR)
				r = -ENOTDIR;
			else if (W->inodes[W->dents[pd].ino].noWrite)
				r = -EACCES;
			else
			{
				uint32_t fc = fault(F_MKDIR);
				if (fc)
				{
					static const int e[] = {EACCES, ENOSPC, EROFS, EIO, EDQUOT, EMLINK};
					r = -pick(e, 6);
					fired(fc);
					fl = 1;
				}
				else
				{
					int ino = newInode(K_DIR);
					if (ino < 0 || addDent(cp, ino) < 0)
						r = -ENOSPC;
					else
						setMode(ino, (uint32_t)mode & ~W->procs[self].umask);
				}
			}
		}
	}
	event(SYS_mkdir, -1, 0, r, r == -ENOENT ? path : cp, fl);
	return r;
}

NOSAN static long doUnlink(long dirfd, const char* path, bool dir, int nr)
{
	char cp[kPathCap];
	bool slash;
	long r = resolveAt(dirfd, path, cp, &slash, false);
	int d = r == 0 ? findDent(cp) : -1;
	if (r == 0 && d < 0)
		r = -ENOENT;
	if (r == 0)
	{
		Inode& n = W->inodes[W->dents[d].ino];
		if (dir && n.kind != K_DIR)
			r = -ENOTDIR;
		else if (!dir && n.kind == K_DIR)
			r = -EISDIR;
		else if (!parentWritable(cp))
			r = -EACCES;
		else if (n.kind == K_DIR)
		{
			size_t l = strlen(cp);
			for (int i = 0; i < kMaxDents; ++i)
				if (W->dents[i].used && i != d && strncmp(W->dents[i].path, cp, l) == 0 && W->dents[i].path[l] == '/')
					r = -ENOTEMPTY;
		}
		if (r == 0)
		{
			uint32_t fc = fault(F_META);
			if (fc)
			{
				static const int e[] = {EIO, EACCES, EBUSY};
				r = -pick(e, 3);
				fired(fc);
			}
			else
				W->dents[d].used = false;
		}
	}
	event(nr, -1, 0, r, r == 0 ? cp : path, 0);
	return r;
}

NOSAN static long doRename(long d1, const char* a, long d2, const char* b, unsigned flags, int nr)
{
	char ca[kPathCap], cb[kPathCap];
	bool s1, s2;
	long r = resolveAt(d1, a, ca, &s1, false);
	if (r == 0)
		r = resolveAt(d2, b, cb, &s2, false);
	int da = r == 0 ? findDent(ca) : -1;
	int db = r == 0 ? findDent(cb) : -1;
	if (r == 0 && da < 0)
		r = -ENOENT;
	if (r == 0 && (flags & 1) && db >= 0)
		r = -EEXIST;
	if (r == 0 && (!parentWritable(ca) || !parentWritable(cb)))
		r = -EACCES;
	if (r == 0 && db >= 0 && W->inodes[W->dents[db].ino].kind == K_DIR)
		r = W->inodes[W->dents[da].ino].kind == K_DIR ? -ENOTEMPTY : -EISDIR;
	if (r == 0)
	{
		char par[kPathCap];
		parentOf(cb, par);
		int pd = findDent(par);
		if (pd < 0)
			r = -ENOENT;
	}
	if (r == 0)
	{
		uint32_t fc = fault(F_META);
		if (fc)
		{
			static const int e[] = {EIO, EACCES, ENOSPC, EROFS};
			r = -pick(e, 4);
			fired(fc);
		}
		else if (da != db)
		{
			if (db >= 0)
				W->dents[db].used = false;
			size_t l = strlen(ca);
			if (W->inodes[W->dents[da].ino].kind == K_DIR)
			{
				// Move the children too.
				for (int i = 0; i < kMaxDents; ++i)
					if (W->dents[i].used && strncmp(W->dents[i].path, ca, l) == 0 && W->dents[i].path[l] == '/')
					{
						char t[kPathCap];
						size_t bl = strlen(cb), rl = strlen(W->dents[i].path + l);
						if (bl + rl + 1 > (size_t)kPathCap)
							continue;
						memcpy(t, cb, bl);
						memcpy(t + bl, W->dents[i].path + l, rl + 1);
						memcpy(W->dents[i].path, t, bl + rl + 1);
					}
			}
			strncpy(W->dents[da].path, cb, kPathCap - 1);
			W->dents[da].preexisting = false;
		}
	}
	event(nr, -1, flags, r, r == 0 ? cb : b, 0);
	return r;
}

NOSAN static long doGetdents(Fd& f, int fdno, char* buf, uint64_t n)
{
	if (f.kind != FD_INODE || W->inodes[f.ino].kind != K_DIR)
		return -ENOTDIR;
	const char* dir = W->dents[f.dent].path;
	size_t l = strlen(dir);
	if (l == 1)
		l = 0;
	uint64_t used = 0;
	for (; f.cursor < (uint32_t)kMaxDents + 2; ++f.cursor)
	{
		const char* name;
		int ino = f.ino;
		if (f.cursor < 2)
			name = f.cursor ? ".." : ".";
		else
		{
			Dent& d = W->dents[f.cursor - 2];
			if (!d.used || strncmp(d.path, dir, l) != 0 || d.path[l] != '/' || !d.path[l + 1] || strchr(d.path + l + 1, '/'))
				continue;
			name = d.path + l + 1;
			ino = d.ino;
		}
		size_t rl = (offsetof(struct dirent64, d_name) + strlen(name) + 1 + 7) & ~7ull;
		if (used + rl > n)
			break;
		auto* e = reinterpret_cast<struct dirent64*>(buf + used);
		memset(e, 0, rl);
		e->d_ino = (ino64_t)(1000 + ino);
		e->d_off = f.cursor + 1;
		e->d_reclen = (unsigned short)rl;
		e->d_type = W->inodes[ino].kind == K_DIR ? DT_DIR : W->inodes[ino].kind == K_LINK ? DT_LNK : DT_REG;
		memcpy(e->d_name, name, strlen(name) + 1);
		used += rl;
	}
	event(SYS_getdents64, fdno, n, (int64_t)used, dir, 0);
	return (long)used;
}

// What a mapping shows: the contents of the file, zeros up to the end of the last page, and nothing beyond it.
NOSAN static void showMap(const FileMap& m)
{
	const Inode& n = W->inodes[m.ino];
	uint64_t len = m.off < n.size ? std::min<uint64_t>(m.len, n.size - m.off) : 0;
	uint64_t all = (m.len + 4095) & ~4095ull, shown = std::min<uint64_t>((len + 4095) & ~4095ull, all);
	if (shown)
	{
		sim_raw(SYS_mprotect, (long)m.addr, (long)shown, PROT_READ | PROT_WRITE, 0, 0, 0);
		memcpy(reinterpret_cast<void*>(m.addr), arena + n.off + m.off, len);
		memset(reinterpret_cast<void*>(m.addr + len), 0, shown - len);
		sim_raw(SYS_mprotect, (long)m.addr, (long)shown, m.prot, 0, 0, 0);
	}
	if (all > shown)
		sim_raw(SYS_mprotect, (long)(m.addr + shown), (long)(all - shown), PROT_NONE, 0, 0, 0);
	if (m.session >= 0 && len)
		inodeWrite(m.session, m.off, arena + n.off + m.off, len);
}

// The file of a mapping was changed by another process.
NOSAN static void remap(int ino)
{
	Proc& p = W->procs[self];
	for (int i = 0; i < p.nmaps; ++i)
		if (p.maps[i].ino == ino)
		{
			showMap(p.maps[i]);
			if (p.maps[i].session >= 0)
				W->inodes[p.maps[i].session].odd = true;
		}
}

NOSAN static void unmap(uint64_t addr, uint64_t len)
{
	Proc& p = W->procs[self];
	for (int i = 0; i < p.nmaps;)
		if (p.maps[i].addr < addr + len && addr < p.maps[i].addr + p.maps[i].len)
			p.maps[i] = p.maps[--p.nmaps];
		else
			++i;
}

NOSAN static void applyMutations(uint32_t at)
{
	for (int i = 0; i < W->nmut; ++i)
	{
		Mutation& m = W->mut[i];
		if (m.at < 0 || (uint32_t)m.at != at)
			continue;
		Inode& n = W->inodes[m.ino];
		switch (m.op)
		{
			case 0:
				inodeTruncate(m.ino, n.size && m.b % 4 ? m.a % n.size : 0);
				break;
			case 1:
			{
				uint8_t junk[64];
				for (uint32_t x = 0; x < 64; ++x)
					junk[x] = (uint8_t)(m.b * (x + 3) >> 3);
				inodeWrite(m.ino, n.size, junk, 1 + m.a % 64);
				break;
			}
			case 2:
				if (n.size)
					arena[n.off + m.a % n.size] ^= (uint8_t)(1u << (m.b % 8));
				break;
			case 3:
			{
				Inode& o = W->inodes[m.other];
				inodeTruncate(m.ino, 0);
				inodeWrite(m.ino, 0, arena + o.off, o.size);
				break;
			}
			case 4:
				for (int d = 0; d < kMaxDents; ++d)
					if (W->dents[d].used && W->dents[d].ino == m.ino)
						W->dents[d].used = false;
				break;
		}
		remap(m.ino);
		cnt(C_MUTATE);
		event(-2, m.ino, m.a, m.op, "mutate", 4);
	}
}

// Advisory locks. Waiting means that others run first; waiting for ever is a hang.
NOSAN static bool lockConflict(int ino, int fd, bool posix, bool excl)
{
	for (auto& l : W->locks)
		if (l.used && l.ino == ino && l.posix == posix && (excl || l.excl) && W->procs[l.proc].state == P_READY && !(l.proc == self && (posix || l.fd == fd)))
			return true;
	return false;
}

NOSAN static long doLock(long fdno, bool posix, bool excl, bool unlock, bool wait, int nr)
{
	Fd* f = getFd(fdno);
	if (!f)
		return -EBADF;
	if (f->kind != FD_INODE)
		return 0;
	Proc& p = W->procs[self];
	int ino = f->ino;
	long r = 0;
	while (!unlock && lockConflict(ino, (int)fdno, posix, excl))
	{
		int nx = wait ? pickNext(self, false) : -1;
		if (!wait)
		{
			r = -EAGAIN;
			break;
		}
		if (nx < 0 || ++p.lockWaits > 3000)
		{
			p.hang = true;
			p.state = P_CRASHED;
			event(nr, (int)fdno, 0, 0, "waits for a lock for ever", 0);
			nx = pickNext(self, false);
			if (nx >= 0)
			{
				W->turn = nx;
				sim_raw(SYS_futex, (long)&W->turn, FUTEX_WAKE, 1 << 30, 0, 0, 0);
			}
			die(94);
		}
		event(nr, (int)fdno, 0, 0, "waits for a lock", 0);
		W->turn = nx;
		sim_raw(SYS_futex, (long)&W->turn, FUTEX_WAKE, 1 << 30, 0, 0, 0);
		waitTurn();
	}
	if (r == 0)
	{
		FileLock* slot = nullptr;
		for (auto& l : W->locks)
			if (l.used && l.ino == ino && l.posix == posix && l.proc == self && (posix || l.fd == fdno))
				l.used = false;
		for (auto& l : W->locks)
			if (!l.used || W->procs[l.proc].state != P_READY)
				slot = &l;
		if (!unlock && slot)
			*slot = FileLock{true, posix, excl, (int16_t)self, (int16_t)ino, (int16_t)fdno};
	}
	event(nr, (int)fdno, (uint64_t)(excl ? 1 : unlock ? 2 : 0), r, fdName(*f), 0);
	return r;
}

NOSAN static long doChmod(int ino, long mode, int nr, const char* what)
{
	setMode(ino, (uint32_t)mode);
	event(nr, ino, (uint64_t)mode, 0, what, 0);
	return 0;
}

NOSAN static long emulate(long nr, long a, long b, long c, long d, long e, long f)
{
	Proc& p = W->procs[self];
	// Memory management, signals and identity: answered by the real kernel, invisible to the simulation.
	switch (nr)
	{
		case SYS_munmap:
			unmap((uint64_t)a, (uint64_t)b);
			return sim_raw(nr, a, b, c, d, e, f);
		case SYS_brk: case SYS_mprotect: case SYS_mremap: case SYS_madvise: case SYS_futex:
		case SYS_rt_sigaction: case SYS_rt_sigprocmask: case SYS_sigaltstack: case SYS_gettid: case SYS_arch_prctl:
		case SYS_set_robust_list: case SYS_sched_yield: case SYS_prlimit64: case SYS_getrlimit: case SYS_mincore:
		case SYS_membarrier: case SYS_msync: case SYS_rseq:
			return sim_raw(nr, a, b, c, d, e, f);
		case SYS_mmap:
		{
			if ((int)e < 0 || (d & MAP_ANONYMOUS))
				return sim_raw(nr, a, b, c, d, e, f);
			break;
		}
		case SYS_tgkill: case SYS_kill: case SYS_tkill: case SYS_rt_sigreturn:
			return sim_raw(nr, a, b, c, d, e, f);
		case SYS_getpid:
			return 1000 + (long)(W->machine % 20000) + self;
		case SYS_getppid:
			return 900;
		case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid:
			return W->uid;
		case SYS_umask:
		{
			long o = p.umask;
			p.umask = (uint32_t)a & 0777;
			return o;
		}
		case SYS_getrandom:
		{
			for (long i = 0; i < b; ++i)
				reinterpret_cast<uint8_t*>(a)[i] = (uint8_t)(splitmix(W->entropy) >> 24);
			return b;
		}
		case SYS_clock_gettime: case SYS_clock_getres:
		{
			tick();
			auto* t = reinterpret_cast<timespec*>(b);
			t->tv_sec = (time_t)(W->clock / 1000000000u);
			t->tv_nsec = (long)(W->clock % 1000000000u);
			return 0;
		}
		case SYS_gettimeofday:
		{
			tick();
			if (a)
			{
				auto* t = reinterpret_cast<timeval*>(a);
				t->tv_sec = (time_t)(W->clock / 1000000000u);
				t->tv_usec = (long)(W->clock % 1000000000u / 1000);
			}
			return 0;
		}
		case SYS_time:
			tick();
			if (a)
				*reinterpret_cast<long*>(a) = (long)(W->clock / 1000000000u);
			return (long)(W->clock / 1000000000u);
		case SYS_nanosleep: case SYS_clock_nanosleep:
		{
			auto* t = reinterpret_cast<timespec*>(nr == SYS_nanosleep ? a : c);
			if (t)
				W->clock += (uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec;
			event((int)nr, 0, 0, 0, "sleep", 0);
			yieldPoint();
			return 0;
		}
	}

	++p.syscalls;
	cnt(C_SYSCALLS);
	if (p.syscalls > kStepLimit)
	{
		p.hang = true;
		p.state = P_CRASHED;
		die(138);
	}

	if (nr == SYS_exit_group || nr == SYS_exit)
	{
		event((int)nr, -1, 0, a & 255, "exit", 0);
		p.exitCode = (int)(a & 255);
		p.state = P_EXITED;
		// An exiting process closes its descriptors; errors go nowhere, but late write-back still happens.
		for (int i = 3; i < kMaxFds; ++i)
			if (p.fds[i].kind != FD_NONE)
				lateFault(p.fds[i], i, SYS_close);
		die((int)(a & 255));
	}

	// Every other call is visible: other processes may run first, files may change, the process may die.
	yieldPoint();
	if (self == 0 && W->nmut)
		applyMutations(p.visible);
	++p.visible;
	bool isWrite = nr == SYS_write || nr == SYS_writev || nr == SYS_pwrite64 || nr == SYS_pwritev;
	bool killHere = p.f.killAt >= 0 && (uint32_t)p.f.killAt == p.visible - 1;
	if (killHere && !isWrite && p.f.killPart < 500)
	{
		event((int)nr, -1, 0, 0, "killed before", 3);
		cnt(C_KILL);
		p.state = P_KILLED;
		die(137);
	}

	long r = -ENOSYS;
	switch (nr)
	{
		case SYS_open:
			r = doOpen(AT_FDCWD, reinterpret_cast<const char*>(a), (int)b, c);
			break;
		case SYS_creat:
			r = doOpen(AT_FDCWD, reinterpret_cast<const char*>(a), O_CREAT | O_WRONLY | O_TRUNC, b);
			break;
		case SYS_openat:
			r = doOpen(a, reinterpret_cast<const char*>(b), (int)c, d);
			break;
		case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv:
		{
			Fd* fd = getFd(a);
			if (!fd)
			{
				r = -EBADF;
				break;
			}
			int64_t at = nr == SYS_pread64 || nr == SYS_preadv ? d : -1;
			if (nr == SYS_read || nr == SYS_pread64)
				r = doReadAt(*fd, (int)a, reinterpret_cast<void*>(b), (uint64_t)c, at, (int)nr);
			else
			{
				auto* v = reinterpret_cast<const iovec*>(b);
				long done = 0;
				r = 0;
				for (long i = 0; i < c; ++i)
				{
					if (!v[i].iov_len)
						continue;
					long x = doReadAt(*fd, (int)a, v[i].iov_base, v[i].iov_len, at, (int)nr);
					if (x < 0)
					{
						r = x;
						break;
					}
					done += x;
					if (at >= 0)
						at += x;
					if ((uint64_t)x < v[i].iov_len)
						break;
				}
				r = done ? done : r;
			}
			break;
		}
		case SYS_write: case SYS_pwrite64:
		{
			Fd* fd = getFd(a);
			iovec v{reinterpret_cast<void*>(b), (size_t)c};
			r = fd ? doWriteAt(*fd, (int)a, &v, 1, nr == SYS_pwrite64 ? d : -1, (int)nr) : -EBADF;
			break;
		}
		case SYS_writev: case SYS_pwritev:
		{
			Fd* fd = getFd(a);
			r = fd ? doWriteAt(*fd, (int)a, reinterpret_cast<const iovec*>(b), (int)c, nr == SYS_pwritev ? d : -1, (int)nr) : -EBADF;
			break;
		}
		case SYS_close:
			r = doClose(a, (int)nr);
			break;
		case SYS_lseek:
		{
			Fd* fd = getFd(a);
			if (!fd)
				r = -EBADF;
			else if (fd->kind == FD_STREAM && (fd->std == 1 ? p.stdinKind : fd->std == 2 ? p.stdoutKind : STD_PIPE) != STD_FILE)
				r = -ESPIPE;
			else
			{
				int64_t base = c == SEEK_SET ? 0 : c == SEEK_CUR ? (int64_t)fd->pos : c == SEEK_END ? (int64_t)W->inodes[fd->ino].size : -1;
				if (base < 0 || base + b < 0)
					r = -EINVAL;
				else
				{
					fd->pos = (uint64_t)(base + b);
					r = (long)fd->pos;
				}
			}
			event((int)nr, (int)a, (uint64_t)b, r, fd ? fdName(*fd) : "", 0);
			break;
		}
		case SYS_fstat:
		{
			Fd* fd = getFd(a);
			if (!fd)
				r = -EBADF;
			else
			{
				statFd(*fd, reinterpret_cast<struct stat*>(b));
				r = 0;
				event((int)nr, (int)a, 0, 0, fdName(*fd), 0);
			}
			break;
		}
		case SYS_stat: case SYS_lstat:
			r = doStat(AT_FDCWD, reinterpret_cast<const char*>(a), nr == SYS_lstat ? AT_SYMLINK_NOFOLLOW : 0, reinterpret_cast<struct stat*>(b), (int)nr);
			break;
		case SYS_newfstatat:
			r = doStat(a, reinterpret_cast<const char*>(b), d, reinterpret_cast<struct stat*>(c), (int)nr);
			break;
		case SYS_statx:
		{
			struct stat st;
			r = doStat(a, reinterpret_cast<const char*>(b), c, &st, (int)nr);
			if (r == 0)
				toStatx(st, reinterpret_cast<struct statx*>(e));
			break;
		}
		case SYS_access: case SYS_faccessat: case SYS_faccessat2:
		{
			struct stat st;
			long mode = nr == SYS_access ? b : c;
			r = nr == SYS_access ? doStat(AT_FDCWD, reinterpret_cast<const char*>(a), 0, &st, (int)nr)
				: doStat(a, reinterpret_cast<const char*>(b), 0, &st, (int)nr);
			if (r == 0 && (((mode & R_OK) && !(st.st_mode & 0400)) || ((mode & W_OK) && !(st.st_mode & 0200))))
				r = -EACCES;
			break;
		}
		case SYS_mkdir:
			r = doMkdir(AT_FDCWD, reinterpret_cast<const char*>(a), b);
			break;
		case SYS_mkdirat:
			r = doMkdir(a, reinterpret_cast<const char*>(b), c);
			break;
		case SYS_rmdir:
			r = doUnlink(AT_FDCWD, reinterpret_cast<const char*>(a), true, (int)nr);
			break;
		case SYS_unlink:
			r = doUnlink(AT_FDCWD, reinterpret_cast<const char*>(a), false, (int)nr);
			break;
		case SYS_unlinkat:
			r = doUnlink(a, reinterpret_cast<const char*>(b), c & AT_REMOVEDIR, (int)nr);
			break;
		case SYS_rename:
			r = doRename(AT_FDCWD, reinterpret_cast<const char*>(a), AT_FDCWD, reinterpret_cast<const char*>(b), 0, (int)nr);
			break;
		case SYS_renameat:
			r = doRename(a, reinterpret_cast<const char*>(b), c, reinterpret_cast<const char*>(d), 0, (int)nr);
			break;
		case SYS_renameat2:
			r = doRename(a, reinterpret_cast<const char*>(b), c, reinterpret_cast<const char*>(d), (unsigned)e, (int)nr);
			break;
		case SYS_truncate: case SYS_ftruncate:
		{
			int ino = -1;
			if (nr == SYS_ftruncate)
			{
				Fd* fd = getFd(a);
				r = fd && fd->kind == FD_INODE && (fd->flags & O_ACCMODE) != O_RDONLY ? 0 : -EINVAL;
				if (r == 0)
					ino = fd->ino;
			}
			else
			{
				char cp[kPathCap];
				bool slash;
				r = canonical(p.cwd, reinterpret_cast<const char*>(a), cp, &slash);
				int dn = r == 0 ? findDent(cp) : -1;
				if (r == 0 && dn < 0)
					r = -ENOENT;
				if (r == 0)
					ino = W->dents[dn].ino;
			}
			if (r == 0 && W->inodes[ino].kind != K_FILE)
				r = -EISDIR;
			if (r == 0 && b > (64 << 20))
				r = -EFBIG;
			if (r == 0)
			{
				inodeTruncate(ino, (uint64_t)b);
				W->inodes[ino].dirty = true;
			}
			event((int)nr, (int)a, (uint64_t)b, r, "", 0);
			break;
		}
		case SYS_fsync: case SYS_fdatasync: case SYS_syncfs:
		{
			Fd* fd = getFd(a);
			if (!fd)
				r = -EBADF;
			else if (fd->kind != FD_INODE)
				r = -EINVAL;
			else
			{
				r = lateFault(*fd, (int)a, (int)nr);
				if (r == 0)
				{
					W->inodes[fd->ino].dirty = false;
					W->inodes[fd->ino].syncedSize = W->inodes[fd->ino].size;
					event((int)nr, (int)a, 0, 0, fdName(*fd), 0);
				}
			}
			break;
		}
		case SYS_flock:
			r = doLock(a, false, b & 2, b & 8, !(b & 4), (int)nr);
			break;
		case SYS_sync: case SYS_fadvise64:
			r = 0;
			break;
		case SYS_fallocate:
		{
			Fd* fd = getFd(a);
			if (!fd || fd->kind != FD_INODE)
				r = -EBADF;
			else
			{
				uint64_t end = (uint64_t)c + (uint64_t)d;
				uint32_t have = W->inodes[fd->ino].size;
				if (W->diskFree >= 0 && end > have && end - have > (uint64_t)W->diskFree)
					r = -ENOSPC;
				else
				{
					if (!(b & 1) && end > have && end < (64u << 20))
						inodeTruncate(fd->ino, end);
					r = 0;
				}
				event((int)nr, (int)a, end, r, fdName(*fd), 0);
			}
			break;
		}
		case SYS_dup: case SYS_dup2: case SYS_dup3:
		{
			Fd* fd = getFd(a);
			if (!fd)
				r = -EBADF;
			else
			{
				long n = nr == SYS_dup ? allocFd(0) : b;
				if (n < 0 || n >= kMaxFds)
					r = -EMFILE;
				else
				{
					if (n != a)
						p.fds[n] = *fd;
					r = n;
				}
			}
			event((int)nr, (int)a, 0, r, "", 0);
			break;
		}
		case SYS_fcntl:
		{
			Fd* fd = getFd(a);
			if (!fd)
				r = -EBADF;
			else if (b == F_GETFL)
				r = fd->kind == FD_STREAM ? (fd->std == 1 ? O_RDONLY : O_WRONLY) : (long)(fd->flags & ~(uint32_t)(O_CREAT | O_TRUNC | O_EXCL));
			else if (b == F_SETLK || b == F_SETLKW || b == F_OFD_SETLK || b == F_OFD_SETLKW)
			{
				short t = reinterpret_cast<struct flock*>(c)->l_type;
				r = doLock(a, b == F_SETLK || b == F_SETLKW, t == F_WRLCK, t == F_UNLCK, b == F_SETLKW || b == F_OFD_SETLKW, (int)nr);
			}
			else if (b == F_GETLK || b == F_OFD_GETLK)
			{
				struct flock* l = reinterpret_cast<struct flock*>(c);
				if (fd->kind != FD_INODE || !lockConflict(fd->ino, (int)a, b == F_GETLK, l->l_type == F_WRLCK))
					l->l_type = F_UNLCK;
				r = 0;
			}
			else if (b == F_GETFD || b == F_SETFD || b == F_SETFL)
				r = 0;
			else if (b == F_DUPFD || b == F_DUPFD_CLOEXEC)
			{
				long n = allocFd((int)c);
				if (n >= 0)
					p.fds[n] = *fd;
				r = n;
			}
			else
				r = -EINVAL;
			break;
		}
		case SYS_ioctl:
		{
			Fd* fd = getFd(a);
			if (!fd)
				r = -EBADF;
			else
			{
				StdKind sk = fd->kind == FD_STREAM ? (fd->std == 1 ? p.stdinKind : fd->std == 2 ? p.stdoutKind : STD_PIPE) : STD_FILE;
				if (b == 0x5401 && sk == STD_TTY) // TCGETS
				{
					memset(reinterpret_cast<void*>(c), 0, 36);
					r = 0;
				}
				else if (b == 0x541B) // FIONREAD
				{
					Inode& n = W->inodes[fd->ino];
					*reinterpret_cast<int*>(c) = (int)(n.size > fd->pos ? n.size - fd->pos : 0);
					r = 0;
				}
				else
					r = -ENOTTY;
			}
			break;
		}
		case SYS_poll: case SYS_ppoll:
		{
			struct pf { int fd; short ev, rev; }* v = reinterpret_cast<pf*>(a);
			r = 0;
			for (long i = 0; i < b; ++i)
			{
				v[i].rev = getFd(v[i].fd) ? (short)(v[i].ev & 5) : 0x20;
				r += v[i].rev != 0;
			}
			break;
		}
		case SYS_getcwd:
		{
			size_t n = strlen(p.cwd) + 1;
			if ((size_t)b < n)
				r = -ERANGE;
			else
			{
				memcpy(reinterpret_cast<void*>(a), p.cwd, n);
				r = (long)n;
			}
			event((int)nr, -1, 0, r, p.cwd, 0);
			break;
		}
		case SYS_chdir:
		{
			char cp[kPathCap];
			bool slash;
			r = canonical(p.cwd, reinterpret_cast<const char*>(a), cp, &slash);
			int dn = r == 0 ? findDent(cp) : -1;
			if (r == 0 && dn < 0)
				r = -ENOENT;
			if (r == 0 && W->inodes[W->dents[dn].ino].kind != K_DIR)
				r = -ENOTDIR;
			if (r == 0)
				strcpy(p.cwd, cp);
			event((int)nr, -1, 0, r, cp, 0);
			break;
		}
		case SYS_getdents64:
		{
			Fd* fd = getFd(a);
			r = fd ? doGetdents(*fd, (int)a, reinterpret_cast<char*>(b), (uint64_t)c) : -EBADF;
			break;
		}
		case SYS_readlink: case SYS_readlinkat:
		{
			bool at = nr == SYS_readlinkat;
			const char* path = reinterpret_cast<const char*>(at ? b : a);
			char* out = reinterpret_cast<char*>(at ? c : b);
			uint64_t n = (uint64_t)(at ? d : c);
			char cp[kPathCap];
			bool slash;
			r = resolveAt(at ? a : AT_FDCWD, path, cp, &slash, false);
			int dn = r == 0 ? findDent(cp) : -1;
			if (r == 0)
				r = dn < 0 ? -ENOENT : W->inodes[W->dents[dn].ino].kind != K_LINK ? -EINVAL : 0;
			if (r == 0)
			{
				const Inode& t = W->inodes[W->dents[dn].ino];
				r = (long)std::min<uint64_t>(n, t.size);
				memcpy(out, arena + t.off, (size_t)r);
			}
			event((int)nr, -1, 0, r, path, 0);
			break;
		}
		case SYS_chmod: case SYS_fchmodat:
		{
			char cp[kPathCap];
			bool slash;
			bool at = nr == SYS_fchmodat;
			r = resolveAt(at ? a : AT_FDCWD, reinterpret_cast<const char*>(at ? b : a), cp, &slash);
			int dn = r == 0 ? findDent(cp) : -1;
			r = r ? r : dn < 0 ? -ENOENT : doChmod(W->dents[dn].ino, at ? c : b, (int)nr, cp);
			break;
		}
		case SYS_fchmod:
		{
			Fd* fd = getFd(a);
			r = !fd ? -EBADF : fd->kind != FD_INODE ? 0 : doChmod(fd->ino, b, (int)nr, fdName(*fd));
			break;
		}
		case SYS_utimensat: case SYS_chown: case SYS_fchown:
			r = 0;
			event((int)nr, (int)a, 0, 0, "", 0);
			break;
		case SYS_mmap: // Of a file: a private copy.
		{
			Fd* fd = getFd(e);
			if (!fd || fd->kind != FD_INODE || W->inodes[fd->ino].kind != K_FILE || (d & MAP_SHARED && (c & PROT_WRITE)))
			{
				r = -ENODEV;
				break;
			}
			long m = sim_raw(SYS_mmap, a, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (d & MAP_FIXED), -1, 0);
			if (m > 0 || m < -4095)
			{
				FileMap fm = {(uint64_t)m, (uint64_t)b, (uint64_t)f, fd->ino, fd->session, (int)c};
				showMap(fm);
				if (p.nmaps < (int)(sizeof p.maps / sizeof p.maps[0]))
					p.maps[p.nmaps++] = fm;
			}
			r = m;
			event((int)nr, (int)e, (uint64_t)b, 0, fdName(*fd), 0);
			break;
		}
		// What differs between machines.
		case SYS_uname:
		{
			struct utsname* u = reinterpret_cast<struct utsname*>(a);
			memset(u, 0, sizeof *u);
			strcpy(u->sysname, "Linux");
			strcpy(u->nodename, W->machine & 1 ? "machine-one" : "other");
			strcpy(u->release, W->machine & 2 ? "6.8.0" : "5.15.0");
			strcpy(u->version, "#1");
			strcpy(u->machine, "x86_64");
			r = 0;
			break;
		}
		case SYS_sysinfo:
		{
			struct sysinfo* u = reinterpret_cast<struct sysinfo*>(a);
			memset(u, 0, sizeof *u);
			u->uptime = (long)(W->machine % 100000);
			u->totalram = (1 + W->machine % 16) << 30;
			u->freeram = u->totalram / 2;
			u->mem_unit = 1;
			u->procs = 100;
			r = 0;
			break;
		}
		case SYS_getrusage:
			memset(reinterpret_cast<void*>(b), 0, sizeof(struct rusage));
			r = 0;
			break;
		case SYS_times:
			if (a)
				memset(reinterpret_cast<void*>(a), 0, sizeof(struct tms));
			r = (long)(W->clock / 10000000u);
			break;
		case SYS_sched_getaffinity:
			if (b < 8)
				r = -EINVAL;
			else
			{
				*reinterpret_cast<uint64_t*>(c) = (1ull << (1 + W->machine % 8)) - 1;
				r = 8;
			}
			break;
		case SYS_clone: case SYS_fork: case SYS_vfork: case SYS_clone3:
			r = nr == SYS_clone3 ? -ENOSYS : -EAGAIN;
			event((int)nr, -1, 0, r, "clone refused", 0);
			break;
		default:
			cnt(C_UNKNOWN_SYS);
			event((int)nr, -1, 0, -ENOSYS, "unknown system call", 0);
			break;
	}
	if (killHere)
	{
		event((int)nr, -1, 0, 0, "killed after", 3);
		cnt(C_KILL);
		p.state = P_KILLED;
		die(137);
	}
	return r;
}

NOSAN static void onSys(int, siginfo_t* si, void* uc)
{
	auto* u = static_cast<ucontext_t*>(uc);
	auto* g = u->uc_mcontext.gregs;
	int saved = errno;
	long r = emulate(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
	errno = saved;
	g[REG_RAX] = r;
}

struct KSigaction
{
	void (*handler)(int, siginfo_t*, void*);
	unsigned long flags;
	void (*restorer)();
	unsigned long mask;
};

NOSAN __attribute__((noinline)) static void junkStack(int pattern)
{
	volatile char buf[96 * 1024];
	for (size_t i = 0; i < sizeof buf; ++i)
		buf[i] = (char)pattern;
}

// Allocation faults (C++ allocations of the tool).
static bool allocHook()
{
	if (self < 0)
		return true;
	Proc& p = W->procs[self];
	uint64_t n = p.allocs++;
	if (p.f.allocAt >= 0 && (n == (uint64_t)p.f.allocAt || (p.f.allocSticky && n > (uint64_t)p.f.allocAt)))
	{
		p.allocFailed = true;
		cnt(C_ALLOC_FAIL);
		event(-3, -1, n, 0, "allocation fails", 1);
		return false;
	}
	return true;
}

[[noreturn]] static void childMain(int idx, const SpawnOpt& o)
{
	clearenv();
	setenv("PATH", "/usr/bin:/bin", 1);
	for (auto& e : o.env)
		setenv(e.first.c_str(), e.second.c_str(), 1);
#if !defined(__SANITIZE_ADDRESS__)
	mallopt(M_PERTURB, o.perturb);
#endif
	if (o.heapJunk)
	{
		// Other free blocks in other places.
		std::vector<void*> held;
		uint64_t x = o.heapJunk * 0x9E3779B97F4A7C15ull;
		auto next = [&](uint32_t n) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)((x >> 33) % n); };
		for (int i = 0; i < 160; ++i)
		{
			size_t n = next(4) ? 8 + next(300) : 8 + next(9000);
			held.push_back(malloc(n));
			memset(held.back(), (int)next(256), n);
		}
		for (size_t i = 0; i < held.size(); i += 1 + next(2))
		{
			size_t k = next((uint32_t)held.size());
			free(held[k]);
			held[k] = nullptr;
		}
	}
	std::vector<const char*> av;
	for (auto& a : o.argv)
		av.push_back(a.c_str());
	av.push_back(nullptr);
	struct sigaction dfl;
	memset(&dfl, 0, sizeof dfl);
	dfl.sa_handler = SIG_DFL;
	sigaction(SIGPIPE, &dfl, nullptr);
	itimerval tv{{0, 0}, {(time_t)simCpuLimitSeconds(), 0}};
	setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	self = idx;
	KSigaction sa{onSys, SA_SIGINFO | 0x04000000 /* SA_RESTORER */, sim_restorer, 0};
	sim_raw(SYS_rt_sigaction, SIGSYS, (long)&sa, 0, 8, 0, 0);
	waitTurn();
	junkStack(o.stackJunk);
	selector = 1;
	if (sim_raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 1, (long)sim_raw_begin, sim_raw_end - sim_raw_begin, (long)&selector, 0) != 0)
		die(93);
	int r = vfc_tool_main((int)o.argv.size(), av.data());
	exit(r);
}

// The library decides at start whether the processor converts half floats; a machine that doesn't have the instructions
// is simulated by overwriting the answer (when it is still kept in that variable).
static void setMachine()
{
	const bool* at = &vfc::hasHardwareHalfFloat;
	if (!at || !W->noHalf)
		return;
	char no = 0;
	iovec l{&no, 1}, r{const_cast<bool*>(at), 1};
	if (process_vm_writev(getpid(), &l, 1, &r, 1, 0) == 1)
		count(C_NO_HALF);
}

void runProcs(const std::vector<SpawnOpt>& opts)
{
	setMachine();
	W->nprocs = (int)opts.size();
	W->turn = -1;
	pid_t pids[kMaxProcs] = {0};
	fflush(nullptr);
	for (int i = 0; i < W->nprocs; ++i)
	{
		Proc& p = W->procs[i];
		memset(static_cast<void*>(&p), 0, sizeof p);
		const SpawnOpt& o = opts[(size_t)i];
		p.state = P_READY;
		p.f = o.f;
		p.umask = o.umask;
		strncpy(p.cwd, o.cwd.c_str(), kPathCap - 1);
		p.stdinIno = (int16_t)newInode(K_FILE);
		inodeSet(p.stdinIno, o.stdinData.data(), o.stdinData.size());
		p.stdoutIno = (int16_t)newInode(K_FILE);
		p.stderrIno = (int16_t)newInode(K_FILE);
		p.stdinKind = o.stdinKind;
		p.stdoutKind = o.stdoutKind;
		p.closedStd = o.closed;
		if (o.closed)
			count(C_CLOSED_STD);
		if (o.closed & 2)
			p.stdoutFailed = true;
		int16_t inos[3] = {p.stdinIno, p.stdoutIno, p.stderrIno};
		for (int s = 0; s < 3; ++s)
		{
			Fd& f = p.fds[s];
			if (o.closed & (1u << s))
				continue;
			f.kind = FD_STREAM;
			f.std = (uint8_t)(s + 1);
			f.ino = inos[s];
			f.session = -1;
			f.dent = -1;
		}
		self = i;
		if (!(o.closed & 1) && W->nsessions < (int)(sizeof W->sessions / sizeof W->sessions[0]))
			p.fds[0].session = (int16_t)newSession("<stdin>");
		self = -1;
	}
	for (int i = 0; i < W->nprocs; ++i)
	{
		pids[i] = fork();
		if (pids[i] == 0)
			childMain(i, opts[(size_t)i]);
		if (pids[i] < 0)
		{
			harnessError("fork of a simulated process failed");
			_exit(0);
		}
		count(C_PROCS);
	}
	int live = W->nprocs;
	auto wake = [&](int t)
	{
		W->turn = t;
		syscall(SYS_futex, &W->turn, FUTEX_WAKE, 1 << 30, nullptr, nullptr, 0);
	};
	wake(pickNext(-1, false));
	while (live > 0)
	{
		int st = 0;
		pid_t pid = waitpid(-1, &st, 0);
		if (pid < 0)
		{
			if (errno == EINTR)
				continue;
			harnessError("waitpid failed");
			_exit(0);
		}
		for (int i = 0; i < W->nprocs; ++i)
			if (pids[i] == pid)
			{
				--live;
				Proc& p = W->procs[i];
				if (p.state == P_READY)
				{
					// Died without going through exit_group of the simulation.
					p.state = P_CRASHED;
					p.signal = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
					p.exitCode = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
					if (p.exitCode == 93)
					{
						harnessError("syscall user dispatch is not available");
						_exit(0);
					}
					self = i;
					event(-4, -1, 0, p.signal, "crashed", 0);
					self = -1;
				}
				if (W->turn == i && live > 0)
					wake(pickNext(-1, false));
			}
	}
	if (W->overflow)
	{
		harnessError("the simulated world overflowed");
		_exit(0);
	}
}

ProcResult result(int i)
{
	Proc& p = W->procs[i];
	ProcResult r;
	r.state = p.state;
	r.exitCode = p.exitCode;
	r.signal = p.signal;
	r.hang = p.hang || p.signal == SIGVTALRM;
	r.out = inodeStr(p.stdoutIno);
	r.err = inodeStr(p.stderrIno);
	return r;
}

static const char* sysName(int nr)
{
	switch (nr)
	{
		case SYS_openat: return "open";
		case SYS_read: return "read";
		case SYS_readv: return "readv";
		case SYS_pread64: return "pread";
		case SYS_write: return "write";
		case SYS_writev: return "writev";
		case SYS_close: return "close";
		case SYS_lseek: return "lseek";
		case SYS_fstat: return "fstat";
		case SYS_newfstatat: case SYS_stat: return "stat";
		case SYS_statx: return "statx";
		case SYS_mkdir: return "mkdir";
		case SYS_unlink: return "unlink";
		case SYS_rename: return "rename";
		case SYS_exit_group: return "exit";
		case SYS_fsync: return "fsync";
		case -1: return "schedule";
		case -2: return "environment";
		case -3: return "allocator";
		case -4: return "process";
	}
	return nullptr;
}

std::string renderEvent(const Event& e)
{
	static const char* const fl[] = {"", "  <== FAULT", "  <== PARTIAL", "  <== KILL", "  <== CHANGED"};
	const char* n = sysName(e.nr);
	std::string name = n ? n : fmt("syscall %d", e.nr);
	if (e.nr == -1)
		return fmt("p%d: preempted, p%d runs", e.proc, e.fd);
	if (e.nr == -2)
		return fmt("p%d: an input file is changed (inode %d, operation %lld)%s", e.proc, e.fd, (long long)e.ret, fl[4]);
	std::string r = fmt("p%d: %s(%s%s%s", e.proc, name.c_str(), e.fd >= 0 && e.nr != SYS_openat ? fmt("%d ", e.fd).c_str() : "", e.what,
		e.arg ? fmt(", %llu", (unsigned long long)e.arg).c_str() : "");
	r += fmt(") = %lld", (long long)e.ret);
	if (e.ret < 0 && e.ret > -200)
		r += fmt(" (%s)", strerror((int)-e.ret));
	return r + fl[e.fault];
}
}

// Clocks, so that nothing bypasses the simulation through the vDSO.
extern "C" int clock_gettime(clockid_t c, timespec* t)
{
	if (k::self < 0)
		return (int)syscall(SYS_clock_gettime, c, t);
	k::emulate(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
	return 0;
}
extern "C" time_t time(time_t* t)
{
	timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	if (t)
		*t = s.tv_sec;
	return s.tv_sec;
}
extern "C" int gettimeofday(timeval* __restrict t, void* __restrict)
{
	timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	t->tv_sec = s.tv_sec;
	t->tv_usec = s.tv_nsec / 1000;
	return 0;
}

#if !defined(__SANITIZE_ADDRESS__)
static void* simNew(size_t n)
{
	if (!k::allocHook())
		throw std::bad_alloc();
	void* p = malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void* operator new(size_t n) { return simNew(n); }
void* operator new[](size_t n) { return simNew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return k::allocHook() ? malloc(n ? n : 1) : nullptr; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return k::allocHook() ? malloc(n ? n : 1) : nullptr; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

// The environment as the tool sees it: variables that the simulator did not set may have any value.
extern "C" char* __real_getenv(const char*);
extern "C" char* __real_secure_getenv(const char*);
static char* simGetenv(const char* name)
{
	char* r = __real_getenv(name);
	if (r || k::self < 0 || !k::W || !k::W->envJunk)
		return r;
	static const char* const junk[] = {"1", "0", "", "2", "true", "/w/in", "17", "de_DE.UTF-8"};
	uint64_t h = fnv(name, strlen(name), k::W->envJunk * 0x9E3779B97F4A7C15ull + 1);
	h ^= h >> 31;
	return h & 1 ? const_cast<char*>(junk[(h >> 1) & 7]) : nullptr;
}
extern "C" char* __wrap_getenv(const char* name) { return simGetenv(name); }
extern "C" char* __wrap_secure_getenv(const char* name) { return simGetenv(name); }

// Entropy that the processor would supply.
extern "C" unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)(splitmix(k::W->entropy) >> 16); }

// A thread that the tool starts runs to its end at once: one schedule of those that are possible. (The library's own
// threads are scheduled in sim/lib.)
static pthread_t fakeThreads = 0x7000;
static void* fakeResults[4096];
extern "C" int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
	if (k::self < 0)
		return reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_create"))(h, a, fn, arg);
	*h = ++fakeThreads;
	pthread_t me = *h;
	void* r = fn(arg);
	fakeResults[me & 4095] = r;
	return 0;
}
extern "C" int pthread_join(pthread_t h, void** r)
{
	using F = int (*)(pthread_t, void**);
	if (k::self < 0)
		return reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_join"))(h, r);
	if (r)
		*r = fakeResults[h & 4095];
	return 0;
}
extern "C" int pthread_detach(pthread_t h)
{
	using F = int (*)(pthread_t);
	if (k::self < 0)
		return reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_detach"))(h);
	return 0;
}
