// A simulated kernel: files, directories, standard streams, processes, faults and their schedule.
// Simulated processes are real forked processes whose every system call is caught with syscall user
// dispatch and answered from the shared World; nothing they do reaches the real filesystem.
#pragma once
#include "../common/runner.h"

namespace k
{
enum Kind : uint8_t { K_FREE = 0, K_FILE, K_DIR, K_LINK };
enum FdKind : uint8_t { FD_NONE = 0, FD_INODE, FD_STREAM };
enum StdKind : uint8_t { STD_PIPE = 0, STD_FILE = 1, STD_TTY = 2 };

// Counters shared by everything in this simulator.
enum Counter
{
	C_OPEN_R_FAIL, C_READ_FAIL, C_READ_SHORT, C_OPEN_W_FAIL, C_WRITE_FAIL, C_WRITE_SHORT, C_CLOSE_FAIL, C_MKDIR_FAIL,
	C_STDOUT_FAIL, C_STDOUT_SHORT, C_DISK_FULL, C_META_FAIL, C_ALLOC_FAIL, C_KILL, C_KILL_MID_WRITE, C_POWER_LOSS,
	C_MUTATE, C_PREEMPT, C_MKDIR_EEXIST_RACE, C_STDIN_SHORT,
	// Workload probes.
	C_PROCS, C_EXIT0, C_EXIT1, C_ACCEPTED, C_REJECTED, C_EITHER, C_VERIFIED, C_HELP, C_BASE64, C_OUTDIR, C_STDIN, C_STRIPS,
	C_MULTIBUF, C_HUGE, C_KNOWN_FLIP, C_OVERWRITE, C_OVERLAP, C_PARTIAL_STDOUT, C_FULL_STDOUT_KILLED, C_RERUNS,
	C_ERR_CONFIG, C_ERR_DATA, C_ERR_ARGS, C_ERR_CONVERT, C_CORRUPT, C_READS, C_WRITES, C_SYSCALLS, C_UNKNOWN_SYS, C_NONFINITE,
	C_RESTARTS, C_PRIMS, C_ANCESTORS, C_BADSECTOR, C_DEEP, C_CLOSED_STD, C_NO_HALF, C_LONG_PATH, C_LINKS,
	C_END
};

constexpr int kMaxInodes = 256, kMaxDents = 256, kMaxProcs = 5, kMaxFds = 48, kPathCap = 1400;
constexpr uint32_t kMaxEvents = 6000;
constexpr uint64_t kArena = 1ull << 28;
constexpr uint32_t kStepLimit = 1000000;

struct Inode
{
	Kind kind;
	bool noRead, noWrite; // Permission bits of the simulated user.
	int32_t badAt;        // First unreadable byte (bad sector), -1 for none.
	uint32_t size, cap;
	uint64_t off;         // Into the arena.
	uint32_t syncedSize;  // Bytes known to survive a power loss.
	uint32_t refs;
	bool dirty;
	bool odd;             // Read sessions: the same range was read twice.
	uint64_t mtime;       // Simulated nanoseconds.
	uint16_t mode;        // Permission bits when created or changed during the run, with kModeSet.
};

constexpr uint16_t kModeSet = 0x8000;

// An advisory lock of a whole file. Locks of processes that ended do not count.
struct FileLock
{
	bool used, posix, excl;
	int16_t proc, ino, fd;
};

struct Dent
{
	bool used;
	bool preexisting;
	bool synced;
	int16_t ino;
	char path[kPathCap];
};

struct Fd
{
	FdKind kind;
	uint8_t std;     // 1 stdin, 2 stdout, 3 stderr for FD_STREAM.
	int16_t ino;
	int16_t session; // Inode that records what was delivered.
	int16_t dent;
	uint32_t flags;
	uint64_t pos;
	uint32_t wrote;  // Bytes written through this descriptor.
	uint32_t cursor; // getdents position.
};

enum FaultClass
{
	F_OPEN_R = 1, F_READ = 2, F_READ_SHORT = 4, F_OPEN_W = 8, F_WRITE = 16, F_WRITE_SHORT = 32, F_CLOSE = 64, F_MKDIR = 128,
	F_STDOUT = 256, F_STDOUT_SHORT = 512, F_META = 1024, F_STDIN_SHORT = 2048,
	F_HARD = F_OPEN_R | F_READ | F_OPEN_W | F_WRITE | F_CLOSE | F_MKDIR | F_STDOUT | F_META,
	F_BENIGN = F_READ_SHORT | F_WRITE_SHORT | F_STDOUT_SHORT | F_STDIN_SHORT,
	F_INPUT = F_OPEN_R | F_READ
};

struct FaultCfg
{
	uint32_t classes;  // Enabled FaultClass bits.
	uint32_t rate;     // Per thousand eligible operations, 0 for none.
	int32_t single;    // If >= 0: exactly the eligible operation with this number fails.
	bool sticky;       // A failed class keeps failing.
	bool tiny;         // Short transfers are single bytes.
	int32_t killAt;    // Visible system call at which the process dies, -1 for never.
	int32_t killPart;  // Per mille of a write done before dying (or 0: before the call, 1000: after it).
	int64_t allocAt;   // Allocation that fails, -1 for never.
	bool allocSticky;
};

enum ProcState : uint8_t { P_NONE = 0, P_READY, P_EXITED, P_KILLED, P_CRASHED };

struct Session
{
	int16_t proc;
	int16_t ino;
	char path[kPathCap];
};

// A mapping of a file.
struct FileMap
{
	uint64_t addr, len, off;
	int16_t ino, session;
	int prot;
};

struct Proc
{
	FileMap maps[16];
	int nmaps;
	ProcState state;
	int exitCode;
	int signal;
	bool hang;
	Fd fds[kMaxFds];
	char cwd[kPathCap];
	int16_t stdinIno, stdoutIno, stderrIno;
	StdKind stdinKind, stdoutKind;
	uint32_t syscalls, visible;
	uint32_t eligible;      // Operations that could have been given a fault.
	uint32_t hardFired;     // FaultClass bits that actually fired.
	uint32_t benignFired;
	uint32_t hardCount, benignCount;
	uint32_t stuck;         // Classes that fail from now on.
	bool stdoutFailed;
	uint64_t allocs;
	bool allocFailed;
	FaultCfg f;
	uint32_t umask;
	uint32_t lockWaits;
	uint8_t closedStd;      // Standard streams that are closed from the start, by bit.
};

struct Event
{
	uint8_t proc;
	uint8_t fault; // 0 none, 1 error, 2 partial, 3 kill, 4 mutate
	int16_t nr;
	int32_t fd;
	int64_t ret;
	uint64_t arg;
	char what[72];
};

struct Mutation
{
	int32_t at; // Visible system call of process 0 before which it happens, -1 for none.
	int16_t ino;
	uint8_t op; // 0 truncate, 1 extend, 2 flip, 3 replace, 4 unlink
	uint32_t a, b;
	int16_t other;
};

struct World
{
	// State that snapshots cover.
	Inode inodes[kMaxInodes];
	Dent dents[kMaxDents];
	uint64_t arenaUsed;
	int64_t diskFree; // Bytes, -1 for unlimited.
	// Run state.
	Proc procs[kMaxProcs];
	int nprocs;
	volatile int turn; // Process allowed to run, -1 for the simulator.
	Session sessions[160];
	int nsessions;
	Mutation mut[6];
	int nmut;
	uint32_t nevents;
	uint64_t eventHash;
	uint64_t steps;
	uint64_t clock; // Simulated nanoseconds.
	uint64_t pace; // Of the clock; 0 for a steady one.
	uint64_t entropy;
	uint64_t machine; // What identifies the simulated machine and the process: name, kernel, memory, processors, PIDs.
	FileLock locks[32];
	uint32_t uid;     // Of the simulated user; affects nothing else.
	bool noHalf;      // The simulated machine has no instructions for half floats.
	uint32_t envJunk; // Seed for the values of environment variables that the simulator did not set, 0 for none.
	bool overflow;
	bool links; // There are symbolic links.
	Event events[kMaxEvents];
};

extern World* W;
extern uint8_t* arena;

void initKernel();                 // Maps the shared state (once).
void resetWorld();
int newInode(Kind k);
void inodeSet(int ino, const void* d, size_t n);
bool inodeWrite(int ino, uint64_t pos, const void* d, size_t n);
inline std::string inodeStr(int ino)
{
	return std::string(reinterpret_cast<char*>(arena + W->inodes[ino].off), W->inodes[ino].size);
}
int addDir(const char* path);
int addFile(const char* path, const std::string& data);
int findDent(const char* canonical);
// Canonical absolute path; returns 0 or a negative errno (missing intermediate directories).
int canonical(const char* cwd, const char* path, char* out, bool* slash, bool follow = true);
// Lexical only: no existence checks.
// The path with ".", ".." and symbolic links resolved; `follow` also resolves a link that is the last component.
std::string lexical(const std::string& cwd, const std::string& path, bool follow = true);
// The target is a canonical path without links.
int addLink(const char* path, const std::string& target);

struct Image
{
	std::vector<Inode> inodes;
	std::vector<Dent> dents;
	std::vector<uint8_t> bytes;
	int64_t diskFree;
};
Image snapshot();
void restore(const Image& i);

// Files of the world by path; directories have kind K_DIR.
struct FsEntry
{
	Kind kind;
	std::string data;
	uint32_t mode = 0; // Not part of the comparison.
	bool operator==(const FsEntry& o) const { return kind == o.kind && data == o.data; }
	bool operator!=(const FsEntry& o) const { return !(*this == o); }
};
#define FS_MAP std::map<std::string, k::FsEntry>

struct SpawnOpt
{
	std::vector<std::string> argv;
	std::string cwd = "/w";
	bool hasStdin = false;
	std::string stdinData;
	StdKind stdinKind = STD_PIPE, stdoutKind = STD_PIPE;
	FaultCfg f{0, 0, -1, false, false, -1, 0, -1, false};
	uint32_t umask = 022;
	int perturb = 0;        // Fill pattern for recycled heap memory.
	int stackJunk = 0;      // Fill pattern for the stack below main.
	uint8_t closed = 0;     // Standard streams that are closed, by bit.
	uint32_t heapJunk = 0;  // Seed for blocks that are allocated and freed before main.
	std::vector<std::pair<std::string, std::string>> env;
};
// Runs the processes to completion under the seeded scheduler.
void runProcs(const std::vector<SpawnOpt>& o);

struct ProcResult
{
	ProcState state;
	int exitCode, signal;
	bool hang;
	std::string out, err;
};
ProcResult result(int p);
uint32_t modeOf(int ino);
std::string renderEvent(const Event& e);
}

extern "C" int vfc_tool_main(int argc, const char** argv);
