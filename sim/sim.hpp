// Deterministic simulator: one seed (or one choice tape) is one exactly
// repeatable execution of real code from /repo.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <memory>
#include <csignal>

namespace sim {

// ---------------------------------------------------------------- choices
// Every choice of a run goes through the tape.  Exploring: drawn from the
// seeded generator and recorded.  Replaying: read from the tape, 0 past its
// end.  0 always means "the dullest option" (no fault, first process, ...).
uint32_t draw(uint32_t n);			// 0..n-1
int drawrange(int lo, int hi);			// lo..hi, tape 0 = lo
bool chance(uint32_t num, uint32_t den);	// true with probability num/den
uint32_t drawlog(uint32_t max);			// 0..max, small values likely
uint64_t draw64();

// ---------------------------------------------------------------- outcome
// violate records the first violation of the run (the run continues, further
// calls are ignored).  cls is the violation class used for minimisation and
// for matching known findings.
void violate(const std::string &cls, const char *fmt, ...) __attribute__((format(printf,2,3)));
bool violated();
void describe(const char *fmt, ...) __attribute__((format(printf,1,2)));	// appended to the run's description
void count(const char *name, uint64_t n = 1);	// named counters (faults fired, probes)
void maxcount(const char *name, uint64_t n);
void nontrivial();				// the run did what the property is about
void log(const char *fmt, ...) __attribute__((format(printf,1,2)));	// event log (hashed)
extern bool verbose;

// ---------------------------------------------------------------- file system
struct Inode;
typedef std::shared_ptr<Inode> InodeP;
enum Type { File, Dir, Link };
struct Inode {
	Type type;
	int ino;
	std::string data;			// file contents or link target
	std::vector<std::pair<std::string, InodeP>> ents;
	InodeP lookup(const std::string &n);
	bool remove(const std::string &n);
};
struct Fs {
	InodeP root;
	void reset();
	// resolve a path; follow=false leaves a trailing symlink unresolved.
	// On failure returns null and sets err.
	InodeP resolve(const std::string &path, bool follow, int &err, InodeP *parent = nullptr, std::string *last = nullptr);
	// direct (fault free) helpers for harness use
	void mkdirs(const std::string &path);
	void write(const std::string &path, const std::string &data);
	bool exists(const std::string &path);
	bool read(const std::string &path, std::string &out);
	void symlink(const std::string &target, const std::string &path);
	std::string dump();			// whole tree as text
	std::vector<std::string> files();	// all non-directories
};
extern Fs fs;
extern std::string cwd;

// ---------------------------------------------------------------- faults
// Percentages are per eligible system call while `on`.
struct Faults {
	int read = 0, write = 0, open = 0, dir = 0, stat = 0, meta = 0, close = 0;	// per-mille
	int shortio = 0;		// per-mille of short reads/writes
	bool nospace = false;		// write errors are persistent ENOSPC once hit
	int budget = 1000000;		// number of errors that may still fire
	int eintr = 0;			// per-mille: a pipe write blocks until the next timer signal
	bool sout = false;		// write faults also hit stdout
};
extern Faults faults;
void nofaults();			// no faults from here on, disk has space again
// draw a fault mix: a random subset of the kinds in mask, 1-3 errors
enum { FRead = 1, FWrite = 2, FOpen = 4, FDir = 8, FStat = 16, FMeta = 32, FClose = 64, FShort = 128 };
void drawfaults(int mask);

// deterministic single-shot: fail the n-th eligible call (0 = off)
// ---------------------------------------------------------------- processes
enum Status { Ready, Exited, Killed, Crashed, Hung };
const char *statusname(Status);
struct Timer { bool armed = false; uint64_t at = 0; uint64_t interval = 0; };
struct Proc;
typedef std::function<int()> Body;
struct ProcOpts {
	std::string name;
	std::string in;			// contents of stdin
	bool infile = false;		// stdin is this sim path instead
	std::string outpath;		// stdout goes to this file; empty: captured only
	bool outpipe = false;		// stdout is a pipe (EINTR possible)
	uint64_t killtick = 0;		// kill at this edge tick (0: never)
	uint64_t killcall = 0;		// kill at this system call
	uint64_t maxticks = 200000000;
	int outbuf = -1;		// stdio buffer size for stdout, -1: default
	int inchunk = 0;		// max bytes per read on stdin, 0: all
};
struct Proc {
	int pid;
	ProcOpts o;
	Status status = Ready;
	int code = 0;			// exit code or signal
	std::string what;		// crash message
	std::string out, err;		// everything that reached stdout / stderr
	bool outerr = false;		// some stdout write failed
	bool sawfault = false;		// some injected fault hit this process
	uint64_t ticks = 0, calls = 0;
	bool ok() const { return status == Exited && code == 0; }
};
typedef std::shared_ptr<Proc> ProcP;
ProcP spawn(const ProcOpts &o, Body body);
// run all ready processes to the end under the scheduler.
void runall();
// run one process alone
ProcP run(const ProcOpts &o, Body body);
// let the simulated process call a C-style main with these arguments.
Body mainbody(std::function<int(int, const char **)> m, std::vector<std::string> args);
extern int switchpct;			// probability of a preemption at a syscall, percent
void yield_point(const char *what);
Proc *current();

// ---------------------------------------------------------------- time
struct Clock {
	double nsPerTick = 100;		// simulated true ns per instrumented edge
	double cpuShare = 1.0;		// cpu time per true time
	int64_t wallBase = 1700000000000000000LL;
	int64_t wallOff = 0;
	uint64_t callCost = 1000;	// ns per system call
	std::function<int64_t()> reading;	// what the wall clock shows, if it has a mind of its own
	unsigned jumped = 0;		// jumps so far
	bool stalled = false;		// wall clock does not advance for the reader
	int quantum = 1;		// granularity of readings in ns
	uint64_t trueNs = 0, cpuNs = 0;
	std::vector<std::pair<uint64_t,int64_t>> jumps;	// at true ns, add this to wall offset
	std::vector<std::pair<uint64_t,uint64_t>> stalls;	// at true ns, the process is off cpu for this long
};
extern Clock clk;
int64_t wallnow();			// what the wall clock reads, in ns
struct Sigs {				// what happened with signals, for scenarios
	uint64_t delivered = 0;		// handler calls
	uint64_t tickFirst = 0;		// tick of first delivery
	uint64_t killedBy = 0;
	std::function<void(int)> onDeliver;
	uint64_t arms = 0, handlers = 0;	// setitimer(nonzero) / sigaction calls
};
extern Sigs sigs;
bool timerArmed(int which);		// ITIMER_REAL / ITIMER_PROF
bool handlerDefault(int sig);
// deliver pending timer expiry as if simulated time had passed after the end
void advanceAfter(uint64_t ns);

// ---------------------------------------------------------------- memory
struct Mem {
	int fill = 0;			// 0: zeros; 1: 0xFF; 2: 0xA5; 3: pseudo-random
	uint64_t fillseed = 1;
	uint64_t allocs = 0, live = 0, peak = 0;
	uint64_t failAt = 0;		// n-th allocation fails (1-based), 0 never
	uint64_t failAt2 = 0;		// and this one
	bool failForever = false;	// ... and all later ones
	uint64_t budget = 0;		// bytes, 0: unlimited
	uint64_t fired = 0;
	bool fromSetrlimit = false;	// honour RLIMIT_AS set by the program
	uint64_t hardLimit = ~0ull, limitSet = 0;	// the hard RLIMIT_AS, and what the program set
	bool limitFails = false;	// setting it fails
	uint64_t unit = 1;		// a limit of L bytes is simulated as L/unit
};
extern Mem mem;

// ---------------------------------------------------------------- coverage
uint64_t edgesHit();

// ---------------------------------------------------------------- scenarios
typedef void (*Scenario)();
struct Reg { Reg(const char *prop, const char *name, Scenario s, int weight = 1); };
#define SCENARIO2(prop, fn, w) static void fn(); static sim::Reg reg_##fn(prop, #fn, fn, w); static void fn()
#define SCENARIO(prop, fn) SCENARIO2(prop, fn, 1)
extern std::string property;		// property being checked
extern bool thorough;

// While one of these lives, the harness runs the domain's own code (to read or
// expand an instance it knows to be legal): if that fails, it is a finding.
struct DomainCode { const char *was; DomainCode(const char *what); ~DomainCode(); };
struct OffSut { int s; OffSut(); ~OffSut(); };	// harness code called back from the simulated program

std::string strf(const char *fmt, ...) __attribute__((format(printf,1,2)));
uint64_t hashstr(const std::string &s, uint64_t h = 1469598103934665603ULL);

} // namespace sim
extern "C" unsigned long simclosedsize(unsigned long hint);
namespace sim { extern unsigned long closedsz; }	// 0: cap only
