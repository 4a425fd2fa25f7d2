// Core of the deterministic simulator: choice tape, processes and scheduler,
// simulated time, signals, file system, memory, and the run loop.
#include "sim.hpp"
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <cmath>
#include <algorithm>
#include <set>
#include <new>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <stdio_ext.h>

extern "C" {
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
void __real_exit(int) __attribute__((noreturn));
int __real_sigaction(int, const struct sigaction *, struct sigaction *);
int __real_gettimeofday(struct timeval *, void *);
int __real_clock_gettime(clockid_t, struct timespec *);
time_t __real_time(time_t *);
pid_t __real_getpid();
int __real_stat(const char *, struct stat *);
int __real_setitimer(int, const struct itimerval *, struct itimerval *);
int __real_open(const char *, int, ...);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_close(int);
int __real_fileno(FILE *);
int __real_fflush(FILE *);
void __real_abort() __attribute__((noreturn));
sighandler_t __real_signal(int, sighandler_t);
}

namespace sim {

enum { MaxTape = 1 << 20, MaxCounters = 256, LogCap = 1 << 20 };

struct Counter { char name[56]; uint64_t n; int max; };

struct Shm {
	uint32_t ntape;
	int violated;
	int nontriv;
	int done;
	const char *domain;
	char cls[256], msg[4096], desc[16384];
	uint32_t ndesc;
	uint64_t hash, nlog, statehash;
	uint64_t simns, ticks, calls;
	uint32_t ncounters;
	Counter counters[MaxCounters];
	uint32_t loglen;
	char log[LogCap];
	uint8_t edges[1 << 17];
	uint32_t tape[MaxTape];
};

static Shm *shm;
bool verbose, thorough;
std::string property;
int insut;			// executing code of the system under test

struct Out {			// leave SUT mode for the current scope
	int s;
	Out() : s(insut) { insut = 0; }
	~Out() { insut = s; }
};

OffSut::OffSut() : s(insut) { insut = 0; }
OffSut::~OffSut() { insut = s; }

// ---------------------------------------------------------------- choices
static uint64_t rngs[2];
static bool replaying;
static std::vector<uint32_t> replay;
static size_t replayi;

static uint64_t splitmix(uint64_t &x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

static uint64_t rng() {
	uint64_t s1 = rngs[0], s0 = rngs[1], r = s0 + s1;
	rngs[0] = s0;
	s1 ^= s1 << 23;
	rngs[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
	return r;
}

static uint32_t record(uint32_t v) {
	if (shm->ntape < MaxTape)
		shm->tape[shm->ntape++] = v;
	return v;
}

static bool fromtape(uint32_t n, uint32_t &v) {
	if (!replaying)
		return false;
	v = replayi < replay.size() ? replay[replayi] : 0;
	replayi++;
	if (n > 0 && v >= n)
		v %= n;
	return true;
}

uint32_t draw(uint32_t n) {
	Out o;
	uint32_t v;
	if (n <= 1)
		return 0;
	if (!fromtape(n, v))
		v = rng() % n;
	return record(v);
}

int drawrange(int lo, int hi) { return lo + (int) draw(hi - lo + 1); }

bool chance(uint32_t num, uint32_t den) {
	Out o;
	uint32_t v;
	if (!fromtape(2, v))
		v = rng() % den < num;
	return record(v);
}

uint32_t drawlog(uint32_t max) {
	Out o;
	uint32_t v;
	if (!fromtape(max + 1, v)) {
		int bits = 0;
		while ((1ull << bits) <= max)
			bits++;
		int b = rng() % (bits + 1);
		v = b == 0 ? 0 : rng() % (1ull << b);
		if (v > max)
			v = max;
	}
	return record(v);
}

uint64_t draw64() {
	uint64_t a = draw(1u << 31), b = draw(1u << 31);
	return a << 31 | b;
}

// ---------------------------------------------------------------- outcome
uint64_t hashstr(const std::string &s, uint64_t h) {
	for (unsigned char c : s)
		h = (h ^ c) * 1099511628211ULL;
	return h;
}

std::string strf(const char *fmt, ...) {
	Out o;
	char buf[8192];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	return buf;
}

void log(const char *fmt, ...) {
	Out o;
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n >= (int) sizeof buf)
		n = sizeof buf - 1;
	for (int i = 0; i < n; i++)
		shm->hash = (shm->hash ^ (unsigned char) buf[i]) * 1099511628211ULL;
	shm->hash = (shm->hash ^ 10) * 1099511628211ULL;
	shm->nlog++;
	if (verbose && shm->loglen + n + 2 < LogCap) {
		memcpy(shm->log + shm->loglen, buf, n);
		shm->loglen += n;
		shm->log[shm->loglen++] = '\n';
	}
}

void violate(const std::string &cls, const char *fmt, ...) {
	Out o;
	if (shm->violated)
		return;
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	shm->violated = 1;
	snprintf(shm->cls, sizeof shm->cls, "%s", cls.c_str());
	snprintf(shm->msg, sizeof shm->msg, "%s", buf);
	log("VIOLATED %s: %s", cls.c_str(), buf);
}

bool violated() { return shm->violated; }
static uint64_t domainticks;
DomainCode::DomainCode(const char *what) : was(shm->domain) { shm->domain = what; domainticks = 0; }
DomainCode::~DomainCode() { shm->domain = was; }

void describe(const char *fmt, ...) {
	Out o;
	va_list ap;
	va_start(ap, fmt);
	int left = sizeof shm->desc - shm->ndesc;
	int n = vsnprintf(shm->desc + shm->ndesc, left, fmt, ap);
	va_end(ap);
	shm->ndesc += std::min(n, left - 1);
}

static Counter *counter(const char *name, int max) {
	for (uint32_t i = 0; i < shm->ncounters; i++)
		if (strcmp(shm->counters[i].name, name) == 0)
			return &shm->counters[i];
	if (shm->ncounters == MaxCounters)
		return &shm->counters[MaxCounters - 1];
	Counter *c = &shm->counters[shm->ncounters++];
	snprintf(c->name, sizeof c->name, "%s", name);
	c->n = 0;
	c->max = max;
	return c;
}

void count(const char *name, uint64_t n) { Out o; counter(name, 0)->n += n; }
void maxcount(const char *name, uint64_t n) {
	Out o;
	Counter *c = counter(name, 1);
	c->n = std::max(c->n, n);
}
void nontrivial() { shm->nontriv = 1; }

// ---------------------------------------------------------------- processes
Clock clk;
Sigs sigs;
Mem mem;
Faults faults;
std::string cwd = "/w";
int switchpct = 30;

struct SimFile;

struct Handler { void (*h)(int); int flags; bool dflt; };

struct PImpl : Proc {
	ucontext_t ctx;
	char *stk = nullptr;
	Body body;
	FILE *fin = nullptr, *fout = nullptr, *ferr = nullptr;
	std::vector<FILE *> open;
	std::map<int, std::shared_ptr<SimFile>> fds;
	std::map<FILE *, int> fileno;
	int err_no = 0;
	int sut = 1;
	bool started = false, exiting = false;
	InodeP iout, ierr;
	bool spaceout = false;
	std::string image;		// its static data while it is switched out
};

// Static data of the simulated programs: sections the build renamed.  Every
// process starts from the pristine image and runs its own static
// constructors; images are swapped on context switches.
extern "C" {
extern char __start_sutdata[] __attribute__((weak)), __stop_sutdata[] __attribute__((weak));
extern char __start_sutbss[] __attribute__((weak)), __stop_sutbss[] __attribute__((weak));
extern void (*__start_sutinit[])() __attribute__((weak));
extern void (*__stop_sutinit[])() __attribute__((weak));
}
static std::string pristine;
static std::string saveimage() {
	return std::string(__start_sutdata, __stop_sutdata - __start_sutdata) + std::string(__start_sutbss, __stop_sutbss - __start_sutbss);
}
static void loadimage(const std::string &s) {
	size_t n = __stop_sutdata - __start_sutdata;
	memcpy(__start_sutdata, s.data(), n);
	memcpy(__start_sutbss, s.data() + n, s.size() - n);
}

static std::vector<std::shared_ptr<PImpl>> procs;
static PImpl *cur;
static ucontext_t sched;
static uint64_t lasttick;		// tick up to which time was accounted
static uint64_t nexttick = ~0ull;	// next tick at which something happens
static uint64_t ticks;			// of the current process
static uint64_t calls;			// global system call counter
static const size_t StkSz = 256ul << 20;
static uint64_t stkat = 0x610000000000ull;
static bool enospc;

Proc *current() { return cur; }

static Timer timers[3];
static Handler handlers[65];
static bool blocked[65], pending[65];
static int inhandler;

bool timerArmed(int w) { return timers[w].armed; }
bool handlerDefault(int s) { return handlers[s].dflt; }

const char *statusname(Status s) {
	switch (s) {
	case Ready: return "ready";
	case Exited: return "exited";
	case Killed: return "killed";
	case Crashed: return "crashed";
	case Hung: return "hung";
	}
	return "?";
}

static void account() {
	uint64_t d = ticks - lasttick;
	lasttick = ticks;
	if (!d)
		return;
	double ns = d * clk.nsPerTick;
	clk.cpuNs += (uint64_t) ns;
	clk.trueNs += (uint64_t) (ns / clk.cpuShare);
}

static uint64_t ticksfor(uint64_t ns, double per) {
	double t = ceil(ns / per);
	if (t < 1)
		t = 1;
	return t > 1e15 ? (uint64_t) 1e15 : (uint64_t) t;
}

static void reschedule() {
	uint64_t n = ~0ull;
	if (cur) {
		n = cur->o.maxticks + 1;
		if (cur->o.killtick)
			n = std::min(n, cur->o.killtick);
	}
	double tper = clk.nsPerTick / clk.cpuShare;
	if (timers[ITIMER_REAL].armed) {
		uint64_t at = timers[ITIMER_REAL].at;
		n = std::min(n, ticks + (at <= clk.trueNs ? 1 : ticksfor(at - clk.trueNs, tper)));
	}
	for (int w = ITIMER_VIRTUAL; w <= ITIMER_PROF; w++) {
		if (!timers[w].armed)
			continue;
		uint64_t at = timers[w].at;
		n = std::min(n, ticks + (at <= clk.cpuNs ? 1 : ticksfor(at - clk.cpuNs, clk.nsPerTick)));
	}
	for (auto &j : clk.jumps)
		n = std::min(n, ticks + (j.first <= clk.trueNs ? 1 : ticksfor(j.first - clk.trueNs, tper)));
	for (auto &j : clk.stalls)
		n = std::min(n, ticks + (j.first <= clk.trueNs ? 1 : ticksfor(j.first - clk.trueNs, tper)));
	nexttick = n;
}

static void leave(Status st, int code, const std::string &what) __attribute__((noreturn));
static void leave(Status st, int code, const std::string &what) {
	insut = 0;
	account();
	cur->status = st;
	cur->code = code;
	cur->what = what;
	cur->ticks = ticks;
	log("p%d %s %s %d %s ticks=%lu", cur->pid, cur->o.name.c_str(), statusname(st), code, what.c_str(), (unsigned long) ticks);
	setcontext(&sched);
	__builtin_unreachable();
}

static void deliver(int sig) {
	if (blocked[sig]) {
		pending[sig] = true;
		return;
	}
	Handler h = handlers[sig];
	log("signal %d at tick %lu %s", sig, (unsigned long) ticks, h.dflt ? "default" : "handled");
	if (h.dflt) {
		sigs.killedBy = sig;
		count("signal.killed");
		leave(Killed, sig, "signal");
	}
	if (h.h == SIG_IGN)
		return;
	sigs.delivered++;
	if (sigs.delivered == 1)
		sigs.tickFirst = ticks;
	count("signal.delivered");
	if (sigs.onDeliver)
		sigs.onDeliver(sig);
	if (h.flags & SA_RESETHAND)
		handlers[sig].dflt = true;
	int s = insut;
	int e = errno;
	inhandler++;
	insut = 1;
	h.h(sig);
	insut = s;
	inhandler--;
	errno = e;
}

static void pollevents() {
	account();
	for (size_t i = 0; i < clk.jumps.size(); ) {
		if (clk.jumps[i].first <= clk.trueNs) {
			clk.wallOff += clk.jumps[i].second;
			clk.jumped++;
			log("clock jump %ld", (long) clk.jumps[i].second);
			count("fault.clockjump");
			clk.jumps.erase(clk.jumps.begin() + i);
		} else
			i++;
	}
	for (size_t i = 0; i < clk.stalls.size(); ) {
		if (clk.stalls[i].first <= clk.trueNs) {
			clk.trueNs += clk.stalls[i].second;
			log("stall %lu", (unsigned long) clk.stalls[i].second);
			count("fault.stall");
			clk.stalls.erase(clk.stalls.begin() + i);
		} else
			i++;
	}
	static const int sg[] = { SIGALRM, SIGVTALRM, SIGPROF };
	for (int w = 0; w < 3; w++) {
		uint64_t now = w == ITIMER_REAL ? clk.trueNs : clk.cpuNs;
		if (timers[w].armed && timers[w].at <= now) {
			if (timers[w].interval)
				timers[w].at += timers[w].interval;
			else
				timers[w].armed = false;
			deliver(sg[w]);
		}
	}
}

static void tickslow() __attribute__((noinline));
static void tickslow() {
	Out o;
	if (cur && cur->o.killtick && ticks >= cur->o.killtick) {
		count("fault.kill.instr");
		leave(Killed, SIGKILL, "killed");
	}
	if (cur && ticks > cur->o.maxticks)
		leave(Hung, 0, "tick limit");
	pollevents();
	reschedule();
}

void advanceAfter(uint64_t ns) {
	Out o;
	account();
	clk.trueNs += ns;
	clk.cpuNs += ns;
	pollevents();
	reschedule();
}

void yield_point(const char *what) {
	if (!cur)
		return;
	int ready = 0;
	for (auto &p : procs)
		ready += p->status == Ready;
	if (ready > 1 && chance(switchpct, 100)) {
		count("sched.preemption");
		account();
		PImpl *me = cur;
		me->ticks = ticks;
		me->err_no = errno;
		swapcontext(&me->ctx, &sched);
		errno = me->err_no;
	}
}

void nofaults() { faults = Faults(); enospc = false; }

void drawfaults(int mask) {
	Out o;
	static const int rates[] = { 0, 8, 30, 120 };
	faults.budget = 1 + draw(3);
	int rate = rates[1 + draw(3)];
	auto pick = [&](int bit) { return (mask & bit) && chance(1, 2) ? rate : 0; };
	faults.read = pick(FRead);
	faults.write = pick(FWrite);
	faults.open = pick(FOpen);
	faults.dir = pick(FDir);
	faults.stat = pick(FStat);
	faults.meta = pick(FMeta);
	faults.close = pick(FClose);
	faults.shortio = (mask & FShort) && chance(1, 2) ? 200 : 0;
	faults.nospace = (mask & FWrite) && chance(1, 2);
	describe("faults{r%d w%d%s o%d d%d s%d m%d c%d short%d budget%d} ", faults.read, faults.write, faults.nospace ? "(ENOSPC)" : "", faults.open, faults.dir, faults.stat, faults.meta, faults.close, faults.shortio, faults.budget);
}

// Start of a simulated system call.  Returns with SUT mode off.
struct Sys {
	Out o;
	Sys(const char *what, const std::string &arg = "") {
		if (!cur)
			return;
		yield_point(what);
		calls++;
		cur->calls++;
		shm->calls++;
		account();
		clk.trueNs += clk.callCost;
		clk.cpuNs += clk.callCost / 2;
		log("p%d %s %s", cur->pid, what, arg.c_str());
		if (cur->o.killcall && cur->calls >= cur->o.killcall) {
			count("fault.kill.syscall");
			leave(Killed, SIGKILL, "killed");
		}
		if (!inhandler)
			pollevents();
		reschedule();
	}
};

static bool fault(int permille, const char *name) {
	if (permille <= 0 || !cur || faults.budget <= 0)
		return false;
	if (!chance(permille, 1000))
		return false;
	faults.budget--;
	cur->sawfault = true;
	count(name);
	log("  inject %s", name);
	return true;
}

// ---------------------------------------------------------------- fs
Fs fs;
static int nextino = 1;
static InodeP mk(Type t) {
	InodeP i = std::make_shared<Inode>();
	i->type = t;
	i->ino = nextino++;
	return i;
}

InodeP Inode::lookup(const std::string &n) {
	for (auto &e : ents)
		if (e.first == n)
			return e.second;
	return nullptr;
}
bool Inode::remove(const std::string &n) {
	for (size_t i = 0; i < ents.size(); i++)
		if (ents[i].first == n) {
			ents.erase(ents.begin() + i);
			return true;
		}
	return false;
}

void Fs::reset() {
	Out o;
	root = mk(Dir);
	mkdirs("/w");
	mkdirs("/tmp");
	mkdirs("/proc");
}

static InodeP walk(InodeP dir, const std::string &path, bool follow, int &err, InodeP *parent, std::string *last, int depth) {
	if (depth > 8) { err = ELOOP; return nullptr; }
	std::vector<std::string> comps;
	size_t i = 0;
	bool slashend = path.size() > 1 && path.back() == '/';
	while (i < path.size()) {
		size_t j = path.find('/', i);
		if (j == std::string::npos)
			j = path.size();
		if (j > i)
			comps.push_back(path.substr(i, j - i));
		i = j + 1;
	}
	std::vector<InodeP> stack{dir};
	InodeP at = dir;
	if (comps.empty()) {
		if (parent) *parent = nullptr;
		return at;
	}
	for (size_t k = 0; k < comps.size(); k++) {
		bool lastc = k + 1 == comps.size();
		if (at->type != Dir) { err = ENOTDIR; return nullptr; }
		const std::string &c = comps[k];
		if (c.size() > 255) { err = ENAMETOOLONG; return nullptr; }
		if (lastc) {
			if (parent) *parent = at;
			if (last) *last = c;
		}
		if (c == ".")
			continue;
		if (c == "..") {
			// parents: find by search (no parent pointers kept)
			InodeP up = fs.root;
			std::function<bool(InodeP)> find = [&](InodeP d) {
				for (auto &e : d->ents) {
					if (e.second == at) { up = d; return true; }
					if (e.second->type == Dir && find(e.second)) return true;
				}
				return false;
			};
			find(fs.root);
			at = up;
			continue;
		}
		InodeP n = at->lookup(c);
		if (!n) { err = ENOENT; return nullptr; }
		if (n->type == Link && (!lastc || follow || slashend)) {
			InodeP base = n->data.size() && n->data[0] == '/' ? fs.root : at;
			n = walk(base, n->data, true, err, nullptr, nullptr, depth + 1);
			if (!n)
				return nullptr;
		}
		at = n;
	}
	if (slashend && at->type != Dir) { err = ENOTDIR; return nullptr; }
	return at;
}

InodeP Fs::resolve(const std::string &path, bool follow, int &err, InodeP *parent, std::string *last) {
	Out o;
	if (parent) *parent = nullptr;
	if (path.empty()) { err = ENOENT; return nullptr; }
	if (path.size() >= 4096) { err = ENAMETOOLONG; return nullptr; }
	InodeP start = root;
	if (path[0] != '/') {
		start = walk(root, cwd, true, err, nullptr, nullptr, 0);
		if (!start)
			return nullptr;
	}
	return walk(start, path, follow, err, parent, last, 0);
}

void Fs::mkdirs(const std::string &path) {
	Out o;
	InodeP at = root;
	size_t i = 0;
	std::string p = path[0] == '/' ? path : cwd + "/" + path;
	while (i < p.size()) {
		size_t j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		if (j > i) {
			std::string c = p.substr(i, j - i);
			if (c != ".") {
				InodeP n = at->lookup(c);
				if (!n) {
					n = mk(Dir);
					at->ents.push_back({c, n});
				}
				at = n;
			}
		}
		i = j + 1;
	}
}

void Fs::write(const std::string &path, const std::string &data) {
	Out o;
	std::string p = path[0] == '/' ? path : cwd + "/" + path;
	mkdirs(p.substr(0, p.rfind('/')));
	int err;
	InodeP par;
	std::string last;
	InodeP f = resolve(p, true, err, &par, &last);
	if (!f) {
		f = mk(File);
		par->ents.push_back({last, f});
	}
	f->data = data;
}
void Fs::symlink(const std::string &target, const std::string &path) {
	Out o;
	int err;
	InodeP par;
	std::string last;
	InodeP f = resolve(path, false, err, &par, &last);
	if (f || !par) return;
	f = mk(Link);
	f->data = target;
	par->ents.push_back({last, f});
}
bool Fs::exists(const std::string &path) { Out o; int e; return (bool) resolve(path, true, e); }
bool Fs::read(const std::string &path, std::string &out) {
	Out o;
	int e;
	InodeP f = resolve(path, true, e);
	if (!f || f->type != File) return false;
	out = f->data;
	return true;
}
static void dumprec(InodeP d, const std::string &pre, std::string &out, std::vector<std::string> *files) {
	std::vector<std::pair<std::string, InodeP>> es = d->ents;
	std::sort(es.begin(), es.end(), [](const std::pair<std::string, InodeP> &a, const std::pair<std::string, InodeP> &b) { return a.first < b.first; });
	for (auto &e : es) {
		std::string p = pre + "/" + e.first;
		if (e.second->type == Dir) {
			out += "d " + p + "\n";
			dumprec(e.second, p, out, files);
		} else {
			out += (e.second->type == Link ? "l " : "f ") + p + " " + e.second->data + "\n";
			if (files) files->push_back(p);
		}
	}
}
std::string Fs::dump() { Out o; std::string s; dumprec(root, "", s, nullptr); return s; }
std::vector<std::string> Fs::files() { Out o; std::string s; std::vector<std::string> f; dumprec(root, "", s, &f); return f; }

// ---------------------------------------------------------------- streams
struct SimFile {
	InodeP ino;
	uint64_t pos = 0;
	bool r = false, w = false, app = false;
	bool pipe = false;
	int inchunk = 0;
	bool isstdout = false, isstderr = false, closed = false;
	PImpl *owner = nullptr;
};
struct Cookie { std::shared_ptr<SimFile> f; };

static ssize_t dread(SimFile *f, char *buf, size_t sz) {
	Sys s("read", strf("%zu@%lu", sz, (unsigned long) f->pos));
	if (!f->r) { errno = EBADF; return -1; }
	if (f->ino->type == Dir) { errno = EISDIR; return -1; }
	if (fault(faults.read, "fault.read.eio")) { errno = EIO; return -1; }
	size_t n = f->ino->data.size() > f->pos ? f->ino->data.size() - f->pos : 0;
	n = std::min(n, sz);
	if (f->inchunk && n > (size_t) f->inchunk)
		n = f->inchunk;
	if (n > 1 && faults.shortio && chance(faults.shortio, 1000)) {
		n = 1 + draw(n);
		count("fault.read.short");
	}
	memcpy(buf, f->ino->data.data() + f->pos, n);
	f->pos += n;
	return n;
}

static ssize_t dwrite(SimFile *f, const char *buf, size_t sz) {
	Sys s("write", strf("%zu", sz));
	if (!f->w) { errno = EBADF; return -1; }
	bool faultable = !f->isstderr && (!f->isstdout || faults.sout);
	if (faultable && enospc) { count("fault.write.enospc"); if (cur) cur->sawfault = true; errno = ENOSPC; if (f->isstdout) cur->outerr = true; return -1; }
	if (f->pipe && faults.eintr && cur && chance(faults.eintr, 1000)) {
		// the reader is slow: block until the next timer signal
		for (int w = 0; w < 3; w += 2) {
			if (!timers[w].armed)
				continue;
			uint64_t now = w == 0 ? clk.trueNs : clk.cpuNs;
			if (w == 2)
				continue;	// blocked processes use no cpu time
			int sg = SIGALRM;
			uint64_t d = timers[w].at > now ? timers[w].at - now : 0;
			clk.trueNs += d;
			bool restart = handlers[sg].dflt || (handlers[sg].flags & SA_RESTART);
			count("fault.write.blocked");
			pollevents();
			reschedule();
			if (!restart) {
				count("fault.write.eintr");
				size_t n = sz > 1 ? draw(sz) : 0;
				if (n > 0) {
					f->ino->data.append(buf, n);
					return n;
				}
				cur->outerr = true;
				cur->sawfault = true;
				errno = EINTR;
				return -1;
			}
		}
	}
	if (faultable && fault(faults.write, faults.nospace ? "fault.write.enospc" : "fault.write.eio")) {
		if (faults.nospace)
			enospc = true;
		if (f->isstdout)
			cur->outerr = true;
		size_t n = faults.nospace && sz > 1 ? draw(sz) : 0;
		if (n == 0) {
			errno = faults.nospace ? ENOSPC : EIO;
			return -1;
		}
		sz = n;	// what still fitted; the next call fails
	} else if (sz > 1 && faults.shortio && chance(faults.shortio, 1000)) {
		sz = 1 + draw(sz);
		count("fault.write.short");
	}
	std::string &d = f->ino->data;
	if (f->app)
		f->pos = d.size();
	if (f->pos > d.size())
		d.resize(f->pos);
	d.replace(f->pos, std::min(sz, d.size() - (size_t) f->pos), buf, sz);
	f->pos += sz;
	return sz;
}

static ssize_t cread(void *c, char *buf, size_t sz) { return dread(((Cookie *) c)->f.get(), buf, sz); }

static ssize_t cwrite(void *c, const char *buf, size_t sz) {
	size_t done = 0;
	while (done < sz) {
		ssize_t n = dwrite(((Cookie *) c)->f.get(), buf + done, sz - done);
		if (n < 0)
			break;
		done += n;
	}
	return done;
}

static int cseek(void *c, off64_t *off, int whence) {
	Sys s("seek");
	SimFile *f = ((Cookie *) c)->f.get();
	if (f->pipe) { errno = ESPIPE; return -1; }
	if (fault(faults.meta / 4, "fault.seek")) { errno = EIO; return -1; }
	int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t) f->pos : (int64_t) f->ino->data.size();
	if (base + *off < 0) { errno = EINVAL; return -1; }
	f->pos = base + *off;
	*off = f->pos;
	return 0;
}

static int cclose(void *c) {
	Sys s("close");
	Cookie *k = (Cookie *) c;
	bool w = k->f->w && !k->f->isstderr && (!k->f->isstdout || faults.sout);
	bool so = k->f->isstdout;
	delete k;
	if (w && fault(faults.close, "fault.close")) {
		if (so && cur) cur->outerr = true;
		errno = EIO;
		return -1;
	}
	return 0;
}

static FILE *mkstream(PImpl *p, std::shared_ptr<SimFile> f, const char *mode) {
	cookie_io_functions_t io = { cread, cwrite, cseek, cclose };
	Cookie *c = new Cookie{f};
	FILE *fp = fopencookie(c, mode, io);
	f->owner = p;
	if (p) {
		p->open.push_back(fp);
		int fd = 0;
		while (p->fds.count(fd))
			fd++;
		p->fds[fd] = f;
		p->fileno[fp] = fd;
	}
	return fp;
}

static std::shared_ptr<SimFile> simopen(const std::string &path, bool r, bool w, bool creat, bool trunc, bool app, bool excl) {
	if (fault(faults.open, "fault.open")) {
		static const int es[] = { EIO, EACCES, EMFILE };
		errno = es[draw(3)];
		return nullptr;
	}
	int err = 0;
	InodeP par;
	std::string last;
	InodeP i = fs.resolve(path, true, err, &par, &last);
	if (!i) {
		if (!creat || err != ENOENT || !par) { errno = err; return nullptr; }
		// the missing component must be the last one
		std::string p = path;
		if (p.back() == '/') { errno = EISDIR; return nullptr; }
		if (par->lookup(last)) {
			// dangling symlink: create its target
			InodeP l = par->lookup(last);
			std::string t = l->data;
			std::string dirp = path.substr(0, path.rfind('/') == std::string::npos ? 0 : path.rfind('/') + 1);
			return simopen(t[0] == '/' ? t : dirp + t, r, w, creat, trunc, app, excl);
		}
		if (enospc) { errno = ENOSPC; return nullptr; }
		i = mk(File);
		par->ents.push_back({last, i});
	} else {
		if (excl) { errno = EEXIST; return nullptr; }
		if (i->type == Dir && w) { errno = EISDIR; return nullptr; }
		if (trunc && i->type == File)
			i->data.clear();
	}
	std::shared_ptr<SimFile> f = std::make_shared<SimFile>();
	f->ino = i;
	f->r = r;
	f->w = w;
	f->app = app;
	return f;
}

// ---------------------------------------------------------------- run processes
static char *stacks[16];

static void entry() {
	PImpl *p = cur;
	int code = 0;
	std::string crash;
	bool thrown = false;
	try {
		insut = 1;
		for (void (**f)() = __start_sutinit; f < __stop_sutinit; f++)
			if (*f)
				(*f)();
		code = p->body();
		insut = 0;
	} catch (std::exception &e) {
		insut = 0;
		thrown = true;
		crash = std::string("uncaught exception ") + e.what();
	} catch (...) {
		insut = 0;
		thrown = true;
		crash = "uncaught exception";
	}
	if (thrown)
		leave(Crashed, SIGABRT, crash);
	insut = 1;
	exit(code);	// wrapped
}

static void finishproc(PImpl *p) {
	// exit(3): flush and close every open stream
	p->exiting = true;
	std::vector<FILE *> fs = p->open;
	for (FILE *f : fs) {
		if (std::find(p->open.begin(), p->open.end(), f) == p->open.end())
			continue;
		p->open.erase(std::find(p->open.begin(), p->open.end(), f));
		__real_fclose(f);
	}
}

ProcP spawn(const ProcOpts &o, Body body) {
	Out out;
	std::shared_ptr<PImpl> p = std::make_shared<PImpl>();
	p->pid = 100 + procs.size();
	p->o = o;
	p->body = body;
	size_t slot = procs.size() % 16;
	if (!stacks[slot]) {
		stacks[slot] = (char *) mmap((void *) (stkat + slot * (StkSz + 65536)), StkSz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
		if (stacks[slot] == MAP_FAILED) { perror("mmap stack"); _exit(99); }
	}
	p->stk = stacks[slot];
	unsigned char pat = mem.fill == 1 ? 0xFF : mem.fill >= 2 ? 0xA5 : 0;
	if (pat || procs.size() >= 16)
		memset(p->stk + StkSz - (192 << 10), pat, 192 << 10);
	std::shared_ptr<SimFile> fi = std::make_shared<SimFile>(), fo = std::make_shared<SimFile>(), fe = std::make_shared<SimFile>();
	if (o.infile) {
		int err;
		fi->ino = fs.resolve(o.in, true, err);
		if (!fi->ino) fi->ino = mk(File);
	} else {
		fi->ino = mk(File);
		fi->ino->data = o.in;
	}
	fi->r = true;
	fi->inchunk = o.inchunk;
	if (o.outpath.size()) {
		fs.write(o.outpath, "");
		int err;
		fo->ino = fs.resolve(o.outpath, true, err);
	} else
		fo->ino = mk(File);
	fo->w = true;
	fo->pipe = o.outpipe;
	fo->isstdout = true;
	fe->ino = mk(File);
	fe->w = true;
	fe->isstderr = true;
	p->iout = fo->ino;
	p->ierr = fe->ino;
	p->fin = mkstream(p.get(), fi, "r");
	p->fout = mkstream(p.get(), fo, "w");
	p->ferr = mkstream(p.get(), fe, "w");
	setvbuf(p->ferr, NULL, _IONBF, 0);
	if (o.outbuf == 0)
		setvbuf(p->fout, NULL, _IONBF, 0);
	else if (o.outbuf > 0)
		setvbuf(p->fout, NULL, _IOFBF, o.outbuf);
	getcontext(&p->ctx);
	p->ctx.uc_stack.ss_sp = p->stk;
	p->ctx.uc_stack.ss_size = StkSz;
	p->ctx.uc_link = &sched;
	makecontext(&p->ctx, entry, 0);
	std::string ps = strf("/proc/%d/status", p->pid);
	if (fs.exists("/proc"))
		fs.write(ps, "Name:\tx\nVmPeak:\t   12345 kB\n");
	procs.push_back(p);
	return p;
}

void runall() {
	Out out;
	FILE *si = stdin, *so = stdout, *se = stderr;
	for (;;) {
		std::vector<PImpl *> ready;
		for (auto &p : procs)
			if (p->status == Ready)
				ready.push_back(p.get());
		if (ready.empty())
			break;
		PImpl *p = ready[draw(ready.size())];
		cur = p;
		stdin = p->fin;
		stdout = p->fout;
		stderr = p->ferr;
		ticks = lasttick = p->ticks;
		insut = 0;
		reschedule();
		log("run p%d", p->pid);
		loadimage(p->image.empty() ? pristine : p->image);
		swapcontext(&sched, &p->ctx);
		insut = 0;
		cur = nullptr;
		if (p->status == Ready)
			p->image = saveimage();
		else
			p->image.clear();
	}
	stdin = si;
	stdout = so;
	stderr = se;
	for (auto &p : procs) {
		p->out = p->iout->data;
		p->err = p->ierr->data;
		shm->ticks += p->ticks;
	}
	procs.clear();
	shm->simns = clk.trueNs;
}

static void resetsignals() {
	for (int i = 0; i < 65; i++) {
		handlers[i] = Handler{SIG_DFL, 0, true};
		blocked[i] = pending[i] = false;
	}
	for (int i = 0; i < 3; i++)
		timers[i] = Timer();
	inhandler = 0;
	auto f = sigs.onDeliver;
	sigs = Sigs();
	sigs.onDeliver = f;
}

ProcP run(const ProcOpts &o, Body body) {
	{ Out out; resetsignals(); }
	ProcP p = spawn(o, body);
	runall();
	return p;
}

Body mainbody(std::function<int(int, const char **)> m, std::vector<std::string> args) {
	Out o;
	return [m, args]() {
		std::vector<const char *> av;
		int ac;
		{
			Out o;
			for (auto &a : args)
				av.push_back(a.c_str());
			ac = av.size();
			av.push_back(nullptr);
		}
		return m(ac, av.data());
	};
}

// ---------------------------------------------------------------- memory
static const uintptr_t ArenaAt = 0x600000000000ull;
static const size_t ArenaSz = 0x800000000ull;	// 32 GB of address space
static char *arena, *arenaNxt;
struct Hdr { uint64_t size, magic; };
enum : uint64_t { Live = 0x4c49564521ull, Dead = 0x44454144ull };
static void *freel[128];
// Every block ends with a mark, so that writing past its end is noticed when it is freed.
static const size_t TailSz = 8;
static const char tail[TailSz + 1] = "\xc3" "behind\x96";

static int klass(size_t n) {
	if (n <= 1024)
		return (n + 15) / 16;	// 0..64
	int b = 64 - __builtin_clzll(n - 1);	// 2^b >= n, n > 1024 => b >= 11
	return 54 + b;
}
static size_t ksize(int k) { return k <= 64 ? (size_t) k * 16 : (size_t) 1 << (k - 54); }

static void fillmem(void *p, size_t n) {
	switch (mem.fill) {
	case 0: memset(p, 0, n); break;
	case 1: memset(p, 0xFF, n); break;
	case 2: memset(p, 0xA5, n); break;
	default: {
		uint64_t x = mem.fillseed + mem.allocs;
		uint64_t *q = (uint64_t *) p;
		size_t i = 0;
		for (; i + 8 <= n; i += 8) {
			x = x * 6364136223846793005ULL + 1442695040888963407ULL;
			*q++ = x;
		}
		for (char *c = (char *) q; i < n; i++)
			*c++ = x;
	}
	}
}

static void *sutalloc(size_t n) {
	mem.allocs++;
	if (cur) {
		bool failed = (mem.failAt && (mem.allocs == mem.failAt || (mem.failForever && mem.allocs >= mem.failAt)))
			|| (mem.failAt2 && mem.allocs == mem.failAt2)
			|| (mem.budget && mem.live + n > mem.budget)
			|| n > ArenaSz / 4;
		if (failed) {
			Out o;
			mem.fired++;
			count("fault.alloc");
			cur->sawfault = true;
			if (mem.fired <= 3) log("alloc %lu of %lu bytes fails", (unsigned long) mem.allocs, (unsigned long) n);
			return nullptr;
		}
	}
	int k = klass(n + TailSz);
	size_t sz = ksize(k);
	char *b;
	if (freel[k]) {
		b = (char *) freel[k];
		freel[k] = *(void **) (b + sizeof(Hdr));
	} else {
		b = arenaNxt;
		if (b + sz + sizeof(Hdr) > arena + ArenaSz)
			return nullptr;
		arenaNxt += sz + sizeof(Hdr);
		if (mem.fill == 0) {
			((Hdr *) b)->size = n;
			((Hdr *) b)->magic = Live;
			memcpy(b + sizeof(Hdr) + n, tail, TailSz);
			mem.live += n;
			mem.peak = std::max(mem.peak, mem.live);
			return b + sizeof(Hdr);	// fresh pages are zero
		}
	}
	((Hdr *) b)->size = n;
	((Hdr *) b)->magic = Live;
	memcpy(b + sizeof(Hdr) + n, tail, TailSz);
	mem.live += n;
	mem.peak = std::max(mem.peak, mem.live);
	fillmem(b + sizeof(Hdr), n);
	return b + sizeof(Hdr);
}

static void sutfree(void *p) {
	Hdr *h = (Hdr *) ((char *) p - sizeof(Hdr));
	if (h->magic != Live) {
		if (cur) {
			Out o;
			std::string w = h->magic == Dead ? "double free" : "bad free";
			leave(Crashed, SIGABRT, w);
		}
		return;
	}
	if (cur && memcmp((char *) p + h->size, tail, TailSz) != 0) {
		Out o;
		leave(Crashed, SIGABRT, strf("wrote beyond a block of %lu bytes", (unsigned long) h->size));
	}
	h->magic = Dead;
	mem.live -= h->size;
	int k = klass(h->size + TailSz);
	if (mem.fill)
		memset(p, mem.fill == 1 ? 0xFF : 0xDD, std::min(ksize(k), (size_t) 65536));
	*(void **) p = freel[k];
	freel[k] = h;
}

// What was never freed has not been looked at yet.
static void checkblocks() {
	char *b = arena;
	for (int i = 0; i < 400000 && b < arenaNxt; i++) {
		Hdr *h = (Hdr *) b;
		if (h->magic == Live && memcmp(b + sizeof(Hdr) + h->size, tail, TailSz) != 0) {
			violate(property + ".overflow", "wrote beyond a block of %lu bytes", (unsigned long) h->size);
			return;
		}
		if (h->magic != Live && h->magic != Dead) {
			violate(property + ".overflow", "wrote over the head of a block");
			return;
		}
		b += sizeof(Hdr) + ksize(klass(h->size + TailSz));
	}
}

static inline bool inarena(void *p) { return (uintptr_t) p >= ArenaAt && (uintptr_t) p < ArenaAt + ArenaSz; }

unsigned long closedsz;

// ---------------------------------------------------------------- coverage
static uint32_t nguards;
uint64_t edgesHit() {
	uint64_t n = 0;
	for (uint32_t i = 0; i <= nguards && i < sizeof shm->edges; i++)
		n += shm->edges[i] != 0;
	return n;
}

// ---------------------------------------------------------------- scenarios
struct RegEnt { std::string prop, name; Scenario s; int w; };
static std::vector<RegEnt> &regs() { static std::vector<RegEnt> r; return r; }
Reg::Reg(const char *prop, const char *name, Scenario s, int w) { regs().push_back(RegEnt{prop, name, s, w}); }

} // namespace sim

using namespace sim;

extern "C" unsigned long simclosedsize(unsigned long hint) {
	return closedsz ? closedsz : std::min(hint, 1021ul);
}

// ---------------------------------------------------------------- coverage callbacks
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
	if (start == stop || *start)
		return;
	for (uint32_t *x = start; x < stop; x++)
		*x = ++nguards;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
	if (!insut) {
		// the harness itself runs the domain's code, which has to come to an end
		if (shm && shm->domain && ++domainticks > 30000000)
			syscall(231, 77);
		return;
	}
	if (*g < sizeof shm->edges)
		shm->edges[*g] = 1;
	if (__builtin_expect(++ticks >= nexttick, 0))
		tickslow();
}

// ---------------------------------------------------------------- operator new
void *operator new(size_t n) {
	void *p = insut ? sutalloc(n) : malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return insut ? sutalloc(n) : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return insut ? sutalloc(n) : malloc(n ? n : 1); }
void operator delete(void *p) noexcept {
	if (!p)
		return;
	if (inarena(p))
		sutfree(p);
	else
		free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ---------------------------------------------------------------- libc seams
#define SIM (cur != nullptr)
extern "C" {

FILE *__wrap_fopen(const char *path, const char *mode) {
	if (!SIM) return __real_fopen(path, mode);
	Sys s("fopen", std::string(path) + " " + mode);
	bool plus = strchr(mode, '+') != nullptr;
	bool r = mode[0] == 'r' || plus, w = mode[0] != 'r' || plus;
	std::shared_ptr<SimFile> f = simopen(path, r, w, mode[0] != 'r', mode[0] == 'w', mode[0] == 'a', strchr(mode, 'x') != nullptr);
	if (!f)
		return nullptr;
	return mkstream(cur, f, mode);
}
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }

int __wrap_fclose(FILE *f) {
	if (SIM) {
		auto it = std::find(cur->open.begin(), cur->open.end(), f);
		if (it != cur->open.end()) {
			Out o;
			cur->open.erase(it);
			cur->fds.erase(cur->fileno[f]);
			cur->fileno.erase(f);
		}
	}
	return __real_fclose(f);
}

int __wrap_fileno(FILE *f) {
	if (!SIM) return __real_fileno(f);
	Out o;
	auto it = cur->fileno.find(f);
	if (it == cur->fileno.end()) { errno = EBADF; return -1; }
	return it->second;
}

int __wrap_open(const char *path, int flags, ...) {
	if (!SIM) {
		va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
		return __real_open(path, flags, mode);
	}
	Sys s("open", path);
	int acc = flags & O_ACCMODE;
	auto f = simopen(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, flags & O_APPEND, flags & O_EXCL);
	if (!f)
		return -1;
	if ((flags & O_DIRECTORY) && f->ino->type != sim::Dir) { errno = ENOTDIR; return -1; }
	int fd = 3;
	while (cur->fds.count(fd))
		fd++;
	cur->fds[fd] = f;
	return fd;
}
int __wrap_open64(const char *path, int flags, ...) { return __wrap_open(path, flags, 0666); }
ssize_t __wrap_read(int fd, void *b, size_t n) {
	if (!SIM) return __real_read(fd, b, n);
	Out o;
	if (!cur->fds.count(fd)) { errno = EBADF; return -1; }
	return dread(cur->fds[fd].get(), (char *) b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
	if (!SIM) return __real_write(fd, b, n);
	Out o;
	if (!cur->fds.count(fd)) { errno = EBADF; return -1; }
	return dwrite(cur->fds[fd].get(), (const char *) b, n);
}
int __wrap_close(int fd) {
	if (!SIM) return __real_close(fd);
	Sys s("close");
	if (!cur->fds.count(fd)) { errno = EBADF; return -1; }
	cur->fds.erase(fd);
	return 0;
}
FILE *__wrap_fdopen(int fd, const char *mode) {
	if (!SIM) return nullptr;
	Out o;
	if (!cur->fds.count(fd)) { errno = EBADF; return nullptr; }
	auto f = cur->fds[fd];
	FILE *fp = mkstream(cur, f, mode);
	cur->fds.erase(cur->fileno[fp]);
	cur->fileno[fp] = fd;
	return fp;
}
int __wrap_fsync(int fd) {
	Sys s("fsync");
	if (SIM && fault(faults.meta, "fault.fsync")) { errno = EIO; return -1; }
	return 0;
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_mkstemp(char *t) {
	static int k;
	size_t n = strlen(t);
	if (n < 6) { errno = EINVAL; return -1; }
	for (;;) {
		char b[8];
		snprintf(b, sizeof b, "%06d", ++k);
		memcpy(t + n - 6, b, 6);
		int fd = __wrap_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
		if (fd >= 0 || errno != EEXIST)
			return fd;
	}
}

static int dostat(const char *what, const char *path, struct stat *st, bool follow) {
	Sys s(what, path);
	memset(st, 0, sizeof *st);
	bool proc = strncmp(path, "/proc/", 6) == 0;
	if (!proc && fault(faults.stat, "fault.stat")) { errno = EIO; return -1; }
	int err = 0;
	InodeP i = fs.resolve(path, follow, err);
	if (!i) { errno = err; return -1; }
	st->st_ino = i->ino;
	st->st_dev = 1;
	st->st_nlink = 1;
	st->st_size = i->data.size();
	st->st_mode = i->type == Dir ? S_IFDIR | 0755 : i->type == sim::Link ? S_IFLNK | 0777 : S_IFREG | 0644;
	return 0;
}
int __wrap_stat(const char *path, struct stat *st) {
	if (!SIM) return __real_stat(path, st);
	return dostat("stat", path, st, true);
}
int __wrap_lstat(const char *path, struct stat *st) { return dostat("lstat", path, st, false); }
int __wrap_stat64(const char *path, struct stat *st) { return __wrap_stat(path, st); }
int __wrap_lstat64(const char *path, struct stat *st) { return __wrap_lstat(path, st); }
int __wrap_fstat(int fd, struct stat *st) {
	Sys s("fstat");
	if (!SIM || !cur->fds.count(fd)) { errno = EBADF; return -1; }
	memset(st, 0, sizeof *st);
	InodeP i = cur->fds[fd]->ino;
	st->st_ino = i->ino;
	st->st_size = i->data.size();
	st->st_mode = i->type == Dir ? S_IFDIR | 0755 : S_IFREG | 0644;
	return 0;
}
int __wrap_access(const char *path, int mode) {
	Sys s("access", path);
	if (fault(faults.stat, "fault.stat")) { errno = EIO; return -1; }
	int err = 0;
	if (!fs.resolve(path, true, err)) { errno = err; return -1; }
	return 0;
}
ssize_t __wrap_readlink(const char *path, char *buf, size_t n) {
	Sys s("readlink", path);
	int err = 0;
	InodeP i = fs.resolve(path, false, err);
	if (!i) { errno = err; return -1; }
	if (i->type != sim::Link) { errno = EINVAL; return -1; }
	n = std::min(n, i->data.size());
	memcpy(buf, i->data.data(), n);
	return n;
}

int __wrap_mkdir(const char *path, mode_t) {
	Sys s("mkdir", path);
	if (fault(faults.meta, "fault.mkdir")) { errno = EIO; return -1; }
	std::string p = path;
	while (p.size() > 1 && p.back() == '/')
		p.pop_back();
	int err = 0;
	InodeP par;
	std::string last;
	InodeP i = fs.resolve(p, false, err, &par, &last);
	if (i) { errno = EEXIST; return -1; }
	if (err != ENOENT || !par) { errno = err ? err : ENOENT; return -1; }
	if (enospc) { errno = ENOSPC; return -1; }
	par->ents.push_back({last, mk(sim::Dir)});
	return 0;
}

static int doremove(const char *what, const char *path, int kind) {	// 1: files only, 2: dirs only, 3: both
	Sys s(what, path);
	if (fault(faults.meta, "fault.remove")) { errno = draw(2) ? EACCES : EIO; return -1; }
	std::string p = path;
	int err = 0;
	InodeP par;
	std::string last;
	InodeP i = fs.resolve(p, false, err, &par, &last);
	if (!i) { errno = err; return -1; }
	if (!par) { errno = EBUSY; return -1; }
	if (i->type == Dir) {
		if (!(kind & 2)) { errno = EISDIR; return -1; }
		if (!i->ents.empty()) { errno = ENOTEMPTY; return -1; }
	} else if (!(kind & 1)) { errno = ENOTDIR; return -1; }
	par->remove(last);
	return 0;
}
int __wrap_remove(const char *p) { return doremove("remove", p, 3); }
int __wrap_unlink(const char *p) { return doremove("unlink", p, 1); }
int __wrap_rmdir(const char *p) { return doremove("rmdir", p, 2); }

int __wrap_rename(const char *a, const char *b) {
	Sys s("rename", std::string(a) + " " + b);
	if (fault(faults.meta, "fault.rename")) { errno = EIO; return -1; }
	int err = 0;
	InodeP pa, pb;
	std::string la, lb;
	InodeP ia = fs.resolve(a, false, err, &pa, &la);
	if (!ia || !pa) { errno = err; return -1; }
	int err2 = 0;
	InodeP ib = fs.resolve(b, false, err2, &pb, &lb);
	if (!pb) { errno = err2; return -1; }
	if (ib == ia) return 0;
	if (ib) {
		if (ib->type == Dir && ia->type != Dir) { errno = EISDIR; return -1; }
		if (ib->type != Dir && ia->type == Dir) { errno = ENOTDIR; return -1; }
		if (ib->type == Dir && !ib->ents.empty()) { errno = ENOTEMPTY; return -1; }
		pb->remove(lb);
	}
	pa->remove(la);
	pb->ents.push_back({lb, ia});
	return 0;
}
int __wrap_link(const char *a, const char *b) {
	Sys s("link", std::string(a) + " " + b);
	if (fault(faults.meta, "fault.link")) { errno = EIO; return -1; }
	int err = 0, err2 = 0;
	InodeP pb;
	std::string lb;
	InodeP ia = fs.resolve(a, false, err);
	if (!ia) { errno = err; return -1; }
	InodeP ib = fs.resolve(b, false, err2, &pb, &lb);
	if (ib) { errno = EEXIST; return -1; }
	if (!pb) { errno = err2; return -1; }
	pb->ents.push_back({lb, ia});
	return 0;
}
int __wrap_symlink(const char *a, const char *b) {
	Sys s("symlink", std::string(a) + " " + b);
	if (fault(faults.meta, "fault.link")) { errno = EIO; return -1; }
	int err2 = 0;
	InodeP pb;
	std::string lb;
	InodeP ib = fs.resolve(b, false, err2, &pb, &lb);
	if (ib || (pb && pb->lookup(lb))) { errno = EEXIST; return -1; }
	if (!pb) { errno = err2; return -1; }
	InodeP l = mk(sim::Link);
	l->data = a;
	pb->ents.push_back({lb, l});
	return 0;
}
char *__wrap_getcwd(char *buf, size_t n) {
	if (!buf || n <= cwd.size()) { errno = ERANGE; return nullptr; }
	strcpy(buf, cwd.c_str());
	return buf;
}
char *__wrap_realpath(const char *p, char *buf) {
	Sys s("realpath", p);
	int err = 0;
	if (!fs.resolve(p, true, err)) { errno = err; return nullptr; }
	std::string abs = p[0] == '/' ? p : cwd + "/" + p;
	std::vector<std::string> c;
	size_t i = 0;
	while (i < abs.size()) {
		size_t j = abs.find('/', i);
		if (j == std::string::npos) j = abs.size();
		std::string e = abs.substr(i, j - i);
		if (e == "..") { if (c.size()) c.pop_back(); }
		else if (e.size() && e != ".") c.push_back(e);
		i = j + 1;
	}
	std::string r;
	for (auto &e : c) r += "/" + e;
	if (r.empty()) r = "/";
	if (!buf) buf = (char *) malloc(4096);
	strcpy(buf, r.c_str());
	return buf;
}

// directories
struct SimDir { InodeP ino; std::vector<std::string> atopen; std::set<std::string> seen; std::vector<std::string> batch; size_t at = 0; struct dirent d; bool first = true; };

DIR *__wrap_opendir(const char *path) {
	Sys s("opendir", path);
	if (fault(faults.dir, "fault.opendir")) { errno = draw(2) ? EMFILE : EIO; return nullptr; }
	int err = 0;
	InodeP i = fs.resolve(path, true, err);
	if (!i) { errno = err; return nullptr; }
	if (i->type != Dir) { errno = ENOTDIR; return nullptr; }
	SimDir *d = new SimDir;
	d->ino = i;
	for (auto &e : i->ents)
		d->atopen.push_back(e.first);
	return (DIR *) d;
}

struct dirent *__wrap_readdir(DIR *dp) {
	Out oo;
	SimDir *d = (SimDir *) dp;
	if (d->at >= d->batch.size()) {
		Sys s("getdents");
		if (fault(faults.dir, "fault.readdir")) { errno = EIO; return nullptr; }
		std::vector<std::string> names;
		if (!d->seen.count(".")) names.push_back(".");
		if (!d->seen.count("..")) names.push_back("..");
		for (auto &e : d->ino->ents) {
			if (d->seen.count(e.first))
				continue;
			bool old = std::find(d->atopen.begin(), d->atopen.end(), e.first) != d->atopen.end();
			if (!old && !chance(1, 2))
				continue;	// entry added since opendir: may or may not show
			names.push_back(e.first);
		}
		// order of entries is arbitrary
		for (size_t i = names.size(); i > 1; i--)
			std::swap(names[i - 1], names[i - 1 - draw(i)]);
		size_t k = names.size();
		if (k > 1 && chance(1, 3))
			k = 1 + draw(k);
		d->batch.assign(names.begin(), names.begin() + k);
		d->at = 0;
		for (auto &n : d->batch)
			d->seen.insert(n);
		if (d->batch.empty())
			return nullptr;	// errno untouched
	}
	memset(&d->d, 0, sizeof d->d);
	const std::string &n = d->batch[d->at++];
	snprintf(d->d.d_name, sizeof d->d.d_name, "%s", n.c_str());
	d->d.d_type = DT_UNKNOWN;
	d->d.d_ino = 1;
	return &d->d;
}
struct dirent *__wrap_readdir64(DIR *d) { return __wrap_readdir(d); }
int __wrap_closedir(DIR *d) {
	Out o;
	delete (SimDir *) d;
	return 0;
}

// time
static int64_t wallns() {
	account();
	if (clk.reading) return clk.reading();
	int64_t t = clk.wallBase + clk.wallOff + (clk.stalled ? 0 : (int64_t) clk.trueNs);
	return t / clk.quantum * clk.quantum;
}
}
int64_t sim::wallnow() { return wallns(); }
extern "C" {
int __wrap_gettimeofday(struct timeval *tv, void *) {
	if (!SIM) { tv->tv_sec = 1700000000; tv->tv_usec = 0; return 0; }
	Out o;
	account();
	clk.trueNs += 50; clk.cpuNs += 50;
	int64_t t = wallns();
	tv->tv_sec = t / 1000000000;
	tv->tv_usec = t % 1000000000 / 1000;
	return 0;
}
time_t __wrap_time(time_t *t) {
	time_t r = SIM ? wallns() / 1000000000 : 1700000000;
	if (t) *t = r;
	return r;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
	if (!SIM) return __real_clock_gettime(c, ts);
	Out o;
	account();
	clk.trueNs += 50; clk.cpuNs += 50;
	int64_t t = c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? (int64_t) clk.cpuNs : c == CLOCK_REALTIME ? wallns() : (int64_t) clk.trueNs + 5000000000LL;
	ts->tv_sec = t / 1000000000;
	ts->tv_nsec = t % 1000000000;
	return 0;
}
clock_t __wrap_clock() { account(); return clk.cpuNs / 1000; }
int __wrap_usleep(useconds_t us) { Sys s("usleep"); clk.trueNs += us * 1000ull; pollevents(); reschedule(); return 0; }
unsigned __wrap_sleep(unsigned n) { Sys s("sleep"); clk.trueNs += n * 1000000000ull; pollevents(); reschedule(); return 0; }
int __wrap_nanosleep(const struct timespec *r, struct timespec *) { Sys s("nanosleep"); clk.trueNs += r->tv_sec * 1000000000ull + r->tv_nsec; pollevents(); reschedule(); return 0; }

pid_t __wrap_getpid() { return SIM ? cur->pid : __real_getpid(); }
int __wrap_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }
int __wrap_uname(struct utsname *u) {
	memset(u, 0, sizeof *u);
	strcpy(u->sysname, "Sim");
	strcpy(u->release, "1");
	strcpy(u->machine, "x");
	return 0;
}

// signals and timers
static bool simsig(int s) { return s == SIGALRM || s == SIGPROF || s == SIGVTALRM || s == SIGINT || s == SIGTERM || s == SIGHUP || s == SIGPIPE || s == SIGXCPU; }
int __wrap_sigaction(int sig, const struct sigaction *a, struct sigaction *old) {
	if (!SIM || !simsig(sig)) return __real_sigaction(sig, a, old);
	Sys s("sigaction", std::to_string(sig));
	if (old) {
		memset(old, 0, sizeof *old);
		old->sa_handler = handlers[sig].dflt ? SIG_DFL : handlers[sig].h;
		old->sa_flags = handlers[sig].flags;
	}
	if (a) {
		sigs.handlers++;
		handlers[sig].dflt = a->sa_handler == SIG_DFL;
		handlers[sig].h = a->sa_handler;
		handlers[sig].flags = a->sa_flags;
	}
	return 0;
}
sighandler_t __wrap_signal(int sig, sighandler_t h) {
	if (!SIM || !simsig(sig)) return __real_signal(sig, h);
	struct sigaction a, o;
	memset(&a, 0, sizeof a);
	a.sa_handler = h;
	a.sa_flags = SA_RESTART;
	__wrap_sigaction(sig, &a, &o);
	return o.sa_handler;
}
int __wrap_sigprocmask(int how, const sigset_t *set, sigset_t *old) {
	if (!SIM) return 0;
	Sys s("sigprocmask");
	if (old) {
		sigemptyset(old);
		for (int i = 1; i < 65; i++) if (blocked[i]) sigaddset(old, i);
	}
	if (set)
		for (int i = 1; i < 65; i++) {
			bool m = sigismember(set, i) == 1;
			if (how == SIG_BLOCK && m) blocked[i] = true;
			else if (how == SIG_UNBLOCK && m) blocked[i] = false;
			else if (how == SIG_SETMASK) blocked[i] = m;
		}
	for (int i = 1; i < 65; i++)
		if (pending[i] && !blocked[i]) { pending[i] = false; deliver(i); }
	return 0;
}
int __wrap_pthread_sigmask(int how, const sigset_t *set, sigset_t *old) { return __wrap_sigprocmask(how, set, old); }
int __wrap_setitimer(int which, const struct itimerval *v, struct itimerval *old) {
	if (!SIM) return __real_setitimer(which, v, old);
	Sys s("setitimer", strf("%d %ld.%06ld", which, (long) v->it_value.tv_sec, (long) v->it_value.tv_usec));
	uint64_t now = which == ITIMER_REAL ? clk.trueNs : clk.cpuNs;
	if (old) {
		memset(old, 0, sizeof *old);
		if (timers[which].armed && timers[which].at > now) {
			uint64_t d = timers[which].at - now;
			old->it_value.tv_sec = d / 1000000000;
			old->it_value.tv_usec = d % 1000000000 / 1000;
		}
	}
	uint64_t d = v->it_value.tv_sec * 1000000000ull + v->it_value.tv_usec * 1000ull;
	timers[which].armed = d > 0;
	timers[which].at = now + d;
	timers[which].interval = v->it_interval.tv_sec * 1000000000ull + v->it_interval.tv_usec * 1000ull;
	if (d)
		sigs.arms++;
	reschedule();
	return 0;
}
int __wrap_getitimer(int which, struct itimerval *old) {
	memset(old, 0, sizeof *old);
	uint64_t now = which == ITIMER_REAL ? clk.trueNs : clk.cpuNs;
	if (timers[which].armed && timers[which].at > now) {
		uint64_t d = timers[which].at - now;
		old->it_value.tv_sec = d / 1000000000;
		old->it_value.tv_usec = d % 1000000000 / 1000;
	}
	return 0;
}
unsigned __wrap_alarm(unsigned secs) {
	struct itimerval v = {}, o = {};
	v.it_value.tv_sec = secs;
	__wrap_setitimer(ITIMER_REAL, &v, &o);
	return o.it_value.tv_sec + (o.it_value.tv_usec ? 1 : 0);
}
int __wrap_getrlimit(int, struct rlimit *l) { Sys s("getrlimit"); l->rlim_cur = l->rlim_max = mem.hardLimit; return 0; }
int __wrap_setrlimit(int r, const struct rlimit *l) {
	Sys s("setrlimit");
	if (r == RLIMIT_AS && (mem.limitFails || l->rlim_cur > mem.hardLimit)) {
		count("fault.setrlimit");
		errno = EPERM;
		return -1;
	}
	if (r == RLIMIT_AS) mem.limitSet = l->rlim_cur;
	if (r == RLIMIT_AS && mem.fromSetrlimit) {
		if (l->rlim_cur != RLIM_INFINITY)
			mem.budget = std::max<uint64_t>(l->rlim_cur / mem.unit, 1);
	}
	return 0;
}

void __wrap_exit(int code) {
	if (!SIM) __real_exit(code);
	{
		insut = 0;
		log("p%d exit %d", cur->pid, code);
		finishproc(cur);
	}
	leave(Exited, code & 255, "");
}
void __wrap__exit(int code) {
	if (!SIM) { syscall(231, code); __builtin_unreachable(); }
	leave(Exited, code & 255, "");
}
void __wrap_abort() {
	if (!SIM) __real_abort();
	leave(Crashed, SIGABRT, "abort");
}
void __wrap___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
	if (!SIM) { fprintf(stderr, "assert %s %s:%u\n", e, file, line); __real_abort(); }
	insut = 0;
	const char *b = strrchr(file, '/');
	leave(Crashed, SIGABRT, strf("assertion %s (%s)", e, b ? b + 1 : file));
}

} // extern "C"

// ---------------------------------------------------------------- crash handling
static void crash(int sig) {
	insut = 0;
	if (!cur) {
		static const char m[] = "harness crash\n";
		(void) !__real_write(2, m, sizeof m - 1);
		syscall(231, 98);
	}
	sigset_t s;
	sigemptyset(&s);
	sigaddset(&s, sig);
	::sigprocmask(SIG_UNBLOCK, &s, nullptr);
	leave(Crashed, sig, sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "aborted" : sig == SIGFPE ? "arithmetic fault" : "bus error");
}

// ---------------------------------------------------------------- run loop
static uint64_t realns() {
	struct timespec ts;
	__real_clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

struct Outcome {
	bool finished = false, violated = false, nontriv = false, timeout = false;
	std::string cls, msg, desc, log;
	uint64_t hash = 0, nlog = 0, simns = 0, ticks = 0, calls = 0;
	std::vector<uint32_t> tape;
};

static std::vector<RegEnt> active;
static int watchdogSecs = 60;

static void child(uint64_t seed, const std::vector<uint32_t> *tape) {
	// runs in the forked child
	uint64_t x = seed;
	rngs[0] = splitmix(x);
	rngs[1] = splitmix(x);
	replaying = tape != nullptr;
	if (tape)
		replay = *tape;
	stack_t ss;
	memset(&ss, 0, sizeof ss);
	ss.ss_size = 65536;
	ss.ss_sp = malloc(ss.ss_size);
	sigaltstack(&ss, nullptr);
	int sgs[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL };
	for (int s : sgs) {
		struct sigaction a;
		memset(&a, 0, sizeof a);
		a.sa_handler = crash;
		a.sa_flags = SA_ONSTACK | SA_NODEFER;
		__real_sigaction(s, &a, nullptr);
	}
	arena = arenaNxt = (char *) mmap((void *) ArenaAt, ArenaSz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	if (arena == MAP_FAILED) { perror("mmap arena"); _exit(99); }
	for (int i = 0; i < 65; i++)
		handlers[i] = Handler{SIG_DFL, 0, true};
	fs.reset();
	int tot = 0;
	for (auto &r : active)
		tot += r.w;
	int k = draw(tot);
	size_t i = 0;
	while (k >= active[i].w)
		k -= active[i++].w;
	log("scenario %s", active[i].name.c_str());
	describe("%s: ", active[i].name.c_str());
	count(("scenario." + active[i].name).c_str());
	active[i].s();
	if (!shm->violated)
		checkblocks();
	log("fs %lx", (unsigned long) hashstr(fs.dump()));
	shm->simns = clk.trueNs;
	shm->done = 1;
	syscall(231, 0);
}

static Outcome runone(uint64_t seed, const std::vector<uint32_t> *tape) {
	shm->domain = nullptr;
	shm->ntape = shm->violated = shm->nontriv = shm->done = shm->ndesc = shm->loglen = 0;
	shm->desc[0] = shm->cls[0] = shm->msg[0] = 0;
	shm->hash = 1469598103934665603ULL;
	shm->nlog = 0;
	shm->simns = shm->ticks = shm->calls = 0;
	Outcome o;
	pid_t p = fork();
	if (p == 0) {
		child(seed, tape);
		abort();
	}
	// real-time watchdog: only to keep the harness itself from hanging
	uint64_t t0 = realns();
	int st = 0;
	bool to = false;
	for (;;) {
		pid_t r = waitpid(p, &st, to ? 0 : WNOHANG);
		if (r == p)
			break;
		uint64_t d = realns() - t0;
		if (d > watchdogSecs * 1000000000ull) {
			kill(p, SIGKILL);
			to = true;
			continue;
		}
		struct timespec ts = { 0, d < 2000000 ? 20000 : d < 50000000 ? 200000 : 2000000 };
		::syscall(35, &ts, nullptr);
	}
	o.timeout = to;
	o.finished = shm->done;
	o.violated = shm->violated;
	o.nontriv = shm->nontriv;
	o.cls = shm->cls;
	o.msg = shm->msg;
	o.desc = std::string(shm->desc, shm->ndesc);
	o.hash = shm->hash;
	o.nlog = shm->nlog;
	o.simns = shm->simns;
	o.ticks = shm->ticks;
	o.calls = shm->calls;
	o.tape.assign(shm->tape, shm->tape + shm->ntape);
	o.log = std::string(shm->log, shm->loglen);
	if (!o.finished && !to && shm->domain && !o.violated) {
		o.finished = o.violated = true;
		o.cls = property + ".domain";
		o.msg = strf(st == 77 << 8 ? "%s does not end on a legal instance" : "%s failed on a legal instance (status %x)", shm->domain, st);
	} else if (!o.finished && !to) {
		// the harness itself died
		o.cls = "HARNESS-DIED";
		o.msg = strf("child status %x", st);
	}
	return o;
}

static std::string jstr(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c < 32 || c >= 127) r += strf("\\u%04x", c);
		else r += c;
	}
	return r + "\"";
}
static std::string jtape(const std::vector<uint32_t> &t) {
	std::string r = "[";
	for (size_t i = 0; i < t.size(); i++)
		r += (i ? "," : "") + std::to_string(t[i]);
	return r + "]";
}
static std::string joutcome(const Outcome &o, bool withlog) {
	std::string r = "{";
	r += "\"finished\":" + std::to_string(o.finished) + ",\"violated\":" + std::to_string(o.violated) + ",\"timeout\":" + std::to_string(o.timeout);
	r += ",\"cls\":" + jstr(o.cls) + ",\"msg\":" + jstr(o.msg) + ",\"desc\":" + jstr(o.desc);
	r += strf(",\"hash\":\"%016lx\"", (unsigned long) o.hash);
	r += ",\"tape\":" + jtape(o.tape);
	if (withlog) {
		r += ",\"trace\":[";
		size_t i = 0;
		bool first = true;
		while (i < o.log.size()) {
			size_t j = o.log.find('\n', i);
			if (j == std::string::npos) j = o.log.size();
			r += (first ? "" : ",") + jstr(o.log.substr(i, j - i));
			first = false;
			i = j + 1;
		}
		r += "]";
	}
	return r + "}";
}

static std::vector<uint32_t> readtape(const char *file) {
	FILE *f = __real_fopen(file, "r");
	if (!f) { perror(file); __real_exit(2); }
	std::vector<uint32_t> t;
	unsigned v;
	while (fscanf(f, "%u", &v) == 1)
		t.push_back(v);
	__real_fclose(f);
	return t;
}

static bool samecls(const Outcome &o, const std::string &cls) { return o.violated && o.cls == cls; }

static std::vector<uint32_t> minimise(std::vector<uint32_t> t, const std::string &cls, double secs, int &tries) {
	uint64_t end = realns() + (uint64_t) (secs * 1e9);
	tries = 0;
	auto test = [&](const std::vector<uint32_t> &c, std::vector<uint32_t> &used) {
		tries++;
		Outcome o = runone(0, &c);
		if (!samecls(o, cls))
			return false;
		used = o.tape;
		while (!used.empty() && used.back() == 0)
			used.pop_back();
		return true;
	};
	while (!t.empty() && t.back() == 0)
		t.pop_back();
	bool progress = true;
	while (progress && realns() < end) {
		progress = false;
		// delete chunks
		for (size_t sz = std::max<size_t>(t.size() / 2, 1); realns() < end; sz /= 2) {
			for (size_t i = 0; i < t.size() && realns() < end; ) {
				std::vector<uint32_t> c(t.begin(), t.begin() + i), u;
				if (i + sz < t.size())
					c.insert(c.end(), t.begin() + i + sz, t.end());
				if (test(c, u) && u.size() < t.size()) {
					t = u;
					progress = true;
				} else
					i += sz;
			}
			if (sz <= 1)
				break;
		}
		// zero chunks
		for (size_t sz = std::max<size_t>(t.size() / 2, 1); realns() < end; sz /= 2) {
			for (size_t i = 0; i < t.size() && realns() < end; i += sz) {
				std::vector<uint32_t> c = t, u;
				bool any = false;
				for (size_t j = i; j < i + sz && j < c.size(); j++)
					if (c[j]) { c[j] = 0; any = true; }
				if (any && test(c, u) && (u.size() < t.size() || (u.size() == t.size() && u < t))) {
					t = u;
					progress = true;
				}
			}
			if (sz <= 1)
				break;
		}
		// shrink values
		for (size_t i = 0; i < t.size() && realns() < end; i++) {
			uint32_t lo = 0;
			while (i < t.size() && t[i] > lo && realns() < end) {
				std::vector<uint32_t> c = t, u;
				c[i] = lo + (t[i] - lo) / 2;
				if (c[i] == t[i])
					break;
				if (test(c, u) && (u.size() < t.size() || (u.size() == t.size() && u < t))) {
					t = u;
					progress = true;
				} else
					lo = c[i] + 1;
			}
		}
	}
	return t;
}

void solverinit() __attribute__((weak));	// tables a generator wants computed once

int main(int argc, char **argv) {
	pristine = saveimage();
	if (!getenv("SIM_NOASLR")) {
		int p = personality(0xffffffff);
		if (p != -1 && !(p & ADDR_NO_RANDOMIZE)) {
			setenv("SIM_NOASLR", "1", 1);
			if (personality(p | ADDR_NO_RANDOMIZE) != -1)
				execv("/proc/self/exe", argv);
		}
	}
	uint64_t seed = 1, from = 0, n = 100, step = 1;
	double secs = 1e9;
	std::string out, tape, min, only, known;
	bool list = false;
	int detn = 0, maxviol = 3;
	double minsecs = 20;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--prop") property = val();
		else if (a == "--seed") seed = strtoull(val(), 0, 10);
		else if (a == "--from") from = strtoull(val(), 0, 10);
		else if (a == "--step") step = strtoull(val(), 0, 10);
		else if (a == "--n") n = strtoull(val(), 0, 10);
		else if (a == "--secs") secs = atof(val());
		else if (a == "--out") out = val();
		else if (a == "--replay") tape = val();
		else if (a == "--minimise") min = val();
		else if (a == "--minsecs") minsecs = atof(val());
		else if (a == "--only") only = val();
		else if (a == "--known") known = val();
		else if (a == "--maxviol") maxviol = atoi(val());
		else if (a == "--detn") detn = atoi(val());
		else if (a == "--watchdog") watchdogSecs = atoi(val());
		else if (a == "--verbose") verbose = true;
		else if (a == "--thorough") thorough = true;
		else if (a == "--list") list = true;
		else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
	}
	if (list) {
		std::map<std::string, std::vector<std::string>> m;
		for (auto &r : regs())
			m[r.prop].push_back(r.name);
		for (auto &e : m) {
			printf("%s", e.first.c_str());
			for (auto &s : e.second)
				printf(" %s", s.c_str());
			printf("\n");
		}
		return 0;
	}
	shm = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (auto &r : regs())
		if (r.prop == property && (only.empty() || r.name == only))
			active.push_back(r);
	std::sort(active.begin(), active.end(), [](const RegEnt &a, const RegEnt &b) { return a.name < b.name; });
	if (active.empty()) { fprintf(stderr, "no scenario for %s\n", property.c_str()); return 2; }

	if (solverinit)
		solverinit();
	if (!tape.empty()) {
		std::vector<uint32_t> t = readtape(tape.c_str());
		verbose = true;
		Outcome o = runone(0, &t);
		printf("%s\n", joutcome(o, true).c_str());
		return 0;
	}
	if (!min.empty()) {
		std::vector<uint32_t> t = readtape(min.c_str());
		Outcome o = runone(0, &t);
		if (!o.violated) { printf("%s\n", joutcome(o, false).c_str()); return 0; }
		int tries = 0;
		t = minimise(t, o.cls, minsecs, tries);
		verbose = true;
		o = runone(0, &t);
		while (!o.tape.empty() && o.tape.back() == 0)
			o.tape.pop_back();
		printf("%s\n", joutcome(o, true).c_str());
		return 0;
	}

	std::vector<std::string> knowns;
	if (!known.empty()) {
		FILE *f = __real_fopen(known.c_str(), "r");
		char b[1024];
		while (f && fgets(b, sizeof b, f)) {
			b[strcspn(b, "\n")] = 0;
			if (b[0])
				knowns.push_back(b);
		}
		if (f) __real_fclose(f);
	}
	uint64_t start = realns(), runs = 0, nontriv = 0, timeouts = 0, detbad = 0, detdone = 0, simns = 0, tks = 0, cls = 0;
	std::set<uint64_t> hashes, nthashes;
	std::vector<std::string> samples, viols, errs;
	std::map<std::string, uint64_t> knownhits;
	int nviol = 0;
	for (uint64_t i = 0; i < n && (realns() - start) / 1e9 < secs; i++) {
		uint64_t idx = from + i * step;
		uint64_t x = seed * 1000003 + hashstr(property);
		uint64_t s = splitmix(x) + idx * 0x9e3779b97f4a7c15ULL;
		Outcome o = runone(s, nullptr);
		runs++;
		simns += o.simns;
		tks += o.ticks;
		cls += o.calls;
		if (o.timeout) {
			timeouts++;
			if (errs.size() < 5)
				errs.push_back(strf("index %lu timed out in real time: ", (unsigned long) idx) + o.desc);
			continue;
		}
		if (!o.finished) {
			if (errs.size() < 5)
				errs.push_back(strf("index %lu harness died: ", (unsigned long) idx) + o.msg + " " + o.desc);
			detbad++;
			continue;
		}
		hashes.insert(o.hash);
		if (o.nontriv) {
			nontriv++;
			nthashes.insert(o.hash);
			if (samples.size() < 3 && o.desc.size())
				samples.push_back(strf("index %lu: ", (unsigned long) idx) + o.desc.substr(0, 1500));
		}
		if ((int) i < detn) {
			// the same seed, and the recorded tape, must repeat the run exactly
			std::vector<Counter> keep(shm->counters, shm->counters + shm->ncounters);
			Outcome a = runone(s, nullptr), b = runone(0, &o.tape);
			std::copy(keep.begin(), keep.end(), shm->counters);
			shm->ncounters = keep.size();
			detdone++;
			if (a.hash != o.hash || b.hash != o.hash) {
				detbad++;
				errs.push_back(strf("index %lu is not deterministic (%016lx %016lx %016lx): ", (unsigned long) idx, (unsigned long) o.hash, (unsigned long) a.hash, (unsigned long) b.hash) + o.desc);
			}
		}
		if (o.violated) {
			bool k = false;
			for (auto &kn : knowns)
				if (o.cls.compare(0, kn.size(), kn) == 0) {
					knownhits[kn]++;
					k = true;
					break;
				}
			if (!k) {
				nviol++;
				viols.push_back("{\"index\":" + std::to_string(idx) + ",\"o\":" + joutcome(o, false) + "}");
				if (nviol >= maxviol)
					break;
			}
		}
	}
	std::string r = "{";
	r += strf("\"runs\":%lu,\"nontrivial\":%lu,\"timeouts\":%lu,\"detbad\":%lu,\"detdone\":%lu,\"simns\":%lu,\"ticks\":%lu,\"calls\":%lu,\"wall\":%.3f,\"edges\":%lu,\"guards\":%u",
		(unsigned long) runs, (unsigned long) nontriv, (unsigned long) timeouts, (unsigned long) detbad, (unsigned long) detdone, (unsigned long) simns, (unsigned long) tks, (unsigned long) cls, (realns() - start) / 1e9, (unsigned long) edgesHit(), nguards);
	r += ",\"counters\":{";
	for (uint32_t i = 0; i < shm->ncounters; i++)
		r += (i ? "," : "") + jstr(shm->counters[i].name) + strf(":[%lu,%d]", (unsigned long) shm->counters[i].n, shm->counters[i].max);
	r += "},\"hashes\":[";
	bool first = true;
	size_t nh = 0;
	for (uint64_t h : nthashes) {
		if (nh++ > 400000) break;
		r += strf("%s\"%lx\"", first ? "" : ",", (unsigned long) h);
		first = false;
	}
	r += strf("],\"distinct\":%zu,\"samples\":[", hashes.size());
	for (size_t i = 0; i < samples.size(); i++)
		r += (i ? "," : "") + jstr(samples[i]);
	r += "],\"errors\":[";
	for (size_t i = 0; i < errs.size(); i++)
		r += (i ? "," : "") + jstr(errs[i]);
	r += "],\"known\":{";
	first = true;
	for (auto &k : knownhits) {
		r += (first ? "" : ",") + jstr(k.first) + ":" + std::to_string(k.second);
		first = false;
	}
	r += "},\"violations\":[";
	for (size_t i = 0; i < viols.size(); i++)
		r += (i ? "," : "") + viols[i];
	r += "]}";
	FILE *f = out.empty() ? stdout : __real_fopen(out.c_str(), "w");
	fprintf(f, "%s\n", r.c_str());
	if (f != stdout)
		__real_fclose(f);
	return 0;
}
