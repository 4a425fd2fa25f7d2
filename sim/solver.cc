// Scenarios for the solver programs: the real main function of a domain (or
// the toy graph domain) runs as a simulated process; what it reports is
// checked against a reference model of the instance.
#include "sim.hpp"
#include "solver.hpp"
#include "refine.hpp"
#include "df.hpp"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <queue>
#include <set>
#include "search/search.hpp"

using namespace sim;
using namespace solver;
typedef std::vector<std::string> Strs;

// ---------------------------------------------------------------- observing the search
static const Driver *curdrv;
static Captured cap;
static std::vector<Captured> caps;
static SearchStats *curstats;		// of the search that started last
static Limit *curlim;
static int phase;			// 0 before, 1 in, 2 after the search
static uint64_t expdAtSig, sigAt, firedAtStart, firedAtFinish;
static uint64_t trueStart, cpuStart, trueEnd, cpuEnd, trueSig, cpuSig;
static uint64_t tickStart, tickSig, tickEnd;
static int sigNo;
static size_t capsAtSig;		// searches finished before the first signal
static bool armedAfter;			// a timer was still armed when the program's search had finished

// What the clocks say around the search's own start and finish.
struct Clocks {
	double wall = 0, cpu = 0;
	unsigned jumped = 0;
	static Clocks now() { Clocks c; c.wall = wallnow() / 1e9, c.cpu = clk.cpuNs / 1e9, c.jumped = clk.jumped; return c; }
};
static Clocks spans[4], launched;	// and when the program began
extern "C" {
void __real__ZN11SearchStats6outputEP8_IO_FILE(SearchStats *, FILE *) __attribute__((weak));
void __real__ZN11SearchStats5startEv(SearchStats *) __attribute__((weak));
void __real__ZN11SearchStats6finishEv(SearchStats *) __attribute__((weak));
void __wrap__ZN11SearchStats6outputEP8_IO_FILE(SearchStats *s, FILE *f) {
	{
		OffSut off;
		if (curdrv) {
			cap = Captured();
			curdrv->capture(s, cap);
			caps.push_back(cap);
		}
		armedAfter = timerArmed(0) || timerArmed(1) || timerArmed(2);
	}
	__real__ZN11SearchStats6outputEP8_IO_FILE(s, f);
}
void __wrap__ZN11SearchStats5startEv(SearchStats *s) {
	curstats = s;
	phase = 1;
	trueStart = clk.trueNs, cpuStart = clk.cpuNs;
	firedAtStart = mem.fired;
	spans[0] = Clocks::now();
	__real__ZN11SearchStats5startEv(s);
	spans[1] = Clocks::now();
}
void __wrap__ZN11SearchStats6finishEv(SearchStats *s) {
	phase = 2;
	trueEnd = clk.trueNs, cpuEnd = clk.cpuNs;
	firedAtFinish = mem.fired;
	spans[2] = Clocks::now();
	__real__ZN11SearchStats6finishEv(s);
	spans[3] = Clocks::now();
}
}

// ---------------------------------------------------------------- reference solution
static bool ruleson;		// judging starts and goals, too
static int rulechecks;		// so many states' moves are still to be judged by the domain's rules
static void checkrules(const Prob &p, uint64_t k, const std::vector<Succ> &o) {
	std::string e = p.rules(k, o);
	count("states judged by rules");
	if (!e.empty())
		violate("S01.rules", "%s [%s]", e.c_str(), p.desc.c_str());
}
static void checkgoal(const Prob &p, uint64_t k) {
	if (!p.goalrule) return;
	std::string e = p.goalrule(k, p.model->goal(k));
	if (!e.empty())
		violate("S01.rules", "%s [%s]", e.c_str(), p.desc.c_str());
}
static void checkstart(const Prob &p) {
	if (!p.startrule) return;
	std::string e = p.startrule(p.model->start());
	if (!e.empty())
		violate("S01.rules", "%s [%s]", e.c_str(), p.desc.c_str());
}
static void solve(Prob &p, size_t maxstates = 6000) {
	uint64_t salt = rulechecks ? p.inst.size() * 77 : 0;
	if (p.knownopt)
		return;
	struct E { double g; uint64_t k; bool operator<(const E &o) const { return g > o.g; } };
	std::unordered_map<uint64_t, double> g;
	std::unordered_map<uint64_t, std::vector<uint64_t>> preds;
	std::vector<uint64_t> goals;
	std::priority_queue<E> q;
	std::set<uint64_t> done;
	g[p.model->start()] = 0;
	q.push(E{0, p.model->start()});
	p.opt = -1;
	p.positive = true;
	p.mincost = INFINITY;
	std::vector<Succ> o;
	bool cut = false;
	while (!q.empty()) {
		E e = q.top(); q.pop();
		if (!done.insert(e.k).second)
			continue;
		if (ruleson) checkgoal(p, e.k);
		if (p.model->goal(e.k)) {
			if (p.opt < 0) p.opt = e.g;
			goals.push_back(e.k);
			if (!p.finite) break;
		}
		if (done.size() > maxstates) { cut = true; break; }
		p.model->succs(e.k, o);
		if (p.rules && rulechecks > 0 && ((e.k ^ salt) * 0x9e3779b97f4a7c15ull) >> 62 == 0) {
			rulechecks--;
			checkrules(p, e.k, o);
		}
		p.maxbranch = std::max(p.maxbranch, o.size());
		for (auto &s : o) {
			if (s.cost <= 0) p.positive = false;
			p.mincost = std::min(p.mincost, s.cost);
			preds[s.key].push_back(e.k);
			double ng = e.g + s.cost;
			auto it = g.find(s.key);
			if (it == g.end() || ng < it->second) {
				g[s.key] = ng;
				q.push(E{ng, s.key});
			}
		}
	}
	p.nstates = done.size();
	p.finite = p.finite && !cut;
	p.knownopt = !cut || p.opt >= 0;
	// safe: every reachable state reaches a goal
	p.safe = false;
	if (p.finite) {
		std::set<uint64_t> ok(goals.begin(), goals.end());
		while (goals.size()) {
			uint64_t k = goals.back(); goals.pop_back();
			for (uint64_t u : preds[k])
				if (ok.insert(u).second) goals.push_back(u);
		}
		p.safe = ok.size() == done.size();
	}
}
static bool solvable(const Prob &p) { return p.opt >= 0; }
static double reltol = 1e-6;
static double tol(double x) { return reltol * std::max(1.0, fabs(x)); }
// for sums of n terms
static double tol(double x, size_t n) { return tol(x) * (1 + (reltol > 1e-5 ? n : 0) / 1000.0); }

// ---------------------------------------------------------------- algorithms
struct Alg {
	std::string name;
	Strs args;
	bool optimal = false, weighted = false, anytime = false, rt = false, complete = false, clock = false;
	bool bestfirst = false;		// expands exactly until a limit
	bool rnd = false;		// draws random numbers
	bool tableorder = false;	// iterates over a hash table
	double w = 1;
	long lookahead = 0;
	std::string str() const { std::string s = name; for (auto &a : args) s += " " + a; return s; }
};
static const char *profpath = "/prof";

static void rdbput(const std::string &root, const std::vector<std::pair<std::string, std::string>> &attrs, std::string &path) {
	path = root;
	for (auto &a : attrs) {
		fs.mkdirs(path);
		fs.write(path + "/KEY=" + a.first, "");
		path += "/" + a.second;
	}
}
static std::string drawwt() {
	const char *ws[] = { "1", "1.5", "2", "3", "1.05", "5", "1.2", "10" };
	return ws[draw(8)];
}
enum { KOpt = 1, KWt = 2, KAny = 4, KRt = 8, KGreedy = 16, KBugsy = 32, KBeam = 64, KUnsafe = 128, KRrt = 256, KAll = 127 | KRrt };
static Alg drawalg(const Prob &p, int kinds) {
	std::vector<std::string> names;
	if (kinds & KOpt) {
		names.push_back("astar");
		names.push_back("astar-dump");
		if (p.idamax && (!solvable(p) ? p.acyclic : p.opt <= p.idamax)) names.push_back("idastar");
	}
	if (kinds & KWt) names.push_back("wastar");
	if (kinds & KAny) { names.push_back("arastar"); names.push_back("arastarmon"); names.push_back("arastarnora"); }
	if (kinds & KGreedy) { names.push_back("greedy"); names.push_back("speedy"); }
	if (kinds & KBugsy) { names.push_back("bugsy"); names.push_back("bugsy-slim"); }
	if (kinds & KBeam) names.push_back("beam");
	if ((kinds & KRrt) && p.rrt) { names.push_back("rrt"); names.push_back("rrt"); }
	if ((kinds & KUnsafe) || ((kinds & KRt) && p.safe && p.positive && p.finite)) { names.push_back("lsslrtastar2"); names.push_back("fhatlrtastar"); if (p.consistent) { names.push_back("dtastar-dump"); names.push_back("dtastar"); } }	// which assert consistency
	Alg a;
	a.name = names[draw(names.size())];
	const std::string &n = a.name;
	if (n == "astar" || n == "astar-dump") a.optimal = a.complete = a.bestfirst = true;
	else if (n == "idastar") a.optimal = a.complete = true;
	else if (n == "wastar") {
		std::string w = drawwt();
		a.args = Strs{"-wt", w};
		a.w = atof(w.c_str());
		a.weighted = a.complete = a.bestfirst = true;
		if (draw(4) == 3) { a.args.push_back("-dropdups"); a.weighted = false; }
	} else if (n == "greedy" || n == "speedy") {
		a.complete = a.bestfirst = true;
		if (draw(3) == 2) a.args.push_back("-dropdups");
	} else if (n.substr(0, 7) == "arastar") {
		const char *w0[] = { "3", "1", "2", "5", "1.5", "10" }, *dw[] = { "0.5", "1", "0.2", "0.3", "2", "9" };
		std::string w = w0[draw(6)];
		a.args = Strs{"-wt0", w, "-dwt", dw[draw(6)]};
		a.w = atof(w.c_str());
		a.anytime = a.complete = a.bestfirst = true;
		if (n != "arastar") {
			a.clock = true;
			const char *ws[] = { "1", "0", "0.5", "100" };
			a.args.insert(a.args.end(), {"-wf", ws[draw(4)], "-wt", ws[draw(4)]});
		}
		if (n == "arastarmon") {
			a.args.insert(a.args.end(), {"-p", profpath});
			unsigned nc = 1 + draw(3), nt = 1 + draw(3);
			double c0 = draw(20), c1 = c0 + 1 + draw(100), t1 = (1 + draw(100)) / 1000.0;
			std::string s = strf("%u %u\n%g %g\n%g %g\n", nc, nt, c0, c1, 0.0, t1);
			for (unsigned i = 0; i < nc * nt; i++) s += strf("%u\n", draw(5));
			for (unsigned i = 0; i < nc * nc * nt; i++) s += strf("%u\n", draw(5));
			// probabilities of cost bin q2 given bin q1 >= q2, per time step
			std::vector<double> pr(nc * nc * nt, 0);
			for (unsigned q1 = 0; q1 < nc; q1++)
				for (unsigned t = 0; t < nt; t++) {
					std::vector<int> ws;
					int sum = 0;
					for (unsigned q2 = 0; q2 <= q1; q2++) { ws.push_back(draw(5) + (q2 == q1)); sum += ws.back(); }
					if (!sum) sum = ws[0] = 1;
					for (unsigned q2 = 0; q2 <= q1; q2++) pr[q2*nc*nt + q1*nt + t] = (double) ws[q2] / sum;
				}
			for (double x : pr) s += strf("%15.15g\n", x);
			fs.write(profpath, s);
		}
		if (n == "arastarnora") {
			const char *l[] = { "1", "1000", "0.001", "100000" };
			a.args.insert(a.args.end(), {"-lambda", l[draw(4)]});
		}
	} else if (n.substr(0, 5) == "bugsy") {
		const char *ws[] = { "1", "0", "0.5", "100" };
		a.args = Strs{"-wf", ws[draw(4)], "-wt", ws[draw(4)]};
		a.complete = a.bestfirst = a.clock = true;
		if (n == "bugsy") {
			const char *fl[] = { "-noresort", "-expdelay", "-hhat", "-dhat", "-dropdups", "-interph" };
			for (int i = 0; i < 6; i++)
				if (draw(6) == 5) a.args.push_back(fl[i]);
			// coefficients of h, g, d and the depth
			const char *lms[] = { "1,0,0.5,0", "0.5,0,1,0", "1,0,0,0.5", "0.3,0.2,0,1" };
			if (draw(5) == 4) a.args.insert(a.args.end(), {"-hlms", lms[draw(4)]});
			if (draw(5) == 4) a.args.insert(a.args.end(), {"-dlms", lms[draw(4)]});
		}
		a.args.push_back("-x");		// options are only seen before the last argument
	} else if (n == "beam") {
		a.args = Strs{"-width", strf("%d", 1 + (int) drawlog(20))};
		if (draw(3) == 2) a.args.push_back("-dropdups");
		a.bestfirst = true;
	} else if (n == "rrt") {
		a.args = Strs{"-s", strf("%u", (unsigned) draw(1000))};
		a.bestfirst = true;
	} else if (n == "dtastar") {
		// results of dtastar-dump on other instances
		typedef std::vector<std::pair<std::string, std::string>> AV;
		AV lvl[] = { {{"domain", "grid_instances"}, {"costs", "Unit"}, {"moves", "Four-way"}, {"prob", "0.35"}, {"width", "50"}, {"height", "50"}}, {{"domain", "tiles_instances"}, {"rows", "4"}, {"cols", "4"}}, {{"domain", "plat2d"}, {"width", "50"}, {"height", "49"}} };
		AV data[] = { {{"type", "cpp-seedinst"}, {"costs", "Unit"}, {"moves", "Four-way"}, {"prob", "0.35"}, {"width", "50"}, {"height", "50"}}, {{"moved", "random_walk"}, {"length", "1000000"}, {"rows", "4"}, {"cols", "4"}}, {{"type", "training"}, {"width", "50"}, {"height", "49"}} };
		const char *doms[] = { "gridnav", "tiles", "plat2d" };
		int k = draw(3);
		std::string lpath;
		lvl[k].push_back({"num", "7"});
		rdbput("/levels", lvl[k], lpath);
		fs.write(lpath, p.inst);
		int nf = 1 + draw(2), maxh = 1 + drawlog(60);
		for (int i = 0; i < nf; i++) {
			AV at = data[k];
			at.push_back({"alg", "dtastar-dump"});
			at.push_back({"num", strf("%d", i)});
			std::string path, s = "#start data file format 4\n#altcols\tsample\th\tdepth\tf\n#altcols\tbranching\tnkids\n";
			rdbput(strf("/data/%s", doms[k]), at, path);
			int nr = draw(3) ? 1 + draw(30) : 0;
			for (int r = 0; r < nr || (!i && r < 1); r++) {
				double h = draw(maxh) / (draw(2) ? 1.0 : 2.0);
				s += strf("#altrow\tsample\t%g\t%d\t%g\n#altrow\tbranching\t%d\n", h, 1 + (int) draw(3), h + draw(1 + drawlog(20)), 1 + (int) draw(4));
			}
			fs.write(path, s + "#end data file format 4\n");
		}
		a.rt = a.clock = true;
		a.lookahead = 1 + drawlog(60);
		const char *ws[] = { "1", "0.001", "1000" };
		a.args = Strs{"-lookahead", strf("%ld", a.lookahead), "-grainsize", strf("%d", 1 + (int) drawlog(20)), "-wf", ws[draw(3)], "-wt", ws[draw(3)], "-root", "/data"};
		if (draw(2)) a.args.push_back("-learnfull");
		a.args.insert(a.args.end(), {"-lvl", lpath});
	} else {
		a.rt = true;
		a.lookahead = 1 + drawlog(30);
		a.args = Strs{"-lookahead", strf("%ld", a.lookahead)};
		if (n == "lsslrtastar2") {
			if (draw(3) == 2) a.args.push_back("-onestep");
			if (draw(4) == 3) { a.args.push_back("-complete"); a.tableorder = true; }
			if (draw(4) == 3) a.args.insert(a.args.end(), {"-wt", drawwt()});
		} else if (n == "fhatlrtastar") {
			if (draw(3) == 2) a.args.push_back("-onestep");
		} else {
			const char *ps[] = { "1", "0.5", "0.001" };
			a.args.insert(a.args.end(), {"-samplep", ps[draw(3)], "-horizon", strf("%d", 1 + (int) draw(3))});
			a.rnd = true;
		}
	}
	return a;
}

// ---------------------------------------------------------------- environment
static void drawclock() {
	const double ns[] = { 100, 1, 10000, 1e6 };
	clk.nsPerTick = ns[draw(4)];
	const double sh[] = { 1, 0.5, 0.1, 0.9 };
	clk.cpuShare = sh[draw(4)];
	clk.wallBase = 1000000000000000000LL + (int64_t) draw(1 << 30) * 1000000007LL;
	clk.quantum = draw(3) == 2 ? 10000000 : 1;
	clk.stalled = draw(8) == 7;
}
static void drawjumps() {
	int n = draw(4);
	for (int i = 0; i < n; i++) {
		int64_t d = (int64_t) 1000000 << draw(24);
		clk.jumps.push_back({clk.trueNs + ((uint64_t) 1000 << draw(18)), draw(2) ? d : -d});
	}
	if (n) count("fault.clock.jump.planned", n);
	n = draw(3);
	for (int i = 0; i < n; i++)
		clk.stalls.push_back({clk.trueNs + ((uint64_t) 1000 << draw(18)), (uint64_t) 1000000 << draw(12)});
	if (n) count("fault.stall.planned", n);
}
static void drawenv() {
	mem.fill = draw(4);
	mem.fillseed = 1 + draw(1000);
	const unsigned sz[] = { 0, 1, 2, 3, 7, 64, 5, 31 };
	closedsz = sz[draw(8)];
	drawclock();
}
static void resetenv() {
	mem.failAt = mem.failAt2 = 0;
	mem.failForever = false;
	mem.budget = 0;
	clk.jumps.clear();
	clk.stalls.clear();
}

// ---------------------------------------------------------------- running a solver
struct Obs {
	ProcP p;
	std::string alg;
	DfFile df;
	Captured cap;
	double cost = -12345;
	long len = -1;
	long expd = -1, gend = -1;
	bool have = false, oom = false, complete = false;
	int phase = 0;
	uint64_t firedIn = 0, firedAfter = 0;
	std::string out;
	bool sol() const { return have && cost != -1; }
};
static std::string lastargs;
static Obs runsolver(const Prob &p, const Alg &a, const Strs &extra, ProcOpts o = ProcOpts(), bool lvl = false) {
	Strs args{p.drv->name, a.name};
	args.insert(args.end(), extra.begin(), extra.end());
	args.insert(args.end(), p.args.begin(), p.args.end());
	args.insert(args.end(), a.args.begin(), a.args.end());
	if (lvl || p.onlyfile) {
		fs.write("/inst", p.inst);
		args.insert(args.begin() + 2, {"-lvl", "/inst"});
	} else
		o.in = p.inst;
	lastargs = "";
	for (auto &s : args) lastargs += s + " ";
	log("args %s", lastargs.c_str());
	if (o.maxticks == ProcOpts().maxticks)
		o.maxticks = 60000000;
	o.name = p.drv->name;
	curdrv = p.drv;
	cap = Captured();
	caps.clear();
	curstats = nullptr;
	launched = Clocks::now();
	phase = 0;
	sigNo = 0;
	expdAtSig = 0;
	trueStart = cpuStart = trueEnd = cpuEnd = trueSig = cpuSig = 0;
	firedAtStart = firedAtFinish = 0;
	armedAfter = false;
	sigs.onDeliver = [](int s) {
		if (!sigNo) {
			sigNo = s;
			trueSig = clk.trueNs, cpuSig = clk.cpuNs;
			expdAtSig = curstats ? curstats->expd : 0;
		}
	};
	uint64_t f0 = mem.fired;
	Obs ob;
	ob.alg = a.name;
	ob.p = run(o, mainbody(p.drv->main, args));
	sigs.onDeliver = nullptr;
	ob.cap = cap;
	ob.out = ob.p->out;
	ob.df = dfparse(ob.out);
	ob.complete = ob.df.start && ob.df.end;
	ob.have = ob.df.npairs("final sol cost") > 0;
	if (ob.have) {
		ob.cost = ob.df.num("final sol cost");
		ob.len = (long) ob.df.num("final sol length");
		ob.expd = (long) ob.df.num("total nodes expanded");
		ob.gend = (long) ob.df.num("total nodes generated");
	}
	std::string v;
	ob.oom = ob.df.get("out of memory", v);
	ob.phase = phase;
	ob.firedIn = phase >= 1 ? (phase == 2 ? firedAtFinish : mem.fired) - firedAtStart : 0;
	ob.firedAfter = phase == 2 ? mem.fired - firedAtFinish : phase == 0 ? mem.fired - f0 : 0;
	log("%s %d cost %g len %ld expd %ld", statusname(ob.p->status), ob.p->code, ob.cost, ob.len, ob.expd);
	return ob;
}
static std::string ctx(const Prob &p) {
	return strf("[%s; %s; opt %g; %zu states]", lastargs.c_str(), p.desc.c_str(), p.opt, p.nstates);
}

// A space so large that searches not guided straight to a near goal may
// legitimately need more steps than a run is given.
static bool toolarge(const Prob &p, const std::string &alg) {
	if (p.nstates <= 6000)
		return false;
	return !p.knownopt || alg.find("lrtastar") != alg.npos || alg.find("dtastar") != alg.npos || alg.substr(0, 5) == "bugsy" || alg == "greedy" || alg == "speedy" || alg == "beam";
}

// The run ended by itself with a whole report; false if not (reported as cls).
static bool ended(const Prob &p, const Obs &o, const char *cls) {
	if (o.p->status == Hung && toolarge(p, o.alg)) {
		count("inconclusive.ticks");
		return false;
	}
	if (o.p->status == Hung) {
		violate(std::string(cls) + ".hang", "does not terminate %s: %s", ctx(p).c_str(), o.p->err.c_str());
		return false;
	}
	if (o.p->status == Crashed || o.p->status == Killed) {
		violate(std::string(cls) + ".crash", "%s: %s %s", statusname(o.p->status), o.p->what.c_str(), ctx(p).c_str());
		return false;
	}
	if (o.p->code != 0) {
		violate(std::string(cls) + ".exit", "exit %d (%s) %s", o.p->code, o.p->err.c_str(), ctx(p).c_str());
		return false;
	}
	if (!o.complete || !o.have) {
		violate(std::string(cls) + ".incomplete", "exit 0 without a complete report %s", ctx(p).c_str());
		return false;
	}
	return true;
}

// Whatever was reported is real.
static void checksol(const Prob &p, const Obs &o, const char *cls) {
	if (!o.have)
		return;
	if (o.cost == -1) {
		if (o.len != 0)
			violate(std::string(cls) + ".stale", "no solution but length %ld %s", o.len, ctx(p).c_str());
		if (o.cap.valid && o.cap.path.size())
			violate(std::string(cls) + ".stale", "no solution but %zu states %s", o.cap.path.size(), ctx(p).c_str());
		return;
	}
	if (o.len < 1) {
		violate(std::string(cls) + ".length", "solution of length %ld %s", o.len, ctx(p).c_str());
		return;
	}
	if (p.knownopt && !solvable(p))
		violate(std::string(cls) + ".phantom", "cost %g for an unsolvable instance %s", o.cost, ctx(p).c_str());
	if (p.knownopt && o.cost < p.opt - tol(p.opt))
		violate(std::string(cls) + ".toocheap", "cost %g below the optimum %s", o.cost, ctx(p).c_str());
	if (!o.cap.valid)
		return;
	const auto &path = o.cap.path;
	if ((long) path.size() != o.len)
		violate(std::string(cls) + ".length", "length %ld reported, %zu states %s", o.len, path.size(), ctx(p).c_str());
	if (path.empty())
		return;
	if (o.cap.nops + 1 != path.size())
		violate(std::string(cls) + ".ops", "%zu operators for %zu states %s", o.cap.nops, path.size(), ctx(p).c_str());
	if (path[0] != p.model->start())
		violate(std::string(cls) + ".start", "path does not begin at the start state %s", ctx(p).c_str());
	if (!p.model->goal(path.back()))
		violate(std::string(cls) + ".goal", "path does not end in a goal %s", ctx(p).c_str());
	std::vector<Succ> s;
	double lo = 0, hi = 0;
	for (size_t i = 0; i + 1 < path.size(); i++) {
		p.model->succs(path[i], s);
		double mn = INFINITY, mx = -1;
		for (auto &x : s)
			if (x.key == path[i+1]) { mn = std::min(mn, x.cost); mx = std::max(mx, x.cost); }
		if (mx < 0) {
			violate(std::string(cls) + ".move", "step %zu is no legal move (%lx to %lx) %s", i, (unsigned long) path[i], (unsigned long) path[i+1], ctx(p).c_str());
			return;
		}
		lo += mn, hi += mx;
	}
	if (o.cost < lo - tol(lo, path.size()) || o.cost > hi + tol(hi, path.size()))
		violate(std::string(cls) + ".cost", "reported cost %.9g, the moves cost %.9g %s", o.cost, hi, ctx(p).c_str());
}

static Prob mkprob(bool solv = false) {
	Prob p;
	genprob(p, solv);
	reltol = p.reltol;
	solve(p);
	return p;
}
static void say(const Prob &p, const Alg &a, const std::string &more = "") {
	describe("%s | %s %s opt=%g states=%zu", a.str().c_str(), more.c_str(), p.desc.c_str(), p.opt, p.nstates);
}
// may this algorithm be run without a limit on this instance?
static bool terminates(const Prob &p, const Alg &a) {
	if (!p.finite && !solvable(p)) return false;
	if (a.name == "dtastar" || a.name == "rrt") return false;	// they may wander
	if (a.rt) return p.safe && p.positive && p.finite;
	if (a.name == "idastar") return solvable(p) || p.acyclic;
	if (!p.finite && (a.name == "beam" || a.name == "greedy" || a.name == "speedy" || a.name.substr(0, 5) == "bugsy")) return false;
	return true;
}
// one simulated second passes within a million steps
static void slowclock() {
	clk.nsPerTick = std::max(clk.nsPerTick, 1000 / clk.cpuShare);
}
static Strs safety(const Prob &p, const Alg &a) {
	if (terminates(p, a) && a.name != "idastar")
		return Strs();
	if (a.name == "dtastar") {
		// once all nodes are known it counts no further expansions
		slowclock();
		return Strs{"-gend", "2000", "-cputime", "1"};
	}
	return Strs{"-gend", strf("%d", a.name == "idastar" ? 100000 : 2000)};
}
// a run without injected limits first, to place interruptions
static uint64_t freeticks(const Prob &p, const Alg &a, Obs *out = nullptr) {
	Obs o = runsolver(p, a, safety(p, a));
	if (out) *out = o;
	return o.p->ticks;
}

// ---------------------------------------------------------------- S01
static Strs drawlimits(const Prob &p, const Alg &a, uint64_t T) {
	Strs l;
	bool must = !terminates(p, a);
	int k = draw(must ? 4 : 5) + (must ? 1 : 0);
	if (k == 1) l = Strs{"-expd", strf("%u", 1 + drawlog(2 * p.nstates + 10))};
	if (k == 2) l = Strs{"-gend", strf("%u", 1 + drawlog(6 * p.nstates + 10))};
	if (k == 3 || k == 4) {
		// the timer fires at a random point of the run
		uint64_t at = 1 + draw(std::max<uint64_t>(2, T));
		clk.nsPerTick = 1e9 / at;
		l = Strs{k == 3 ? "-walltime" : "-cputime", "1"};
	}
	if (must && k >= 3) l.insert(l.end(), {"-gend", "5000"});
	if (a.name == "dtastar" && (k < 3 || k > 4 || (k == 3 && clk.stalled))) {
		slowclock();
		l.insert(l.end(), {"-cputime", "1"});
	}
	return l;
}
static void timedrun(const Prob &p, const Alg &a, Obs &o, Strs &l) {
	uint64_t T = 1000;
	if (draw(2)) {
		T = freeticks(p, a);
		resetenv();
	} else
		T = 200 << draw(12);
	l = drawlimits(p, a, T);
	if (l.empty() && (a.name == "idastar" || !terminates(p, a)))
		l = safety(p, a);
	bool lvl = p.canlvl && draw(3) == 2;
	ProcOpts po;
	po.inchunk = draw(3) == 2 ? 1 + draw(7) : 0;
	o = runsolver(p, a, l, po, lvl);
}
static std::string lstr(const Strs &l) {
	std::string s;
	for (auto &x : l) s += x + " ";
	return s;
}

static void S01_solutions() {
	nofaults();
	rulechecks = 40, ruleson = true;
	Prob p = mkprob();
	rulechecks = 0, ruleson = false;
	drawenv();
	Alg a = drawalg(p, KAll);
	drawjumps();
	Obs o;
	Strs l;
	timedrun(p, a, o, l);
	say(p, a, lstr(l));
	if (a.rt && p.finite && !p.safe && !solvable(p)) { }
	if (!ended(p, o, "S01"))
		return;
	if (sigNo) count("fault.signal.delivered");
	if (o.len != 0 || !solvable(p) || l.size()) nontrivial();
	checksol(p, o, "S01");
	if (!p.rules || !o.cap.valid)
		return;
	std::vector<Succ> succs;
	checkstart(p);
	if (o.cap.path.size()) checkgoal(p, o.cap.path.back());
	for (size_t i = 0; i < o.cap.path.size() && i < 40; i++) {
		p.model->succs(o.cap.path[i], succs);
		checkrules(p, o.cap.path[i], succs);
	}
}
SCENARIO2("S01", S01_solutions, 4);

static void S01_oom() {
	nofaults();
	Prob p = mkprob(true);
	drawenv();
	Alg a = drawalg(p, KAll);
	mem.allocs = 0;
	mem.failAt = 1 + draw(60);
	mem.failForever = draw(2);
	Obs o = runsolver(p, a, safety(p, a));
	say(p, a, strf("oom at %lu", (unsigned long) mem.failAt));
	if (o.firedIn) nontrivial();
	checksol(p, o, "S01");
}
SCENARIO2("S01", S01_oom, 1);

// ---------------------------------------------------------------- S12
static void S12_replay() {
	nofaults();
	Prob p = mkprob();
	if (!p.drv->replay) return;
	drawenv();
	Alg a = drawalg(p, KAll);
	Obs o;
	Strs l;
	timedrun(p, a, o, l);
	say(p, a, lstr(l));
	if (!ended(p, o, "S12") || !o.have)
		return;
	resetenv();
	nofaults();
	mem = Mem();
	bool printed = o.df.npairs("controls") + o.df.npairs("path") > 0;
	if (!o.sol()) {
		if (printed)
			violate("S12.noplan", "a plan is printed without a solution %s", ctx(p).c_str());
		return;
	}
	nontrivial();
	fs.write("/printed", o.out);
	fs.write("/replay.inst", p.inst);
	std::vector<uint64_t> keys;
	std::string err;
	bool ok = false;
	ProcOpts po;
	po.name = "replay";
	ProcP r = run(po, [&]() {
		FILE *f = fopen("/replay.inst", "r");
		ok = p.drv->replay(f, "/printed", keys, err);
		return 0;
	});
	if (r->status != Exited || r->code != 0)
		violate("S12.unreadable", "what was printed cannot be read back: %s %s %s", r->what.c_str(), r->err.c_str(), ctx(p).c_str());
	else if (!ok)
		violate("S12.plan", "the printed plan cannot be carried out: %s %s", err.c_str(), ctx(p).c_str());
	else if (keys != o.cap.path)
		violate("S12.other", "the printed plan visits %zu states, not the %zu of the solution %s", keys.size(), o.cap.path.size(), ctx(p).c_str());
	// and by the rules of the domain
	double c = 0;
	std::vector<Succ> out;
	for (size_t i = 0; ok && i + 1 < keys.size(); i++) {
		p.model->succs(keys[i], out);
		double best = INFINITY;
		for (auto &s : out) if (s.key == keys[i+1]) best = std::min(best, s.cost);
		c += best;
	}
	if (ok && !violated() && fabs(c - o.cost) > tol(c) + 1e-6)
		violate("S12.cost", "the printed plan costs %g, the solution %g %s", c, o.cost, ctx(p).c_str());
}
SCENARIO("S12", S12_replay);

// ---------------------------------------------------------------- S13
void (*solver::gendistinct)(Prob &, bool, bool);
static void S13_definition() {
	nofaults();
	if (!gendistinct) return;
	int fam = draw(10);	// 0-3 best first and deepening, 4-6 agents, 7 ARA*, 8-9 Bugsy
	bool rt = fam >= 4 && fam < 7, bugs = fam >= 8;
	Prob p;
	gendistinct(p, rt, bugs && draw(2));
	drawenv();
	if (draw(3) == 2) drawjumps();
	refine::Graph g;
	g.parse(p.inst);
	refine::Limits lim;
	Strs l;
	if (draw(3) == 2) {
		unsigned long n = 1 + drawlog(bugs ? 600 : 60);
		bool e = draw(2);
		(e ? lim.expd : lim.gend) = n;
		l = Strs{e ? "-expd" : "-gend", strf("%lu", n)};
	}
	Alg a;
	refine::AraResult r;
	refine::Result &rr = r;
	refine::BugsyOpt bo;
	int64_t each = -1;	// so many ns by the clock for every expansion
	if (fam == 7) {
		const char *w0[] = { "3", "1", "2", "5", "1.5", "10", "20" }, *dw[] = { "0.5", "1", "0.2", "0.3", "2", "9", "0.05" };
		const char *w = w0[draw(7)], *dwt = dw[draw(7)];
		a.name = "arastar";
		a.args = Strs{"-wt0", w, "-dwt", dwt};
		r = refine::arastar(g, atof(w), atof(dwt), lim);
	} else if (bugs) {
		refine::BugsyOpt &o = bo;
		o.slim = draw(3) == 2;
		a.name = o.slim ? "bugsy-slim" : "bugsy";
		const char *wfs[] = { "1", "0.5", "2", "0" }, *wts[] = { "1", "0", "100", "2000", "10000", "0.5" };
		const char *wf = wfs[draw(4)], *wt = wts[draw(6)];
		a.args = Strs{"-wf", wf, "-wt", wt};
		o.wf = atof(wf), o.wt = atof(wt);
		each = draw(4) ? (int64_t) 1000000000 << draw(8) : 0;
		if (!o.slim) {
			auto flag = [&](const char *f) { bool x = draw(4) == 3; if (x) a.args.push_back(f); return x; };
			if (flag("-noresort")) o.resort = false;
			o.hhat = flag("-hhat"), o.dhat = flag("-dhat"), o.interph = flag("-interph"), o.expdelay = flag("-expdelay"), o.dropdups = flag("-dropdups");
			if (o.interph) o.hhat = true;
			static const double lms[4][4] = { { 1, 0, 0.5, 0 }, { 0.5, 0, 1, 0 }, { 1, 0, 0, 0.5 }, { 0.25, 0.5, 0, 1 } };
			const char *lmss[] = { "1,0,0.5,0", "0.5,0,1,0", "1,0,0,0.5", "0.25,0.5,0,1" };
			int i = draw(12), j = draw(12);
			if (i < 4) o.hlms = lms[i], a.args.insert(a.args.end(), {"-hlms", lmss[i]});
			if (j < 4) o.dlms = lms[j], a.args.insert(a.args.end(), {"-dlms", lmss[j]});
		}
		a.args.push_back("-x");
		o.dt = each / 1e9;
		rr = refine::bugsy(g, o, lim);
	} else if (rt) {
		refine::RtOpt o;
		o.lookahead = 1 + drawlog(30);
		a.rt = true;
		a.name = draw(3) == 2 ? "fhatlrtastar" : "lsslrtastar2";
		o.fhat = a.name == "fhatlrtastar";
		a.args = Strs{"-lookahead", strf("%ld", o.lookahead)};
		if (draw(3) == 2) a.args.push_back("-onestep"), o.onestep = true;
		if (!o.fhat && draw(4) == 3) a.args.push_back("-complete"), o.complete = true;
		if (!o.fhat && draw(4) == 3) {
			const char *ws[] = { "1.5", "2", "4", "1" };
			const char *w = ws[draw(4)];
			a.args.insert(a.args.end(), {"-wt", w});
			o.w = atof(w);
		}
		rr = refine::realtime(g, o, lim);
	} else {
		const char *names[] = { "astar", "wastar", "greedy", "speedy", "beam", "idastar", "astar-dump" };
		int k = draw(p.idamax && p.admissible ? 7 : 5);
		a.name = names[k];
		bool dd = false;
		double w = 1;
		int width = 1;
		if (k == 1) {
			const char *ws[] = { "1.5", "2", "3", "1.25", "8", "1" };
			const char *t = ws[draw(6)];
			a.args = Strs{"-wt", t};
			w = atof(t);
		}
		if (k == 4) {
			width = 1 + draw(6);
			a.args = Strs{"-width", strf("%d", width)};
		}
		if (k >= 1 && k <= 4 && draw(3) == 2) a.args.push_back("-dropdups"), dd = true;
		if (k == 5) rr = refine::idastar(g, lim);
		else rr = refine::bestfirst(g, k == 1 ? refine::WAStar : k == 2 ? refine::GreedyH : k == 3 ? refine::GreedyD : k == 4 ? refine::Beam : refine::AStar, w, dd, width, lim);
	}
	if (r.tie) {
		count("inconclusive.tie");
		return;
	}
	ProcOpts po;
	po.inchunk = draw(3) == 2 ? 1 + draw(7) : 0;
	int64_t base = 1000000000000000000LL + clk.wallBase % 1000000000 * 1000000000;
	if (each >= 0) clk.reading = [=]() { return base + (curstats ? (int64_t) curstats->expd * each : 0); };
	Obs o = runsolver(p, a, l, po);
	clk.reading = nullptr;
	say(p, a, lstr(l) + (each >= 0 ? strf("%g s for every expansion", each / 1e9) : ""));
	if (!ended(p, o, "S13") || !o.have)
		return;
	nontrivial();
	count(("probe." + a.name).c_str());
	if (o.cap.expd != r.expd || o.cap.gend != r.gend)
		violate("S13.counts", "%lu expanded %lu generated, by definition %lu and %lu %s", o.cap.expd, o.cap.gend, r.expd, r.gend, ctx(p).c_str());
	else if (!rt && a.name != "idastar" && (o.cap.dups != r.dups || o.cap.reopnd != r.reopnd))
		violate("S13.dups", "%lu duplicates %lu reopened, by definition %lu and %lu %s", o.cap.dups, o.cap.reopnd, r.dups, r.reopnd, ctx(p).c_str());
	else if (fabs(o.cost - r.cost) > 1e-6 * (1 + fabs(r.cost)))
		violate("S13.cost", "solution of cost %.17g, by definition %.17g %s", o.cost, r.cost, ctx(p).c_str());
	if (violated()) return;
	if (!rt) {
		std::vector<uint64_t> want(r.path.begin(), r.path.end());
		if (want != o.cap.path)
			violate("S13.path", "another path of %zu states, by definition %zu %s", o.cap.path.size(), want.size(), ctx(p).c_str());
		if (bugs) {
			if (o.df.num("number of resorts") != r.resorts)
				violate("S13.resorts", "%g resorts, by definition %lu %s", o.df.num("number of resorts"), r.resorts, ctx(p).c_str());
			auto est = [&](const char *key, double want, bool must) {
				double x = o.df.num(key, NAN);
				if (must && !(fabs(x - want) <= 2e-5 * fabs(want) + 1e-12) && !violated())
					violate("S13.estimate", "%s %g, by definition %g %s", key, x, want, ctx(p).c_str());
			};
			est("final time per expand", r.timeper, true);
			est("mean single-step h error", r.herror, bo.hhat);
			est("mean single-step d error", r.derror, bo.dhat);
			est("mean expansion delay", r.delay, bo.slim || bo.expdelay);
		}
		if (fam == 7) {
			auto rows = o.df.rows("incumbent");
			bool same = rows.size() == r.rows.size();
			for (size_t i = 0; same && i < rows.size(); i++) {
				auto &w = r.rows[i];
				double want[] = { i + 1.0, (double) w.expd, (double) w.gend, w.wt, w.bound, w.cost };
				for (int k = 0; k < 6; k++) same = same && rows[i].size() == 7 && fabs(atof(rows[i][k].c_str()) - want[k]) <= 2e-5 * fabs(want[k]);
			}
			std::string v;
			if (!same)
				violate("S13.incumbents", "%zu incumbents, or others, by definition %zu %s", rows.size(), r.rows.size(), ctx(p).c_str());
			else if (!o.df.get("converged", v) || (v == "yes") != r.converged)
				violate("S13.converged", "converged: %s, by definition %s %s", v.c_str(), r.converged ? "yes" : "no", ctx(p).c_str());
		}
		if (a.name == "idastar") {
			auto rows = o.df.rows("iter");
			bool same = rows.size() == r.iters.size();
			for (size_t i = 0; same && i < rows.size(); i++)
				same = rows[i].size() == 4 && atof(rows[i][0].c_str()) == i && atof(rows[i][1].c_str()) == r.iters[i].bound &&
					atof(rows[i][2].c_str()) == r.iters[i].expd && atof(rows[i][3].c_str()) == r.iters[i].gend;
			if (!same)
				violate("S13.iterations", "%zu iterations, by definition %zu %s", rows.size(), r.iters.size(), ctx(p).c_str());
		}
		return;
	}
	if ((long) o.df.num("num steps", -1) != (long) r.ends.size())
		violate("S13.steps", "%g steps, by definition %zu %s", o.df.num("num steps", -1), r.ends.size(), ctx(p).c_str());
	else if (o.cost >= 0 && r.ends.size()) {
		// every step ends where the definition ends it
		size_t i = 0, mn = SIZE_MAX, mx = 0;
		for (size_t k = 0; k < r.ends.size(); k++) {
			double c = 0;
			size_t i0 = i;
			while (i + 1 < o.cap.path.size() && !(c == r.ends[k].second && o.cap.path[i] == (uint64_t) r.ends[k].first)) {
				double best = INFINITY;
				for (auto &x : g.arcs[o.cap.path[i]])
					if (x.to == (int) o.cap.path[i+1]) best = std::min(best, x.c);
				c += best;
				i++;
			}
			if (c != r.ends[k].second || o.cap.path[i] != (uint64_t) r.ends[k].first) {
				violate("S13.move", "step %zu does not end in %d at cost %g %s", k, r.ends[k].first, r.ends[k].second, ctx(p).c_str());
				return;
			}
			mn = std::min(mn, i - i0), mx = std::max(mx, i - i0);
		}
		if (o.df.num("min step length") != mn || o.df.num("max step length") != mx || fabs(o.df.num("mean step length") * r.ends.size() - i) > 1e-4 * i)
			violate("S13.lengths", "steps of length %g to %g, mean %g, by definition %zu to %zu, %zu in all %s", o.df.num("min step length"), o.df.num("max step length"), o.df.num("mean step length"), mn, mx, i, ctx(p).c_str());
	}
}
SCENARIO("S13", S13_definition);

// ---------------------------------------------------------------- S14
static std::string datestr(time_t t) {
	std::string s = ctime(&t);
	return s.substr(0, s.size() - 1);
}
static void S14_account() {
	nofaults();
	Prob p = mkprob();
	drawenv();
	bool proc = draw(2);
	if (proc) fs.mkdirs("/proc");
	Alg a = drawalg(p, KAll);
	bool jumps = draw(3) == 2;
	if (jumps) drawjumps();
	for (auto &s : spans) s = Clocks();
	if (clk.wallBase < 1000000000000000000LL) clk.wallBase = 1000000000000000000LL;
	Obs o;
	Strs l;
	int oom = draw(6);
	if (oom == 5) {
		mem.allocs = 0;
		mem.failAt = 1 + draw(60);
		l = safety(p, a);
		o = runsolver(p, a, l);
	} else
		timedrun(p, a, o, l);
	say(p, a, lstr(l));
	if (!o.complete || !o.have || o.p->status != Exited)
		return;	// others' business
	int64_t t0 = launched.wall, t1 = Clocks::now().wall;
	bool stable = Clocks::now().jumped == launched.jumped;
	resetenv();
	nontrivial();
	double wall = o.df.num("total wall time"), cpu = o.df.num("total raw cpu time");
	auto within = [&](const char *what, double x, double lo, double hi) {
		double e = 3e-6;
		if (!(x >= lo - e && x <= hi + e) && !violated())
			violate("S14.time", "%s %.9g, by the clock between %.9g and %.9g %s", what, x, lo, hi, ctx(p).c_str());
	};
	// (a jump may come while the reading is taken)
	if (spans[0].jumped == spans[1].jumped && spans[2].jumped == spans[3].jumped)
		within("total wall time", wall, spans[2].wall - spans[1].wall, spans[3].wall - spans[0].wall);
	within("total raw cpu time", cpu, spans[2].cpu - spans[1].cpu, spans[3].cpu - spans[0].cpu);
	std::string v;
	if (a.name == "rrt" && (!o.df.get("RRT seed", v) || v != a.args[1]))
		violate("S14.seed", "seed %s was asked for, \"%s\" is reported %s", a.args[1].c_str(), v.c_str(), ctx(p).c_str());
	for (const char *k : { "wall start date", "wall finish date" }) {
		bool some = !stable || t1 - t0 > 20;
		for (int64_t t = t0; !some && t <= t1; t++) some = o.df.get(k, v) && v == datestr(t);
		if (!some) violate("S14.date", "%s is '%s', it began at %s and took %ld seconds", k, v.c_str(), datestr(t0).c_str(), (long) (t1 - t0));
	}
	for (const char *k : { "wall start time", "wall finish time" }) {
		double t = o.df.num(k);
		if (stable && (t < t0 * (1 - 1e-5) || t > (t1 + 1) * (1 + 1e-5)))
			violate("S14.date", "%s is %g, the clock read %ld", k, t, (long) t0);
	}
	if (proc && (!o.df.get("max virtual kilobytes", v) || v != "12345"))
		violate("S14.memory", "peak memory '%s' %s", v.c_str(), ctx(p).c_str());
	// counts only grow, and end at the totals
	auto rising = [&](const char *row, int ce, int cg, int ct) {
		double e = 0, g = 0, t = -INFINITY;
		for (auto &r : o.df.rows(row)) {
			double re = atof(r[ce].c_str()), rg = atof(r[cg].c_str());
			if (re < e || rg < g || re > o.expd || rg > o.gend)
				violate("S14.rows", "%s rows count %g and %g after %g and %g of %ld and %ld %s", row, re, rg, e, g, o.expd, o.gend, ctx(p).c_str());
			e = re, g = rg;
			if (ct < 0) continue;
			double rt = atof(r[ct].c_str());
			// six digits are printed
			if (stable && !violated() && (rt < t || rt < 0 || rt > wall * (1 + 1e-5) + 3e-6))
				violate("S14.rowtime", "%s row at %g after %g, of %g seconds %s", row, rt, t, wall, ctx(p).c_str());
			t = rt;
		}
	};
	if (a.anytime) rising("incumbent", 1, 2, 6);
	if (a.name == "idastar") rising("iter", 2, 3, -1);
	if (a.name != "lsslrtastar2" && a.name != "fhatlrtastar" && a.name != "dtastar") return;
	double n = o.df.num("num steps", -1);
	if (n < 1 || violated()) return;
	const char *kinds[] = { "wall", "cpu" };
	for (int k = 0; k < 2; k++) {
		if ((!k && !stable) || (k && a.name == "dtastar")) continue;
		double tot = k ? cpu : wall;
		double first = o.df.num(strf("first emit %s time", kinds[k])), mn = o.df.num(strf("min step %s time", kinds[k])), mx = o.df.num(strf("max step %s time", kinds[k])), mean = o.df.num(strf("mean step %s time", kinds[k]));
		double e = 3e-6 * (n + 2);
		if (first < -e || first > tot + e || mn < -e || mn > mx + e || mn > first + e || mx < first - e || mx > tot + e || first + mean * n > tot + e ||
		    (n > 1 && (mean * n < (n - 1) * mn - e || mean * n > (n - 1) * mx + e)))
			violate("S14.steps", "%g steps in %g %s seconds: first %g, from %g to %g, mean %g %s", n, tot, kinds[k], first, mn, mx, mean, ctx(p).c_str());
	}
	double mn = o.df.num("min step length"), mx = o.df.num("max step length"), mean = o.df.num("mean step length");
	if (mn < 1 || mn > mean * (1 + 1e-5) || mx < mean * (1 - 1e-5) || (n == 1 && (mn != mx)))
		violate("S14.lengths", "%g steps of length %g to %g, mean %g %s", n, mn, mx, mean, ctx(p).c_str());
}
SCENARIO("S14", S14_account);

// ---------------------------------------------------------------- S02
static void S02_optimal() {
	nofaults();
	Prob p = mkprob();
	if (!p.admissible || !p.knownopt) return;
	drawenv();
	Alg a = drawalg(p, KOpt);
	bool interrupt = draw(4) == 3;
	Strs l;
	Obs o;
	if (interrupt)
		timedrun(p, a, o, l);
	else {
		l = safety(p, a);
		o = runsolver(p, a, l, ProcOpts(), p.canlvl && draw(4) == 3);
	}
	say(p, a, lstr(l));
	if (!ended(p, o, "S02"))
		return;
	nontrivial();
	checksol(p, o, "S02");
	double h0 = o.df.num("initial heuristic", -1);
	if (solvable(p) && h0 > p.opt + tol(p.opt))
		violate("S02.heuristic", "initial heuristic %g exceeds the optimal cost %s", h0, ctx(p).c_str());
	if (o.cost != -1 && p.opt >= 0 && fabs(o.cost - p.opt) > tol(p.opt))
		violate("S02.suboptimal", "cost %.9g, optimum %.9g %s", o.cost, p.opt, ctx(p).c_str());
	bool limited = interrupt && (sigNo || l.size());
	if (a.name == "idastar" && o.gend >= 100000) { limited = true; count("idastar.toolong"); }
	if (!limited && solvable(p) && o.cost == -1)
		violate("S02.missed", "no solution reported for a solvable instance %s", ctx(p).c_str());
	if (!solvable(p)) count("probe.unsolvable");
}
SCENARIO("S02", S02_optimal);

// ---------------------------------------------------------------- S03
static void S03_bounded() {
	nofaults();
	Prob p = mkprob();
	if (!p.admissible || !p.knownopt) return;
	drawenv();
	Alg a = drawalg(p, KWt);
	bool interrupt = draw(3) == 2;
	Strs l;
	Obs o;
	if (interrupt)
		timedrun(p, a, o, l);
	else {
		l = safety(p, a);
		o = runsolver(p, a, l, ProcOpts(), p.canlvl && draw(4) == 3);
	}
	say(p, a, lstr(l));
	if (!ended(p, o, "S03"))
		return;
	nontrivial();
	checksol(p, o, "S03");
	if (a.weighted && o.cost != -1 && solvable(p) && o.cost > a.w * p.opt + tol(a.w * p.opt))
		violate("S03.bound", "cost %.9g exceeds %g times the optimum %.9g %s", o.cost, a.w, p.opt, ctx(p).c_str());
	if (!l.size() && solvable(p) && o.cost == -1)
		violate("S03.missed", "no solution reported for a solvable instance %s", ctx(p).c_str());
}
SCENARIO("S03", S03_bounded);

// ---------------------------------------------------------------- S04
static void S04_anytime() {
	nofaults();
	Prob p = mkprob();
	if (!p.admissible || !p.knownopt) return;
	drawenv();
	Alg a = drawalg(p, KAny);
	if (a.clock) drawjumps();
	bool interrupt = draw(3) != 0;
	Strs l;
	Obs o;
	if (interrupt)
		timedrun(p, a, o, l);
	else {
		l = safety(p, a);
		o = runsolver(p, a, l, ProcOpts(), p.canlvl && draw(4) == 3);
	}
	say(p, a, lstr(l));
	if (!ended(p, o, "S04"))
		return;
	checksol(p, o, "S04");
	auto cols = o.df.cols("incumbent");
	auto rows = o.df.rows("incumbent");
	int cc = -1, cb = -1, ce = -1;
	for (size_t i = 0; i < cols.size(); i++) {
		if (cols[i] == "incumbent solution cost") cc = i;
		if (cols[i] == "incumbent solution bound") cb = i;
		if (cols[i] == "incumbent nodes expanded") ce = i;
	}
	if (cc < 0 || cb < 0 || ce < 0) {
		violate("S04.columns", "incumbent columns missing %s", ctx(p).c_str());
		return;
	}
	if (rows.size()) nontrivial();
	maxcount("max.incumbents", rows.size());
	double last = INFINITY, laste = -1;
	for (auto &r : rows) {
		if (r.size() != cols.size()) {
			violate("S04.columns", "row with %zu of %zu columns %s", r.size(), cols.size(), ctx(p).c_str());
			return;
		}
		double c = atof(r[cc].c_str()), b = atof(r[cb].c_str()), e = atof(r[ce].c_str());
		double t = std::max(1e-5, p.reltol) * std::max(1.0, c);
		if (!(c < last) && (p.intcost || c > last + t))	// rows are rounded
			violate("S04.decrease", "incumbent cost %g after %g %s", c, last, ctx(p).c_str());
		if (!solvable(p) || c < p.opt - t)
			violate("S04.toocheap", "incumbent cost %g below the optimum %g %s", c, p.opt, ctx(p).c_str());
		else if (p.consistent && (!(b >= 1 - 1e-9) || c > b * p.opt + t * b + 1e-5 * b))
			violate("S04.bound", "incumbent of cost %g claims bound %g, optimum %g %s", c, b, p.opt, ctx(p).c_str());
		if (e < laste)
			violate("S04.order", "expansion counts decrease %s", ctx(p).c_str());
		last = c, laste = e;
	}
	if (rows.size() && (o.cost == -1 || o.cost > last + std::max(1e-5, p.reltol) * std::max(1.0, last)))
		violate("S04.final", "last incumbent costs %g, final solution %g %s", last, o.cost, ctx(p).c_str());
	if (rows.empty() && o.cost != -1)
		violate("S04.final", "final solution %g without an incumbent row %s", o.cost, ctx(p).c_str());
	std::string cv;
	if (!o.df.get("converged", cv))
		violate("S04.columns", "no converged pair %s", ctx(p).c_str());
	if (cv == "yes") {
		count("probe.converged");
		if (solvable(p) ? o.cost == -1 || (p.consistent && o.cost > p.opt + tol(p.opt)) : o.cost != -1)
			violate("S04.converged", "claims convergence with cost %g, optimum %g %s", o.cost, p.opt, ctx(p).c_str());
	}
	if (l.empty() && a.name == "arastar" && p.consistent && solvable(p) && (o.cost == -1 || o.cost > p.opt + tol(p.opt)))
		violate("S04.notconverged", "ran to the end with cost %g, optimum %g %s", o.cost, p.opt, ctx(p).c_str());
}
SCENARIO("S04", S04_anytime);

// ---------------------------------------------------------------- S05
// output without times, host, limits
static std::string normal(const DfFile &f, bool tables = true, bool counts = true) {
	std::string s;
	for (auto &r : f.recs) {
		if (r.toks.empty()) continue;
		const std::string &k = r.toks[0];
		if (r.kind == "pair") {
			if (k.find("time") != std::string::npos || k.find("date") != std::string::npos || k.find("limit") == k.size() - 5 ||
			    k.find("machine") != std::string::npos || k.find("memory") != std::string::npos || k.find("wall") != std::string::npos ||
			    k.find("virtual") != std::string::npos || k.find("seconds") != std::string::npos || k == "level")
				continue;
			if (!tables && (k.find("fill") != std::string::npos || k.find("collisions") != std::string::npos || k.find("resizes") != std::string::npos || k.find("buckets") != std::string::npos))
				continue;
			if (!counts && (k.find("duplicated") != std::string::npos || k.find("reopened") != std::string::npos))
				continue;
			s += k;
			for (size_t i = 1; i < r.toks.size(); i++) s += "=" + r.toks[i];
			s += "\n";
		} else if (r.kind == "altrow") {
			auto cols = f.cols(k);
			s += k;
			for (size_t i = 1; i < r.toks.size(); i++)
				if (i - 1 >= cols.size() || cols[i-1].find("time") == std::string::npos)
					s += "|" + r.toks[i];
			s += "\n";
		}
	}
	return s;
}
static std::string firstdiff(const std::string &a, const std::string &b) {
	size_t i = 0, la = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') la = i + 1; i++; }
	auto line = [&](const std::string &s) { size_t e = s.find('\n', la); return la < s.size() ? s.substr(la, e == std::string::npos ? e : e - la) : std::string("(end)"); };
	return "'" + line(a) + "' versus '" + line(b) + "'";
}
static void samepath(const Prob &p, const Obs &x, const Obs &y, const char *cls) {
	if (x.cap.valid && y.cap.valid && x.cap.path != y.cap.path)
		violate(cls, "different solution paths %s", ctx(p).c_str());
}

static void S05_countlimits() {
	nofaults();
	Prob p = mkprob();
	drawenv();
	Alg a = drawalg(p, KAll & ~KBugsy);
	if (a.clock || a.rnd) a = drawalg(p, KOpt | KWt | KGreedy | KBeam);
	bool term = terminates(p, a) && a.name != "idastar";
	Strs base = safety(p, a);
	Obs f = runsolver(p, a, base);
	if (!f.have) { ended(p, f, "S05"); return; }
	if (a.name == "rrt") term = f.sol();	// stopped by itself
	// any limits
	unsigned long E = f.expd, G = f.gend;
	int k = draw(3);
	unsigned long le = 0, lg = 0;
	if (k != 1) le = 1 + draw(2 * E + 3);
	if (k != 0) lg = 1 + draw(2 * G + 3);
	Strs l;
	if (le) l.insert(l.end(), {"-expd", strf("%lu", le)});
	if (lg) l.insert(l.end(), {"-gend", strf("%lu", lg)});
	Obs o = runsolver(p, a, l);
	say(p, a, lstr(l));
	if (!ended(p, o, "S05"))
		return;
	nontrivial();
	if (a.name != "dtastar-dump") {
		if (le && o.expd > (long) le)
			violate("S05.expd", "%ld expansions with a limit of %lu %s", o.expd, le, ctx(p).c_str());
		if (lg && o.gend > (long) (lg + p.maxbranch))
			violate("S05.gend", "%ld generations with a limit of %lu (branching %zu) %s", o.gend, lg, p.maxbranch, ctx(p).c_str());
	}
	std::string v;
	if (le && (!o.df.get("expanded limit", v) || v != strf("%lu", le)))
		violate("S05.report", "expansion limit %lu not reported %s", le, ctx(p).c_str());
	if (lg && (!o.df.get("generated limit", v) || v != strf("%lu", lg)))
		violate("S05.report", "generation limit %lu not reported %s", lg, ctx(p).c_str());
	if (term) {
		bool hit = (le && E >= le) || (lg && G >= lg);
		if (!hit) {
			if (normal(o.df) != normal(f.df))
				violate("S05.changed", "limit not reached (%lu, %lu) but the outcome differs: %s %s", le, lg, firstdiff(normal(o.df), normal(f.df)).c_str(), ctx(p).c_str());
			samepath(p, o, f, "S05.changed");
		} else if (a.bestfirst && E > le && le && !lg && o.expd != (long) le)
			violate("S05.early", "stopped after %ld expansions with a limit of %lu %s", o.expd, le, ctx(p).c_str());
		else if (a.bestfirst && lg && !le && G > lg && o.gend < (long) lg)
			violate("S05.early", "stopped after %ld generations with a limit of %lu %s", o.gend, lg, ctx(p).c_str());
	}
}
SCENARIO2("S05", S05_countlimits, 2);

static void S05_timelimits() {
	nofaults();
	Prob p = mkprob();
	drawenv();
	Alg a = drawalg(p, KAll);
	Obs f;
	uint64_t T = freeticks(p, a, &f);
	if (!f.have) { ended(p, f, "S05"); return; }
	uint64_t at = 1 + draw(2 * T + 2);
	clk.nsPerTick = 1e9 / at;
	clk.trueNs = clk.cpuNs = 0;
	bool wall = draw(2);
	drawjumps();
	Strs l = safety(p, a);
	l.insert(l.end(), {wall ? "-walltime" : "-cputime", "1"});
	Obs o = runsolver(p, a, l);
	say(p, a, lstr(l) + strf("at tick %lu of %lu", (unsigned long) at, (unsigned long) T));
	if (!ended(p, o, "S05"))
		return;
	if (sigNo && phase == 2 && (wall ? trueSig < trueEnd : cpuSig < cpuEnd)) {
		nontrivial();
		count("fault.signal.delivered");
		long more = o.expd - (long) expdAtSig;
		if (more > 2 && a.name != "dtastar-dump")
			violate("S05.late", "%ld expansions after the time limit's signal (%ld before) %s", more, (long) expdAtSig, ctx(p).c_str());
	}
	if (!sigNo && !a.clock && !a.rnd && normal(o.df) != normal(f.df))
		violate("S05.changed", "time limit not reached but the outcome differs: %s %s", firstdiff(normal(o.df), normal(f.df)).c_str(), ctx(p).c_str());
	checksol(p, o, "S05");
}
SCENARIO2("S05", S05_timelimits, 2);

// ---------------------------------------------------------------- S06
static void S06_timers() {
	nofaults();
	Prob p = mkprob();
	drawenv();
	Alg a = drawalg(p, KAll);
	if (a.name == "dtastar") return;	// only ends by a time limit
	uint64_t T = draw(2) ? freeticks(p, a) : 1000 << draw(8);
	resetenv();
	int k = draw(5);	// 0 none 1 wall 2 cpu 3 both 4 none with count limit
	uint64_t at = 1 + draw(2 * T + 2);
	int secs = 1 + draw(3), secs2 = 1 + draw(3);
	clk.nsPerTick = 1e9 * secs / at;
	drawjumps();
	double stalled = 0;	// while it is off the cpu the search cannot take a signal
	for (auto &s : clk.stalls) stalled += s.second;
	Strs l = safety(p, a);
	if (k == 1 || k == 3) l.insert(l.end(), {"-walltime", strf("%d", secs)});
	if (k == 2 || k == 3) l.insert(l.end(), {"-cputime", strf("%d", secs2)});
	if (k == 4) l.insert(l.end(), {"-expd", strf("%u", 1 + draw(20))});
	bool oom = draw(4) == 3;
	if (oom) {
		mem.allocs = 0;
		mem.failAt = 1 + draw(200);
	}
	clk.trueNs = clk.cpuNs = 0;
	ProcOpts po;
	Obs o = runsolver(p, a, l, po);
	bool armed = timerArmed(0) || timerArmed(1) || timerArmed(2);
	bool dflt = handlerDefault(SIGALRM) && handlerDefault(SIGPROF);
	say(p, a, lstr(l) + (oom ? "oom" : ""));
	if (o.p->status == Hung && toolarge(p, a.name))
		return;
	if (o.p->status == Killed || (o.p->status != Exited && !oom)) {
		violate("S06.killed", "%s %d %s %s", statusname(o.p->status), o.p->code, o.p->what.c_str(), ctx(p).c_str());
		return;
	}
	if (o.p->status != Exited)
		return;		// allocation failed outside the search
	if (!oom && !ended(p, o, "S06"))
		return;
	if (k == 0 || k == 4) {
		if (sigs.arms || sigs.handlers || sigs.delivered)
			violate("S06.untouched", "timer or handler set up without a time limit %s", ctx(p).c_str());
		return;
	}
	nontrivial();
	if (sigNo) count("fault.signal.delivered");
	if (!o.have) return;
	if (armed || armedAfter)
		violate("S06.armed", "a timer is armed after the search ended %s", ctx(p).c_str());
	if (!dflt)
		violate("S06.handler", "signal disposition not restored %s", ctx(p).c_str());
	if (phase != 2) return;
	// the limit fires when, and only when, the kind of time asked for has passed
	double W = secs * 1e9, C = secs2 * 1e9;
	bool bywall = k & 1, bycpu = k & 2;
	double slack = 1e9 * secs * 50.0 / at + 1e5;	// 50 ticks and some system calls
	double tw = (double) trueEnd - trueStart, tc = (double) cpuEnd - cpuStart;
	if (sigNo) {
		double sw = (double) trueSig - trueStart, sc = (double) cpuSig - cpuStart;
		bool okw = bywall && sigNo == SIGALRM && sw >= W - slack;
		bool okc = bycpu && sigNo == SIGPROF && sc >= C - slack;
		if (!okw && !okc)
			violate("S06.kind", "signal %d after %g s of wall and %g s of cpu time %s", sigNo, sw / 1e9, sc / 1e9, ctx(p).c_str());
	}
	// long past the limit without a signal: the timer was never armed or counts the wrong time
	if (!sigNo && ((bywall && tw > W + 20 * slack + 1e6 + stalled) || (bycpu && tc > C + 20 * slack + 1e6)))
		violate("S06.lost", "search lasted %g s of wall and %g s of cpu time and no signal came %s", tw / 1e9, tc / 1e9, ctx(p).c_str());
}
SCENARIO("S06", S06_timers);

// ---------------------------------------------------------------- S07
static void S07_repeat() {
	nofaults();
	Prob p = mkprob();
	mem.fill = 0;
	closedsz = 0;
	Alg a = drawalg(p, KAll & ~KBugsy);
	if (a.clock || a.rnd) a = drawalg(p, KOpt | KWt | KGreedy | KBeam);
	bool tables = draw(3) == 2 && !a.tableorder;
	if (a.name == "bugsy" || a.name == "bugsy-slim") a.args.insert(a.args.begin(), {"-wt", "0"});
	Strs l = safety(p, a);
	if (draw(4) == 3 && l.empty()) l = Strs{"-expd", strf("%u", 1 + drawlog(p.nstates))};
	bool lvl = p.canlvl && draw(3) == 2;
	Obs x = runsolver(p, a, l, ProcOpts(), lvl);
	// a different environment
	mem.fill = draw(4);
	mem.fillseed = 1 + draw(1000);
	drawclock();
	drawjumps();
	if (tables) {
		const unsigned sz[] = { 1, 2, 3, 7, 64, 5, 31, 500 };
		closedsz = sz[draw(8)];
	}
	ProcOpts po;
	po.inchunk = draw(2) ? 1 + draw(9) : 0;
	Obs y = runsolver(p, a, l, po, lvl);
	say(p, a, lstr(l) + strf("fill %d tables %d", mem.fill, closedsz ? (int) closedsz : 0));
	if (!ended(p, x, "S07") || !ended(p, y, "S07"))
		return;
	nontrivial();
	// the first run's environment is clean; both must agree
	std::string nx = normal(x.df, !tables), ny = normal(y.df, !tables);
	if (nx != ny)
		violate(tables ? "S07.tables" : "S07.differs", "%s %s", firstdiff(nx, ny).c_str(), ctx(p).c_str());
	samepath(p, x, y, tables ? "S07.tables" : "S07.differs");
}
SCENARIO2("S07", S07_repeat, 3);

// clock-guided searches whose clock is pinned must not depend on memory contents either
static void S07_bugsy() {
	nofaults();
	Prob p = mkprob();
	Alg a = drawalg(p, KBugsy | KAny | KRt);
	clk.stalled = true;
	mem.fill = 0;
	Strs l = safety(p, a);
	Obs x = runsolver(p, a, l);
	bool cut = sigNo;
	mem.fill = 1 + draw(3);
	mem.fillseed = 1 + draw(1000);
	Obs y = runsolver(p, a, l);
	say(p, a, lstr(l) + strf("fill %d", mem.fill));
	if (!ended(p, x, "S07") || !ended(p, y, "S07"))
		return;
	if (cut || sigNo)	// cut short by the clock
		return;
	nontrivial();
	std::string nx = normal(x.df), ny = normal(y.df);
	if (nx != ny)
		violate("S07.differs", "%s %s", firstdiff(nx, ny).c_str(), ctx(p).c_str());
	samepath(p, x, y, "S07.differs");
}
SCENARIO2("S07", S07_bugsy, 1);

// ---------------------------------------------------------------- S08
static void S08_oom() {
	nofaults();
	Prob p = mkprob();
	drawenv();
	Alg a = drawalg(p, KAll);
	Strs l = safety(p, a);
	// measure
	mem.allocs = 0;
	Obs f = runsolver(p, a, l);
	uint64_t n = mem.allocs;
	if (!ended(p, f, "S08"))
		return;
	resetenv();
	mem.allocs = mem.limitSet = 0;
	uint64_t want = 0;	// bytes of address space allowed
	int k = draw(4);
	if (k < 3) {
		mem.failAt = 1 + draw(n + 1);
		mem.failForever = k == 1;
		if (k == 2) mem.failAt2 = mem.failAt + 1 + draw(8);
	} else {
		// a configured limit, scaled down
		mem.fromSetrlimit = true;
		mem.unit = 1000;
		uint64_t m = 20 + draw(4000);
		if (draw(8) == 7) m += draw(200000);	// more than is ever used
		const char *units[] = { "%luM", "%luM", "%lu000K", "%lu000000", "%lue-3G" };
		l.insert(l.end(), {"-mem", strf(units[draw(5)], (unsigned long) m)});
		want = m * 1000000;
		if (draw(4) == 3) want = std::min(want, mem.hardLimit = (20 + draw(4000)) * 1000000ul);
		mem.limitFails = draw(16) == 15;
	}
	if (draw(4) == 3) {
		clk.nsPerTick = 1e9 / (1 + draw(f.p->ticks + 1));
		l.insert(l.end(), {"-walltime", "1"});
	}
	Obs o = runsolver(p, a, l);
	mem.fromSetrlimit = false;
	mem.budget = 0;
	bool nolimit = mem.limitFails;
	mem.limitFails = false, mem.hardLimit = ~0ull;
	say(p, a, lstr(l) + strf("alloc %lu of %lu %s", (unsigned long) mem.failAt, (unsigned long) n, mem.failForever ? "and all later" : ""));
	bool in = o.firedIn > 0;
	if (in) nontrivial();
	if (nolimit && o.phase > 0)
		violate("S08.nolimit", "searches without the memory limit, which could not be set %s", ctx(p).c_str());
	if (want && !nolimit && o.phase > 0 && (mem.limitSet > want || mem.limitSet + 1 < want))	// (read as a floating point number)
		violate("S08.limit", "address space limited to %lu bytes, %lu were asked for %s", (unsigned long) mem.limitSet, (unsigned long) want, ctx(p).c_str());
	checksol(p, o, "S08");
	if (o.p->status == Hung && toolarge(p, a.name))
		return;
	if (o.p->status == Hung || o.p->status == Killed) {
		violate(o.p->status == Hung ? "S08.hang" : "S08.killed", "after an allocation failure %s", ctx(p).c_str());
		return;
	}
	if (o.p->status == Crashed) {
		bool thrown = o.p->what.find("uncaught exception") != std::string::npos || o.p->what.find("terminate") != std::string::npos;
		if (!thrown)
			violate("S08.crash", "%s %s", o.p->what.c_str(), ctx(p).c_str());
		else if (in && !o.firedAfter)
			violate("S08.uncaught", "allocation failure during the search not caught: %s %s", o.p->what.c_str(), ctx(p).c_str());
		return;
	}
	if (o.p->code != 0) {
		if (in && !o.firedAfter)
			violate("S08.exit", "exit %d after an allocation failure during the search (%s) %s", o.p->code, o.p->err.c_str(), ctx(p).c_str());
		return;
	}
	if (!o.complete || !o.have) {
		violate("S08.incomplete", "exit 0 without a complete report %s", ctx(p).c_str());
		return;
	}
	if (in) {
		if (!o.oom)
			violate("S08.unreported", "the search ran out of memory and does not say so %s", ctx(p).c_str());
		if (o.cost != -1 || o.len != 0)
			violate("S08.solution", "out of memory, yet solution of cost %g length %ld %s", o.cost, o.len, ctx(p).c_str());
	} else if (o.oom)
		violate("S08.false", "reports running out of memory and did not %s", ctx(p).c_str());
	if (!in && !sigNo && a.optimal && solvable(p) && o.cost != -1 && fabs(o.cost - p.opt) > tol(p.opt))
		violate("S08.suboptimal", "cost %g optimum %g %s", o.cost, p.opt, ctx(p).c_str());
}
SCENARIO("S08", S08_oom);

// ---------------------------------------------------------------- S09
static void S09_realtime() {
	nofaults();
	Prob p = mkprob();
	drawenv();
	Alg a = drawalg(p, KUnsafe);
	Strs l;
	bool limited = draw(4) == 3 || !terminates(p, a);
	if (limited) l = Strs{draw(2) ? "-expd" : "-gend", strf("%u", 1 + drawlog(2000))};
	bool trapped = false;
	if (limited && !solvable(p) && p.finite && a.name != "dtastar" && a.lookahead > (long) p.nstates) {
		// the whole reachable space fits in one lookahead and has no goal
		l.clear();
		limited = false;
		trapped = true;
	}
	ProcOpts po;
	// with a limit that never comes (all nodes expanded) only a time limit can stop the agent
	if (limited) {
		clk.nsPerTick = 1e9 / (100000 + draw(1000000));
		l.insert(l.end(), {"-cputime", "1"});
	}
	Obs o = runsolver(p, a, l, po);
	say(p, a, lstr(l) + (p.safe ? "safe" : trapped ? "trapped" : "unsafe"));
	if (!ended(p, o, "S09"))
		return;
	nontrivial();
	count(p.safe ? "probe.safe" : solvable(p) ? "probe.unsafe" : "probe.unsolvable");
	checksol(p, o, "S09");
	if (!limited && solvable(p) && p.safe && o.cost == -1)
		violate("S09.missed", "goal not reached though every state can reach it %s", ctx(p).c_str());
	if (a.name == "dtastar-dump")
		return;
	long steps = (long) o.df.num("num steps", -1);
	if (steps < 0) {
		violate("S09.steps", "no step count %s", ctx(p).c_str());
		return;
	}
	if (o.expd > (a.lookahead + (a.name == "dtastar")) * (steps + 1))
		violate("S09.lookahead", "%ld expansions in %ld steps of lookahead %ld %s", o.expd, steps, a.lookahead, ctx(p).c_str());
	if (o.cost != -1 && steps > 0) {
		double mean = o.df.num("mean step length", -1);
		double tot = mean * steps;
		if (fabs(tot - (o.len - 1)) > 0.5 + 1e-5 * tot)
			violate("S09.moves", "%ld steps of mean length %g make %g moves, the path has %ld %s", steps, mean, tot, o.len - 1, ctx(p).c_str());
		bool one = a.name == "dtastar" || std::find(a.args.begin(), a.args.end(), "-onestep") != a.args.end();
		if (one && steps != o.len - 1)
			violate("S09.onestep", "%ld steps, %ld moves %s", steps, o.len - 1, ctx(p).c_str());
	}
}
SCENARIO("S09", S09_realtime);

// ---------------------------------------------------------------- S10
static void S10_clocks() {
	nofaults();
	Prob p = mkprob();
	drawenv();
	if (!p.finite) return;
	Alg a = drawalg(p, draw(4) == 3 ? KGreedy : KBugsy);
	if (a.name.substr(0, 5) == "bugsy" && draw(3) == 2) {	// the case with a promise about the cost
		a.name = "bugsy";
		a.args = Strs{"-wf", draw(2) ? "1" : "0.5", "-wt", "0"};
		if (draw(2)) a.args.push_back("-noresort");
		if (draw(4) == 3) a.args.push_back("-expdelay");
		a.args.push_back("-x");
	}
	drawjumps();
	clk.stalled = draw(4) == 3;
	Obs o = runsolver(p, a, Strs());
	say(p, a);
	if (!ended(p, o, "S10"))
		return;
	nontrivial();
	checksol(p, o, "S10");
	if (solvable(p) && o.cost == -1)
		violate("S10.missed", "no solution for a solvable instance %s", ctx(p).c_str());
	bool plain = a.name == "bugsy";
	double wf = -1, wt = -1;
	for (size_t i = 0; i + 1 < a.args.size(); i++) {
		if (a.args[i] == "-wf") wf = atof(a.args[i+1].c_str());
		if (a.args[i] == "-wt") wt = atof(a.args[i+1].c_str());
		if (a.args[i] == "-hhat" || a.args[i] == "-dhat" || a.args[i] == "-interph" || a.args[i] == "-hlms" || a.args[i] == "-dlms" || a.args[i] == "-dropdups") plain = false;
	}
	if (plain && p.admissible && wf > 0 && wt == 0 && solvable(p)) {
		count("probe.wt0");
		if (o.cost > p.opt + tol(p.opt))
			violate("S10.suboptimal", "zero time weight, cost %g optimum %g %s", o.cost, p.opt, ctx(p).c_str());
	}
}
SCENARIO("S10", S10_clocks);

// ---------------------------------------------------------------- S11
// sections of a reuse run's output, one per search
static std::vector<std::string> sections(const std::string &s) {
	std::vector<std::string> v;
	size_t i = 0;
	while ((i = s.find("#run\t", i)) != std::string::npos) {
		size_t b = s.find('\n', i), e = s.find("#end\t", i);
		if (e == std::string::npos) break;
		v.push_back(s.substr(b + 1, e - b - 1));
		i = e;
	}
	return v;
}
static std::string nottimes(const std::string &s) {
	std::string r = normal(dfparse(s));
	if (s.find("#oom\t1") != std::string::npos) r += "oom\n";
	return r;
}
static void S11_reset() {
	nofaults();
	int n = 2 + draw(2);
	std::vector<Prob> ps;
	int kinds = KAll;
	Alg a;
	for (int i = 0; i < n; i++) {
		Prob p = mkprob();
		if (i > 0 && p.drv != ps[0].drv) { i--; continue; }
		ps.push_back(p);
	}
	for (int tries = 0; ; tries++) {
		a = drawalg(ps[0], kinds);
		bool ok = !a.rnd && !a.tableorder;	// tables keep their size across resets
		if (a.name == "idastar")
			for (auto &p : ps) ok = ok && p.idamax && (!solvable(p) ? p.acyclic : p.opt <= p.idamax);
		if (a.rt)
			for (auto &p : ps) ok = ok && terminates(p, a);
		if (a.name == "dtastar-dump")
			for (auto &p : ps) ok = ok && p.consistent;
		if (ok) break;
		if (tries > 10) return;
	}
	mem.fill = draw(3);
	const unsigned sz[] = { 0, 1, 3, 16 };
	closedsz = sz[draw(4)];
	clk.stalled = true;		// both objects read the same clock
	clk.quantum = 1;
	Strs l;
	for (auto &p : ps)
		if (l.empty()) l = safety(p, a);
	if (l.empty() && draw(3) == 2) l = Strs{"-expd", strf("%u", 1 + drawlog(30))};
	bool timed = draw(3) == 2, oom = !timed && draw(2);
	if (timed) l.insert(l.end(), {draw(2) ? "-walltime" : "-cputime", "1"});
	curdrv = ps[0].drv;
	Strs base{ps[0].drv->name, a.name};
	base.insert(base.end(), l.begin(), l.end());
	base.insert(base.end(), a.args.begin(), a.args.end());
	for (int i = 0; i < n; i++) fs.write(strf("/i%d", i), ps[i].inst);
	say(ps[0], a, lstr(l) + strf("%d runs%s%s", n, timed ? " timed" : "", oom ? " oom" : ""));
	// fresh objects
	std::vector<std::string> fresh;
	std::vector<Captured> fcaps;
	uint64_t ticks = 0, allocs = 0;
	size_t per = 1;
	clk.nsPerTick = 1e-3;
	sigs.onDeliver = [](int s) { sigNo = s; };
	ProcOpts po;
	po.maxticks = 60000000;
	for (int i = 0; i < n; i++) {
		Strs args = base;
		args.insert(args.begin() + 2, {"-i", strf("/i%d", i)});
		caps.clear();
		mem.allocs = 0;
		ProcP q = run(po, mainbody(curdrv->reuse, args));
		auto s = sections(q->out);
		if (q->status == Hung && toolarge(ps[i], a.name)) return;
		if (!q->ok() || s.size() != 1 || caps.empty()) {
			violate("S11.fresh", "single run fails: %s %d %s %s [%s]", statusname(q->status), q->code, q->what.c_str(), q->err.c_str(), a.str().c_str());
			return;
		}
		fresh.push_back(s[0]);
		fcaps.push_back(caps[0]);
		per = caps.size();	// some print their statistics twice
		if (i == 0) { ticks = q->ticks; allocs = mem.allocs; }
	}
	// one object, the first run interrupted
	Strs args = base;
	for (int i = n - 1; i >= 0; i--) args.insert(args.begin() + 2, {"-i", strf("/i%d", i)});
	caps.clear();
	sigNo = 0;
	if (timed) {
		// a signal at a random point of the first run; later runs are far too fast for another
		uint64_t at = 1 + draw(ticks);
		clk.nsPerTick = 1e9 / at;
		sigs.onDeliver = [](int s) { if (!sigNo) capsAtSig = caps.size(); sigNo = s; clk.nsPerTick = 1e-3; };
	}
	if (oom) {
		mem.allocs = 0;
		mem.failAt = 1 + draw(allocs);
	}
	ProcP q = run(po, mainbody(curdrv->reuse, args));
	sigs.onDeliver = nullptr;
	auto s = sections(q->out);
	bool out1 = oom && mem.fired;
	if (q->status == Hung && toolarge(ps[0], a.name)) return;
	if (q->status == Hung) { violate("S11.hang", "[%s %s]", a.str().c_str(), lstr(l).c_str()); return; }
	if (!q->ok()) {
		if (out1 && q->what.find("bad_alloc") != std::string::npos) return;	// the one failure was outside the search
		violate("S11.crash", "%s %d %s in run %zu [%s %s]", statusname(q->status), q->code, q->what.c_str(), s.size(), a.str().c_str(), lstr(l).c_str());
		return;
	}
	if (s.size() != (size_t) n || caps.size() != per * n) {
		violate("S11.incomplete", "%zu of %d runs reported [%s %s]", s.size(), n, a.str().c_str(), lstr(l).c_str());
		return;
	}
	nontrivial();
	if (sigNo) count("fault.signal.delivered");
	// which run was disturbed?
	size_t from = 1;
	if (timed && sigNo) {
		from = capsAtSig / per + 1;	// runs from this one on must be as if fresh
	}
	if (out1) {
		from = n;
		for (size_t i = 0; i < (size_t) n; i++)
			if (s[i].find("#oom\t1") != std::string::npos) { from = i + 1; break; }
		if (from == (size_t) n && s[n-1].find("#oom\t1") == std::string::npos) return;
	}
	if (!out1 && !(timed && sigNo)) from = 0;
	for (size_t i = from; i < (size_t) n; i++) {
		std::string x = nottimes(s[i]), y = nottimes(fresh[i]);
		// the size of the tables is kept across resets, by design
		x = normal(dfparse(s[i]), false), y = normal(dfparse(fresh[i]), false);
		if (x != y) {
			violate("S11.differs", "run %zu of the reused object: %s [%s %s%s]", i, firstdiff(x, y).c_str(), a.str().c_str(), lstr(l).c_str(), out1 ? "oom" : sigNo ? "signal" : "");
			return;
		}
		if (caps[i * per].path != fcaps[i].path) {
			violate("S11.path", "run %zu of the reused object: different path [%s %s]", i, a.str().c_str(), lstr(l).c_str());
			return;
		}
	}
}
SCENARIO("S11", S11_reset);

// ---------------------------------------------------------------- D01
#include "tools.hpp"
// does the completeness checker accept the file?
static bool accepted(const std::string &path, bool viastdin) {
	Faults keep = faults;
	nofaults();
	ProcOpts o;
	o.name = "dfcmplt";
	Strs args{"dfcmplt"};
	if (viastdin) {
		o.infile = true;
		o.in = path;
	} else
		args.push_back(path);
	ProcP q = run(o, mainbody(dfcmplt_main, args));
	faults = keep;
	if (q->status != Exited)
		violate("D01.checker", "dfcmplt %s %s", statusname(q->status), q->what.c_str());
	return q->ok();
}
// Records of the file in order, without what tells times.
// (a file that lacks only its last newline is whole)
static std::string alltext(const std::string &s) { DfFile f = dfparse(s.size() && s.back() != '\n' ? s + "\n" : s); return strf("%d%d\n", f.start, f.end) + normal(f); }
static void D01_complete() {
	nofaults();
	Prob p = mkprob();
	drawenv();
	if (draw(2)) fs.mkdirs("/proc");
	Alg a = drawalg(p, KAll);
	for (int i = 0; a.clock && i < 5; i++) a = drawalg(p, KAll);
	if (a.clock) return;
	Strs l = safety(p, a);
	int kind = draw(5);	// 0,1: killed  2,3: output fails  4: cut at an arbitrary byte
	bool timed = kind == 3 || draw(6) == 5;
	ProcOpts po;
	po.outpath = "/out";
	po.outbuf = draw(3) == 2 ? (int) draw(3) * 100 : -1;
	bool viastdin = draw(2);
	auto rewind = [&]() { clk.trueNs = clk.cpuNs = 0; clk.wallOff = 0; };
	rewind();
	uint64_t T = 0;
	if (timed) {
		// the limit's signal may come while the solver waits for its reader
		T = freeticks(p, a);
		rewind();
		clk.nsPerTick = 1e9 / (1 + draw(T + T / 4 + 2));
		l.insert(l.end(), {draw(4) ? "-walltime" : "-cputime", "1"});
	}
	say(p, a, lstr(l) + (kind < 2 ? "kill" : kind < 4 ? "output faults" : "cut"));
	// undisturbed: accepted, and everything the checker needs is in it
	Obs r = runsolver(p, a, l, po);
	std::string ref;
	fs.read("/out", ref);
	if (r.p->status == Hung && toolarge(p, a.name)) return;
	if (r.p->status == Crashed || r.p->status == Hung) { ended(p, r, "D01"); return; }
	if (!r.p->ok()) { ended(p, r, "D01"); return; }
	if (!accepted("/out", viastdin)) {
		violate("D01.rejected", "the output of an undisturbed run is rejected %s", ctx(p).c_str());
		return;
	}
	if (kind < 2) {
		po.killtick = po.killcall = 0;
		if (kind == 0) po.killtick = 1 + draw(r.p->ticks + 1);
		else po.killcall = 1 + draw(r.p->calls + 1);
		if (draw(8) == 7) fs.write("/out", ref);	// the shell truncates what was there
		rewind();
		Obs o = runsolver(p, a, l, po);
		std::string got;
		fs.read("/out", got);
		if (o.p->status == Killed) { nontrivial(); count("fault.kill"); }
		if (ref.compare(0, got.size(), got) && alltext(ref) != alltext(got) && o.p->status != Killed) {
			violate("D01.notrepeated", "the same run printed something else %s", ctx(p).c_str());
			return;
		}
		bool acc = accepted("/out", viastdin);
		if (acc && got != ref && got + "\n" != ref)
			violate("D01.partial", "killed after %zu of %zu bytes, accepted as complete %s", got.size(), ref.size(), ctx(p).c_str());
		if (o.p->ok() && !acc)
			violate("D01.rejected", "exit 0 but rejected %s", ctx(p).c_str());
	} else if (kind < 4) {
		drawfaults(FWrite | FShort);
		faults.sout = true;
		faults.budget = 1 + draw(2);
		if (draw(4) == 3) faults.budget = 1000000;
		if (kind == 3) {
			faults.write = 0;
			faults.nospace = false;
			faults.eintr = 20 << draw(6);
			po.outpipe = true;
		}
		rewind();
		Obs o = runsolver(p, a, l, po);
		Faults ff = faults;
		nofaults();
		std::string got;
		fs.read("/out", got);
		if (o.p->status == Crashed || o.p->status == Hung) {
			if (o.p->status == Hung && toolarge(p, a.name)) return;
			violate("D01.crash", "%s: %s when its output fails %s", statusname(o.p->status), o.p->what.c_str(), ctx(p).c_str());
			return;
		}
		if (o.p->outerr) nontrivial();
		// a timed run may stop elsewhere when it is held up: then only whole or not
		bool same = timed ? true : alltext(got) == alltext(ref);
		DfFile g = dfparse(got);
		if (timed && o.p->outerr)	// whole but for the last newline, at best
			same = got.size() >= 25 && got.compare(got.size() - 23, 23, "#end data file format 4") == 0 && !faults.eintr;
		bool acc = accepted("/out", viastdin);
		if (acc && !same)
			violate("D01.damaged", "accepted as complete, but output failed: %s %s", timed ? "a write to a pipe was interrupted by the time limit" : firstdiff(alltext(got), alltext(ref)).c_str(), ctx(p).c_str());
		if (o.p->ok() && (!acc || !same))
			violate("D01.success", "exit 0 although its output is not whole (%zu bytes of %zu%s) %s", got.size(), ref.size(), acc ? "" : ", rejected", ctx(p).c_str());
		if (timed && o.p->ok() && r.p->ok() && g.npairs("final sol cost") != 1)
			violate("D01.success", "exit 0 without a result %s", ctx(p).c_str());
		if (kind == 3 && !o.p->ok() && !ff.write)
			violate("D01.interrupted", "exit %d (%s): the time limit's signal made a write fail %s", o.p->code, o.p->err.c_str(), ctx(p).c_str());
	} else {
		size_t n = draw(4) ? ref.size() - std::min<size_t>(ref.size(), draw(80)) : draw(ref.size() + 1);
		fs.write("/out", ref.substr(0, n));
		bool missing = draw(10) == 9;
		std::string path = missing ? "/no/such" : "/out";
		nontrivial();
		count("fault.truncate");
		if (missing) viastdin = false;
		bool acc = accepted(path, viastdin);
		if (acc && (missing || n + 1 < ref.size()))
			violate("D01.cut", "a file cut to %zu of %zu bytes is accepted %s", n, ref.size(), ctx(p).c_str());
		if (missing && fs.exists("/no/such"))
			violate("D01.created", "the checker created the file it was asked about");
	}
}
SCENARIO("D01", D01_complete);

// ---------------------------------------------------------------- I01
static void I01_instances() {
	nofaults();
	Prob p = mkprob();
	drawenv();
	Alg a;
	const char *names[] = { "astar", "greedy", "wastar" };
	a.name = names[draw(3)];
	if (a.name == "wastar") a.args = Strs{"-wt", "1.5"};
	a.complete = a.bestfirst = true;
	Strs l = terminates(p, a) ? Strs() : Strs{"-gend", "2000"};
	if (draw(3) == 2) l = Strs{"-expd", "20"};
	bool lvl = p.canlvl && draw(2);
	ProcOpts po;
	Obs r = runsolver(p, a, l, po, lvl);
	if (r.p->status == Hung && toolarge(p, a.name)) return;
	if (!ended(p, r, "I01")) return;
	int kind = draw(4);	// 0 chunks, 1 read errors, 2, 3 cut short
	std::string ref = normal(r.df);
	Prob q = p;
	auto isws = [](char c) { return c == ' ' || c == '\n' || c == '\t'; };
	size_t end = p.inst.size();
	while (end > 0 && isws(p.inst[end-1])) end--;
	size_t last = end;
	while (last > 0 && !isws(p.inst[last-1])) last--;
	if (p.lasttoken < last) last = p.lasttoken;
	Obs o;
	if (kind == 0) {
		po.inchunk = 1 + draw(12);
		faults.shortio = draw(2) ? 300 : 0;
		say(p, a, lstr(l) + "chunks");
		o = runsolver(p, a, l, po, lvl);
		nofaults();
		nontrivial();
	} else if (kind == 1) {
		if (draw(4)) po.inchunk = 1 + draw(12);
		else faults.shortio = 300;
		faults.read = 20 << draw(6);
		faults.budget = draw(4) == 3 ? 1000000 : 1 + draw(2);
		say(p, a, lstr(l) + strf("read errors chunk %d", po.inchunk));
		o = runsolver(p, a, l, po, lvl);
		nofaults();
		if (o.p->sawfault) nontrivial();
	} else {
		size_t n = draw(last + 1);
		if (draw(3) == 2 && last > 12) n = last - draw(12);
		if (p.cuts.size() && draw(3) == 2) n = p.cuts[draw(p.cuts.size())] - draw(2);
		q.inst = p.inst.substr(0, n);
		say(p, a, lstr(l) + strf("cut to %zu of %zu", n, p.inst.size()));
		o = runsolver(q, a, l, po, lvl);
		nontrivial();
		count("fault.truncate");
	}
	if (o.p->status == Hung) { violate("I01.hang", "%s", ctx(p).c_str()); return; }
	if (o.p->status != Exited) { violate("I01.crash", "%s: %s %s", statusname(o.p->status), o.p->what.c_str(), ctx(p).c_str()); return; }
	if (o.p->code != 0) {
		if (kind == 0)
			violate("I01.refused", "exit %d (%s) on an intact instance read in pieces %s", o.p->code, o.p->err.c_str(), ctx(p).c_str());
		if (o.have)
			violate("I01.failedwithresult", "exit %d but reports cost %g %s", o.p->code, o.cost, ctx(p).c_str());
		return;
	}
	if (normal(o.df) != ref || o.cap.path != r.cap.path)
		violate(kind == 0 ? "I01.chunks" : kind == 1 ? "I01.readerror" : "I01.cut", "reports a result for another instance: %s %s", firstdiff(normal(o.df), ref).c_str(), ctx(p).c_str());
}
SCENARIO("I01", I01_instances);

// ---------------------------------------------------------------- R06
// A dynamic lookahead run learns its lookahead sizes from training results
// and caches the table under /tmp.  Times are whole seconds apart and the
// simulated machine is fast, so which sizes a run uses depends on the table
// alone.
static std::vector<std::string> cachefiles(bool temps) {
	std::vector<std::string> o;
	for (auto &f : fs.files())
		if (f.compare(0, 5, "/tmp/") == 0 && f.find("/KEY=") == f.npos && (f.back() == '~') == temps) o.push_back(f);
	return o;
}
static void R06_tables() {
	nofaults();
	mem.fill = draw(3);
	Prob p = mkprob();
	if (!p.safe || !solvable(p) || !p.positive) return;	// the agent might never arrive
	resetenv();
	clk.nsPerTick = 1, clk.callCost = 10;
	Alg a;
	a.name = draw(3) == 2 ? "fhatlrtastar" : "lsslrtastar2";
	a.lookahead = 1 + draw(12);
	a.args = Strs{"-lookahead", strf("%ld", a.lookahead)};
	a.rt = true;
	bool complete = a.name == "lsslrtastar2" && draw(3) == 2;
	if (complete) a.args.push_back("-complete");
	std::string algattr = complete ? "lsslrtastar-complete" : a.name;
	typedef std::vector<std::pair<std::string, std::string>> AV;
	AV lvl, want;
	std::string dom;
	std::string W = draw(2) ? "50" : "100", H = draw(2) ? "49" : "50";
	int dk = draw(5);
	if (dk == 0) { dom = "tiles"; lvl = AV{{"domain", "tiles_instances"}, {"rows", W}, {"cols", H}}; want = AV{{"model", "random_walk"}, {"length", "1000000"}, {"rows", W}, {"cols", H}}; }
	else if (dk == 1) { dom = "gridnav"; lvl = AV{{"domain", "grid_instances"}, {"obstacles", "uniform"}, {"costs", "Unit"}, {"moves", "Four-way"}, {"prob", "0.2"}, {"width", W}, {"height", H}};
		want = AV{{"type", "cpp-seedinst"}, {"costs", "Unit"}, {"moves", "Four-way"}, {"prob", "0.2"}, {"width", W}, {"height", H}}; }
	else if (dk == 2) { dom = "gridnav"; lvl = AV{{"domain", "grid_instances"}, {"obstacles", draw(2) ? "hog2" : "eaburns-cups"}};
		want = AV{{"type", "cpp-seedinst"}, {"costs", "Unit"}, {"moves", "Four-way"}, {"prob", "0.35"}, {"width", "5000"}, {"height", "5000"}}; }
	else if (dk == 3) { dom = "plat2d"; lvl = AV{{"domain", "plat2d"}, {"width", W}, {"height", H}}; want = AV{{"type", "training"}, {"width", W}, {"height", H}}; }
	else { dom = "traffic"; lvl = AV{{"domain", "traffic"}, {"width", W}, {"height", H}, {"obstacles", "500"}}; want = AV{{"type", "training"}, {"width", W}, {"height", H}, {"obstacles", "500"}}; }
	lvl.push_back({"num", "3"});
	want.insert(want.begin(), {{"alg", algattr}, {"onestep", "no"}});
	std::string lpath;
	rdbput("/lvl", lvl, lpath);
	fs.write(lpath, p.inst);
	fs.mkdirs("/tmp");
	// the training results
	std::map<unsigned, double> table;
	int nr = 1 + draw(8);
	for (int i = 0; i < nr; i++) {
		unsigned look = 1 + draw(i % 3 == 2 ? 200 : 20);
		int num = draw(3);
		double t = draw(9) + 0.5 + draw(1000) / 1e5;
		AV at = want;
		bool other = draw(6) == 5;
		if (other) at[0].second = "astar";
		at.push_back({"lookahead", strf("%u", look)});
		at.push_back({"num", strf("%d", num)});
		std::string path;
		rdbput("/data/" + dom, at, path);
		if (fs.exists(path)) continue;
		bool has = draw(8) != 7;
		fs.write(path, "#start data file format 4\n" + (has ? dfpairline("mean step cpu time", strf("%f", t)) + "\n" : "") + "#end data file format 4\n");
		if (other || !has) continue;
		t = atof(strf("%f", t).c_str());
		if (!table.count(look) || table[look] < t) table[look] = t;
	}
	std::string gscale = strf("%d", 1 + draw(3));
	Strs l{"-gend", "3000", "-dynlss", "/data", "-gscale", gscale, "-lvl", lpath};
	auto go = [&](ProcOpts po = ProcOpts()) { return runsolver(p, a, l, po); };
	auto start = [&](ProcOpts po = ProcOpts()) {
		Strs args{p.drv->name, a.name};
		args.insert(args.end(), l.begin(), l.end());
		args.insert(args.end(), p.args.begin(), p.args.end());
		args.insert(args.end(), a.args.begin(), a.args.end());
		po.in = p.inst;
		po.name = p.drv->name;
		po.maxticks = 60000000;
		return spawn(po, mainbody(p.drv->main, args));
	};
	Obs r = go();
	say(p, a, lstr(l));
	if (table.empty()) {
		if (r.p->status != Exited || r.p->code == 0)
			violate("R06.notable", "no training data, but the run ended as %s %d %s", statusname(r.p->status), r.p->code, ctx(p).c_str());
		return;
	}
	if (r.p->status == Hung && toolarge(p, a.name)) return;
	if (!ended(p, r, "R06")) return;
	std::string ref = normal(r.df);
	auto files = cachefiles(false);
	if (files.size() != 1) {
		violate("R06.cache", "%zu cache files after a run %s", files.size(), ctx(p).c_str());
		return;
	}
	std::string cache = files[0], whole;
	fs.read(cache, whole);
	{
		// what was stored is what the results say
		std::map<unsigned, double> got;
		unsigned n = 0;
		int off = 0;
		const char *s = whole.c_str();
		bool ok = sscanf(s, "%u%n", &n, &off) == 1;
		s += off;
		for (unsigned i = 0; ok && i < n; i++) {
			unsigned z; double t;
			ok = sscanf(s, " %u %lf%n", &z, &t, &off) == 2;
			s += off;
			if (ok) got[z] = t;
		}
		ok = ok && got.size() == table.size();
		for (auto &e : table) ok = ok && got.count(e.first) && fabs(got[e.first] - e.second) < 2e-6;
		if (!ok) violate("R06.table", "the cached table has %zu entries for %zu lookaheads in the results, or other times: %.60s %s", got.size(), table.size(), whole.c_str(), ctx(p).c_str());
	}
	auto same = [&](const DfFile &df, const char *cls, const char *what) {
		if (normal(df) != ref)
			violate(cls, "%s plans differently: %s %s", what, firstdiff(normal(df), ref).c_str(), ctx(p).c_str());
	};
	auto honest = [&](const ProcP &q, const char *what, bool mayfail) {
		if (q->status == Killed) return;
		if (q->status == Crashed || q->status == Hung) { violate(strf("R06.%s", statusname(q->status)), "%s: %s %s %s", what, statusname(q->status), q->what.c_str(), ctx(p).c_str()); return; }
		if (q->code != 0) {
			if (!mayfail) violate("R06.failed", "%s: exit %d %s %s", what, q->code, q->err.c_str(), ctx(p).c_str());
			return;
		}
		same(dfparse(q->out), "R06.plan", what);
	};
	auto intact = [&](const char *what) {
		std::string now;
		if (fs.read(cache, now) && now != whole) violate("R06.torn", "%s leaves a damaged cache of %zu of %zu bytes %s", what, now.size(), whole.size(), ctx(p).c_str());
	};
	int mode = draw(6);
	static const char *modes[] = { "reuse", "cut", "faulty write", "killed", "faulty read", "concurrent" };
	describe("%s table=%zu ", modes[mode], table.size());
	switch (mode) {
	case 0:
		honest(go().p, "a run with the cache", false);
		intact("a run with the cache");
		nontrivial();
		break;
	case 1: {
		size_t n = draw(whole.size());
		if (draw(3) == 2) n = whole.size() - 1 - draw(std::min<size_t>(8, whole.size()));
		fs.write(cache, whole.substr(0, n));
		count("fault.truncate");
		nontrivial();
		honest(go().p, strf("a run with %zu of %zu bytes of the cache", n, whole.size()).c_str(), true);
		break;
	}
	case 2: case 3: case 4: case 5: {
		int err; if (mode != 4) fs.resolve("/tmp", true, err)->ents.clear();
		if (mode == 2) {
			drawfaults(FWrite | FOpen | FMeta | FClose | FShort | FStat | FDir);
			if (draw(2)) {	// aim at the writing of the cache itself
				nofaults();
				int w = draw(4);
				(w == 0 ? faults.write : w == 1 ? faults.close : w == 2 ? faults.meta : faults.shortio) = w == 2 ? 100 : 400;
				faults.nospace = draw(2);
				faults.budget = 1;
			}
			faults.sout = false;
		}
		if (mode == 4) drawfaults(FRead | FOpen | FShort | FStat | FDir);
		ProcOpts po;
		if (mode == 3) po.killcall = 1 + draw(std::max<uint64_t>(2, r.p->calls + r.p->calls / 4));
		if (mode < 5) {
			ProcP q = go(po).p;
			nofaults();
			if (q->sawfault || q->status == Killed) nontrivial();
			honest(q, modes[mode], true);
		} else {
			int n = 2 + draw(2);
			std::vector<ProcP> qs;
			switchpct = 10 + draw(80);
			for (int i = 0; i < n; i++) {
				ProcOpts o;
				if (draw(5) == 4) o.killcall = 1 + draw(std::max<uint64_t>(2, r.p->calls + r.p->calls / 4));
				qs.push_back(start(o));
			}
			runall();
			nontrivial();
			for (auto &q : qs) honest(q, "a run beside others", false);
		}
		intact(modes[mode]);
		honest(go().p, "a later run", false);
		intact("a later run");
		break;
	}
	}
}
SCENARIO("R06", R06_tables);

// ---------------------------------------------------------------- G01
// A program that makes instances says it did only if whole, legal ones are there.
bool __attribute__((weak)) solver::genmaker(Maker &) { return false; }
struct Made { ProcP p; std::vector<std::string> texts; std::string missing; };
static Made make(const Maker &m, ProcOpts po) {
	if (m.dir.size()) {
		for (auto &f : fs.files())
			if (f.compare(0, 5, "/out/") == 0) fs.write(f, "old contents\n");
		fs.mkdirs(m.dir);
	}
	Strs args{m.name};
	args.insert(args.end(), m.args.begin(), m.args.end());
	lastargs = "";
	for (auto &s : args) lastargs += s + " ";
	log("args %s", lastargs.c_str());
	po.name = m.name;
	po.in = m.in;
	if (po.maxticks == ProcOpts().maxticks) po.maxticks = 60000000;
	Made r;
	r.p = run(po, mainbody(m.main, args));
	if (m.dir.empty()) {
		r.texts.push_back(r.p->out);
		return r;
	}
	for (auto &f : m.files) {
		std::string t;
		if (!fs.read(m.dir + "/" + f, t)) r.missing = f;
		r.texts.push_back(t);
	}
	return r;
}
static void G01_makers() {
	nofaults();
	resetenv();
	Maker m;
	if (!genmaker(m)) return;
	mem.fill = draw(4);
	mem.fillseed = 1 + draw(1000);
	auto env = [&](ProcOpts &po) {
		const int ob[] = { -1, 0, 16, 200 };
		po.outbuf = ob[draw(4)];
		if (draw(2)) po.inchunk = 1 + draw(40);
	};
	int64_t wall = clk.wallBase = 1000000000000000000LL + (int64_t) draw(1 << 30) * 1000000007LL;
	clk.nsPerTick = m.slow;
	auto rewind = [&]() { clk.trueNs = clk.cpuNs = 0; clk.wallBase = wall; };
	rewind();
	Made r = make(m, ProcOpts());
	std::string what = "[" + lastargs + "; " + m.desc + "]";
	describe("%s %s", lastargs.c_str(), m.desc.c_str());
	if (r.p->status == Hung) { violate("G01.hang", "does not end %s", what.c_str()); return; }
	if (r.p->status != Exited) { violate("G01.crash", "%s: %s %s", statusname(r.p->status), r.p->what.c_str(), what.c_str()); return; }
	if (r.p->code != 0) { violate("G01.exit", "exit %d (%s%s) %s", r.p->code, r.p->err.c_str(), r.p->out.substr(0, 200).c_str(), what.c_str()); return; }
	auto judge = [&](const Made &r) -> std::string {
		if (r.missing.size()) return "no file " + r.missing;
		return m.check(r.texts);
	};
	std::string e = judge(r);
	if (e.size()) { violate("G01.illegal", "%s: %s", e.c_str(), what.c_str()); return; }
	nontrivial();
	// the solver takes what was made
	if (m.solve && draw(2)) {
		Prob p, g;
		genprob(g, false);	// for the domain's program and its arguments
		p.drv = g.drv;
		p.args = g.args;
		Alg a;
		a.name = m.more ? "astar" : "greedy";
		p.inst = r.texts[draw(r.texts.size())];
		Obs o = runsolver(p, a, m.more ? Strs() : Strs{"-expd", "3"});
		count("probe.solved");
		if (o.p->status == Exited && (o.p->code != 0 || !o.complete || !o.have))
			violate("G01.refused", "the solver exits with %d (%s) for an instance of %s", o.p->code, o.p->err.c_str(), what.c_str());
		else if (o.p->status == Crashed)
			violate("G01.refused", "the solver crashes (%s) for an instance of %s", o.p->what.c_str(), what.c_str());
		else if (m.more && o.have && o.cost < 0)
			violate("G01.unsolvable", "the solver finds no solution for an instance of %s", what.c_str());
	}
	// again, elsewhere
	ProcOpts po;
	int kind = draw(6);
	env(po);
	rewind();
	if (kind == 0) {
		if (m.seeded) clk.wallBase += draw64() % 1000000000000000ULL;
		mem.fill = draw(4);
		faults.shortio = draw(2) ? 300 : 0;
	} else if (kind == 1) {
		po.killcall = 1 + draw(r.p->calls + 1);
	} else {
		const int rate[] = { 0, 100, 400, 900 };
		faults.sout = true;
		faults.write = rate[draw(4)];
		faults.close = rate[draw(4)];
		faults.read = rate[draw(4)] / 4;
		faults.open = rate[draw(4)] / 4;
		faults.nospace = draw(2);
		faults.shortio = draw(2) ? 300 : 0;
		faults.budget = 1 + draw(3);
	}
	Made q = make(m, po);
	bool hit = q.p->sawfault;
	nofaults();
	faults.sout = false;
	if (kind == 1) {
		// killed: it must be possible to just do it again
		if (q.p->status == Killed) count("fault.kill");
		rewind();
		q = make(m, ProcOpts());
	}
	if (q.p->status == Hung) { violate("G01.hang", "does not end (the second time) %s", what.c_str()); return; }
	if (q.p->status != Exited) { violate("G01.crash", "%s (the second time): %s %s", statusname(q.p->status), q.p->what.c_str(), what.c_str()); return; }
	if (q.p->code != 0) {
		if (!hit) violate("G01.exit", "exit %d (the second time: %s) %s", q.p->code, q.p->err.c_str(), what.c_str());
		return;
	}
	e = judge(q);
	if (e.size()) { violate(hit ? "G01.faulty" : "G01.illegal", "%s after exit 0 (the second time): %s", e.c_str(), what.c_str()); return; }
	if (m.seeded || kind != 0)
		for (size_t i = 0; i < q.texts.size(); i++)
			if (q.texts[i] != r.texts[i]) violate(hit ? "G01.faulty" : "G01.seed", "another instance for the same arguments: %s: %s", firstdiff(q.texts[i], r.texts[i]).c_str(), what.c_str());
}
SCENARIO("G01", G01_makers);
