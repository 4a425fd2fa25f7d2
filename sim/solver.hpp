// What the drivers (domain programs) and the solver scenarios share.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <unordered_map>

namespace solver {

// What a search had to report, seen through SearchStats::output.
struct Captured {
	bool valid = false;
	unsigned long expd = 0, gend = 0, dups = 0, reopnd = 0;
	std::vector<uint64_t> path;	// start first
	size_t nops = 0;
	double wallstart = 0, wallend = 0, cpustart = 0, cpuend = 0;
};

struct Succ { uint64_t key; double cost; };

// A reference model of one instance.  Keys identify states.
struct Model {
	virtual ~Model() {}
	virtual uint64_t start() = 0;
	virtual bool goal(uint64_t) = 0;
	virtual void succs(uint64_t, std::vector<Succ> &) = 0;
};
typedef std::shared_ptr<Model> ModelP;

// What a driver translation unit offers for its domain.
struct Driver {
	const char *name;
	int (*main)(int, const char **);
	void (*capture)(void *stats, Captured &);
	// run one search object over several instance files with resets between
	int (*reuse)(int, const char **);
	// a model made of the domain's own code, for domains without an independent one
	ModelP (*self)(FILE *);
	// carry out the plan that the program printed (file out) on the instance
	bool (*replay)(FILE *inst, const char *out, std::vector<uint64_t> &keys, std::string &err) = nullptr;
};

// One generated instance with everything the scenarios know about it.
struct Prob {
	const Driver *drv = nullptr;
	std::string inst;			// instance text
	std::vector<std::string> args;		// further arguments it needs
	bool onlyfile = false;			// instance must be given with -lvl
	bool rrt = false;			// its program also knows rrt
	bool canlvl = false;			// instance may be given with -lvl
	ModelP model;
	bool admissible = true;			// h never overestimates
	bool consistent = false;
	bool positive = true;			// every move costs something
	bool safe = false;			// every reachable state can reach a goal
	bool acyclic = false;
	bool finite = true;
	bool intcost = true;
	bool knownopt = false;			// opt is given, not searched for
	double opt = -1;			// optimal cost, -1: no solution
	size_t nstates = 0;			// reachable states
	size_t maxbranch = 0;
	double mincost = 1;
	std::vector<size_t> cuts;		// so must cuts at these bytes
	size_t lasttoken = SIZE_MAX;		// cuts before this byte must be noticed
	std::string desc;
	double reltol = 1e-6;			// costs are this precise
	// An independent opinion on the moves a self-made model offers in a state:
	// empty if they follow the domain's rules.
	std::function<std::string(uint64_t, const std::vector<Succ> &)> rules;
	// and on its start state and on which states are goals
	std::function<std::string(uint64_t)> startrule;
	std::function<std::string(uint64_t, bool)> goalrule;
	int idamax = 60;			// idastar is only tried up to this optimal cost (0: never)
};

// Every domain's generator file defines these.
void genprob(Prob &p, bool solvable_pref);

// Instances on which search algorithms have little choice (graph domain only).
extern void (*gendistinct)(Prob &p, bool realtime, bool large);

// One use of a program that makes or converts instances.
struct Maker {
	std::string name, desc;
	std::function<int(int, const char **)> main;
	std::vector<std::string> args;		// after the program's name
	std::string in;				// its standard input
	std::string dir;			// where it writes; empty: to standard output
	size_t nfiles = 1;
	std::vector<std::string> files;		// names under dir
	bool seeded = true;			// the same arguments make the same instances, whatever the clock says
	// what is wrong with what was written, empty if nothing
	std::function<std::string(const std::vector<std::string> &)> check;
	bool solve = false;			// each text is an instance for the domain's solver
	bool more = false;			// the solver needs to solve it, too
	double slow = 100;			// simulated ns per step
};
bool genmaker(Maker &);
}
