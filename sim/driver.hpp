// Included by each domain's driver after the domain and (through the domain's
// own main.cc) search/main.hpp.
#pragma once
#include "solver.hpp"
#include "sim.hpp"
#include <cstring>
#include <algorithm>

template <class D> struct KeyOf;	// each driver: static uint64_t key(D *, State&)

template <class D> static void drvcapture(void *stats, solver::Captured &c) {
	Result<D> *r = static_cast<Result<D> *>((SearchStats *) stats);
	c.valid = true;
	c.expd = r->expd;
	c.gend = r->gend;
	c.dups = r->dups;
	c.reopnd = r->reopnd;
	c.wallstart = r->wallstart;
	c.wallend = r->wallend;
	c.cpustart = r->cpustart;
	c.cpuend = r->cpuend;
	c.nops = r->ops.size();
	c.path.clear();
	for (size_t i = r->path.size(); i > 0; i--)
		c.path.push_back(KeyOf<D>::key(r->path[i-1]));
}

#ifndef DRVGET
#define DRVGET getsearch<D>
#endif
// argv as for the solver; every "-i FILE" names an instance in order, -oomN ...
// is not seen here: faults come from the simulator.
template <class D, D *(*mk)(FILE *)> static int drvreuse(int argc, const char *argv[]) {
	std::vector<const char *> files, rest;
	for (int i = 0; i < argc; i++) {
		if (i < argc - 1 && strcmp(argv[i], "-i") == 0)
			files.push_back(argv[++i]);
		else
			rest.push_back(argv[i]);
	}
	SearchAlgorithm<D> *srch = DRVGET(rest.size(), rest.data());
	for (size_t i = 0; i < files.size(); i++) {
		FILE *f = fopen(files[i], "r");
		D *d = mk(f);
		fclose(f);
		typename D::State s0 = d->initialstate();
		printf("#run\t%lu\n", (unsigned long) i);
		bool oom = false;
		try {
			srch->search(*d, s0);
		} catch (std::bad_alloc &) {
			oom = true;
			srch->res.path.clear();
			srch->res.ops.clear();
			srch->finish();
		}
		printf("#oom\t%d\n", (int) oom);
		if (srch->res.path.size() > 0)
			dfpair(stdout, "final sol cost", "%f", (double) d->pathcost(srch->res.path, srch->res.ops));
		else
			dfpair(stdout, "final sol cost", "%f", -1.0);
		srch->output(stdout);
		printf("#end\t%lu\n", (unsigned long) i);
		fflush(stdout);
		srch->reset();
		// the domain object outlives the search's use of it
	}
	delete srch;
	return 0;
}

// Carry out operators from the initial state on.
template <class D> static bool drvapply(D *d, const std::vector<typename D::Oper> &plan, std::vector<uint64_t> &keys, std::string &err) {
	typename D::State s = d->initialstate();
	keys.push_back(KeyOf<D>::key(s));
	for (size_t i = 0; i < plan.size(); i++) {
		typename D::Operators ops(*d, s);
		bool may = false;
		for (unsigned j = 0; j < ops.size(); j++) may |= ops[j] == plan[i];
		if (!may) {
			err = "step " + std::to_string(i) + " cannot be taken";
			return false;
		}
		typename D::State copy(s);
		typename D::Edge e(*d, copy, plan[i]);
		s = e.state;
		keys.push_back(KeyOf<D>::key(s));
	}
	if (!d->isgoal(s)) {
		err = "it does not end in a goal";
		return false;
	}
	return true;
}
static inline std::string drvtext(const char *path) {
	std::string s;
	FILE *f = fopen(path, "r");
	for (int c; f && (c = fgetc(f)) != EOF; ) s += (char) c;
	if (f) fclose(f);
	return s;
}

// A model out of the domain's own operators.
template <class D> struct SelfModel : solver::Model {
	D *d;
	std::unordered_map<uint64_t, typename D::State> st;
	uint64_t s0;
	SelfModel(D *d) : d(d) {
		sim::DomainCode dc("the initial state");
		typename D::State s = d->initialstate();
		s0 = KeyOf<D>::key(s);
		st.insert(std::make_pair(s0, s));
	}
	uint64_t start() override { return s0; }
	bool goal(uint64_t k) override { sim::DomainCode dc("the goal test"); return d->isgoal(st.at(k)); }
	void succs(uint64_t k, std::vector<solver::Succ> &out) override {
		out.clear();
		sim::DomainCode dc("generating successors");
		typename D::State s = st.at(k);
		typename D::Operators ops(*d, s);
		for (unsigned i = 0; i < ops.size(); i++) {
			typename D::Edge e(*d, s, ops[i]);
			typename D::State n = e.state;
			uint64_t nk = KeyOf<D>::key(n);
			st.insert(std::make_pair(nk, n));
			out.push_back(solver::Succ{nk, (double) e.cost});
		}
	}
};
