// A search domain that is an explicit graph, so that the search algorithms can
// be driven through cost structures, heuristics and topologies the repository's
// own domains never produce.  Edges change the state in place and undo it, the
// strictest of the styles the domains use.
#pragma once
#include <cstdio>
#include <vector>
#include <utility>

void fatal(const char *, ...);

template <class C> struct Graph {
	typedef C Cost;
	typedef int Oper;
	enum { Nop = -1 };
	struct Arc { int to; C cost; int rev; };
	struct State { int u; };
	struct PackedState {
		int u;
		unsigned long hash(const Graph *g) const { return (unsigned long) (u % g->hmod) * g->hmul; }
		bool eq(const Graph *, const PackedState &o) const { return u == o.u; }
	};
	int n, s0;
	unsigned long hmul;
	int hmod;
	std::vector<double> hv, dv;
	std::vector<char> goal;
	std::vector<std::vector<Arc>> arcs;

	Graph(FILE *f) {
		if (fscanf(f, "%d %d %lu %d", &n, &s0, &hmul, &hmod) != 4)
			fatal("bad graph");
		hv.resize(n), dv.resize(n), goal.resize(n), arcs.resize(n);
		for (int u = 0; u < n; u++) {
			int g, k;
			if (fscanf(f, "%lf %lf %d %d", &hv[u], &dv[u], &g, &k) != 4)
				fatal("bad graph node");
			goal[u] = g;
			arcs[u].resize(k);
			for (auto &a : arcs[u]) {
				double c;
				if (fscanf(f, "%d %lf %d", &a.to, &c, &a.rev) != 3)
					fatal("bad graph arc");
				a.cost = C(c);
			}
		}
	}
	State initialstate() { State s; s.u = s0; return s; }
	C h(State &s) { return C(hv[s.u]); }
	C d(State &s) { return C(dv[s.u]); }
	bool isgoal(State &s) { return goal[s.u]; }
	struct Operators {
		Operators(Graph &g, State &s) : k(g.arcs[s.u].size()) { }
		unsigned int size() const { return k; }
		Oper operator[](unsigned int i) const { return i; }
	private:
		unsigned int k;
	};
	struct Edge {
		C cost;
		Oper revop;
		C revcost;
		State &state;
		Edge(Graph &g, State &s, Oper op) : state(s), old(s.u) {
			Arc &a = g.arcs[s.u][op];
			cost = a.cost;
			revop = a.rev;
			revcost = a.rev < 0 ? C(-1) : g.arcs[a.to][a.rev].cost;
			s.u = a.to;
		}
		~Edge() { state.u = old; }
	private:
		int old;
	};
	void pack(PackedState &dst, State &s) { dst.u = s.u; }
	State &unpack(State &buf, PackedState &p) { buf.u = p.u; return buf; }
	C pathcost(const std::vector<State> &path, const std::vector<Oper> &ops) {
		State s = initialstate();
		C c(0);
		for (size_t i = ops.size(); i > 0; i--) {
			c = c + arcs[s.u][ops[i-1]].cost;
			s.u = arcs[s.u][ops[i-1]].to;
		}
		return c;
	}
};
