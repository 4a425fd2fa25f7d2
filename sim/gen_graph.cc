// Random explicit graphs with admissible (often inconsistent) heuristics.
#include "sim.hpp"
#include "solver.hpp"
#include <cmath>
#include <queue>
#include <algorithm>
using namespace sim;
using namespace solver;
extern const Driver drv_graphi, drv_graphd;

namespace {
struct Arc { int to; double c; int rev; };
struct GModel : Model {
	int s0;
	std::vector<char> gl;
	std::vector<std::vector<Arc>> arcs;
	uint64_t start() override { return s0; }
	bool goal(uint64_t k) override { return gl[k]; }
	void succs(uint64_t k, std::vector<Succ> &o) override {
		o.clear();
		for (auto &a : arcs[k])
			o.push_back(Succ{(uint64_t) a.to, a.c});
	}
};
}

void solver::genprob(Prob &p, bool solvpref) {
	bool dbl = draw(3) == 1;
	p.drv = dbl ? &drv_graphd : &drv_graphi;
	p.canlvl = true;
	auto m = std::make_shared<GModel>();
	int kind = draw(5);	// 0 random digraph, 1 undirected, 2 dag, 3 grid-like chain with shortcuts, 4 strongly connected
	int n = 2 + draw(sim::thorough ? 60 : (draw(4) == 0 ? 40 : 14));
	int maxdeg = 1 + draw(4), maxc = 1 + drawlog(20);
	bool zero = draw(6) == 1;
	int unit = draw(4);	// double cost granularity
	auto cost = [&]() -> double {
		double c = zero ? draw(maxc + 1) : 1 + draw(maxc);
		if (dbl)
			c *= unit == 0 ? 0.5 : unit == 1 ? 0.1 : unit == 2 ? M_SQRT2 : 1.0 / 3;
		return c;
	};
	m->arcs.resize(n), m->gl.assign(n, 0);
	auto add = [&](int u, int v) {
		if (m->arcs[u].size() < 9)
			m->arcs[u].push_back(Arc{v, cost(), -1});
	};
	for (int u = 0; u < n; u++) {
		if (kind == 3) {
			if (u + 1 < n) { add(u, u + 1); add(u + 1, u); }
			if (draw(3) == 1) add(u, draw(n));
			continue;
		}
		if (kind == 4)
			add(u, (u + 1) % n);
		int deg = draw(maxdeg + 1);
		for (int i = 0; i < deg; i++) {
			if (kind == 2) {
				if (u + 1 >= n) break;
				add(u, u + 1 + draw(std::min(n - u - 1, 6)));
			} else {
				int v = draw(n);
				add(u, v);
				if (kind == 1 && v != u)
					add(v, u);
			}
		}
	}
	// interleave operator order so that it does not follow the numbering
	for (auto &v : m->arcs)
		for (size_t i = v.size(); i > 1; i--)
			std::swap(v[i-1], v[draw(i)]);
	for (int u = 0; u < n; u++)
		for (auto &a : m->arcs[u]) {
			if (draw(4) == 0 || a.to == u)
				continue;
			for (size_t j = 0; j < m->arcs[a.to].size(); j++)
				if (m->arcs[a.to][j].to == u) { a.rev = j; break; }
		}
	m->s0 = kind == 2 ? 0 : draw(n);
	int ng = draw(8) == 7 ? 0 : 1 + (draw(4) == 3 ? draw(3) : 0);
	if (ng == 0 && solvpref) ng = 1;
	std::vector<char> reach(n, 0);
	std::vector<int> st{m->s0};
	reach[m->s0] = 1;
	while (st.size()) {
		int u = st.back(); st.pop_back();
		for (auto &a : m->arcs[u])
			if (!reach[a.to]) { reach[a.to] = 1; st.push_back(a.to); }
	}
	std::vector<int> rs;
	for (int u = 0; u < n; u++)
		if (reach[u]) rs.push_back(u);
	for (int i = 0; i < ng; i++) {
		int g = draw(n);
		if (!reach[g] && (solvpref || draw(4)))
			g = rs[draw(rs.size())];
		if (g == m->s0 && draw(8))
			g = rs[draw(rs.size())];
		m->gl[g] = 1;
	}
	// true distances to a goal
	std::vector<double> hs(n, INFINITY);
	std::vector<int> ds(n, n + 1);
	for (int u = 0; u < n; u++)
		if (m->gl[u]) hs[u] = ds[u] = 0;
	for (bool ch = true; ch; ) {
		ch = false;
		for (int u = 0; u < n; u++)
			for (auto &a : m->arcs[u]) {
				if (hs[a.to] + a.c < hs[u] - 1e-12) { hs[u] = hs[a.to] + a.c; ch = true; }
				if (ds[a.to] + 1 < ds[u]) { ds[u] = ds[a.to] + 1; ch = true; }
			}
	}
	double maxh = 0;
	for (double h : hs)
		if (!std::isinf(h)) maxh = std::max(maxh, h);
	int hmode = draw(5);	// 0 zero, 1 perfect, 2 scaled (consistent), 3 random (inconsistent), 4 mostly perfect with holes
	double alpha = (1 + draw(9)) / 10.0;
	int dmode = draw(3);
	p.consistent = hmode <= 2;
	std::string s = strf("%d %d %lu %d\n", n, m->s0, (unsigned long) (draw(3) == 0 ? 1 : draw(2) ? 0 : 2654435761ul), draw(2) ? n : 1 + (int) draw(3));
	for (int u = 0; u < n; u++) {
		double full = std::isinf(hs[u]) ? maxh : hs[u], h = 0;
		switch (hmode) {
		case 0: h = 0; break;
		case 1: h = full; break;
		case 2: h = full * alpha; break;
		case 3: h = full * draw(11) / 10; break;
		case 4: h = draw(4) == 0 ? 0 : full; break;
		}
		if (hmode >= 3 && std::isinf(hs[u]))
			h = draw(30);
		if (!dbl) h = floor(h + 1e-9);
		else h = std::max(0.0, h * (1 - 1e-9));	// keep rounding from overestimating
		double d = dmode == 0 ? ds[u] : dmode == 1 ? (hs[u] == 0 && m->gl[u] ? 0 : draw(n + 1)) : m->gl[u] ? 0 : 1;
		s += strf("%.17g %g %d %d", h, d, (int) m->gl[u], (int) m->arcs[u].size());
		for (auto &a : m->arcs[u])
			s += strf("  %d %.17g %d", a.to, a.c, a.rev);
		s += "\n";
	}
	p.inst = s;
	p.model = m;
	p.acyclic = kind == 2;
	p.intcost = !dbl;
	p.idamax = zero && kind != 2 ? 0 : 80;
	p.desc = strf("%s n=%d kind=%d hmode=%d zero=%d", dbl ? "double" : "int", n, kind, hmode, zero);
}

// Graphs on which an algorithm's definition rarely leaves it a choice.
static void gendistinct(Prob &p, bool rt, bool large) {
	bool dbl = draw(2) || large;
	p.drv = dbl ? &drv_graphd : &drv_graphi;
	auto m = std::make_shared<GModel>();
	int n = 3 + draw(draw(3) == 2 ? 50 : 20), kind = rt ? 1 + draw(3) : draw(4);	// 0 random, 1 with a cycle through all, 2 ring with chords, 3 undirected
	int maxc = large ? 10000000 : dbl ? 100000 : 150;
	if (large) n = 100 + draw(300);
	m->arcs.resize(n), m->gl.assign(n, 0);
	auto add = [&](int u, int v) { m->arcs[u].push_back(Arc{v, 1.0 + draw(maxc), -1}); };
	for (int u = 0; u < n; u++) {
		if (kind == 1 || kind == 2) add(u, (u + 1) % n);
		if (kind == 2) add((u + 1) % n, u);
		if (kind == 3 && u) { int v = draw(u); add(u, v), add(v, u); }
		int deg = draw(kind == 2 ? 2 : 4);
		for (int i = 0; i < deg; i++) {
			int v = draw(n);
			add(u, v);
			if (kind == 3) add(v, u);
		}
	}
	for (auto &v : m->arcs)
		for (size_t i = v.size(); i > 1; i--) std::swap(v[i-1], v[draw(i)]);
	for (int u = 0; u < n; u++)
		for (auto &a : m->arcs[u]) {
			if (draw(4) == 0 || a.to == u) continue;
			for (size_t j = 0; j < m->arcs[a.to].size(); j++)
				if (m->arcs[a.to][j].to == u) { a.rev = j; break; }
		}
	m->s0 = draw(n);
	int ng = draw(10) == 9 && !rt ? 0 : 1 + (draw(3) == 2 ? draw(3) : 0);
	for (int i = 0; i < ng; i++) m->gl[draw(n)] = 1;
	std::vector<double> hs(n, INFINITY);
	for (int u = 0; u < n; u++)
		if (m->gl[u]) hs[u] = 0;
	for (bool ch = true; ch; ) {
		ch = false;
		for (int u = 0; u < n; u++)
			for (auto &a : m->arcs[u])
				if (hs[a.to] + a.c < hs[u]) { hs[u] = hs[a.to] + a.c; ch = true; }
	}
	double maxh = 0;
	for (double h : hs)
		if (!std::isinf(h)) maxh = std::max(maxh, h);
	int hmode = draw(4);	// consistent, admissible, arbitrary, zero
	double alpha = (1 + draw(10)) / 10.0;
	if (hmode == 3) alpha = 0;
	p.consistent = hmode == 0 || hmode == 3;
	p.admissible = hmode != 2;
	p.safe = kind != 0 && ng;
	std::string s = strf("%d %d %lu %d\n", n, m->s0, (unsigned long) (draw(2) ? 1 : 2654435761ul), draw(2) ? n : 1 + (int) draw(3));
	for (int u = 0; u < n; u++) {
		double full = std::isinf(hs[u]) ? maxh : hs[u], h = floor(full * alpha);
		if (hmode == 1 && !m->gl[u]) h = draw((unsigned) full + 1);
		if (hmode == 2 && !m->gl[u]) h = draw(4 * maxc);
		double d = m->gl[u] ? 0 : draw(large ? 1000000 : dbl ? 1000 : 150);
		s += strf("%.17g %.17g %d %d", h, d, (int) m->gl[u], (int) m->arcs[u].size());
		for (auto &a : m->arcs[u]) s += strf("  %d %.17g %d", a.to, a.c, a.rev);
		s += "\n";
	}
	p.inst = s;
	p.model = m;
	p.intcost = !dbl;
	p.idamax = dbl ? 0 : 600;
	p.desc = strf("%s distinct n=%d kind=%d hmode=%d", dbl ? "double" : "int", n, kind, hmode);
}
static struct Reg { Reg() { solver::gendistinct = ::gendistinct; } } reg;
