// Direct, slow executions of what the search algorithms' definitions say, on
// explicit graphs.  Where the definition leaves a choice (two best nodes), the
// reference gives up (tie).
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace refine {

struct Arc { int to; double c; int rev; };
struct Graph {
	int n, s0;
	std::vector<double> h, d;
	std::vector<char> goal;
	std::vector<std::vector<Arc>> arcs;
	void parse(const std::string &t) {
		const char *p = t.c_str();
		char *e;
		auto num = [&]() { double x = strtod(p, &e); p = e; return x; };
		n = num(), s0 = num(), num(), num();
		h.resize(n), d.resize(n), goal.resize(n), arcs.resize(n);
		for (int u = 0; u < n; u++) {
			h[u] = num(), d[u] = num(), goal[u] = num();
			arcs[u].resize((int) num());
			for (auto &a : arcs[u]) a.to = num(), a.c = num(), a.rev = num();
		}
	}
};
struct Limits { unsigned long expd = 0, gend = 0; };
struct Result {
	bool tie = false;
	unsigned long expd = 0, gend = 0, dups = 0, reopnd = 0, resorts = 0;
	double herror = 0, derror = 0, delay = 0, timeper = 0;	// as estimated at the end
	double cost = -1;
	std::vector<int> path;				// start first
	std::vector<std::pair<int, double>> ends;	// where each step of an agent ends, and what it costs
	struct Iter { double bound; unsigned long expd, gend; };
	std::vector<Iter> iters;
	bool limit(const Limits &l) const { return (l.expd && expd >= l.expd) || (l.gend && gend >= l.gend); }
};

// ---------------------------------------------------------------- one open list
enum Kind { AStar, WAStar, GreedyH, GreedyD, Beam };
struct BfNode { bool seen = false, open = false; double g = 0; int parent = -1, pop = -1; double c = 0; };
inline Result bestfirst(const Graph &gr, Kind kind, double w, bool dropdups, int width, const Limits &lim) {
	Result r;
	std::vector<BfNode> ns(gr.n);
	typedef std::vector<double> Key;
	auto key = [&](int u) -> Key {
		double g = ns[u].g, h = gr.h[u];
		switch (kind) {
		case WAStar: return Key{g + w * h, g + h, -g};
		case GreedyH: return Key{h};
		case GreedyD: return Key{gr.d[u]};
		default: return Key{g + h, -g};
		}
	};
	auto best = [&]() {
		int b = -1;
		for (int u = 0; u < gr.n; u++)
			if (ns[u].open && (b < 0 || key(u) < key(b))) b = u;
		for (int u = 0; b >= 0 && u < gr.n; u++)
			if (ns[u].open && u != b && key(u) == key(b)) r.tie = true;
		if (b >= 0) ns[b].open = false;
		return b;
	};
	auto done = [&](int u) {
		r.cost = 0;
		for (int v = u; v >= 0; v = ns[v].parent) {
			r.path.insert(r.path.begin(), v);
			if (ns[v].parent >= 0) r.cost += ns[v].c;
		}
	};
	auto expand = [&](int u) {
		r.expd++;
		for (int i = 0; i < (int) gr.arcs[u].size(); i++) {
			if (i == ns[u].pop) continue;
			const Arc &a = gr.arcs[u][i];
			r.gend++;
			BfNode &k = ns[a.to];
			double g = ns[u].g + a.c;
			if (k.seen) {
				r.dups++;
				if (dropdups || g >= k.g) continue;
				if (!k.open) r.reopnd++;
			}
			k.seen = k.open = true;
			k.g = g, k.parent = u, k.pop = a.rev, k.c = a.c;
		}
	};
	ns[gr.s0].seen = ns[gr.s0].open = true;
	auto any = [&]() { for (auto &x : ns) if (x.open) return true; return false; };
	while (any() && !r.limit(lim)) {
		std::vector<int> beam;
		for (int c = 0; c < (kind == Beam ? width : 1) && any(); c++)
			beam.push_back(best());
		if (r.tie) return r;
		if (kind == Beam)
			for (auto &x : ns) x.open = false;
		for (int u : beam) {
			if (kind == Beam && r.limit(lim)) break;
			if (gr.goal[u]) { done(u); return r; }
			expand(u);
		}
	}
	return r;
}

// ---------------------------------------------------------------- iterative deepening
struct Ida {
	const Graph &g;
	const Limits &lim;
	Result r;
	double bound, next = -1;
	bool dfs(int u, int pop, double c) {
		double f = c + g.h[u];
		if (f <= bound && g.goal[u]) {
			r.path.push_back(u);
			r.cost = c;
			return true;
		}
		if (f > bound) {
			if (next < 0 || f < next) next = f;
			return false;
		}
		r.expd++;
		if (r.expd > 30000) r.tie = true;	// too long
		for (int i = 0; i < (int) g.arcs[u].size(); i++) {
			if (r.tie || r.limit(lim)) return false;
			if (i == pop) continue;
			r.gend++;
			if (dfs(g.arcs[u][i].to, g.arcs[u][i].rev, c + g.arcs[u][i].c)) {
				r.path.insert(r.path.begin(), u);
				return true;
			}
		}
		return false;
	}
};
inline Result idastar(const Graph &g, const Limits &lim) {
	Ida a{g, lim, Result(), 0, -1};
	a.bound = g.h[g.s0];
	while (!a.r.limit(lim) && !a.r.tie) {
		a.next = -1;
		if (a.dfs(g.s0, -1, 0)) break;
		a.r.iters.push_back(Result::Iter{a.bound, a.r.expd, a.r.gend});
		if (a.next < 0) break;
		a.bound = a.next;
	}
	return a.r;
}

// ---------------------------------------------------------------- searches that forget closed nodes
// x and y were worked out along different ways: are they the same number?
inline bool near(double x, double y) { return x != y && fabs(x - y) <= 1e-9 * (1 + fabs(x)); }
struct ObjNode {
	int s, pop = -1, depth = 0;
	long parent = -1;
	double g = 0, c = 0, h = 0, d = 0, f = 0, key = 0, t = 0;
	unsigned long expct = 0;
	bool open = true;
};
struct Incumbent { unsigned long expd, gend; double wt, bound, cost; };
struct AraResult : Result { std::vector<Incumbent> rows; bool converged = false; };
// ARA*: weighted A* with falling weights; what was closed at the last weight is not remembered.
inline AraResult arastar(const Graph &gr, double wt0, double dwt, const Limits &lim) {
	AraResult r;
	std::vector<ObjNode> ns(1);
	double wt = wt0, cost = -1;
	ns[0].s = gr.s0, ns[0].h = gr.h[gr.s0], ns[0].key = wt * ns[0].h;
	std::vector<long> seen(gr.n, -1);
	std::vector<char> incons;
	seen[gr.s0] = 0;
	auto front = [&]() {
		long b = -1;
		for (long i = 0; i < (long) ns.size(); i++)
			if (ns[i].open && (b < 0 || ns[i].key < ns[b].key || (ns[i].key == ns[b].key && ns[i].g > ns[b].g))) b = i;
		return b;
	};
	auto good = [&]() {
		long b = front();
		if (b < 0) return false;
		if (cost >= 0 && near(cost, ns[b].key)) r.tie = true;
		return cost < 0 || cost > ns[b].key;
	};
	auto least = [&]() {
		double m = INFINITY;
		for (size_t i = 0; i < ns.size(); i++) {
			if (!ns[i].open && !incons[i]) continue;
			double f = ns[i].g + ns[i].h;
			if (f >= cost) ns[i].open = incons[i] = false;	// of no more use
			else m = std::min(m, f);
		}
		return std::isinf(m) ? 1.0 : cost / m;
	};
	incons.assign(1, 0);
	for (;;) {
		bool found = false;
		while (!r.limit(lim) && good()) {
			long b = front();
			for (long i = 0; i < (long) ns.size(); i++)
				if (i != b && ns[i].open && (near(ns[i].key, ns[b].key) || (ns[i].key == ns[b].key && ns[i].g == ns[b].g))) r.tie = true;
			if (r.tie || ns.size() > 20000) { r.tie = true; return r; }
			ns[b].open = false;
			int u = ns[b].s;
			if (gr.goal[u]) {
				cost = ns[b].g, found = true;
				r.path.clear();
				r.cost = 0;
				for (long v = b; v >= 0; v = ns[v].parent) {
					r.path.insert(r.path.begin(), ns[v].s);
					r.cost += ns[v].parent < 0 ? 0 : ns[v].c;
				}
			}
			r.expd++;
			for (int i = 0; i < (int) gr.arcs[u].size(); i++) {
				if (i == ns[b].pop) continue;
				r.gend++;
				const Arc &a = gr.arcs[u][i];
				double g = ns[b].g + a.c;
				long k = seen[a.to];
				if (k >= 0) {
					r.dups++;
					if (g >= ns[k].g) continue;
					ns[k].key = ns[k].key - ns[k].g + g;
					if (!ns[k].open) incons[k] = 1;
				} else {
					k = seen[a.to] = ns.size();
					ns.push_back(ObjNode());
					incons.push_back(0);
					ns[k].s = a.to, ns[k].h = gr.h[a.to], ns[k].key = g + wt * ns[k].h;
				}
				ns[k].g = g, ns[k].parent = b, ns[k].pop = a.rev, ns[k].c = a.c;
			}
		}
		if (found) {
			double e = good() ? least() : wt == 1 ? 1 : std::min(wt, least());
			r.rows.push_back(Incumbent{r.expd, r.gend, wt, e, cost});
		}
		if (wt <= 1) { r.converged = !good(); break; }
		wt = wt - dwt > 1 ? wt - dwt : 1;
		if (wt < 1 + 1.5e-8) wt = 1;
		bool any = false;
		for (size_t i = 0; i < ns.size(); i++) {
			if (incons[i]) ns[i].open = true;
			incons[i] = 0;
			ns[i].key = ns[i].g + wt * ns[i].h;
			any = any || ns[i].open;
		}
		seen.assign(gr.n, -1);
		if (r.limit(lim) || !any) break;
	}
	return r;
}

// Bugsy, when every expansion takes dt seconds.
struct BugsyOpt { bool slim = false, resort = true, hhat = false, dhat = false, interph = false, expdelay = false, dropdups = false; double wf = 1, wt = 1, dt = 0; const double *hlms = nullptr, *dlms = nullptr; };
inline Result bugsy(const Graph &gr, const BugsyOpt &o, const Limits &lim) {
	Result r;
	std::vector<ObjNode> ns(1);
	std::vector<long> seen(gr.n, -1);
	double timeper = 0, herr = 0, derr = 0, herrnow = 0, derrnow = 0, delay = 0, delaynow = 0, delaysum = 0;
	unsigned long next = 128, last = 0, navg = 0, lasttime = 0;
	auto lms = [&](const ObjNode &n, const double *c) { return n.h * c[0] + n.g * c[1] + n.d * c[2] + n.depth * c[3]; };
	auto util = [&](ObjNode &n) {
		if (o.slim) {
			n.t = timeper * (delay <= 0 ? 1 : delay) * n.d;
			n.key = -(o.wf * (n.h + n.g) + o.wt * n.t);
			return;
		}
		if (!o.resort) {	// with the latest estimates
			derr = derrnow, herr = herrnow, delay = delaynow;
			if (r.expd) timeper += (o.dt * (r.expd - lasttime) - timeper) / r.expd, lasttime = r.expd;
		}
		double d = o.dlms ? lms(n, o.dlms) : n.d, h = o.hlms ? lms(n, o.hlms) : n.h;
		if (o.dhat) d /= 1 - derr;
		if (o.interph) {
			double hhat = h + d * herr, w = o.wf + o.wt > 0 ? o.wf / (o.wf + o.wt) : 1;
			h = n.h * w + hhat * (1 - w);
		} else if (o.hhat)
			h += d * herr;
		if (o.expdelay && delay > 0) d *= delay;
		n.t = timeper * d;
		n.key = -(o.wf * (h + n.g) + o.wt * n.t);
	};
	auto whole = [](double x) { return x == floor(x); };
	// is a before b?  2: cannot tell
	auto before = [&](const ObjNode &a, const ObjNode &b) {
		if (near(a.key, b.key) || !std::isfinite(a.key) || !std::isfinite(b.key)) return 2;
		if (a.key != b.key) return (int) (a.key > b.key);
		if (!whole(a.key * 2) || near(a.t, b.t)) return 2;
		if (a.t != b.t) return (int) (a.t < b.t);
		if (!whole(a.t * 2)) return 2;
		double fa = o.slim ? a.g + a.h : a.f, fb = o.slim ? b.g + b.h : b.f;
		if (fa != fb) return (int) (fa < fb);
		return a.g == b.g ? 2 : (int) (a.g > b.g);
	};
	ns[0].s = gr.s0, ns[0].h = ns[0].f = gr.h[gr.s0], ns[0].d = gr.d[gr.s0];
	util(ns[0]);
	seen[gr.s0] = 0;
	auto done = [&]() { r.herror = herrnow, r.derror = derrnow, r.delay = o.slim ? delay : delaynow, r.timeper = timeper; return r; };
	while (!r.limit(lim)) {
		long b = -1;
		for (long i = 0; i < (long) ns.size(); i++)
			if (ns[i].open && (b < 0 || before(ns[i], ns[b]) == 1)) b = i;
		if (b < 0) break;
		for (long i = 0; i < (long) ns.size(); i++)
			if (ns[i].open && i != b && before(ns[b], ns[i]) != 1) r.tie = true;
		if (r.tie) return r;
		ns[b].open = false;
		int u = ns[b].s;
		if (gr.goal[u]) {
			r.cost = 0;
			for (long v = b; v >= 0; v = ns[v].parent) {
				r.path.insert(r.path.begin(), ns[v].s);
				r.cost += ns[v].parent < 0 ? 0 : ns[v].c;
			}
			return done();
		}
		r.expd++;
		delaysum += r.expd - ns[b].expct;
		if (o.expdelay) delaynow += (r.expd - ns[b].expct - delaynow) / r.expd;
		bool any = false;
		double bf = 0, bd = 0;
		for (int i = 0; i < (int) gr.arcs[u].size(); i++) {
			if (i == ns[b].pop) continue;
			r.gend++;
			const Arc &a = gr.arcs[u][i];
			ObjNode kid;
			kid.s = a.to, kid.g = ns[b].g + a.c, kid.parent = b, kid.pop = a.rev, kid.c = a.c;
			kid.h = std::max(gr.h[a.to], ns[b].h - a.c), kid.d = std::max(gr.d[a.to], ns[b].d - 1);
			kid.f = kid.g + kid.h, kid.depth = ns[b].depth + 1;
			if (o.slim || o.expdelay) kid.expct = r.expd;
			if (any && kid.f == bf && kid.d != bd && o.dhat) r.tie = true;
			if (!any || kid.f < bf) bf = kid.f, bd = kid.d;
			any = true;
			long k = seen[a.to];
			if (k < 0) {
				util(kid);
				seen[a.to] = ns.size();
				ns.push_back(kid);
				continue;
			}
			r.dups++;
			if (o.slim || o.dropdups || kid.g >= ns[k].g) continue;
			if (!ns[k].open) r.reopnd++;
			if ((o.hlms && o.hlms[3]) || (o.dlms && o.dlms[3])) r.tie = true;	// how deep it is now is not said
			ObjNode &n = ns[k];
			n.f = n.f - n.g + kid.g, n.g = kid.g, n.parent = b, n.pop = a.rev, n.c = a.c, n.open = true;
			util(n);
		}
		if (any && !o.slim) {
			navg++;
			if (o.hhat) herrnow += (std::max(0.0, bf - ns[b].f) - herrnow) / navg;
			if (o.dhat) derrnow += (std::max(0.0, bd + 1 - ns[b].d) - derrnow) / navg;
		}
		if (!o.resort || r.expd < next) continue;
		next *= 2;
		r.resorts++;
		herr = herrnow, derr = derrnow;
		timeper = o.dt;
		delay = o.slim ? delaysum / (r.expd - last) : delaynow;
		delaysum = 0, last = r.expd;
		for (auto &n : ns)
			if (n.open) util(n);
	}
	return done();
}

// ---------------------------------------------------------------- agents that look ahead, move and learn
struct RtOpt { long lookahead = 1; bool fhat = false, onestep = false, complete = false; double w = 1; };
inline Result realtime(const Graph &gr, const RtOpt &o, const Limits &lim, int maxsteps = 400) {
	Result r;
	const double inf = INFINITY;
	std::vector<double> h = gr.h, d = gr.d, derr = gr.d;
	std::vector<char> known(gr.n, 0);	// expanded at some time
	double herror = 0, derror = 0;
	struct L { bool in = false, open = false, closed = false; double g = INFINITY, f = 0, fhat = 0, c = 0; int parent = -1; };
	auto close = [](double a, double b) { return fabs(a - b) < 1e-6; };
	int cur = gr.s0;
	std::vector<int> all{cur};
	double total = 0;
	while (!gr.goal[cur] && !r.limit(lim)) {
		if ((int) r.ends.size() > maxsteps) { r.tie = true; return r; }
		// look ahead: best first from here, with what was learned
		std::vector<L> ls(gr.n);
		ls[cur].in = ls[cur].open = true;
		ls[cur].g = 0, ls[cur].f = h[cur];
		int goal = -1;
		bool ptie = false;
		double hn = 0, dn = 0;
		unsigned ex = 0;
		// is a before b?  2: cannot tell
		auto before = [&](int a, int b) {
			if (o.fhat && !close(ls[a].fhat, ls[b].fhat)) return (int) (ls[a].fhat < ls[b].fhat);
			if (o.fhat && ls[a].fhat != ls[b].fhat) return 2;
			if (!close(ls[a].f, ls[b].f)) return (int) (ls[a].f < ls[b].f);
			if (ls[a].f != ls[b].f) return 2;
			if (ls[a].g == ls[b].g) return 2;
			return (int) (ls[a].g > ls[b].g);
		};
		auto front = [&](bool nocur) {
			int b = -1;
			for (int u = 0; u < gr.n; u++) {
				if (!ls[u].open || (nocur && u == cur)) continue;
				if (b < 0 || before(u, b) == 1) b = u;
			}
			for (int u = 0; b >= 0 && u < gr.n; u++)
				if (ls[u].open && u != b && !(nocur && u == cur) && before(b, u) != 1) r.tie = true;
			return b;
		};
		auto anyopen = [&]() { for (auto &l : ls) if (l.open) return true; return false; };
		for (long k = 0; k < o.lookahead && anyopen() && !r.limit(lim); k++) {
			int s = front(false);
			if (r.tie) return r;
			ls[s].open = false, ls[s].closed = true;
			ex++;
			if (!known[s]) {
				known[s] = 1;
				r.expd++;
				r.gend += gr.arcs[s].size();
				for (auto &a : gr.arcs[s]) h[a.to] = std::max(h[a.to], h[s] - a.c);
			}
			int bk = -1;
			for (auto &a : gr.arcs[s]) {
				int v = a.to;
				if (ls[s].parent >= 0 && v == ls[s].parent) continue;
				L &l = ls[v];
				l.in = true;
				if (l.g == ls[s].g + a.c && l.parent != s) ptie = true;
				if (l.g > ls[s].g + a.c) {
					l.parent = s, l.c = a.c, l.g = ls[s].g + a.c, l.f = l.g + h[v];
					l.fhat = l.g + h[v] + herror * (derr[v] / (1 - derror));
					l.open = true;
				}
				if (gr.goal[v]) {
					if (goal < 0 || l.g < ls[goal].g) goal = v;
					else if (goal != v && l.g == ls[goal].g) r.tie = true;
				}
				if (bk < 0 || l.f < ls[bk].f) bk = v;
				else if (bk != v && l.f == ls[bk].f && gr.d[v] != d[bk] && d[v] != d[bk]) { if (o.fhat) r.tie = true; }
			}
			if (bk >= 0) {
				hn += (std::max(0.0, ls[bk].f - ls[s].f) - hn) / (ex + 1);
				double e = std::max(0.0, d[bk] + 1 - d[s]);
				if (e >= 1) e = 1 - 1e-10;
				dn += (e - dn) / (ex + 1);
			}
			if (gr.goal[s]) {
				ls[s].open = true;
				goal = s;
				break;
			}
		}
		herror = hn, derror = dn;
		if (r.limit(lim)) break;
		if (goal < 0) {	// every expanded state is worth what its best way out is worth
			std::vector<double> nh(gr.n, inf), nd = d, ne = derr;
			std::vector<char> fin(gr.n, 0);
			for (int u = 0; u < gr.n; u++) {
				if (!ls[u].open) continue;
				if (ls[u].closed) { r.tie = true; return r; }	// reopened: not well defined
				nh[u] = h[u];
			}
			for (;;) {
				int s = -1;
				for (int u = 0; u < gr.n; u++)
					if (!fin[u] && nh[u] < inf && (s < 0 || nh[u] < nh[s])) s = u;
				if (s < 0) break;
				fin[s] = 1;
				for (int u = 0; u < gr.n; u++) {
					if (!ls[u].closed) continue;
					for (auto &a : gr.arcs[u]) {
						if (a.to != s) continue;
						double b = o.w * a.c + nh[s];
						if (b == nh[u] && !fin[u] && (ne[u] != ne[s] || nd[u] != nd[s] + 1) && o.fhat) r.tie = true;
						if (b < nh[u]) nh[u] = b, nd[u] = nd[s] + 1, ne[u] = ne[s];
					}
				}
			}
			for (int u = 0; u < gr.n; u++)
				if (ls[u].closed && nh[u] < inf) h[u] = std::max(nh[u], gr.h[u]), d[u] = nd[u], derr[u] = ne[u];
		}
		int best = goal;
		if (best < 0 && o.complete && anyopen()) {
			int f = -1;
			for (int u = 0; u < gr.n; u++)
				if (ls[u].open && (f < 0 || ls[u].f < ls[f].f)) f = u;
			for (int u = 0; u < gr.n; u++) {
				if (u == cur || !ls[u].closed || ls[u].f == ls[f].f) continue;
				if (ls[u].f > ls[f].f) { r.tie = true; return r; }	// only said for consistent estimates
				if (best >= 0 && ls[u].f == ls[best].f && ls[u].g == ls[best].g) r.tie = true;
				if (best < 0 || ls[u].f > ls[best].f || (ls[u].f == ls[best].f && ls[u].g > ls[best].g)) best = u;
			}
			if (best >= 0 && ls[best].f == 0) r.tie = true;
		}
		if (best < 0) best = front(true);
		if (r.tie) return r;
		if (best < 0) return r;
		int to = best;
		if (o.onestep) {
			if (ptie) { r.tie = true; return r; }
			while (ls[to].parent != cur) to = ls[to].parent;
		}
		double c = 0;	// of the moves themselves: g can be behind
		for (int v = to; v != cur; v = ls[v].parent) c += ls[v].c;
		total += c;
		r.ends.push_back(std::make_pair(to, c));
		cur = to;
	}
	if (gr.goal[cur]) r.cost = total;
	return r;
}
}
