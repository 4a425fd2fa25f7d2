// Visibility graphs among polygons.
#include "sim.hpp"
#include "solver.hpp"
#include <cmath>
#include <algorithm>
#include "polycheck.hpp"
#include <sstream>
#include <cstring>
using namespace sim;
using namespace solver;
extern const Driver drv_visnav;
std::string visnavgraph(const std::string &map);
// The rules, written independently of the domain: a move goes straight from a
// corner (or the start or goal) to another it can see, and is as long as the
// distance.  What is too close to call is left open.
namespace {
struct V { double x, y; };
double cross(V o, V a, V b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
double len(V a, V b) { return hypot(a.x - b.x, a.y - b.y); }
double dist(V p, V a, V b) {
	double l = len(a, b);
	if (l < 1e-12) return len(p, a);
	double t = ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / (l * l);
	t = t < 0 ? 0 : t > 1 ? 1 : t;
	return len(p, V{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)});
}
double sdist(V a, V b, V c, V d) {
	if (cross(a, b, c) * cross(a, b, d) < 0 && cross(c, d, a) * cross(c, d, b) < 0) return 0;
	return std::min(std::min(dist(a, c, d), dist(b, c, d)), std::min(dist(c, a, b), dist(d, a, b)));
}
typedef std::vector<V> Poly;	// convex
double depth(V p, const Poly &q) {	// positive: so deep inside
	double d = 1e9, s = 0;
	for (size_t i = 0; i < q.size(); i++) {
		V a = q[i], b = q[(i+1) % q.size()];
		double c = cross(a, b, p) / len(a, b);
		if (!s) { V z = q[(i+2) % q.size()]; s = cross(a, b, z) > 0 ? 1 : -1; }
		d = std::min(d, c * s);
	}
	return d;
}
struct Rules {
	std::vector<Poly> polys;
	std::vector<V> pts;	// of the file, then start and goal
	std::string operator()(uint64_t key, const std::vector<Succ> &succs) const {
		if (key >= pts.size()) return strf("there is no corner %lu", (unsigned long) key);
		V a = pts[key];
		std::vector<int> n(pts.size(), 0);
		auto inside = [&](V p) { for (auto &q : polys) if (depth(p, q) > 1e-6) return true; return false; };
		auto where = [&](size_t i) { return strf("%g,%g to %g,%g", a.x, a.y, pts[i].x, pts[i].y); };
		for (auto &s : succs) {
			if (s.key >= pts.size()) return strf("a move to corner %lu of %zu", (unsigned long) s.key, pts.size());
			n[s.key]++;
			V b = pts[s.key];
			double l = len(a, b);
			if (fabs(s.cost - l) > 1e-4 * std::max(1.0, l)) return strf("a move costs %g, not %g: ", s.cost, l) + where(s.key);
			if (inside(a) || inside(b)) continue;
			for (int t = 1; t < 100; t++) {
				V p{a.x + (b.x - a.x) * t / 100, a.y + (b.y - a.y) * t / 100};
				for (auto &q : polys)
					if (depth(p, q) > 1e-3 * std::max(1.0, l)) return "a move goes through a polygon: " + where(s.key);
			}
		}
		for (size_t i = 0; i < pts.size(); i++) {
			V b = pts[i];
			if (n[i] || len(a, b) < 1e-3 || inside(a) || inside(b)) continue;
			bool clear = true;
			for (auto &q : polys) {
				bool at = false;
				for (auto &c : q) at = at || len(a, c) < 1e-6 || len(b, c) < 1e-6;
				V u = a, v = b;
				if (at) {
					u = V{a.x + (b.x - a.x) * 0.01, a.y + (b.y - a.y) * 0.01}, v = V{a.x + (b.x - a.x) * 0.99, a.y + (b.y - a.y) * 0.99};
					if (depth(V{(a.x + b.x) / 2, (a.y + b.y) / 2}, q) > -1e-3) clear = false;
				}
				for (size_t j = 0; j < q.size(); j++)
					if (sdist(u, v, q[j], q[(j+1) % q.size()]) < (at ? 1e-3 : 1e-2)) clear = false;
				if (depth(u, q) > 0 || depth(v, q) > 0) clear = false;
			}
			if (clear) return "nothing is in the way, but there is no move from " + where(i);
		}
		return "";
	}
};
}
void solver::genprob(Prob &p, bool solvpref) {
	p.drv = &drv_visnav;
	int w = 1 + draw(3), h = 1 + draw(3), np = 0;
	std::string polys;
	Rules rules;
	auto num = [](int c, int off) { return strf("%g", c + off / 16.0); };
	std::vector<std::pair<int, int>> used;
	for (int x = 0; x < w; x++)
		for (int y = 0; y < h; y++) {
			int kind = draw(4);
			if (!kind) continue;
			used.push_back({x, y});
			int x0 = 1 + draw(6), x1 = x0 + 1 + draw(7), y0 = 1 + draw(6), y1 = y0 + 1 + draw(7);
			auto at = [&](int dx, int dy) { return V{x + dx / 16.0, y + dy / 16.0}; };
			if (kind == 1)
				rules.polys.push_back(Poly{at(x0, y0), at(x0, y1), at(x1, y0)});
			else
				rules.polys.push_back(Poly{at(x0, y0), at(x0, y1), at(x1, y1), at(x1, y0)});
			if (kind == 1)
				polys += "3 " + num(x, x0) + " " + num(y, y0) + " " + num(x, x0) + " " + num(y, y1) + " " + num(x, x1) + " " + num(y, y0) + "\n";
			else
				polys += "4 " + num(x, x0) + " " + num(y, y0) + " " + num(x, x0) + " " + num(y, y1) + " " + num(x, x1) + " " + num(y, y1) + " " + num(x, x1) + " " + num(y, y0) + "\n";
			np++;
		}
	std::string map = strf("%d polygons\n", np) + polys;
	p.inst = visnavgraph(map);
	{
		size_t t0 = p.inst.find(strf("%d polygons\n", np)) + strf("%d polygons\n", np).size();
		for (int i = 0; i < np; i++) t0 = p.inst.find('\n', t0) + 1;
		std::istringstream in(p.inst.substr(t0));
		std::string line;
		std::getline(in, line);		// number of vertices
		while (std::getline(in, line)) {
			unsigned id;
			V v;
			if (sscanf(line.c_str(), "%u %lg %lg", &id, &v.x, &v.y) == 3) rules.pts.push_back(v);
		}
	}
	// polygons keep to the inside of their cell, so points on cell borders are free
	auto pt = [&](bool ok) {
		if (!ok && used.size()) {	// maybe inside a polygon
			auto c = used[draw(used.size())];
			return num(c.first, draw(17)) + " " + num(c.second, draw(17));
		}
		if (draw(2)) return num(draw(w + 1), 0) + " " + num(draw(h), draw(17));
		return num(draw(w), draw(17)) + " " + num(draw(h + 1), 0);
	};
	bool in = !solvpref && draw(4) == 3;
	std::string a = pt(true), b = pt(!in);
	if (in && draw(2)) std::swap(a, b);
	p.inst += a + " " + b + "\n";
	for (auto &e : {a, b}) {
		V v;
		sscanf(e.c_str(), "%lg %lg", &v.x, &v.y);
		rules.pts.push_back(v);
	}
	p.rules = rules;
	size_t np2 = rules.pts.size();
	p.startrule = [=](uint64_t k) { return k == np2 - 2 ? "" : strf("the start is corner %lu of %zu", (unsigned long) k, np2); };
	p.goalrule = [=](uint64_t k, bool g) { return g == (k == np2 - 1) ? "" : strf("corner %lu of %zu is %sa goal", (unsigned long) k, np2, g ? "" : "not "); };
	FILE *f = fmemopen((void *) p.inst.data(), p.inst.size(), "r");
	p.model = p.drv->self(f);
	fclose(f);
	p.consistent = false;	// distances in the file are rounded
	p.intcost = false;
	p.reltol = 1e-4;
	p.idamax = 0;
	p.desc = strf("visnav polygons=%d %s %s", np, a.c_str(), b.c_str());
}

extern "C" int vrand_main(int, const char **);
extern "C" int vmkgraph_main(int, const char **);
extern "C" int vinst_main(int, const char **);
extern "C" int pbm2poly_main(int, const char **);
namespace {
// Reads the polygons of a map; what is wrong with it, or nothing.
std::string readpolys(const char *&s, std::vector<Poly> &ps) {
	unsigned n, k;
	int at;
	if (sscanf(s, " %u polygons\n%n", &n, &at) != 1) return "no number of polygons";
	s += at;
	for (unsigned i = 0; i < n; i++) {
		Poly p;
		if (sscanf(s, " %u%n", &k, &at) != 1) return strf("no polygon %u", i);
		s += at;
		for (unsigned j = 0; j < k; j++, s += at) {
			V v;
			if (sscanf(s, " %lg %lg%n", &v.x, &v.y, &at) != 2) return strf("no corner %u of polygon %u", j, i);
			p.push_back(v);
		}
		ps.push_back(p);
	}
	s += strspn(s, " \n");
	return "";
}
struct Gr { std::vector<V> pts; std::vector<std::vector<Succ>> out; };
std::string readgraph(const char *&s, Gr &g) {
	unsigned n;
	int at;
	if (sscanf(s, " %u vertices\n%n", &n, &at) != 1) return "no number of vertices";
	s += at;
	for (unsigned i = 0; i < n; i++) {
		unsigned id, ne;
		V v;
		if (sscanf(s, " %u %lg %lg %u%n", &id, &v.x, &v.y, &ne, &at) != 4 || id != i) return strf("no vertex %u", i);
		s += at;
		g.pts.push_back(v);
		g.out.push_back({});
		for (unsigned j = 0; j < ne; j++, s += at) {
			unsigned a, b;
			double d;
			if (sscanf(s, " %u %u %lg%n", &a, &b, &d, &at) != 3 || a != i || b >= n) return strf("no edge %u of vertex %u", j, i);
			g.out.back().push_back(Succ{b, d});
		}
	}
	s += strspn(s, " \n");
	return "";
}
}
bool solver::genmaker(Maker &m) {
	int kind = draw(4);
	if (kind == 3) {
		auto pic = polycheck::drawpic(9, 9);
		int w = pic[0].size(), h = pic.size();
		m.name = "visnav/pbm2poly";
		m.main = pbm2poly_main;
		m.in = "P1\n";
		if (draw(2)) m.in += "# CREATOR: nobody\n";
		m.in += strf("%d %d\n", w, h);
		const char *sep = draw(2) ? " " : "";
		for (int y = 0; y < h; y++) {
			for (int x = 0; x < w; x++) m.in += std::string(pic[y][x] == '#' ? "1" : "0") + sep;
			m.in += "\n";
		}
		m.desc = strf("%dx%d", w, h);
		m.check = [pic](const std::vector<std::string> &ts) { return polycheck::judge(pic, ts[0]); };
		return true;
	}
	m.seeded = false;
	if (kind == 0) {
		m.name = "visnav/rand";
		m.main = vrand_main;
		int n = draw(12), nv = 3 + draw(5);
		m.args = {"-npolys", strf("%d", n), "-nverts", strf("%d", nv)};
		double maxr = 0.075;
		if (draw(2)) maxr = 0.1, m.args.insert(m.args.end(), {"-minrad", "0.02", "-maxrad", "0.1"});
		if (draw(2)) m.dir = "/out", m.files = {"map"}, m.args.insert(m.args.end(), {"-o", "/out/map"});
		if (draw(3) == 2) m.args.push_back("-stats");
		m.desc = strf("polygons=%d corners<=%d%s", n, nv, m.dir.size() ? " to a file" : "");
		m.check = [=](const std::vector<std::string> &ts) -> std::string {
			const char *s = ts[0].c_str();
			std::vector<Poly> ps;
			std::string e = readpolys(s, ps);
			if (e.size()) return e;
			if (*s) return "something follows the polygons";
			if ((int) ps.size() != n) return strf("%zu polygons", ps.size());
			std::vector<V> lo, hi;
			for (auto &p : ps) {
				if (p.size() < 3 || (int) p.size() > nv) return strf("a polygon of %zu corners", p.size());
				V a = p[0], b = p[0];
				for (auto &v : p) a.x = std::min(a.x, v.x), a.y = std::min(a.y, v.y), b.x = std::max(b.x, v.x), b.y = std::max(b.y, v.y);
				if (a.x < -1e-5 || a.y < -1e-5 || b.x > 1 + 1e-5 || b.y > 1 + 1e-5) return "a polygon is not in the unit square";
				if (b.x - a.x > 2 * maxr + 1e-5 || b.y - a.y > 2 * maxr + 1e-5) return "a polygon is too large";
				for (size_t i = 0; i < lo.size(); i++)
					if (a.x < hi[i].x - 1e-5 && lo[i].x < b.x - 1e-5 && a.y < hi[i].y - 1e-5 && lo[i].y < b.y - 1e-5) return "polygons overlap";
				lo.push_back(a), hi.push_back(b);
			}
			return "";
		};
		return true;
	}
	Prob p;
	genprob(p, true);
	size_t end = p.inst.rfind('\n', p.inst.size() - 2) + 1;
	std::string graph = p.inst.substr(0, end);
	size_t ve = graph.find(" vertices");
	std::string map = graph.substr(0, graph.rfind('\n', ve) + 1);
	m.desc = p.desc;
	if (kind == 1) {
		m.name = "visnav/mkgraph";
		m.main = vmkgraph_main;
		m.seeded = true;
		m.in = map;
		m.check = [map](const std::vector<std::string> &ts) -> std::string {
			if (ts[0].compare(0, map.size(), map) != 0) return "does not begin with the map";
			const char *s = ts[0].c_str();
			Rules r;
			Gr g;
			std::string e = readpolys(s, r.polys);
			if (e.empty()) e = readgraph(s, g);
			if (e.size()) return e;
			if (*s) return "something follows the graph";
			r.pts = g.pts;
			size_t nv = 0;
			for (auto &q : r.polys) nv += q.size();
			if (g.pts.size() != nv) return strf("%zu vertices for %zu corners", g.pts.size(), nv);
			for (size_t i = 0; i < g.pts.size(); i++) {
				e = r(i, g.out[i]);
				if (e.size()) return e;
			}
			return "";
		};
	} else {
		m.name = "visnav/inst";
		m.main = vinst_main;
		if (draw(2)) m.in = graph;
		else fs.write("/graph", graph), m.args = {"/graph"};
		m.solve = true;
		m.check = [graph](const std::vector<std::string> &ts) -> std::string {
			if (ts[0].compare(0, graph.size(), graph) != 0) return "does not begin with the graph";
			V p[2];
			int at = 0;
			if (sscanf(ts[0].c_str() + graph.size(), "%lg %lg %lg %lg\n%n", &p[0].x, &p[0].y, &p[1].x, &p[1].y, &at) != 4 || graph.size() + at != ts[0].size())
				return "does not end with two points: " + ts[0].substr(graph.size());
			const char *s = ts[0].c_str();
			std::vector<Poly> ps;
			readpolys(s, ps);
			for (auto &v : p) {
				if (v.x < 0 || v.y < 0 || v.x > 1 || v.y > 1) return "a point is not in the unit square";
				for (auto &q : ps) if (depth(v, q) > 1e-4) return strf("%g,%g is in a polygon", v.x, v.y);
			}
			return "";
		};
	}
	return true;
}
