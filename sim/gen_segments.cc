// Line segments to be moved and turned into place.
#include "sim.hpp"
#include "solver.hpp"
#include <cmath>
#include <cstring>
#include <map>
#include <algorithm>
using namespace sim;
using namespace solver;
extern const Driver drv_segments;

// The rules, written independently of the domain: what a move does to the
// poses and the gripper, what it costs, and whether anything is in its way.
// Motions are sampled; what is too close to call is left open.
namespace {
struct V { double x, y; };
struct Sg { V a, b; };
double cross(V o, V a, V b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
double len(V a, V b) { return hypot(a.x - b.x, a.y - b.y); }
double dist(V p, const Sg &s) {
	double l = len(s.a, s.b);
	if (l < 1e-12) return len(p, s.a);
	double t = ((p.x - s.a.x) * (s.b.x - s.a.x) + (p.y - s.a.y) * (s.b.y - s.a.y)) / (l * l);
	t = t < 0 ? 0 : t > 1 ? 1 : t;
	return len(p, V{s.a.x + t * (s.b.x - s.a.x), s.a.y + t * (s.b.y - s.a.y)});
}
// positive: apart by so much; negative: cross, so deep
double gap(const Sg &s, const Sg &t) {
	double d1 = cross(s.a, s.b, t.a), d2 = cross(s.a, s.b, t.b), d3 = cross(t.a, t.b, s.a), d4 = cross(t.a, t.b, s.b);
	double ls = len(s.a, s.b), lt = len(t.a, t.b);
	if (ls > 1e-9 && lt > 1e-9 && d1 * d2 < 0 && d3 * d4 < 0)
		return -std::min(std::min(fabs(d1), fabs(d2)) / ls, std::min(fabs(d3), fabs(d4)) / lt);
	return std::min(std::min(dist(s.a, t), dist(s.b, t)), std::min(dist(t.a, s), dist(t.b, s)));
}
struct Rules {
	int w, h, na;
	std::vector<double> r;
	struct P { int x, y, rot; };
	Sg seg(int i, double x, double y, double rot) const {
		double t = rot * 2 * M_PI / na;
		return Sg{V{x + r[i] * cos(t), y + r[i] * sin(t)}, V{x - r[i] * cos(t), y - r[i] * sin(t)}};
	}
	double room(const Sg &s, double &out) const {	// to the walls, from inside
		double g = std::min(std::min(std::min(s.a.x, s.b.x), std::min(s.a.y, s.b.y)), std::min(w - std::max(s.a.x, s.b.x), h - std::max(s.a.y, s.b.y)));
		out = -g;
		return g;
	}
	std::string operator()(uint64_t key, const std::vector<Succ> &succs) const {
		int gx = key & 63, gy = key >> 6 & 63;
		std::vector<P> ps;
		for (size_t i = 0; i < r.size(); i++) {
			uint64_t k = key >> (12 + 18 * i);
			ps.push_back(P{(int) (k & 63), (int) (k >> 6 & 63), (int) (k >> 12 & 63)});
		}
		auto pack = [&](int gx, int gy, const std::vector<P> &ps) {
			uint64_t k = gx & 63 | (gy & 63) << 6;
			for (size_t i = 0; i < ps.size(); i++)
				k |= (uint64_t) (ps[i].x & 63 | (ps[i].y & 63) << 6 | (ps[i].rot & 63) << 12) << (12 + 18 * i);
			return k;
		};
		const double eps = 1e-3;
		const int N = 48;
		struct Want { int must = 0, may = 0, n = 0; double cost = 0; std::string what; };
		std::map<uint64_t, Want> want;
		for (size_t i = 0; i < ps.size(); i++) {
			// nothing is said of a segment that is in contact already
			double g0 = 1e9, o;
			Sg me = seg(i, ps[i].x, ps[i].y, ps[i].rot);
			g0 = room(me, o);
			for (size_t j = 0; j < ps.size(); j++)
				if (j != i) g0 = std::min(g0, gap(me, seg(j, ps[j].x, ps[j].y, ps[j].rot)));
			for (int m = 0; m < 11; m++) {
				int dr = m == 9 ? -1 : m == 10 ? 1 : 0, dx = dr ? 0 : m % 3 - 1, dy = dr ? 0 : m / 3 - 1;
				if (!dr && !dx && !dy) continue;
				double least = 1e9;
				bool bad = false;
				for (int t = 0; t <= N; t++) {
					double f = (double) t / N;
					Sg s = seg(i, ps[i].x + dx * f, ps[i].y + dy * f, ps[i].rot + dr * f);
					double g = room(s, o);
					if (o > eps) bad = true;
					least = std::min(least, g);
					for (size_t j = 0; j < ps.size(); j++) {
						if (j == i) continue;
						g = gap(s, seg(j, ps[j].x, ps[j].y, ps[j].rot));
						if (g < -eps) bad = true;
						least = std::min(least, g);
					}
				}
				double step = (dr ? r[i] * 2 * M_PI / na : hypot(dx, dy)) / N;
				std::vector<P> n = ps;
				n[i].x += dx, n[i].y += dy, n[i].rot = (n[i].rot + dr + na) % na;
				Want &w = want[pack(n[i].x, n[i].y, n)];
				w.cost = hypot(gx - ps[i].x, gy - ps[i].y) + (dr ? 1 : hypot(dx, dy));
				w.what = dr ? strf("segment %zu turns by %d", i, dr) : strf("segment %zu moves by %d,%d", i, dx, dy);
				if (g0 < eps) { w.may++; continue; }
				if (bad) continue;
				w.may++;
				if (least > step + eps) w.must++;
			}
		}
		std::string here = strf("gripper %d,%d", gx, gy);
		for (size_t i = 0; i < ps.size(); i++) here += strf(" segment %d,%d/%d", ps[i].x, ps[i].y, ps[i].rot);
		for (auto &s : succs) {
			auto it = want.find(s.key);
			if (it == want.end())
				return "unknown kind of move at " + here;
			it->second.n++;
			if (fabs(s.cost - it->second.cost) > 1e-6)
				return strf("%s costs %g, not %g at %s", it->second.what.c_str(), s.cost, it->second.cost, here.c_str());
		}
		for (auto &w : want) {
			if (w.second.n > w.second.may)
				return w.second.what + " although something is in the way at " + here;
			if (w.second.n < w.second.must)
				return w.second.what + " is not offered although nothing is in the way at " + here;
		}
		return "";
	}
};
}
void solver::genprob(Prob &p, bool solvpref) {
	p.drv = &drv_segments;
	int n = draw(4) == 3 ? 2 : 1, big = n == 1 ? 4 : 2;
	if (!draw(8)) n = 0;
	int w = 2 + draw(big), h = 2 + draw(big), na = 2 * (1 + draw(n == 1 ? 4 : 2));
	std::string s = draw(3) == 2 ? "# made by nobody\n" : "";
	s += strf("%d %d %d\n%d\n", w, h, na, n);
	Rules rules{w, h, na, {}};
	uint64_t start = 0, goal = 0;
	for (int i = 0; i < n; i++) {
		double r = (1 + (int) draw(i == 0 ? 5 : 3)) / 4.0;
		struct P { int x, y, rot; };
		auto pose = [&]() { int x = 1 + draw(w - 1), y = 1 + draw(h - 1); return P{x, y, (int) draw(na)}; };
		rules.r.push_back(r);
		P a = pose(), b = draw(5) ? pose() : a;
		s += strf("%g %d %d %d %d %d %d\n", r, a.x, a.y, a.rot, b.x, b.y, b.rot);
		start |= (uint64_t) (a.x | a.y << 6 | a.rot << 12) << (12 + 18 * i);
		goal |= (uint64_t) (b.x | b.y << 6 | b.rot << 12) << (12 + 18 * i);
	}
	p.inst = s;
	p.rules = rules;
	p.startrule = [=](uint64_t k) { return k == start ? "" : strf("the start is %lx, not %lx", (unsigned long) k, (unsigned long) start); };
	p.goalrule = [=](uint64_t k, bool g) { return g == (k >> 12 == goal >> 12) ? "" : strf("%lx is %sa goal, where %lx are wanted", (unsigned long) k >> 12, g ? "" : "not ", (unsigned long) goal >> 12); };
	FILE *f = fmemopen((void *) p.inst.data(), p.inst.size(), "r");
	p.model = p.drv->self(f);
	fclose(f);
	p.consistent = true;
	p.intcost = false;
	p.idamax = 6;
	p.desc = strf("segments %dx%d angles=%d n=%d", w, h, na, n);
}

extern "C" int smkinst_main(int, const char **);
bool solver::genmaker(Maker &m) {
	m.name = "segments/mkinst";
	m.main = smkinst_main;
	int n = draw(5), na = 2 * (1 + draw(8)), minr = 1 + draw(2), maxr = minr + draw(3);
	int w = 2 * maxr + 1 + draw(6) + n * maxr, h = 2 * maxr + 1 + draw(6) + n * maxr;
	unsigned long seed = 1 + draw(1000000);
	m.args = {"-nsegs", strf("%d", n), "-width", strf("%d", w), "-height", strf("%d", h), "-nangles", strf("%d", na), "-minr", strf("%d", minr), "-maxr", strf("%d", maxr), "-seed", strf("%lu", seed)};
	m.solve = true;
	m.desc = strf("%dx%d angles=%d n=%d radius %d-%d", w, h, na, n, minr, maxr);
	m.check = [=](const std::vector<std::string> &ts) -> std::string {
		const char *s = ts[0].c_str();
		while (*s == '#') { s = strchr(s, '\n'); if (!s++) return "only comments"; }
		int a, b, c, k, at = 0;
		if (sscanf(s, "%d %d %d\n%d%n", &a, &b, &c, &k, &at) != 4) return "no header";
		if (a != w || b != h || c != na || k != n) return "another size or number than asked for";
		Rules r{w, h, na, {}};
		std::vector<Sg> st, gl;
		for (int i = 0; i < n; i++) {
			double rad;
			int p[6];
			s += at;
			if (sscanf(s, " %lg %d %d %d %d %d %d%n", &rad, p, p+1, p+2, p+3, p+4, p+5, &at) != 7) return strf("no segment %d", i);
			if (rad < minr - 1e-4 || rad > maxr + 1e-4) return strf("segment %d has radius %g", i, rad);
			if (p[2] < 0 || p[2] >= na || p[5] < 0 || p[5] >= na) return strf("segment %d is turned by no such angle", i);
			r.r.push_back(rad);
			st.push_back(r.seg(i, p[0], p[1], p[2]));
			gl.push_back(r.seg(i, p[3], p[4], p[5]));
		}
		s += at;
		if (strspn(s, " \n") != strlen(s)) return "something follows the segments";
		for (auto v : {&st, &gl})
			for (int i = 0; i < n; i++) {
				double o;
				r.room((*v)[i], o);
				if (o > 1e-3) return strf("%s of segment %d is out of bounds", v == &st ? "start" : "goal", i);
				for (int j = 0; j < i; j++)
					if (gap((*v)[i], (*v)[j]) < -1e-3) return strf("%s poses of segments %d and %d cross", v == &st ? "start" : "goal", j, i);
			}
		return "";
	};
	return true;
}
