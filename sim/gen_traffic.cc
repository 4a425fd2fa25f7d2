// Moving obstacles on a grid; a state is a place and a time.
#include "sim.hpp"
#include "solver.hpp"
#include <algorithm>
using namespace sim;
using namespace solver;
extern const Driver drv_traffic;
namespace {
struct Ob { int x, y, dx, dy; };
// bounces between 0 and n-1
int bounce(int x, int d, int n, int t) {
	int per = 2 * (n - 1);
	int v = (x + d * t) % per;
	if (v < 0) v += per;
	return v < n ? v : per - v;
}
struct TModel : Model {
	int w, h, s, g;
	std::vector<Ob> obs;
	uint64_t start() override { return s; }
	bool goal(uint64_t k) override { return (int) (k & 0xffffffff) == g; }
	int at(const Ob &o, int t) { return bounce(o.y, o.dy, h, t) * w + bounce(o.x, o.dx, w, t); }
	void succs(uint64_t k, std::vector<Succ> &o) override {
		o.clear();
		int l = k & 0xffffffff, t = k >> 32, x = l % w, y = l / w;
		const int dx[] = {0, 0, -1, 1, 0}, dy[] = {1, -1, 0, 0, 0};
		for (int i = 0; i < 5; i++) {
			int nx = x + dx[i], ny = y + dy[i];
			if (nx < 0 || ny < 0 || nx >= w || ny >= h) continue;
			int nl = ny * w + nx;
			bool swapped = false, hit = false;
			for (auto &b : obs) {
				if (at(b, t) == nl && at(b, t + 1) == l) swapped = true;
				if (at(b, t + 1) == nl) hit = true;
			}
			if (swapped) continue;
			o.push_back(Succ{hit ? (uint64_t) s : (uint64_t) (t + 1) << 32 | nl, 1});
		}
	}
};
}
void solver::genprob(Prob &p, bool) {
	p.drv = &drv_traffic;
	p.canlvl = true;
	auto m = std::make_shared<TModel>();
	m->w = 2 + draw(5), m->h = 2 + draw(5);
	int n = m->w * m->h, no = draw(sim::thorough ? 12 : 7);
	m->s = draw(n);
	m->g = n - 1 - draw(n);
	for (int i = 0; i < no; i++)
		m->obs.push_back(Ob{(int) draw(m->w), (int) draw(m->h), drawrange(-1, 1), drawrange(-1, 1)});
	p.inst = strf("%d %d %d %d\n%d %d\n", m->s % m->w, m->s / m->w, m->g % m->w, m->g / m->w, m->w, m->h);
	if (no) p.lasttoken = p.inst.find_last_of(' ') + 1;	// the file does not say how many obstacles there are
	for (auto &o : m->obs) {
		p.inst += strf("%d %d %d ", o.x, o.y, o.dx);
		p.cuts.push_back(p.inst.size());
		p.inst += strf("%d\n", o.dy);
	}
	p.model = m;
	p.finite = false;
	p.maxbranch = 5;
	p.consistent = false;	// a collision moves the agent back to the start
	p.idamax = 7;
	p.desc = strf("traffic %dx%d obstacles=%d", m->w, m->h, no);
}

extern "C" int trandinst_main(int, const char **);
bool solver::genmaker(Maker &m) {
	m.name = "traffic/randinst";
	m.main = trandinst_main;
	m.slow = 1e5;	// it tries each instance for 300 seconds
	int w = 2 + draw(6), h = 2 + draw(6), n = draw(std::min(w * h / 2, 8));
	m.args = {strf("%d", w), strf("%d", h), strf("%d", n), strf("%u", draw(1000000))};
	m.solve = m.more = true;
	m.desc = strf("%dx%d obstacles=%d", w, h, n);
	m.check = [w, h, n](const std::vector<std::string> &ts) -> std::string {
		TModel t;
		int x0, y0, xg, yg, at = 0, k = 0;
		const char *s = ts[0].c_str();
		if (sscanf(s, "%d %d %d %d\n%d %d\n%n", &x0, &y0, &xg, &yg, &t.w, &t.h, &at) != 6) return "no header: " + ts[0].substr(0, 60);
		if (t.w != w || t.h != h) return "another size than asked for";
		for (auto &p : {std::make_pair(x0, y0), std::make_pair(xg, yg)})
			if (p.first < 0 || p.second < 0 || p.first >= w || p.second >= h) return "a point is not on the map";
		s += at;
		for (Ob o; sscanf(s, "%d %d %d %d\n%n", &o.x, &o.y, &o.dx, &o.dy, &at) == 4; s += at) {
			if (o.x < 0 || o.y < 0 || o.x >= w || o.y >= h || abs(o.dx) > 1 || abs(o.dy) > 1) return "an obstacle that is not on the map, or is too fast";
			t.obs.push_back(o);
			k++;
		}
		if (*s || k != n) return strf("%d obstacles instead of %d", k, n);
		t.s = y0 * w + x0, t.g = yg * w + xg;
		// the obstacles repeat themselves
		int per = 2 * (w - 1) * (h - 1);
		std::vector<char> seen((size_t) w * h * per, 0);
		std::vector<uint64_t> q{(uint64_t) t.s};
		seen[t.s * per] = 1;
		std::vector<Succ> o;
		for (size_t i = 0; i < q.size(); i++) {
			if (t.goal(q[i])) return "";
			t.succs(q[i], o);
			for (auto &x : o) {
				uint64_t l = x.key & 0xffffffff, tm = (x.key >> 32) % per;
				if (!seen[l * per + tm]) { seen[l * per + tm] = 1; q.push_back(tm << 32 | l); }
			}
		}
		return "the goal cannot be reached from the start";
	};
	return true;
}
