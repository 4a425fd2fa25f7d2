// Small platform levels, walled in.
#include "sim.hpp"
#include "solver.hpp"
#include <cmath>
#include <cstring>
#include <algorithm>
#include "polycheck.hpp"
using namespace sim;
using namespace solver;
extern const Driver drv_plat2d;
bool platstate(Model &m, uint64_t k, double v[5]);
// The rules of the game, written independently of the domain: what each
// control does to the player's box in one frame.
namespace {
struct Rules {
	std::vector<std::string> t;	// '#' blocks
	std::weak_ptr<Model> model;
	static constexpr double W = 21, H = 29, T = 32, Run = 3.25, Jump = 8, Grav = 0.5, Maxdy = 12;
	static constexpr int Frames = 8;
	bool blocked(int x, int y) const { return x < 0 || y < 0 || y >= (int) t.size() || x >= (int) t[y].size() || t[y][x] == '#'; }
	// how deep a box at x, y is in blocked tiles, vertically or horizontally
	void depth(double x, double y, double &dx, double &dy) const {
		dx = dy = 0;
		for (int i = floor(x / T) - 1; i <= floor((x + W) / T) + 1; i++)
			for (int j = floor(y / T) - 1; j <= floor((y + H) / T) + 1; j++) {
				if (!blocked(i, j)) continue;
				double ox = over(x, x + W, i * T, (i + 1) * T), oy = over(y, y + H, j * T, (j + 1) * T);
				if (ox > 0 && oy > 0) dx = std::max(dx, ox), dy = std::max(dy, oy);
			}
	}
	bool inwall(double x, double y) const {
		for (int i = floor(x / T); i <= floor((x + W) / T); i++)
			for (int j = floor(y / T); j <= floor((y + H) / T); j++)
				if (blocked(i, j) && std::min(x + W, (i + 1) * T) - std::max(x, i * T) > 1e-3 && std::min(y + H, (j + 1) * T) - std::max(y, j * T) > 1e-3) return true;
		return false;
	}
	// overlap, as far as one must be pushed out
	static double over(double a, double b, double c, double d) {
		const double e = 1.5e-8;
		if (b >= c - e && b <= d + e) return b - c;
		if (d >= a - e && d <= b + e) return d - a;
		return -1;
	}
	static double whole(double at, double v) { return v > 0 ? ceil(at) - at : floor(at) - at; }
	static double stepof(double at, double v) {
		double d = whole(at, v);
		if (d == 0 && v != 0) d = v < 0 ? -1 : 1;
		return fabs(d) > fabs(v) ? v : d;
	}
	void frame(double s[5], int dir, bool jump) const {
		double x = s[0], y = s[1], dy = s[2];
		bool fall = s[3];
		int jf = s[4];
		if (!jump && fall) {
			if (dy < 0) dy = std::min(0.0, dy + Frames - jf);
			jf = 0;
		} else if (jump && !fall) {
			dy = -Jump, fall = true, jf = Frames;
		}
		double vx = dir * Run, vy = dy, lx = fabs(vx), ly = fabs(vy);
		bool hit = false, hity = false;
		for (int n = 0; (lx > 0 || ly > 0) && n < 100; n++) {
			double sx = stepof(x, vx), sy = stepof(y, vy), ox = 0, oy = 0, q;
			lx -= fabs(sx), ly -= fabs(sy);
			if (sy != 0) depth(x, y + sy, q, oy);
			if (sx != 0) depth(x + sx, y + sy + (sy < 0 ? oy : -oy), ox, q);
			if (oy != 0) hit = hity = true;
			sx -= (vx0(dir) ? ox : -ox), sy -= (dy > 0 ? oy : -oy);
			vx -= sx, vy -= sy, x += sx, y += sy;
		}
		if (dy > 0 && hity && fall) fall = false;
		else if (dy < 0 && hity) dy = 0, fall = true;
		if (!hit && !fall) dy = 0, fall = true;
		if (fall && dy < Maxdy) dy += Grav;
		if (jf > 0) jf--;
		s[0] = x, s[1] = y, s[2] = dy, s[3] = fall, s[4] = jf;
	}
	static bool vx0(int dir) { return dir > 0; }
	std::string operator()(uint64_t key, const std::vector<Succ> &succs) const {
		ModelP m = model.lock();
		double s[5], n[5], e[5];
		if (!m || !platstate(*m, key, s)) return "";
		const int dirs[] = { -1, 1, 0, -1, 1 };
		for (size_t i = 0; i < succs.size() && i < 5; i++) {
			platstate(*m, succs[i].key, n);
			memcpy(e, s, sizeof s);
			frame(e, dirs[i], i >= 2);
			std::string w = strf("from %g,%g dy=%g fall=%g jump=%g with control %zu to %g,%g dy=%g fall=%g jump=%g", s[0], s[1], s[2], s[3], s[4], i, n[0], n[1], n[2], n[3], n[4]);
			for (int j = 0; j < 5; j++)
				if (fabs(n[j] - e[j]) > 1e-6)
					return w + strf(", not to %g,%g dy=%g fall=%g jump=%g", e[0], e[1], e[2], e[3], e[4]);
			if (inwall(n[0], n[1])) return "the player is in a wall: " + w;
			if (fabs(n[0] - s[0]) > Run + 1e-9 || fabs(n[1] - s[1]) > Maxdy + 1e-9) return "too far in one frame: " + w;
		}
		return "";
	}
};
}
void solver::genprob(Prob &p, bool solvpref) {
	p.drv = &drv_plat2d;
	p.canlvl = true;
	p.rrt = true;
	static const int dims[][2] = { {2, 1}, {3, 1}, {4, 1}, {5, 1}, {1, 2}, {2, 2}, {1, 3}, {2, 2} };
	int di = draw(8), w = dims[di][0], h = dims[di][1];
	std::vector<std::string> t(h + 2, std::string(w + 2, '#'));
	int dens = draw(4);
	std::vector<int> fr;
	for (int y = 0; y < h; y++)
		for (int x = 0; x < w; x++)
			if ((int) draw(8) >= dens) { t[y+1][x+1] = ' '; fr.push_back(y*w+x); }
	// the program's polygon maps have a single open area: keep one
	auto reach = [&](int c) {
		std::vector<int> q{c};
		std::vector<char> seen(w * h, 0);
		seen[c] = 1;
		for (size_t i = 0; i < q.size(); i++) {
			int x = q[i] % w, y = q[i] / w;
			static const int d[][2] = { {1, 0}, {-1, 0}, {0, 1}, {0, -1} };
			for (auto &e : d) {
				int nx = x + e[0], ny = y + e[1];
				if (t[ny+1][nx+1] != ' ' || seen[ny*w+nx]) continue;
				seen[ny*w+nx] = 1;
				q.push_back(ny*w+nx);
			}
		}
		return q;
	};
	std::vector<int> best;
	for (int c : fr) { auto q = reach(c); if (q.size() > best.size()) best = q; }
	fr = best;
	if (fr.size() < 2) { fr = {0, w > 1 ? 1 : w}; }
	for (auto &r : t) r = std::string(w + 2, '#');
	for (int c : fr) t[c/w+1][c%w+1] = ' ';
	int a = draw(fr.size()), b = draw(fr.size() - 1);
	if (b >= a) b++;
	t[fr[a]/w+1][fr[a]%w+1] = 'u';
	t[fr[b]/w+1][fr[b]%w+1] = 'd';
	std::string s = strf("1 %d %d 0\n", w + 2, h + 2);
	for (auto &r : t) s += r + "\n";
	p.inst = s;
	FILE *f = fmemopen((void *) p.inst.data(), p.inst.size(), "r");
	p.model = p.drv->self(f);
	fclose(f);
	p.rules = Rules{t, p.model};
	std::weak_ptr<Model> wm = p.model;
	int ca = fr[a], cb = fr[b];
	p.startrule = [=](uint64_t k) -> std::string {
		ModelP m = wm.lock();
		double v[5], x = ca % w * 32 + 32 + 7, y = ca / w * 32 + 32 + 2;
		if (!m || !platstate(*m, k, v)) return "";
		if (fabs(v[0] - x) < 1e-6 && fabs(v[1] - y) < 1e-6 && v[2] == 0 && v[4] == 0) return "";
		return strf("the start is %g,%g dy=%g jump=%g, not %g,%g", v[0], v[1], v[2], v[4], x, y);
	};
	p.goalrule = [=](uint64_t k, bool g) -> std::string {
		ModelP m = wm.lock();
		double v[5];
		if (!m || !platstate(*m, k, v)) return "";
		double x = (v[0] + 10.5) / 32 - (cb % w + 1), y = (v[1] + 14.5) / 32 - (cb / w + 1);
		bool at = x >= 0 && x < 1 && y >= 0 && y < 1;
		if (at == g || std::min(std::min(fabs(x), fabs(x - 1)), std::min(fabs(y), fabs(y - 1))) < 1e-6) return "";
		return strf("%g,%g is %sa goal", v[0], v[1], g ? "" : "not ");
	};
	p.consistent = false;
	p.desc = "plat2d";
	for (auto &r : t) p.desc += " |" + r;
}

extern "C" int p2poly_main(int, const char **);
bool solver::genmaker(Maker &m) {
	auto pic = polycheck::drawpic(9, 6);
	int w = pic[0].size(), h = pic.size();
	m.name = "plat2d/2poly";
	m.main = p2poly_main;
	m.in = strf("1 %d %d 0\n", w, h);
	for (int y = 0; y < h; y++) m.in += pic[y] + "\n";
	std::reverse(pic.begin(), pic.end());
	m.desc = strf("%dx%d", w, h);
	m.check = [pic](const std::vector<std::string> &ts) { return polycheck::judge(pic, ts[0]); };
	return true;
}
