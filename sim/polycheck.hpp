// Pictures turned into polygons: blocked cells and nothing else are obstructed.
#pragma once
#include "sim.hpp"
#include <cstring>
#include <string>
#include <vector>
namespace polycheck {
typedef std::vector<std::string> Pic;		// pic[y][x], '#' blocked; its edge is blocked
// a picture whose open cells are one area, edges connected to edges
inline Pic drawpic(int maxw, int maxh) {
	int w = 1 + sim::draw(maxw), h = 1 + sim::draw(maxh), dens = sim::draw(7);
	Pic b(h + 2, std::string(w + 2, '#'));
	for (int y = 1; y <= h; y++)
		for (int x = 1; x <= w; x++)
			if ((int) sim::draw(10) >= dens) b[y][x] = ' ';
	std::vector<std::vector<std::pair<int, int>>> areas;
	Pic c = b;
	size_t best = 0;
	for (int y = 1; y <= h; y++)
		for (int x = 1; x <= w; x++) {
			if (c[y][x] != ' ') continue;
			std::vector<std::pair<int, int>> q{{x, y}};
			c[y][x] = 'x';
			for (size_t i = 0; i < q.size(); i++) {
				static const int d[][2] = { {1, 0}, {-1, 0}, {0, 1}, {0, -1} };
				for (auto &e : d) {
					int nx = q[i].first + e[0], ny = q[i].second + e[1];
					if (c[ny][nx] == ' ') { c[ny][nx] = 'x'; q.push_back({nx, ny}); }
				}
			}
			areas.push_back(q);
			if (q.size() > areas[best].size()) best = areas.size() - 1;
		}
	for (auto &r : b) r = std::string(w + 2, '#');
	if (areas.empty()) b[1][1] = ' ';
	else for (auto &p : areas[best]) b[p.second][p.first] = ' ';
	return b;
}
inline bool inside(const std::vector<std::pair<double, double>> &p, double x, double y) {
	bool in = false;
	for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++)
		if ((p[i].second > y) != (p[j].second > y) && x < (p[j].first - p[i].first) * (y - p[i].second) / (p[j].second - p[i].second) + p[i].first) in = !in;
	return in;
}
// rows of the picture from y = 0 upwards
inline std::string judge(const Pic &pic, const std::string &t) {
	const char *s = t.c_str();
	int at = 0;
	typedef std::vector<std::pair<double, double>> Poly;
	auto poly = [&](Poly &p) {
		unsigned n;
		if (sscanf(s, " %u%n", &n, &at) != 1) return false;
		s += at;
		for (unsigned i = 0; i < n; i++, s += at) {
			std::pair<double, double> v;
			if (sscanf(s, " %lg %lg%n", &v.first, &v.second, &at) != 2) return false;
			p.push_back(v);
		}
		return true;
	};
	Poly bound;
	std::vector<Poly> ps;
	if (strncmp(s, "bound: ", 7) != 0) return "no bound";
	s += 7;
	if (!poly(bound)) return "a broken bound";
	unsigned n;
	if (sscanf(s, " %u polygons%n", &n, &at) != 1) return "no number of polygons";
	s += at;
	for (unsigned i = 0; i < n; i++) {
		ps.push_back(Poly());
		if (!poly(ps.back())) return "a broken polygon";
	}
	if (strspn(s, " \n") != strlen(s)) return "something follows the polygons";
	for (size_t y = 0; y < pic.size(); y++)
		for (size_t x = 0; x < pic[y].size(); x++) {
			bool b = !inside(bound, x + 0.5, y + 0.5);
			for (auto &p : ps) if (inside(p, x + 0.5, y + 0.5)) b = true;
			if (b != (pic[y][x] == '#')) {
				std::string m;
				for (auto &r : pic) m += "|" + r;
				return sim::strf("cell %zu,%zu is %s by the polygons of %s", x, y, b ? "blocked" : "left open", m.c_str());
			}
		}
	return "";
}
}
