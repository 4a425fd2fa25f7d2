// 3x3 sliding tiles with random goals.
#include "sim.hpp"
#include "solver.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;
using namespace solver;
extern const Driver drv_tiles;

namespace {
const int W = 3, H = 3, N = 9;
uint64_t enc(const int *t) { uint64_t k = 0; for (int i = 0; i < N; i++) k = k * 16 + t[i]; return k; }
void dec(uint64_t k, int *t) { for (int i = N - 1; i >= 0; i--) { t[i] = k & 15; k >>= 4; } }
struct TModel : Model {
	int s[N], g[N];		// tile at each position
	uint64_t start() override { return enc(s); }
	bool goal(uint64_t k) override { return k == enc(g); }
	void succs(uint64_t k, std::vector<Succ> &o) override {
		o.clear();
		int t[N];
		dec(k, t);
		int b = std::find(t, t + N, 0) - t;
		const int dx[] = {0, -1, 1, 0}, dy[] = {-1, 0, 0, 1};
		for (int i = 0; i < 4; i++) {
			int x = b % W + dx[i], y = b / W + dy[i];
			if (x < 0 || y < 0 || x >= W || y >= H) continue;
			int c = y * W + x;
			std::swap(t[b], t[c]);
			o.push_back(Succ{enc(t), 1});
			std::swap(t[b], t[c]);
		}
	}
};
// distance of every board to the board 0..8, by breadth first search, once per process
std::unordered_map<uint64_t, int> dist;
void mkdist() {
	TModel m;
	for (int i = 0; i < N; i++) m.s[i] = i;
	std::vector<uint64_t> q{enc(m.s)};
	dist.reserve(400000);
	dist[q[0]] = 0;
	std::vector<Succ> o;
	for (size_t i = 0; i < q.size(); i++) {
		m.succs(q[i], o);
		int d = dist[q[i]];
		for (auto &x : o)
			if (dist.insert({x.key, d + 1}).second) q.push_back(x.key);
	}
}
}
void solverinit() { mkdist(); }

void solver::genprob(Prob &p, bool solvpref) {
	p.drv = &drv_tiles;
	auto m = std::make_shared<TModel>();
	int perm[N];
	for (int i = 0; i < N; i++) perm[i] = i;
	// any goal: the blank anywhere, tiles permuted
	int gk = draw(3);
	for (int i = 0; i < N; i++) m->g[i] = i;
	if (gk == 1)
		for (int i = N; i > 2; i--) std::swap(m->g[i-1], m->g[1 + draw(i-1)]);
	else if (gk == 2)
		for (int i = N; i > 1; i--) std::swap(m->g[i-1], m->g[draw(i)]);
	std::copy(m->g, m->g + N, m->s);
	int len = draw(sim::thorough ? 60 : 22);
	if (m->g[0] != 0) len = std::min(len, 11);
	std::vector<Succ> o;
	for (int i = 0; i < len; i++) {
		m->succs(enc(m->s), o);
		dec(o[draw(o.size())].key, m->s);
	}
	// relabel so that the goal is 0..8: position j plays the role of tile g[j],
	// possible only up to the blank, so search distances by breadth first from
	// the goal when the labels cannot be mapped onto the table
	// (the graph of boards is the same under relabelling of tiles, not of positions)
	int t[N], map[N];
	for (int j = 0; j < N; j++) map[m->g[j]] = j;
	bool ok = m->g[0] == 0;
	for (int j = 0; j < N; j++) t[j] = map[m->s[j]];
	if (ok) {
		auto it = dist.find(enc(t));
		p.knownopt = true;
		p.opt = it == dist.end() ? -1 : it->second;
	} else {
		// distance from the goal: walk both sides to a goal with the blank at position 0
		std::unordered_map<uint64_t, int> d{{m->start(), 0}};
		std::vector<uint64_t> q{m->start()};
		p.knownopt = true;
		p.opt = -1;
		for (size_t i = 0; i < q.size(); i++) {
			if (m->goal(q[i])) { p.opt = d[q[i]]; break; }
			m->succs(q[i], o);
			for (auto &x : o)
				if (d.insert({x.key, d[q[i]] + 1}).second) q.push_back(x.key);
		}
	}
	std::string s = strf("%d %d\nstarting positions for each tile:\n", W, H);
	for (int k = 0; k < N; k++) s += strf("%d\n", (int) (std::find(m->s, m->s + N, k) - m->s));
	s += "goal positions:\n";
	for (int k = 0; k < N; k++) s += strf("%d\n", (int) (std::find(m->g, m->g + N, k) - m->g));
	p.inst = s;
	p.model = m;
	p.canlvl = true;
	p.consistent = true;
	p.safe = true;
	p.nstates = 181440;
	p.maxbranch = 4;
	p.mincost = 1;
	p.idamax = 26;
	p.desc = strf("tiles walk=%d opt=%g", len, p.opt);
	(void) solvpref;
	(void) perm;
}

// The puzzle generator, any board.
extern "C" int tgen_main(int, const char **);
bool solver::genmaker(Maker &m) {
	m.name = "tiles/generator";
	m.main = tgen_main;
	int w = 3, h = 3;
	if (draw(3)) w = 2 + draw(4), h = 2 + draw(4);
	int n = 1 + draw(4);
	m.dir = draw(4) == 3 ? "/out/" + std::string(60, 'a') + "/" + std::string(60, 'b') : "/out";
	for (int i = 0; i < n; i++) m.files.push_back(strf("%d", i));
	m.args = {"-w", strf("%d", w), "-h", strf("%d", h), "-n", strf("%d", n), "-d", m.dir, "-seed", strf("%u", draw(1000000))};
	m.solve = m.more = w == W && h == H;
	m.desc = strf("%dx%d n=%d", w, h, n);
	m.check = [w, h](const std::vector<std::string> &ts) -> std::string {
		for (auto &t : ts) {
			std::vector<int> pos;
			int a = 0, b = 0, k = 0, at = 0;
			const char *s = t.c_str();
			if (sscanf(s, "%d %d\nstarting positions for each tile:\n%n", &a, &b, &at) != 2 || !at || a != w || b != h)
				return "not the header of such a board: " + t.substr(0, 60);
			s += at;
			for (int i = 0; i < w * h; i++, s += at)
				if (sscanf(s, "%d\n%n", &k, &at) == 1) pos.push_back(k);
			at = 0;
			if (sscanf(s, "goal positions:%n", &at) != 0 || !at) return "no goal positions";
			s += at;
			for (int i = 0; i < w * h; i++, s += at)
				if (sscanf(s, " %d%n", &k, &at) != 1 || k != i) return strf("position of tile %d in the goal is not %d", i, i);
			if (strspn(s, " \n") != strlen(s)) return "something follows the goal";
			std::vector<int> tile(w * h, -1);
			for (int i = 0; i < w * h; i++) {
				if (i >= (int) pos.size() || pos[i] < 0 || pos[i] >= w * h || tile[pos[i]] >= 0) return "the start is no permutation";
				tile[pos[i]] = i;
			}
			int inv = 0;
			for (int i = 0; i < w * h; i++)
				for (int j = 0; j < i; j++)
					if (tile[i] && tile[j] > tile[i]) inv++;
			if (w % 2 == 0) inv += pos[0] / w;
			if (inv % 2) return "the goal cannot be reached from the start";
		}
		return "";
	};
	return true;
}
