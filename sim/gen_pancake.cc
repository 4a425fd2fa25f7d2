// 7 pancakes.
#include "sim.hpp"
#include "solver.hpp"
#include <algorithm>
using namespace sim;
using namespace solver;
extern const Driver drv_pancake;
namespace {
const int N = 7;
uint64_t enc(const int *c) { uint64_t k = 0; for (int i = 0; i < N; i++) k = k * 16 + c[i]; return k; }
void dec(uint64_t k, int *c) { for (int i = N - 1; i >= 0; i--) { c[i] = k & 15; k >>= 4; } }
struct PModel : Model {
	int s[N];
	uint64_t start() override { return enc(s); }
	bool goal(uint64_t k) override { int c[N]; dec(k, c); for (int i = 0; i < N; i++) if (c[i] != i) return false; return true; }
	void succs(uint64_t k, std::vector<Succ> &o) override {
		o.clear();
		int c[N];
		dec(k, c);
		for (int i = 1; i < N; i++) {
			std::reverse(c, c + i + 1);
			o.push_back(Succ{enc(c), 1});
			std::reverse(c, c + i + 1);
		}
	}
};
std::unordered_map<uint64_t, int> dist;
}
void solverinit() {
	PModel m;
	for (int i = 0; i < N; i++) m.s[i] = i;
	std::vector<uint64_t> q{enc(m.s)};
	dist[q[0]] = 0;
	std::vector<Succ> o;
	for (size_t i = 0; i < q.size(); i++) {
		m.succs(q[i], o);
		int d = dist[q[i]];
		for (auto &x : o)
			if (dist.insert({x.key, d + 1}).second) q.push_back(x.key);
	}
}
void solver::genprob(Prob &p, bool) {
	p.drv = &drv_pancake;
	auto m = std::make_shared<PModel>();
	for (int i = 0; i < N; i++) m->s[i] = i;
	for (int i = N; i > 1; i--) std::swap(m->s[i-1], m->s[i - 1 - draw(i)]);
	p.knownopt = true;
	p.opt = dist[enc(m->s)];
	p.inst = strf("%d\n", N);
	bool oneline = draw(2);
	for (int i = 0; i < N; i++) p.inst += strf("%d%s", m->s[i], i == N - 1 || !oneline ? "\n" : " ");
	p.model = m;
	p.consistent = true;
	p.safe = true;
	p.nstates = 5040;
	p.maxbranch = N - 1;
	p.mincost = 1;
	p.idamax = 30;
	p.desc = strf("pancake opt=%g", p.opt);
}
