// Dock worker robots.
#include "sim.hpp"
#include "solver.hpp"
#include <algorithm>
#include <cmath>
using namespace sim;
using namespace solver;
extern const Driver drv_drobot;
std::string drobotcanon(int rloc, int rbox, std::vector<std::vector<int>> cranes, std::vector<std::vector<std::vector<int>>> piles) {
	std::string s = strf("%d %d", rloc, rbox);
	for (size_t i = 0; i < cranes.size(); i++) {
		std::sort(cranes[i].begin(), cranes[i].end());
		std::sort(piles[i].begin(), piles[i].end());
		s += "|";
		for (int b : cranes[i]) s += strf(" %d", b);
		for (auto &p : piles[i]) { s += ";"; for (int b : p) s += strf(" %d", b); }
	}
	return s;
}
uint64_t drobotkey(const std::string &s) { return sim::hashstr(s); }
namespace {
struct St {
	int rloc, rbox;
	std::vector<std::vector<int>> cranes;
	std::vector<std::vector<std::vector<int>>> piles;
	uint64_t key() const { return drobotkey(drobotcanon(rloc, rbox, cranes, piles)); }
};
struct DModel : Model {
	int nlocs;
	std::vector<std::vector<float>> adj;
	std::vector<size_t> maxcr, maxpl;
	std::vector<int> goals;		// by box, -1: anywhere
	St s0;
	std::unordered_map<uint64_t, St> st;
	uint64_t put(const St &s) { uint64_t k = s.key(); st.insert({k, s}); return k; }
	uint64_t start() override { return put(s0); }
	bool goal(uint64_t k) override {
		const St &s = st.at(k);
		std::vector<int> at(goals.size(), -1);
		if (s.rbox >= 0) at[s.rbox] = s.rloc;
		for (int l = 0; l < nlocs; l++) {
			for (int b : s.cranes[l]) at[b] = l;
			for (auto &p : s.piles[l]) for (int b : p) at[b] = l;
		}
		for (size_t b = 0; b < goals.size(); b++)
			if (goals[b] >= 0 && at[b] != goals[b]) return false;
		return true;
	}
	void succs(uint64_t k, std::vector<Succ> &o) override {
		o.clear();
		St s = st.at(k);
		int l = s.rloc;
		auto out = [&](const St &n, double c) { o.push_back(Succ{put(n), c}); };
		for (size_t c = 0; c < s.cranes[l].size(); c++) {
			int b = s.cranes[l][c];
			St m = s;
			m.cranes[l].erase(m.cranes[l].begin() + c);
			for (size_t p = 0; p < s.piles[l].size(); p++) {
				St n = m;
				n.piles[l][p].push_back(b);
				out(n, 0.05 * (s.piles[l][p].size() + 1));
			}
			if (s.piles[l].size() < maxpl[l]) {
				St n = m;
				n.piles[l].push_back({b});
				out(n, 0.05);
			}
			if (s.rbox < 0) {
				m.rbox = b;
				out(m, 0.01);
			}
		}
		if (s.cranes[l].size() < maxcr[l]) {
			for (size_t p = 0; p < s.piles[l].size(); p++) {
				St n = s;
				double c = 0.05 * (s.piles[l][p].size() + 1);
				n.cranes[l].push_back(n.piles[l][p].back());
				n.piles[l][p].pop_back();
				if (n.piles[l][p].empty()) n.piles[l].erase(n.piles[l].begin() + p);
				out(n, c);
			}
			if (s.rbox >= 0) {
				St n = s;
				n.cranes[l].push_back(n.rbox);
				n.rbox = -1;
				out(n, 0.01);
			}
		}
		for (int d = 0; d < nlocs; d++)
			if (d != l) {
				St n = s;
				n.rloc = d;
				out(n, adj[l][d]);
			}
	}
};
}
void solver::genprob(Prob &p, bool) {
	p.drv = &drv_drobot;
	auto m = std::make_shared<DModel>();
	int nl = 1 + draw(3), nb = 1 + draw(sim::thorough ? 4 : 3);
	m->nlocs = nl;
	m->adj.assign(nl, std::vector<float>(nl, 0));
	bool sym = draw(2);
	for (int i = 0; i < nl; i++)
		for (int j = 0; j < nl; j++)
			if (i != j) m->adj[i][j] = sym && j < i ? m->adj[j][i] : (1 + draw(20)) / 4.0f;
	std::vector<std::vector<int>> pileids(nl);
	int npiles = 0, ncranes = 0;
	for (int i = 0; i < nl; i++) {
		m->maxcr.push_back(draw(6) == 5 ? 0 : 1 + draw(2));
		m->maxpl.push_back(draw(6) == 5 ? 0 : 1 + draw(2));
		ncranes += m->maxcr[i];
	}
	if (m->maxpl[0] == 0) m->maxpl[0] = 1;	// somewhere to put the boxes
	for (int i = 0; i < nl; i++)
		for (size_t j = 0; j < m->maxpl[i]; j++) pileids[i].push_back(npiles++);
	std::vector<std::vector<int>> pile(npiles);
	std::vector<int> boxes;
	for (int b = 0; b < nb; b++) boxes.push_back(b);
	for (int i = nb; i > 1; i--) std::swap(boxes[i-1], boxes[i - 1 - draw(i)]);
	for (int b : boxes) pile[draw(npiles)].push_back(b);
	m->s0.rloc = 0, m->s0.rbox = -1;
	m->s0.cranes.resize(nl), m->s0.piles.resize(nl);
	for (int i = 0; i < nl; i++)
		for (int q : pileids[i])
			if (pile[q].size()) m->s0.piles[i].push_back(pile[q]);
	m->goals.assign(nb, -1);
	for (int b = 0; b < nb; b++)
		if (draw(4) != 3) m->goals[b] = nl - 1 - draw(nl);
	std::string s = strf("nlocations: %d\nncranes: %d\nncontainers: %d\nnpiles: %d\nnrobots: 1\n\n", nl, ncranes, nb, npiles);
	int cr = 0;
	for (int i = 0; i < nl; i++) {
		s += strf("location %d\nadjacent:", i);
		for (int j = 0; j < nl; j++) s += strf(" %g", m->adj[i][j]);
		s += "\ncranes:";
		for (size_t j = 0; j < m->maxcr[i]; j++) s += strf(" %d", cr++);
		s += "\npiles:";
		for (int q : pileids[i]) s += strf(" %d", q);
		s += "\n\n";
	}
	for (int q = 0; q < npiles; q++) {
		s += strf("pile %d\n", q);
		for (size_t j = 0; j < pile[q].size(); j++) {
			if (j) s += " ";
			p.lasttoken = s.size();	// empty piles and goals are optional
			s += strf("%d", pile[q][j]);
		}
		s += "\n";
	}
	for (int b = 0; b < nb; b++)
		if (m->goals[b] >= 0) {
			s += strf("container %d at ", b);
			p.cuts.push_back(s.size());
			s += strf("%d\n", m->goals[b]);
		}
	p.inst = s;
	p.model = m;
	p.consistent = false;	// costs are single precision
	p.intcost = false;
	p.reltol = 1e-4;
	p.idamax = 0;
	p.desc = strf("drobot locs=%d boxes=%d", nl, nb);
}
