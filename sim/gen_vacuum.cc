// Vacuum world without chargers (which the program does not implement).
#include "sim.hpp"
#include "solver.hpp"
#include <algorithm>
using namespace sim;
using namespace solver;
extern const Driver drv_vacuum;
namespace {
struct VModel : Model {
	int w, h, s;
	std::vector<char> t;
	std::vector<int> dirt;	// id by location, -1 none
	int nd = 0;
	uint64_t key(int l, uint64_t mask) { return mask << 16 | (uint64_t) ((l / w + 1) * (w + 2) + l % w + 1); }
	int loc(uint64_t k) { k &= 0xffff; return (k / (w + 2) - 1) * w + k % (w + 2) - 1; }
	uint64_t start() override { return key(s, (1ull << nd) - 1); }
	bool goal(uint64_t k) override { return k >> 16 == 0; }
	void succs(uint64_t k, std::vector<Succ> &o) override {
		o.clear();
		int l = loc(k), x = l % w, y = l / w;
		uint64_t mask = k >> 16;
		if (dirt[l] >= 0 && mask >> dirt[l] & 1)
			o.push_back(Succ{key(l, mask & ~(1ull << dirt[l])), 1});
		const int dx[] = {0, 0, -1, 1}, dy[] = {1, -1, 0, 0};
		for (int i = 0; i < 4; i++) {
			int nx = x + dx[i], ny = y + dy[i];
			if (nx < 0 || ny < 0 || nx >= w || ny >= h || t[ny*w+nx] == '#') continue;
			o.push_back(Succ{key(ny * w + nx, mask), 1});
		}
	}
};
}
void solver::genprob(Prob &p, bool) {
	p.drv = &drv_vacuum;
	auto m = std::make_shared<VModel>();
	m->w = 1 + draw(6), m->h = 1 + draw(6);
	int n = m->w * m->h, dens = draw(5), nd = draw(8) == 7 ? 0 : 1 + draw(4);
	m->t.assign(n, '_');
	m->dirt.assign(n, -1);
	for (int i = 0; i < n; i++)
		if ((int) draw(10) < dens) m->t[i] = '#';
	m->s = draw(n);
	m->t[m->s] = '@';
	// places that can be reached, for most of the dirt
	std::vector<int> q{m->s};
	std::vector<char> seen(n, 0);
	seen[m->s] = 1;
	std::vector<Succ> o;
	for (size_t i = 0; i < q.size(); i++) {
		m->succs(m->key(q[i], 0), o);
		for (auto &x : o) { int l = m->loc(x.key); if (!seen[l]) { seen[l] = 1; q.push_back(l); } }
	}
	for (int i = 0; i < nd; i++) {
		int l = draw(8) == 7 ? draw(n) : q[draw(q.size())];
		if (m->t[l] == '_') m->t[l] = '*';
	}
	for (int i = 0; i < n; i++)
		if (m->t[i] == '*') m->dirt[i] = m->nd++;
	p.inst = strf("%d\n%d\n", m->w, m->h);
	for (int y = 0; y < m->h; y++) {
		for (int x = 0; x < m->w; x++) p.inst += m->t[y*m->w+x];
		p.inst += "\n";
	}
	p.model = m;
	p.consistent = false;
	p.idamax = 9;
	p.desc = strf("vacuum %dx%d dirt=%d", m->w, m->h, m->nd);
}

// ---------------------------------------------------------------- S12
// The plan that vacuum_cs730 prints, carried out move by move.
#include "df.hpp"
#include <cmath>
extern "C" int vcs730_main(int, const char **);
namespace {
void S12_cs730() {
	nofaults();
	Prob p;
	genprob(p, false);
	VModel &m = static_cast<VModel &>(*p.model);
	const char *algs[] = { "astar", "wastar", "greedy", "speedy", "astar" };
	std::vector<std::string> a{"vacuum_cs730", algs[draw(5)]};
	if (a[1] == "wastar") a.insert(a.end(), {"-wt", "2"});
	ProcOpts o;
	o.in = p.inst;
	o.inchunk = draw(3) == 2 ? 1 + draw(9) : 0;
	o.name = "vacuum_cs730";
	mem.fill = draw(4);
	ProcP s;	// the solver's own account
	{
		ProcOpts o2 = o;
		std::vector<std::string> b = a;
		b[0] = o2.name = "vacuum_solver";
		s = run(o2, mainbody(drv_vacuum.main, b));
	}
	bool flt = draw(2);
	if (flt) {
		drawfaults(FWrite | FShort | (draw(3) == 2 ? FRead : 0));
		faults.sout = true;
		const int bufs[] = { -1, 1, 100, 0 };
		o.outbuf = bufs[draw(4)];
	}
	describe("vacuum_cs730 %s %s", a[1].c_str(), p.desc.c_str());
	ProcP r = run(o, mainbody(vcs730_main, a));
	bool hit = r->sawfault;
	nofaults();
	faults.sout = false;
	if (r->status != Exited || !s->ok()) {
		violate("S12.crash", "%s%s%s", r->what.c_str(), s->what.c_str(), s->err.c_str());
		return;
	}
	nontrivial();
	if (r->code != 0) {
		if (!hit) violate("S12.failed", "%s", r->err.c_str());
		if (r->err.empty()) violate("S12.silent", "fails without a message");
		return;
	}
	DfFile df = dfparse(s->out);
	int l = m.s;
	uint64_t mask = (1ull << m.nd) - 1;
	size_t steps = 0;
	double gend = -1, expd = -1;
	std::string out = r->out;
	for (size_t i = 0; i < out.size(); ) {
		size_t e = out.find('\n', i);
		if (e == std::string::npos) e = out.size();
		std::string w = out.substr(i, e - i);
		i = e + 1;
		int x = l % m.w, y = l / m.w;
		if (w.find("nodes generated") != std::string::npos) { gend = atof(w.c_str()); continue; }
		if (w.find("nodes expanded") != std::string::npos) { expd = atof(w.c_str()); continue; }
		steps++;
		if (w == "V") {
			if (m.dirt[l] < 0 || !(mask >> m.dirt[l] & 1)) {
				violate("S12.plan", "step %zu cleans what is not dirty [%s]", steps, p.desc.c_str());
				return;
			}
			mask &= ~(1ull << m.dirt[l]);
			continue;
		}
		x += (w == "E") - (w == "W"), y += (w == "S") - (w == "N");
		if ((w != "E" && w != "W" && w != "S" && w != "N") || x < 0 || y < 0 || x >= m.w || y >= m.h || m.t[y * m.w + x] == '#') {
			violate("S12.plan", "step %zu, '%s', cannot be taken [%s]", steps, w.c_str(), p.desc.c_str());
			return;
		}
		l = y * m.w + x;
	}
	double cost = df.num("final sol cost");
	if (expd != df.num("total nodes expanded") || gend != df.num("total nodes generated"))
		violate("S12.counts", "exits 0, says %g expanded %g generated, the solver %g and %g [%s]", expd, gend, df.num("total nodes expanded"), df.num("total nodes generated"), p.desc.c_str());
	else if (cost >= 0 ? steps != cost || mask : steps != 0)
		violate("S12.plan", "the plan has %zu steps and leaves dirt %lx, the solution costs %g [%s]", steps, (unsigned long) mask, cost, p.desc.c_str());
}
SCENARIO("S12", S12_cs730);
}
