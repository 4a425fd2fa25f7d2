// Grid maps in all three formats.
#include "sim.hpp"
#include "solver.hpp"
#include "utils/utils.hpp"
#include <cmath>
#include <cstdlib>
#include <algorithm>
#include "polycheck.hpp"
using namespace sim;
using namespace solver;
extern const Driver drv_gridnav;
namespace {
struct GModel : Model {
	int w, h, s, g;		// s, g: y*w+x without border
	std::vector<char> t;	// terrain by y*w+x: ' ' free, '#' blocked, or movingai letters
	int kind;		// 0 four-way, 1 eight-way, 2 octile
	bool life;
	uint64_t key(int l) { return (uint64_t) (l / w + 1) * (w + 2) + l % w + 1; }
	int loc(uint64_t k) { return (k / (w + 2) - 1) * w + k % (w + 2) - 1; }
	uint64_t start() override { return key(s); }
	bool goal(uint64_t k) override { return loc(k) == g; }
	bool step(int from, int x, int y) {
		if (x < 0 || y < 0 || x >= w || y >= h) return false;
		char a = t[from], b = t[y*w+x];
		if (b == '#' || b == '@' || b == 'O' || b == 'T') return false;
		if (a == 'W') return b == 'W';
		return b == ' ' || b == '.' || b == 'G' || b == 'S';
	}
	void succs(uint64_t k, std::vector<Succ> &o) override {
		o.clear();
		int l = loc(k), x = l % w, y = l / w;
		for (int dx = -1; dx <= 1; dx++)
			for (int dy = -1; dy <= 1; dy++) {
				if (!dx && !dy) continue;
				bool diag = dx && dy;
				if (diag && kind == 0) continue;
				if (!step(l, x + dx, y + dy)) continue;
				if (diag && kind == 2 && (!step(l, x + dx, y) || !step(l, x, y + dy))) continue;
				double c = diag ? sqrt(2.0) : 1;
				if (life) c *= h - 1 - y;
				o.push_back(Succ{key((y + dy) * w + x + dx), c});
			}
	}
};
}
void solver::genprob(Prob &p, bool solvpref) {
	p.drv = &drv_gridnav;
	p.canlvl = true;
	auto m = std::make_shared<GModel>();
	int fmt = draw(3);	// 0 ruml, 1 seed, 2 movingai
	int big = sim::thorough ? 20 : draw(4) == 3 ? 12 : 6;
	m->w = 1 + draw(big), m->h = 1 + draw(big);
	int n = m->w * m->h;
	m->kind = fmt == 2 ? 2 : draw(2);
	m->life = fmt == 2 ? false : draw(3) == 2;
	m->t.assign(n, fmt == 2 ? '.' : ' ');
	int dens = draw(6);	// tenths blocked
	std::string s;
	if (fmt == 1) {
		uint64_t seed = draw64();
		double prob = dens / 10.0;
		Rand rng(seed);
		for (int x = 0; x < m->w; x++)
			for (int y = 0; y < m->h; y++)
				if (rng.real() < prob) m->t[y*m->w+x] = '#';
		s = strf("seed %lu %d %d %.1f\n%s\n%s\n", (unsigned long) seed, m->w, m->h, prob, m->kind ? "Eightway" : "Fourway", m->life ? "Life" : "Unit");
	} else {
		const char *kinds = "@OTSWGW";
		for (int i = 0; i < n; i++)
			if ((int) draw(10) < dens) m->t[i] = fmt == 0 ? '#' : kinds[draw(7)];
	}
	std::vector<int> fr;
	auto open = [&](int i) { char c = m->t[i]; return c == ' ' || c == '.' || c == 'G'; };
	for (int i = 0; i < n; i++) if (open(i)) fr.push_back(i);
	if (fr.empty()) {
		if (fmt == 1) { genprob(p = Prob(), solvpref); return; }	// the seed blocked everything
		m->t[0] = fmt == 2 ? '.' : ' ';
		fr.push_back(0);
	}
	m->s = fr[draw(fr.size())];
	m->g = fr[fr.size() - 1 - draw(fr.size())];
	if (solvpref || draw(6)) {	// prefer a goal that can be reached
		std::vector<char> seen(n, 0);
		std::vector<int> q{m->s}, good;
		seen[m->s] = 1;
		std::vector<Succ> o;
		for (size_t i = 0; i < q.size(); i++) {
			if (open(q[i])) good.push_back(q[i]);
			m->succs(m->key(q[i]), o);
			for (auto &x : o) { int l = m->loc(x.key); if (!seen[l]) { seen[l] = 1; q.push_back(l); } }
		}
		m->g = good[good.size() - 1 - draw(good.size())];
	}
	if (fmt == 0) {
		s = strf("%d %d\nBoard:\n", m->h, m->w);
		for (int r = 0; r < m->h; r++) {
			for (int x = 0; x < m->w; x++) s += m->t[(m->h - 1 - r) * m->w + x];
			s += "\n";
		}
		s += m->life ? "Life\n" : "Unit\n";
		s += m->kind ? "Eight-way\n" : "Four-way\n";
	} else if (fmt == 2) {
		s = strf("type octile\nheight %d\nwidth %d\nmap\n", m->h, m->w);
		for (int y = 0; y < m->h; y++) {
			for (int x = 0; x < m->w; x++) s += m->t[y * m->w + x];
			s += "\n";
		}
	}
	s += strf("%d %d\t%d %d\n", m->s % m->w, m->s / m->w, m->g % m->w, m->g / m->w);
	p.inst = s;
	p.model = m;
	p.consistent = !m->life;
	p.intcost = m->kind == 0;
	p.idamax = m->life ? 0 : 8;
	p.desc = strf("gridnav %dx%d fmt=%d kind=%d life=%d", m->w, m->h, fmt, m->kind, m->life);
}

// Random start and goal for a map, seeded maps that can be solved, and maps out of pictures.
extern "C" int grandinst_main(int, const char **);
extern "C" int gmkseed_main(int, const char **);
extern "C" int ppm2grid_main(int, const char **);
extern "C" int g2poly_main(int, const char **);
bool solver::genmaker(Maker &m) {
	int kind = draw(4);
	if (kind == 3) {
		auto pic = polycheck::drawpic(9, 9);
		int w = pic[0].size() - 2, h = pic.size() - 2;
		m.name = "gridnav/2poly";
		m.main = g2poly_main;
		m.in = strf("type octile\nheight %d\nwidth %d\nmap\n", h, w);
		for (int y = 1; y <= h; y++) {
			for (int x = 1; x <= w; x++) m.in += pic[y][x] == '#' ? '@' : '.';
			m.in += "\n";
		}
		m.desc = strf("%dx%d", w, h);
		m.check = [pic](const std::vector<std::string> &ts) { return polycheck::judge(pic, ts[0]); };
	} else if (kind == 0) {
		Prob p;
		genprob(p, false);
		auto g = std::static_pointer_cast<GModel>(p.model);
		size_t end = p.inst.rfind('\n', p.inst.size() - 2) + 1;
		std::string map = p.inst.substr(0, end);
		m.name = "gridnav/randinst";
		m.main = grandinst_main;
		fs.write("/map", map);
		m.args = {"-m", "/map", "-s", strf("%u", draw(1000000))};
		m.solve = true;
		m.desc = p.desc;
		m.check = [g, map](const std::vector<std::string> &ts) -> std::string {
			const std::string &t = ts[0];
			if (t.compare(0, map.size(), map) != 0) return "does not begin with the map";
			unsigned x0, y0, x1, y1;
			int at = 0;
			if (sscanf(t.c_str() + map.size(), " %u %u %u %u %n", &x0, &y0, &x1, &y1, &at) != 4 || map.size() + at != t.size())
				return "does not end with two points: " + t.substr(map.size());
			for (auto &p : {std::make_pair(x0, y0), std::make_pair(x1, y1)}) {
				if (p.first >= (unsigned) g->w || p.second >= (unsigned) g->h) return strf("%u,%u is not on the map", p.first, p.second);
				char c = g->t[p.second * g->w + p.first];
				if (c != ' ' && c != '.' && c != 'G') return strf("%u,%u is blocked", p.first, p.second);
			}
			return "";
		};
	} else if (kind == 1) {
		m.name = "gridnav/mkseedinst";
		m.main = gmkseed_main;
		int w = 1 + draw(8), h = 1 + draw(8), pc = 1 + draw(9);
		if (w * h > 12) pc = std::min(pc, 5);
		unsigned long seed = draw(1000000);
		bool life = draw(2), eight = draw(2);
		m.args = {"-width", strf("%d", w), "-height", strf("%d", h), "-prob", strf("%.2f", pc * 0.05), "-seed", strf("%lu", seed)};
		if (life) m.args.push_back("-lifecost");
		if (eight) m.args.push_back("-eightway");
		m.solve = m.more = true;
		m.desc = strf("%dx%d prob %.2f life=%d eight=%d", w, h, pc * 0.05, life, eight);
		m.check = [=](const std::vector<std::string> &ts) -> std::string {
			unsigned long sd;
			unsigned a[6];
			double prob;
			char ways[32], costs[32];
			int at = 0;
			if (sscanf(ts[0].c_str(), "seed %lu %u %u %lg\n%10[a-zA-Z]\n%10[a-zA-Z]\n%u %u\n%u %u\n%n", &sd, &a[0], &a[1], &prob, ways, costs, &a[2], &a[3], &a[4], &a[5], &at) != 10 || at != (int) ts[0].size())
				return "not a seeded instance: " + ts[0].substr(0, 100);
			if (a[0] != (unsigned) w || a[1] != (unsigned) h || fabs(prob - pc * 0.05) > 1e-5) return "another size or probability than asked for";
			if (std::string(ways) != (eight ? "Eightway" : "Fourway") || std::string(costs) != (life ? "Life" : "Unit")) return "other moves or costs than asked for";
			GModel g;
			g.w = w, g.h = h, g.kind = eight, g.life = life;
			g.t.assign(w * h, ' ');
			Rand rng(sd);
			for (int x = 0; x < w; x++)
				for (int y = 0; y < h; y++)
					if (rng.real() < prob) g.t[y*w+x] = '#';
			for (int i = 2; i < 6; i += 2) {
				if (a[i] >= (unsigned) w || a[i+1] >= (unsigned) h) return "a point is not on the map";
				if (g.t[a[i+1] * w + a[i]] != ' ') return "a point is blocked";
			}
			g.s = a[3] * w + a[2], g.g = a[5] * w + a[4];
			std::vector<char> seen(w * h, 0);
			std::vector<int> q{g.s};
			seen[g.s] = 1;
			std::vector<Succ> o;
			for (size_t i = 0; i < q.size(); i++) {
				g.succs(g.key(q[i]), o);
				for (auto &x : o) { int l = g.loc(x.key); if (!seen[l]) { seen[l] = 1; q.push_back(l); } }
			}
			return seen[g.g] ? "" : "the goal cannot be reached from the start";
		};
	} else {
		m.name = "gridnav/ppm2grid";
		m.main = ppm2grid_main;
		int w = 1 + draw(8), h = 1 + draw(8);
		m.in = "P3\n";
		if (draw(2)) m.in += "# CREATOR: nobody\n";
		m.in += strf("%d %d", w, h);
		m.in += draw(2) ? "\n255\n" : " 255\n";
		std::string want = strf("%d %d\nBoard:\n", h, w);
		for (int y = 0; y < h; y++) {
			for (int x = 0; x < w; x++) {
				int c = draw(3);	// white, black, a colour that only is white in parts
				int r = c == 0 ? 255 : c == 1 ? 0 : draw(2) ? 255 : draw(255), g = c == 0 ? 255 : c == 1 ? 0 : 255, b = c == 0 ? 255 : c == 1 ? 0 : draw(255);
				m.in += strf("%d %d %d\n", r, g, b);
				want += c == 0 ? ' ' : '#';
			}
			want += "\n";
		}
		m.desc = strf("%dx%d", w, h);
		m.check = [want](const std::vector<std::string> &ts) -> std::string {
			return ts[0] == want ? "" : "another map than the picture: " + ts[0];
		};
	}
	return true;
}

// ---------------------------------------------------------------- T01
// The scenario solver: every entry of a scenario solved as if it were alone, or a failure.
#include "df.hpp"
#include <iostream>
#include <queue>
#include <map>
#include <ext/stdio_sync_filebuf.h>
extern "C" int scenario_main(int, const char **);
namespace {
typedef std::vector<std::string> Strs;
double cheapest(GModel &m) {
	std::map<uint64_t, double> g;
	typedef std::pair<double, uint64_t> E;
	std::priority_queue<E, std::vector<E>, std::greater<E>> q;
	q.push(E(0, m.start()));
	g[m.start()] = 0;
	std::vector<Succ> o;
	while (!q.empty()) {
		E e = q.top();
		q.pop();
		if (e.first > g[e.second]) continue;
		if (m.goal(e.second)) return e.first;
		m.succs(e.second, o);
		for (auto &s : o)
			if (!g.count(s.key) || e.first + s.cost < g[s.key]) {
				g[s.key] = e.first + s.cost;
				q.push(E(e.first + s.cost, s.key));
			}
	}
	return -1;
}
void T01_scenario() {
	nofaults();
	clk.nsPerTick = 1000;
	const char *roots[] = { "/maps", "/maps/", "maps", "" };
	std::string root = roots[draw(4)];
	std::string dir = root.empty() ? "./" : root.back() == '/' ? root : root + "/";
	fs.mkdirs("/w/maps");
	fs.mkdirs("/maps/sub");
	fs.mkdirs("/w/maps/sub");
	fs.mkdirs("/w/sub");
	// the maps
	struct M { std::string name, text; GModel m; };
	std::vector<M> ms(1 + draw(3));
	const char *names[] = { "arena.map", "sub/b.map", "50%s.map" }, *alike[] = { "a.map", "sub/a.map", "arena.map" };
	bool same = draw(3) == 2;	// names that end or begin alike
	for (size_t i = 0; i < ms.size(); i++) {
		GModel &m = ms[i].m;
		int big = sim::thorough ? 16 : 8;
		m.w = 1 + draw(big), m.h = 1 + draw(big), m.kind = 2, m.life = false;
		int dens = draw(6);
		const char *kinds = "@OTSWGW";
		m.t.assign(m.w * m.h, '.');
		for (auto &c : m.t)
			if ((int) draw(10) < dens) c = kinds[draw(7)];
		ms[i].name = same ? alike[i] : names[i];
		ms[i].text = strf("type octile\nheight %d\nwidth %d\nmap\n", m.h, m.w);
		for (int y = 0; y < m.h; y++) {
			for (int x = 0; x < m.w; x++) ms[i].text += m.t[y * m.w + x];
			ms[i].text += "\n";
		}
		fs.write(dir + ms[i].name, ms[i].text);
	}
	// the entries
	struct E { size_t map; unsigned bucket; int s, g; double opt, claim; };
	std::vector<E> es;
	int n = draw(7);
	bool lie = false;
	std::string in = draw(3) ? "version 1\n" : "version 1.0\n";
	size_t lastfrom = in.size();
	for (int i = 0; i < n; i++) {
		E e;
		e.map = draw(3) ? es.empty() ? 0 : es.back().map : draw(ms.size());
		GModel &m = ms[e.map].m;
		std::vector<int> fr;
		for (int l = 0; l < m.w * m.h; l++)
			if (m.t[l] == '.' || m.t[l] == 'G') fr.push_back(l);
		if (fr.empty()) continue;
		e.s = fr[draw(fr.size())], e.g = fr[draw(fr.size())];
		e.bucket = draw(9);
		m.s = e.s, m.g = e.g;
		e.opt = cheapest(m);
		e.claim = e.opt < 0 ? 0 : e.opt;
		if (draw(12) == 11) {	// a length that is not that of a shortest path
			e.claim += e.opt < 0 ? 5 : draw(2) && e.claim > 1 ? -0.5 : 0.5;
			lie = true;
		}
		es.push_back(e);
		lastfrom = in.size();
		in += strf("%u\t%s\t%d\t%d\t%d\t%d\t%d\t%d\t%.8f\n", e.bucket, ms[e.map].name.c_str(), m.w, m.h, e.s % m.w, e.s / m.w, e.g % m.w, e.g / m.w, e.claim);
	}
	n = es.size();
	const char *algs[] = { "astar", "astar-dump", "wastar", "astar", "bugsy" };
	Strs alg{algs[draw(5)]};
	if (alg[0] == "wastar") alg.insert(alg.end(), {"-wt", "1"});
	if (alg[0] == "bugsy") alg.insert(alg.end(), {"-wf", "1", "-wt", "0", "-noresort", "-x"});
	Strs args{"scenario_solver"};
	args.insert(args.end(), alg.begin(), alg.end());
	if (root.size()) args.insert(args.begin() + 2, {"-maproot", root});
	int only = -1;
	if (draw(4) == 3) {
		only = draw(n + 1);
		args.insert(args.begin() + 2, {"-entry", strf("%d", only)});
		lie = only < n && fabs(es[only].claim - std::max(0.0, es[only].opt)) > 0.1;
	}
	bool cut = n && draw(6) == 5;
	if (cut) {
		std::string last = in.substr(lastfrom);
		in.resize(lastfrom + 1 + draw(last.find_last_of('\t')));
	} else if (n && draw(4) == 3)
		in.pop_back();
	std::string want = "scenario solver " + alg[0];
	describe("%s of %d entries%s%s on %zu maps ", want.c_str(), n, cut ? ", the last is cut short," : "", lie ? " with a wrong optimum" : "", ms.size());
	ProcOpts o;
	o.name = "scenario_solver";
	o.in = in;
	o.inchunk = draw(3) == 2 ? 1 + draw(20) : 0;
	int flt = draw(4);
	if (flt == 1) drawfaults(FRead | FOpen | FShort);
	if (flt == 2) {
		drawfaults(FWrite | FShort);
		faults.sout = true;
		const int bufs[] = { -1, 1, 100, 0 };
		o.outbuf = bufs[draw(4)];
	}
	ProcP p = run(o, [args]() {
		// what the streams library does before main
		__gnu_cxx::stdio_sync_filebuf<char> in(stdin);
		std::cin.rdbuf(&in);
		std::cin.clear();
		return mainbody(scenario_main, args)();
	});
	bool hit = p->sawfault;
	nofaults();
	faults.sout = false;
	nontrivial();
	if (p->status != Exited) {
		violate("T01.crash", "%s: %s %s", want.c_str(), statusname(p->status), p->what.c_str());
		return;
	}
	if (p->code != 0) {
		if (!hit && !cut && !lie)
			violate("T01.failed", "fails on a good scenario: %s", p->err.c_str());
		if (p->err.empty())
			violate("T01.silent", "fails without a message");
		return;
	}
	if (cut) {
		violate("T01.cut", "succeeds although the last entry is cut short: '%s'", in.substr(lastfrom).c_str());
		return;
	}
	if (lie) {
		violate("T01.lie", "succeeds although an entry's optimum is wrong");
		return;
	}
	DfFile df = dfparse(p->out);
	Strs cols = df.cols("run");
	auto rows = df.rows("run");
	size_t nrows = only < 0 ? n : only < n ? 1 : 0;
	if (rows.size() != nrows || df.num("number of entries") != n) {
		violate("T01.rows", "succeeds with %zu rows of %zu and %g entries of %d", rows.size(), nrows, df.num("number of entries"), n);
		return;
	}
	auto col = [&](const std::vector<std::string> &r, const char *name) {
		for (size_t i = 0; i < cols.size(); i++)
			if (cols[i] == std::string("run ") + name) return i < r.size() ? atof(r[i].c_str()) : -12345.0;
		return -12345.0;
	};
	double expd = 0, gend = 0;
	for (size_t i = 0; i < rows.size(); i++) {
		int k = only < 0 ? i : only;
		E &e = es[k];
		GModel &m = ms[e.map].m;
		auto &r = rows[i];
		struct { const char *n; double v; } is[] = { {"num", (double) k}, {"bucket", (double) e.bucket}, {"width", (double) m.w}, {"height", (double) m.h},
			{"start x", (double) (e.s % m.w)}, {"start y", (double) (e.s / m.w)}, {"finish x", (double) (e.g % m.w)}, {"finish y", (double) (e.g / m.w)} };
		for (auto &c : is)
			if (col(r, c.n) != c.v) {
				violate("T01.entry", "row %zu says %s is %g, the entry %g", i, c.n, col(r, c.n), c.v);
				return;
			}
		if (fabs(col(r, "sol cost") - e.opt) > 1e-4 * (1 + e.opt)) {
			violate("T01.cost", "row %zu costs %g, the optimum is %g", i, col(r, "sol cost"), e.opt);
			return;
		}
		// the same search on its own
		Strs a2{"gridnav_solver"};
		a2.insert(a2.end(), alg.begin(), alg.end());
		ProcOpts o2;
		o2.name = "gridnav_solver";
		o2.in = ms[e.map].text + strf("%d %d\t%d %d\n", e.s % m.w, e.s / m.w, e.g % m.w, e.g / m.w);
		ProcP q = run(o2, mainbody(drv_gridnav.main, a2));
		DfFile d2 = dfparse(q->out);
		if (!q->ok()) {
			violate("T01.alone", "the entry alone fails: %s %s", q->what.c_str(), q->err.c_str());
			return;
		}
		struct { const char *n, *m; } same[] = { {"nodes expanded", "total nodes expanded"}, {"nodes generated", "total nodes generated"}, {"sol length", "final sol length"} };
		for (auto &c : same)
			if (alg[0] != "bugsy" && col(r, c.n) != d2.num(c.m)) {	// bugsy breaks ties by the clock
				violate("T01.differs", "entry %d: %s %g in the scenario, %g alone", k, c.n, col(r, c.n), d2.num(c.m));
				return;
			}
		expd += col(r, "nodes expanded");
		gend += col(r, "nodes generated");
	}
	if (df.num("total nodes expanded") != expd || df.num("total nodes generated") != gend)
		violate("T01.totals", "total %g expanded %g generated, the rows add up to %g and %g", df.num("total nodes expanded"), df.num("total nodes generated"), expd, gend);
}
SCENARIO("T01", T01_scenario);
}
