// A01: anytime profiles, made by mkprof from results in a database.
#include "sim.hpp"
#include "df.hpp"
#include "prof.hpp"
#include <cmath>
#include <algorithm>
using namespace sim;
using namespace prof;
extern "C" int mkprof_main(int, const char **);
typedef std::vector<std::string> Strs;
static std::string rowtext(const std::vector<Sol> &st, const std::vector<Strs> &txt, bool old) {
	std::string nm = old ? "sol" : "incumbent";
	std::string s = "#start data file format 4\n" + dfpairline("alg", "arastar") + "\n";
	s += "#altcols  \"" + nm + "\"\t\"num\"\t\"nodes expanded\"\t\"nodes generated\"\t\"weight\"\t\"solution bound\"\t\"solution cost\"\t\"wall time\"\n";
	for (size_t i = 0; i < st.size(); i++)
		s += "#altrow  \"" + nm + strf("\"\t%zu\t%zu\t%zu\t%g\t%g\t%s\t%s\n", i + 1, 10 * i + 3, 20 * i + 5, 3.0 / (i + 1), 3.0 / (i + 1), txt[i][0].c_str(), txt[i][1].c_str());
	return s + dfpairline("final sol cost", st.size() ? txt.back()[0] : "-1") + "\n#end data file format 4\n";
}
static std::string put(const std::string &root, const std::vector<std::pair<std::string, std::string>> &attrs, const std::string &data) {
	std::string path = root;
	for (auto &a : attrs) {
		fs.mkdirs(path);
		fs.write(path + "/KEY=" + a.first, "");
		path += "/" + a.second;
	}
	fs.write(path, data);
	return path;
}
// the definition of a profile, worked out separately
static void model(unsigned nc, unsigned nt, const std::vector<std::vector<Sol>> &ss, View &v) {
	double q0 = INFINITY, q1 = -INFINITY, t0 = INFINITY, t1 = -INFINITY;
	for (auto &s : ss) for (auto &x : s) q0 = std::min(q0, x.cost), q1 = std::max(q1, x.cost), t0 = std::min(t0, x.time), t1 = std::max(t1, x.time);
	auto qbin = [&](double c) { return c == q1 ? nc - 1 : std::min(nc - 1, (unsigned) ((c - q0) / ((q1 - q0) / nc))); };
	auto tbin = [&](double d) { return d == t1 - t0 ? nt - 1 : std::min(nt - 1, (unsigned) (d / ((t1 - t0) / nt))); };
	std::vector<unsigned> qt(nc * nt, 0), qqt(nc * nc * nt, 0);
	for (auto &s : ss)
		for (size_t i = 0; i < s.size(); i++)
			for (unsigned d = 0; d < nt; d++) {	// what is the incumbent d steps after solution i?
				size_t k = i;
				for (size_t j = i + 1; j < s.size(); j++)
					if (tbin(s[j].time - s[i].time) <= d) k = j;
				qt[qbin(s[i].cost)*nt + d]++;
				qqt[qbin(s[k].cost)*nc*nt + qbin(s[i].cost)*nt + d]++;
			}
	std::vector<double> pr(nc * nc * nt, 0);
	double small = INFINITY;
	for (unsigned a = 0; a < nc; a++) for (unsigned d = 0; d < nt; d++)
		if (qt[a*nt+d]) for (unsigned b = 0; b < nc; b++) {
			double &p = pr[b*nc*nt + a*nt + d];
			p = qqt[b*nc*nt + a*nt + d] / (double) qt[a*nt+d];
			if (p > 0) small = std::min(small, p);
		}
	for (unsigned a = 0; a < nc; a++) for (unsigned d = 0; d < nt; d++) {
		double sum = 0;
		for (unsigned b = 0; b <= a; b++) sum += pr[b*nc*nt + a*nt + d] += small / 2;
		for (unsigned b = 0; b <= a; b++) pr[b*nc*nt + a*nt + d] /= sum;
	}
	v.ncost = nc, v.ntime = nt;
	v.ext[0] = q0, v.ext[1] = q1, v.ext[2] = t0, v.ext[3] = t1;
	v.probs = pr;
	v.counts = qt;
}
static std::string differ(const View &a, const View &b, double tol) {
	if (a.ncost != b.ncost || a.ntime != b.ntime) return strf("%ux%u bins, not %ux%u", a.ncost, a.ntime, b.ncost, b.ntime);
	for (int i = 0; i < 4; i++)
		if (a.ext[i] != b.ext[i]) return strf("extent %d is %.17g, not %.17g", i, a.ext[i], b.ext[i]);
	for (size_t i = 0; i < a.counts.size(); i++)
		if (a.counts[i] != b.counts[i]) return strf("count %zu is %u, not %u", i, a.counts[i], b.counts[i]);
	for (size_t i = 0; i < a.probs.size(); i++)
		if (!(fabs(a.probs[i] - b.probs[i]) <= tol)) return strf("probability %zu is %.17g, not %.17g", i, a.probs[i], b.probs[i]);
	if (tol == 0)
		for (size_t i = 0; i < a.stops.size(); i++)
			if (a.stops[i] != b.stops[i]) return strf("decision %zu is %s", i, a.stops[i] ? "stop" : "go");
	return "";
}
static void A01_profiles() {
	nofaults();
	mem.fill = draw(3);
	unsigned nc = 1 + draw(6), nt = 1 + draw(6);
	std::vector<std::vector<Sol>> ss;
	int nf = 1 + draw(4), nsol = 0;
	std::vector<std::string> texts;
	bool old = draw(4) == 3;
	int style = draw(3);
	for (int i = 0; i < nf; i++) {
		std::vector<Sol> s;
		std::vector<Strs> txt;
		int n = draw(5);
		double c = 40 + draw(60), t = 0;
		for (int j = 0; j < n; j++) {
			Strs x;
			c -= style == 1 ? draw(1000) / 64.0 : style == 2 ? (1 + draw(9)) / 7.0 : draw(8);
			t += style == 0 ? 1 + draw(5) : draw(50) / 1000.0;
			x.push_back(strf("%g", c)), x.push_back(strf("%g", t));
			s.push_back(Sol{atof(x[0].c_str()), atof(x[1].c_str())});
			txt.push_back(x);
			nsol++;
		}
		texts.push_back(rowtext(s, txt, old));
		ss.push_back(s);
	}
	describe("%d files %d solutions, %ux%u bins ", nf, nsol, nc, nt);
	std::vector<std::string> paths;
	for (int i = 0; i < nf; i++) paths.push_back(put("/db", {{"alg", "arastar"}, {"inst", strf("%d", i)}}, texts[i]));
	if (draw(2)) put("/db", {{"alg", "astar"}, {"inst", "0"}}, rowtext({Sol{1, 100}}, {Strs{"1", "100"}}, old));
	std::string path = strf("/db/arastar.profile/UNSPECIFIED/%u/%u", nc, nt);
	Strs args{"mkprof", "/db", strf("%u", nc), strf("%u", nt), "alg=arastar"};
	auto mk = [&](ProcOpts o) { o.name = "mkprof"; return run(o, mainbody(mkprof_main, args)); };
	auto mkstart = [&](ProcOpts o) { o.name = "mkprof"; return spawn(o, mainbody(mkprof_main, args)); };
	ProcP m = mk(ProcOpts());
	if (nsol == 0) {
		if (m->status != Exited || m->code == 0) violate("A01.empty", "mkprof without solutions ended as %s %d", statusname(m->status), m->code);
		return;
	}
	if (!m->ok()) { violate("A01.mkprof", "mkprof ended as %s %d %s %s", statusname(m->status), m->code, m->what.c_str(), m->err.c_str()); return; }
	// the file handed out by the results database for these attributes
	std::string whole;
	std::vector<std::string> saved;
	for (auto &f : fs.files()) if (f.compare(0, 20, "/db/arastar.profile/") == 0 && f.find("/KEY=") == f.npos) saved.push_back(f);
	if (saved.size() != 1 || !fs.read(saved[0], whole)) { violate("A01.place", "%zu files where the profile goes", saved.size()); return; }
	path = saved[0];
	Ask ask;
	ask.wf = (1 + draw(20)) / 4.0, ask.wt = (1 + draw(20)) / 4.0;
	View want, mem_, got;
	model(nc, nt, ss, want);
	for (int i = 0; i < 20; i++)
		ask.at.push_back(Sol{want.ext[0] + (want.ext[1] - want.ext[0]) * (draw(26) - 2) / 22.0, want.ext[2] + (want.ext[3] - want.ext[2]) * (draw(26) - 2) / 22.0});
	ProcOpts po;
	po.name = "profile";
	auto load = [&](View &v, ProcOpts o) { o.name = "load"; return run(o, [&]() { return loadview(path, ask, v); }); };
	ProcP p = run(po, [&]() { return makeview(nc, nt, ss, ask, mem_); });
	if (!p->ok()) { violate("A01.make", "making a profile ended as %s %d %s", statusname(p->status), p->code, p->what.c_str()); return; }
	std::string d = differ(mem_, want, 1e-9);
	if (d.size()) { violate("A01.profile", "the profile is not what the solutions say: %s", d.c_str()); return; }
	p = load(got, po);
	if (!p->ok()) { violate("A01.load", "loading the profile ended as %s %d %s %s", statusname(p->status), p->code, p->what.c_str(), p->err.c_str()); return; }
	d = differ(got, mem_, 0);
	if (d.size()) { violate("A01.roundtrip", "the loaded profile is not the saved one: %s", d.c_str()); return; }
	// now with something going wrong
	auto judge = [&](const char *cls, const char *what, const ProcP &q, const View &v) {
		if (q->status == Crashed || q->status == Hung) { violate(strf("%s.%s", cls, statusname(q->status)), "%s: %s %s", what, statusname(q->status), q->what.c_str()); return; }
		if (!v.done || q->code != 0) return;
		std::string d = differ(v, mem_, 0);
		if (d.size()) violate(cls, "%s is accepted: %s", what, d.c_str());
	};
	switch (draw(4)) {
	case 0: {	// a damaged file
		size_t n = draw(whole.size());
		if (draw(3) == 2) n = whole.size() - 1 - draw(std::min<size_t>(30, whole.size()));
		fs.write(path, whole.substr(0, n));
		count("fault.truncate");
		nontrivial();
		View v;
		ProcP q = load(v, po);
		judge("A01.cut", strf("a profile cut to %zu of %zu bytes", n, whole.size()).c_str(), q, v);
		if (q->ok()) violate("A01.cut", "a profile cut to %zu of %zu bytes is accepted", n, whole.size());
		break;
	}
	case 1: {	// read failures
		faults.read = 100 + draw(900);
		faults.shortio = draw(2) ? 500 : 0;
		faults.budget = 1 + draw(2);
		View v;
		ProcP q = load(v, po);
		nofaults();
		if (q->sawfault) nontrivial();
		judge("A01.read", "a profile that was read with errors", q, v);
		break;
	}
	case 2: case 3: {	// saving again after other results arrived, killed, failing or beside another
		bool keep = draw(2);
		int err;
		if (!keep) fs.resolve("/db", true, err)->remove("arastar.profile");
		ProcOpts o;
		int k = draw(3);
		if (k == 0) o.killcall = 1 + draw(std::max<uint64_t>(2, m->calls + 3));
		if (k == 1) {
			int w = draw(4);
			if (w == 0) drawfaults(FWrite | FOpen | FMeta | FClose | FShort | FStat | FDir | FRead);
			else { (w == 1 ? faults.write : w == 2 ? faults.close : faults.meta) = 400; faults.nospace = draw(2); faults.budget = 1 + draw(3); }
			faults.sout = false;
		}
		std::vector<ProcP> qs;
		if (k == 2) {
			switchpct = 10 + draw(80);
			for (int i = 0; i < 2; i++) {
				ProcOpts x;
				if (draw(3) == 2) x.killcall = 1 + draw(std::max<uint64_t>(2, m->calls + 3));
				qs.push_back(mkstart(x));
			}
			runall();
		} else
			qs.push_back(mk(o));
		nofaults();
		static const char *ks[] = { "killed", "failing", "concurrent" };
		bool anyok = false;
		for (auto &q : qs) {
			if (q->status == Crashed || q->status == Hung) violate(strf("A01.mkprof.%s", statusname(q->status)), "%s mkprof: %s %s", ks[k], statusname(q->status), q->what.c_str());
			if (q->sawfault || q->status == Killed || k == 2) nontrivial();
			anyok |= q->ok();
			if (q->status == Exited && q->code != 0 && !q->sawfault) violate("A01.refused", "%s mkprof failed without a fault: %s", ks[k], q->err.c_str());
		}
		std::string now;
		bool there = fs.read(path, now);
		bool opened = k == 1 && qs[0]->sawfault;	// a result that could not be opened is left out, with a warning
		if (there && now != whole && !(opened && qs[0]->err.size() && anyok)) violate("A01.torn", "%s mkprof leaves a profile of %zu bytes, not %zu", ks[k], now.size(), whole.size());
		if (!there && (keep || anyok)) violate("A01.lost", "%s mkprof %s, and there is no profile", ks[k], anyok ? "succeeded" : "failed");
		View v;
		if (there && now != whole) break;
		ProcP q = load(v, po);
		judge("A01.later", "the profile found afterwards", q, v);
		break;
	}
	}
}
SCENARIO("A01", A01_profiles);
