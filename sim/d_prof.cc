#include "prof.hpp"
#include "search/anyprof/profile.hpp"
namespace sim { struct OffSut { int s; OffSut(); ~OffSut(); }; }
namespace prof {
static int view(const AnytimeProfile &p, const Ask &a, View &v) {
	AnytimeMonitor mon(p, a.wf, a.wt);
	std::vector<char> stops;
	for (unsigned i = 0; i < a.at.size(); i++) stops.push_back(mon.stop(a.at[i].cost, a.at[i].time));
	sim::OffSut off;
	v.ncost = p.ncost, v.ntime = p.ntime;
	v.ext[0] = p.mincost, v.ext[1] = p.maxcost, v.ext[2] = p.mintime, v.ext[3] = p.maxtime;
	for (unsigned q2 = 0; q2 < p.ncost; q2++)
		for (unsigned q1 = 0; q1 < p.ncost; q1++)
			for (unsigned t = 0; t < p.ntime; t++) v.probs.push_back(p.binprob(q2, q1, t));
	for (unsigned q = 0; q < p.ncost; q++)
		for (unsigned t = 0; t < p.ntime; t++) v.counts.push_back(p.qtcount(q, t));
	v.stops.assign(stops.begin(), stops.end());
	v.done = true;
	return 0;
}
int loadview(const std::string &path, const Ask &a, View &v) {
	AnytimeProfile p(path);
	return view(p, a, v);
}
int makeview(unsigned nc, unsigned nt, const std::vector<std::vector<Sol>> &s, const Ask &a, View &v) {
	std::vector<AnytimeProfile::SolutionStream> ss;
	for (unsigned i = 0; i < s.size(); i++) {
		AnytimeProfile::SolutionStream st;
		for (unsigned j = 0; j < s[i].size(); j++) {
			AnytimeProfile::Solution sol;
			sol.cost = s[i][j].cost, sol.time = s[i][j].time;
			st.push_back(sol);
		}
		ss.push_back(st);
	}
	AnytimeProfile p(nc, nt, ss);
	return view(p, a, v);
}
}
