// Between the profile scenarios (harness) and the repository's profile code.
#pragma once
#include <string>
#include <vector>
namespace prof {
struct Sol { double cost, time; };
struct View {
	bool done = false;
	unsigned ncost = 0, ntime = 0;
	double ext[4] = {};
	std::vector<double> probs;		// by (later cost, cost, time)
	std::vector<unsigned> counts;
	std::vector<char> stops;		// at the asked points
};
struct Ask { double wf, wt; std::vector<Sol> at; };
// load a saved profile, or make one in memory
int loadview(const std::string &path, const Ask &, View &);
int makeview(unsigned nc, unsigned nt, const std::vector<std::vector<Sol>> &, const Ask &, View &);
}
