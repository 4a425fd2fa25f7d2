#include <cerrno>
#include <cstring>
#define main drobot_main
#include "drobot/main.cc"
#undef main
#include "driver.hpp"
std::string drobotcanon(int rloc, int rbox, std::vector<std::vector<int>> cranes, std::vector<std::vector<std::vector<int>>> piles);
uint64_t drobotkey(const std::string &);
template <> struct KeyOf<DockRobot> {
	static uint64_t key(DockRobot::State &s) {
		std::vector<std::vector<int>> cr;
		std::vector<std::vector<std::vector<int>>> pl;
		for (auto &l : s.locs) {
			cr.push_back(std::vector<int>(l.cranes.begin(), l.cranes.end()));
			pl.push_back({});
			for (auto &p : l.piles)
				pl.back().push_back(std::vector<int>(p.stack.begin(), p.stack.end()));
		}
		return drobotkey(drobotcanon(s.rloc, s.rbox, cr, pl));
	}
};
static DockRobot *mk(FILE *f) { return new DockRobot(f); }
extern const solver::Driver drv_drobot;
const solver::Driver drv_drobot = { "drobot", drobot_main, drvcapture<DockRobot>, drvreuse<DockRobot, mk>, nullptr };
