#include <cerrno>
#include <cstring>
#define main gridnav_main
#include "gridnav/main_gridnav.cc"
#undef main
#include "driver.hpp"
template <> struct KeyOf<GridNav> {
	static uint64_t key(GridNav::State &s) { return s.getLoc(); }
};
static GridNav *mk(FILE *f) {
	GridMap *m = new GridMap(f);
	unsigned int x0, y0, xg, yg;
	if (fscanf(f, " %u %u %u %u", &x0, &y0, &xg, &yg) != 4)
		fatal("no start and goal");
	return new GridNav(m, x0, y0, xg, yg);
}
extern const solver::Driver drv_gridnav;
const solver::Driver drv_gridnav = { "gridnav", gridnav_main, drvcapture<GridNav>, drvreuse<GridNav, mk>, nullptr };
