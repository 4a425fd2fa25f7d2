#include <cerrno>
#include <cstring>
#define main visnav_main
#include "visnav/main.cc"
#undef main
#include "driver.hpp"
template <> struct KeyOf<VisNav> {
	static uint64_t key(VisNav::State &s0) {
		VisNav::State s = s0;
		alignas(VisNav) static char dummy[sizeof(VisNav)];
		VisNav::PackedState p;
		((VisNav *) dummy)->pack(p, s);
		return p.hash((VisNav *) dummy);	// the vertex number
	}
};
static VisNav *mk(FILE *f) {
	VisGraph g(f);
	double x0, y0, x1, y1;
	if (fscanf(f, " %lg %lg %lg %lg", &x0, &y0, &x1, &y1) != 4)
		fatal("no start and goal");
	return new VisNav(g, x0, y0, x1, y1);
}
// polygon map to polygon map with visibility graph, like visnav/mkgraph
std::string visnavgraph(const std::string &map) {
	sim::DomainCode dc("making a visibility graph");
	FILE *f = fmemopen((void *) map.data(), map.size(), "r");
	PolyMap pm(f);
	fclose(f);
	VisGraph g(pm);
	char *buf = NULL;
	size_t n = 0;
	f = open_memstream(&buf, &n);
	g.output(f);
	fclose(f);
	std::string s(buf, n);
	free(buf);
	return s;
}
static solver::ModelP self(FILE *f) { sim::DomainCode dc("reading an instance"); return std::make_shared<SelfModel<VisNav>>(mk(f)); }
extern const solver::Driver drv_visnav;
const solver::Driver drv_visnav = { "visnav", visnav_main, drvcapture<VisNav>, drvreuse<VisNav, mk>, self };
