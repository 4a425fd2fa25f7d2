#include "graphdom.hpp"
#include "search/main.hpp"
#include "driver.hpp"
typedef Graph<double> G;
template <> struct KeyOf<G> { static uint64_t key(G::State &s) { return s.u; } };
static int graph_main(int argc, const char *argv[]) {
	dfheader(stdout);
	FILE *in = stdin;
	for (int i = 0; i < argc - 1; i++)
		if (strcmp(argv[i], "-lvl") == 0)
			in = fopen(argv[i+1], "r");
	G d(in);
	search<G>(d, argc, argv);
	dffooter(stdout);
	return 0;
}
static G *mk(FILE *f) { return new G(f); }
extern const solver::Driver drv_graphd;
const solver::Driver drv_graphd = { "graphd", graph_main, drvcapture<G>, drvreuse<G, mk>, nullptr };
