#include <cerrno>
#include <cstring>
#define main tiles_main
#include "utils/utils.hpp"
#include "tiles/main_mdist.cc"
#undef main
#include "driver.hpp"
template <> struct KeyOf<TilesMdist> {
	static uint64_t key(TilesMdist::State &s0) {
		TilesMdist::State s = s0;	// pack writes to the state
		alignas(TilesMdist) static char dummy[sizeof(TilesMdist)];
		TilesMdist::PackedState p;
		((TilesMdist *) dummy)->pack(p, s);
		unsigned md[Tiles::Ntiles][Tiles::Ntiles] = {};
		Tiles::Tile ts[Tiles::Ntiles];
		Tiles::Cost h = 0;
		p.unpack_md(md, ts, &h);
		uint64_t k = 0;
		for (int i = 0; i < Tiles::Ntiles; i++)
			k = k * 16 + ts[i];
		return k;
	}
};
static TilesMdist *mk(FILE *f) { return new TilesMdist(f); }
extern const solver::Driver drv_tiles;
const solver::Driver drv_tiles = { "tiles", tiles_main, drvcapture<TilesMdist>, drvreuse<TilesMdist, mk>, nullptr };
