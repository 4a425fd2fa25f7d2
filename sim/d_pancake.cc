#include <cerrno>
#include <cstring>
#define main pancake_main
#include "pancake/main.cc"
#undef main
#include "driver.hpp"
template <> struct KeyOf<Pancake> {
	static uint64_t key(Pancake::State &s) {
		// a state is first of all its cakes, from the top
		const int *c = (const int *) &s;
		uint64_t k = 0;
		for (int i = 0; i < Pancake::Ncakes; i++)
			k = k * 16 + c[i];
		return k;
	}
};
static Pancake *mk(FILE *f) { return new Pancake(f); }
extern const solver::Driver drv_pancake;
const solver::Driver drv_pancake = { "pancake", pancake_main, drvcapture<Pancake>, drvreuse<Pancake, mk>, nullptr };
