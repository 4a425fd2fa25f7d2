#include <cerrno>
#include <cstring>
#define main vacuum_main
#include "vacuum/main.cc"
#undef main
#include "driver.hpp"
template <> struct KeyOf<Vacuum> {
	static uint64_t key(Vacuum::State &s) {
		uint64_t k = 0;
		for (size_t i = 0; i < s.dirt->size(); i++)
			if (s.dirt->at(i)) k |= 1ull << i;
		return k << 16 | s.loc;
	}
};
static Vacuum *mk(FILE *f) { return new Vacuum(f); }
extern const solver::Driver drv_vacuum;
const solver::Driver drv_vacuum = { "vacuum", vacuum_main, drvcapture<Vacuum>, drvreuse<Vacuum, mk>, nullptr };
