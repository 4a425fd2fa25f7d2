#include <cerrno>
#include <cstring>
#define main traffic_main
#include "traffic/main_traffic.cc"
#undef main
#include "driver.hpp"
template <> struct KeyOf<Traffic> {
	static uint64_t key(Traffic::State &s0) {
		Traffic::State s = s0;
		alignas(Traffic) static char dummy[sizeof(Traffic)];
		Traffic::PackedState p;
		((Traffic *) dummy)->pack(p, s);
		return (uint64_t) p.t << 32 | p.loc;
	}
};
static Traffic *mk(FILE *f) { return new Traffic(f); }
#include "df.hpp"
static bool replay(FILE *inst, const char *out, std::vector<uint64_t> &keys, std::string &err) {
	Traffic *d = mk(inst);
	std::string c;
	if (!dfparse(drvtext(out)).get("controls", c)) { err = "there are no controls"; return false; }
	std::vector<unsigned> v = controlvec(c);
	return drvapply(d, std::vector<Traffic::Oper>(v.begin(), v.end()), keys, err);
}
extern const solver::Driver drv_traffic;
const solver::Driver drv_traffic = { "traffic", traffic_main, drvcapture<Traffic>, drvreuse<Traffic, mk>, nullptr, replay };
