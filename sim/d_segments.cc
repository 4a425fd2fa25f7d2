#include <cerrno>
#include <cstring>
#define main segments_main
#include "segments/main.cc"
#undef main
#include "driver.hpp"
template <> struct KeyOf<Segments> {
	static uint64_t key(Segments::State &s) {
		uint64_t h = (s.x & 63) | (s.y & 63) << 6;	// gen_segments.cc takes it apart
		for (size_t i = 0; i < s.poses.size(); i++) {
			auto &p = s.poses[i];
			h |= (uint64_t) ((p.x & 63) | (p.y & 63) << 6 | (p.rot & 63) << 12) << (12 + 18 * i);
		}
		return h;
	}
};
static Segments *mk(FILE *f) { return new Segments(f); }
// from what the program printed alone
static bool replay(FILE *, const char *out, std::vector<uint64_t> &keys, std::string &err) {
	FILE *f = fopen(out, "r");
	Segments::Solution sol = Segments::readdf(f, nullptr);
	fclose(f);
	if (sol.nangles <= 0 || sol.nangles > 1000 || sol.segs.size() > 100) { err = "the instance was not read back"; return false; }
	Segments *d = new Segments(sol.width, sol.height, sol.nangles, sol.segs);
	return drvapply(d, sol.ops, keys, err);
}
static solver::ModelP self(FILE *f) { sim::DomainCode dc("reading an instance"); return std::make_shared<SelfModel<Segments>>(mk(f)); }
extern const solver::Driver drv_segments;
const solver::Driver drv_segments = { "segments", segments_main, drvcapture<Segments>, drvreuse<Segments, mk>, self, replay };
