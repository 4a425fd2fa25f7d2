#include <cerrno>
#include <cstring>
#define main plat2d_main
#include "plat2d/main.cc"
#undef main
#define DRVGET get
#include "driver.hpp"
template <> struct KeyOf<Plat2d> {
	static uint64_t key(Plat2d::State &s0) {
		Plat2d::State s = s0;
		alignas(Plat2d) static char dummy[sizeof(Plat2d)];
		Plat2d::PackedState p;
		((Plat2d *) dummy)->pack(p, s);
		uint64_t h = p.jframes;
		for (double v : {p.x, p.y, p.dy}) {
			v += 0.0;	// no negative zero
			uint64_t u;
			memcpy(&u, &v, 8);
			h = (h ^ u) * 0x9e3779b97f4a7c15ull;
			h ^= h >> 29;
		}
		return h;
	}
};
static Plat2d *mk(FILE *f) { return new Plat2d(f); }
// The level's physics with all five controls; the domain object itself draws
// pictures and prints while it is built.
static void needtiles() {	// the checks' own context does not run the program's static constructors
	if (!tiles.istile('#')) new ((void *) &tiles) Tiles();
}
struct PlatModel : solver::Model {
	Lvl lvl;
	unsigned x0 = 0, y0 = 0, gx = 0, gy = 0;
	std::unordered_map<uint64_t, Player> st;
	uint64_t s0;
	uint64_t add(const Player &p) {
		Plat2d::State s(0, 0, 0, Player::Width, Player::Height);
		s.player = p;
		uint64_t k = KeyOf<Plat2d>::key(s);
		st.insert(std::make_pair(k, p));
		return k;
	}
	PlatModel(FILE *f) : lvl(f) {
		for (unsigned x = 0; x < lvl.width(); x++)
			for (unsigned y = 0; y < lvl.height(); y++) {
				if (lvl.at(x, y).tile.flags & Tile::Down) gx = x, gy = y;
				if (lvl.at(x, y).tile.flags & Tile::Up) x0 = x, y0 = y;
			}
		Plat2d::State s(x0 * Tile::Width + Player::Offx, y0 * Tile::Height + Player::Offy, 0, Player::Width, Player::Height);
		s0 = add(s.player);
	}
	uint64_t start() override { return s0; }
	bool goal(uint64_t k) override {
		needtiles();
		sim::DomainCode dc("the level");
		Lvl::Blkinfo b = lvl.majorblk(st.at(k).body.bbox);
		return b.x == gx && b.y == gy;
	}
	void succs(uint64_t k, std::vector<solver::Succ> &out) override {
		out.clear();
		needtiles();
		static const unsigned ops[] = { Player::Left, Player::Right, Player::Jump, Player::Left | Player::Jump, Player::Right | Player::Jump };
		sim::DomainCode dc("generating successors");
		Player p = st.at(k);
		for (unsigned o : ops) {
			Player n = p;
			n.act(lvl, o);
			out.push_back(solver::Succ{add(n), 1});
		}
	}
};
// a state's x, y, dy, fall and jframes
bool platstate(solver::Model &m, uint64_t k, double v[5]) {
	auto &st = static_cast<PlatModel &>(m).st;
	auto it = st.find(k);
	if (it == st.end()) return false;
	Player &p = it->second;
	v[0] = p.body.bbox.min.x, v[1] = p.body.bbox.min.y, v[2] = p.body.dy, v[3] = p.body.fall, v[4] = p.jframes;
	return true;
}
static solver::ModelP self(FILE *f) { sim::DomainCode dc("reading an instance"); needtiles(); return std::make_shared<PlatModel>(f); }
extern const solver::Driver drv_plat2d;
const solver::Driver drv_plat2d = { "plat2d", plat2d_main, drvcapture<Plat2d>, drvreuse<Plat2d, mk>, self };
