// C01: the containers against plain models, over histories of operations
// with allocations failing anywhere.
#include "sim.hpp"
#include "conts.hpp"
#include <set>
#include <map>
#include <algorithm>
#include <cmath>
using namespace sim;
using namespace conts;
static const char *kindnames[] = { "binary heap", "open list", "integer open list", "integer queue", "hash table", "closed list", "pool", "k-d tree" };
static const char *opnames[] = { "push", "pop", "front", "update", "clear", "append", "reinit", "rm", "find", "scan" };
struct C01w : Watch {
	Cfg c;
	std::vector<Op> ops;
	int n;				// number of elements in play
	std::set<int> in;		// elements in the container
	std::map<int, int> key;		// of tables
	std::map<int, std::pair<int, int>> pt;
	bool made = true, done = false;
	int failed = 0, every = 1;
	size_t most = 0;
	std::string where(int i) {
		std::string s = kindnames[c.kind];
		if (i < 0) return s;
		const Op &o = ops[i];
		return s + strf(" op %d: %s %d prio %d,%d, %zu in", i, opnames[o.op], o.e, o.prio, o.tie, in.size());
	}
	void bad(const char *cls, int i, const std::string &m) { violate(strf("C01.%s.%d", cls, c.kind), "%s: %s", where(i).c_str(), m.c_str()); }
	void before(int i) override { log("op %d", i); }
	void after(int i, bool threw, long ret, const std::vector<long> *scan) override {
		OffSut off;
		if (i < 0) { made = false; failed++; return; }
		if (threw) { failed++; log("op %d failed", i); }
		done = i + 1 == (int) ops.size();
		const Op &o = ops[i];
		int k = c.kind;
		bool table = k == KHtable || k == KClosed;
		switch (o.op) {
		case Push:
			if (threw) break;
			in.insert(o.e);
			if (table) key[o.e] = o.prio;
			pt[o.e] = {o.prio, o.tie};
			break;
		case Update:
			if (threw) { if (k == KOpenInt) in.erase(o.e); }
			else in.insert(o.e);
			break;
		case Append:
			if (!threw) for (int e : o.many) in.insert(e);
			break;
		case Clear: in.clear(); key.clear(); break;
		case Front:
			if (k == KHeap) best(i, ret, false);
			else if (k != KPool && (ret != 0) != in.empty()) bad("empty", i, strf("empty says %ld", ret));
			break;
		case Pop: if (!threw) best(i, ret, true); break;
		case Rm:
			if (k == KPool) { in.erase(o.e); if (!ret) bad("shared", i, "the object was overwritten while in use"); }
			else if (k == KIntpq) in.erase(o.e);
			else {
				bool have = false;
				for (int e : in) have |= key[e] == o.prio;
				if ((k == KHtable ? ret != 0 : ret >= 0) != have) bad("rm", i, strf("returned %ld for a key that is %sthere", ret, have ? "" : "not "));
				if (k == KClosed && ret >= 0) {
					if (!in.count(ret) || key[ret] != o.prio) bad("rm", i, strf("returned element %ld, which is not in or has another key", ret));
					in.erase(ret);
				}
				if (k == KHtable && have) {	// which one is the table's business: keys are unique here
					for (int e : in) if (key[e] == o.prio) { in.erase(e); break; }
				}
			}
			break;
		case Find:
			if (k == KPool) { if (!ret) bad("shared", i, "the object was overwritten while in use"); }
			else if (k == KKd) {
				double d = INFINITY;
				auto dist = [&](int e) { return hypot(pt[e].first - o.prio, pt[e].second - o.tie); };
				for (int e : in) d = std::min(d, dist(e));
				if (ret < 0 ? !in.empty() : !in.count(ret) || dist(ret) > d + 1e-9) bad("nearest", i, strf("returned %ld", ret));
			} else {
				bool have = false;
				for (int e : in) have |= key[e] == o.prio;
				if (ret < 0 ? have : !in.count(ret) || key[ret] != o.prio) bad("find", i, strf("returned %ld for a key that is %sthere", ret, have ? "" : "not "));
			}
			break;
		case Scan:
			if (!threw) {
				std::vector<long> s = *scan, m(in.begin(), in.end());
				std::sort(s.begin(), s.end());
				if (s != m) bad("scan", i, strf("iterating yields %zu elements", s.size()));
			}
			break;
		}
		most = std::max(most, in.size());
		if (i % every && !done && !threw) return;
		if (o.op == Clear) return;
		long sz = contsize(c);
		if (sz >= 0 && sz != (long) in.size()) bad("size", i, strf("size says %ld", sz));
		if (k == KHeap || k == KOpen || k == KOpenInt || k == KIntpq)
			for (int e = 0; e < n; e++) {
				bool m = in.count(e);
				if (elmem(c, e) != m) { bad("member", i, strf("element %d is %sin but recorded as %s (index %ld)", e, m ? "" : "not ", m ? "out" : "in", elind(e))); break; }
				if (m && k == KHeap && heapat(elind(e)) != e) { bad("index", i, strf("element %d is recorded at %ld", e, elind(e))); break; }
			}
	}
	void best(int i, long ret, bool take) {
		if (in.empty()) { if (ret >= 0) bad("order", i, strf("returned element %ld of nothing", ret)); return; }
		if (ret < 0 || !in.count(ret)) { bad("order", i, strf("returned %ld, which is not in", ret)); return; }
		for (int e : in) {
			bool less = elprio(e) < elprio(ret) || (c.kind == KOpenInt && elprio(e) == elprio(ret) && eltie(e) > eltie(ret));
			if (less) { bad("order", i, strf("returned element %ld (%d,%d) before element %d (%d,%d)", ret, elprio(ret), eltie(ret), e, elprio(e), eltie(e))); break; }
		}
		if (take) in.erase(ret);
	}
};
// The script is drawn before it runs; it has to know what will be in the
// container, so operations that need a member are drawn against the model
// as it would be without failures, and skipped at run time if that differs.
static void C01_containers() {
	nofaults();
	mem.fill = draw(4);
	C01w w;
	Cfg &c = w.c;
	c.kind = draw(NKinds);
	static const int prios[] = { 3, 12, 40, 150, 1000 };
	c.nprio = prios[draw(5)];
	static const int mods[] = { 1, 3, 17, 1000003 };
	c.hashmod = mods[draw(4)];
	static const unsigned sizes[] = { 1, 2, 7, 64, 1024 };
	c.initial = sizes[draw(5)];
	closedsz = 0;
	bool big = draw(24) == 23;
	w.n = big ? 600 : 1 + draw(40);
	w.every = big ? 37 : 1;
	int nops = big ? 1 + draw(1500) : 1 + draw(120);
	int pushy = 30 + draw(50);
	int k = c.kind;
	std::vector<int> all;
	for (int i = 0; i < nops; i++) {
		Op o;
		o.e = draw(w.n), o.prio = draw(c.nprio), o.tie = draw(c.nprio);
		bool grow = (int) draw(100) < pushy;
		int r = draw(20);
		switch (k) {
		case KHeap: o.op = grow ? Push : r < 9 ? Pop : r < 11 ? Front : r < 16 ? Update : r < 17 ? Reinit : r < 19 ? Append : Clear; break;
		case KOpen: case KOpenInt: o.op = grow ? Push : r < 9 ? Pop : r < 11 ? Front : r < 19 ? Update : Clear; break;
		case KIntpq: o.op = grow ? Push : r < 9 ? Pop : r < 11 ? Front : r < 19 ? Rm : Clear; break;
		case KHtable: case KClosed: o.op = grow ? Push : r < 8 ? Find : r < 15 ? Rm : r < 17 && k == KClosed ? Scan : r < 18 && k == KClosed ? Front : r < 19 ? Find : Clear; break;
		case KPool: o.op = grow ? Push : r < 10 ? Rm : Find; break;
		default: o.op = grow ? Push : r < 16 ? Find : Scan;
		}
		if (o.op == Append)
			for (int j = draw(6); j >= 0; j--) o.many.push_back(draw(w.n));
		w.ops.push_back(o);
	}
	int nf = draw(3);
	if (nf) mem.failAt = 1 + draw(big ? 200 : 40);
	if (nf == 2) mem.failAt2 = mem.failAt + 1 + draw(20);
	describe("%s initial=%u nprio=%d hashmod=%d ops=%d fail=%lu,%lu ", kindnames[k], c.initial, c.nprio, c.hashmod, nops, (unsigned long) mem.failAt, (unsigned long) mem.failAt2);
	struct Gate : Watch {	// decides at run time whether the next operation makes sense
		C01w &w;
		Gate(C01w &x) : w(x) { }
		void before(int i) override {
			OffSut off;
			Op &o = w.ops[i];
			int k = w.c.kind;
			bool m = w.in.count(o.e);
			auto unused = [&]() {	// the next element that is not in
				for (int j = 0; j < w.n; j++) if (!w.in.count((o.e + j) % w.n)) return (o.e + j) % w.n;
				return -1;
			};
			auto used = [&]() {
				if (w.in.empty()) return -1;
				auto it = w.in.lower_bound(o.e);
				return it == w.in.end() ? *w.in.begin() : *it;
			};
			switch (o.op) {
			case Push:
				if (m && (o.e = unused()) < 0) { o.op = k == KHeap || k == KOpen || k == KOpenInt || k == KIntpq ? Pop : k == KPool ? Rm : Find; if (k == KPool) o.e = used(); }
				if ((k == KHtable || k == KClosed) && o.op == Push)
					for (int e : w.in) if (w.key[e] == o.prio) { o.op = Find; break; }	// keys stay unique
				break;
			case Rm:
				if (k == KIntpq || k == KPool) if ((o.e = used()) < 0) { o.op = Push; o.e = 0; }
				break;
			case Find:
				if (k == KPool && (o.e = used()) < 0) { o.op = Push; o.e = 0; }
				break;
			case Append: {
				std::vector<int> v;
				for (int e : o.many) if (!w.in.count(e) && std::find(v.begin(), v.end(), e) == v.end()) v.push_back(e);
				o.many = v;
				break;
			}
			}
			w.before(i);
		}
		void after(int i, bool t, long r, const std::vector<long> *s) override { w.after(i, t, r, s); }
	} gate(w);
	uint64_t live = mem.live;
	ProcOpts po;
	po.name = "containers";
	ProcP p = run(po, [&]() { contrun(c, w.ops, gate); return 0; });
	count(("container." + std::string(kindnames[k])).c_str());
	if (w.failed) count("fault.alloc", w.failed);
	if (p->status != Exited || p->code != 0)
		violate(strf("C01.%s.%d", statusname(p->status), k), "%s ended as %s %d: %s%s", kindnames[k], statusname(p->status), p->code, p->what.c_str(), p->err.c_str());
	else if (w.made && !w.done) violate("C01.stopped", "script did not finish");
	else if (mem.live != live) violate(strf("C01.leak.%d", k), "%s keeps %ld bytes after it is gone", kindnames[k], (long) (mem.live - live));
	if (w.failed || w.most > 2) nontrivial();
}
SCENARIO("C01", C01_containers);
