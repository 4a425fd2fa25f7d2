// Scenarios for the results database and the datafile tools.
#include "sim.hpp"
#include "tools.hpp"
#include "df.hpp"
#include <cstring>
#include <cmath>
#include <algorithm>
#include <set>
#include "utils/utils.hpp"
#include "rdb/rdb.hpp"

using namespace sim;
typedef std::vector<std::string> Strs;
typedef std::map<std::string, std::string> Attrs;

static ProcP tool(const char *name, std::function<int(int, const char **)> m, Strs args, ProcOpts o = ProcOpts()) {
	o.name = name;
	args.insert(args.begin(), name);
	return run(o, mainbody(m, args));
}
static ProcP start(const char *name, std::function<int(int, const char **)> m, Strs args, ProcOpts o = ProcOpts()) {
	o.name = name;
	args.insert(args.begin(), name);
	return spawn(o, mainbody(m, args));
}
static std::string chomp(std::string s) {
	while (s.size() && s.back() == '\n')
		s.pop_back();
	return s;
}
static Strs lines(const std::string &s) {
	Strs r;
	size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find('\n', i);
		if (j == std::string::npos) j = s.size();
		r.push_back(s.substr(i, j - i));
		i = j + 1;
	}
	return r;
}
static std::string join(const Strs &v, const char *sep = " ") {
	std::string r;
	for (size_t i = 0; i < v.size(); i++)
		r += (i ? sep : "") + v[i];
	return r;
}
static std::string astr(const Attrs &a) {
	std::string r;
	for (auto &e : a)
		r += (r.empty() ? "" : ",") + e.first + "=" + e.second;
	return r;
}

static const char *keynames[] = { "alg", "w", "inst", "type", "num of tiles" };
static const char *valnames[] = { "0", "1", "astar", "2.5", "MONKEY=1", "x y", ".hid", "KEYS" };

// draw an attribute map over the first nk keys; nv > 8 is for wide directories
static std::string drawval(int nv) {
	int v = draw(nv);
	return v < 8 ? valnames[v] : "v" + std::to_string(v);
}
static Attrs drawattrs(int nk, bool full, int nv) {
	Attrs a;
	for (int i = 0; i < nk; i++)
		if (full || chance(3, 4))
			a[keynames[i]] = i && nv > 8 ? valnames[draw(3)] : drawval(nv);
	if (a.empty())
		a[keynames[0]] = drawval(nv);
	return a;
}
static Strs attrargs(const Attrs &a, const Strs &order) {
	Strs r;
	for (auto &k : order) {
		auto it = a.find(k);
		if (it != a.end())
			r.push_back(k + "=" + it->second);
	}
	return r;
}
static Strs draworder(int nk) {
	Strs o;
	for (int i = 0; i < nk; i++)
		o.push_back(keynames[i]);
	for (size_t i = o.size(); i > 1; i--)
		std::swap(o[i - 1], o[i - 1 - draw(i)]);
	return o;
}
static const char *roots[] = { "/w/db", "db", "./db", "/w/MONKEY=3/db", "." , "a/b"};

static std::string twokeys() {
	std::string bad;
	std::function<void(InodeP, std::string)> rec = [&](InodeP d, std::string p) {
		int n = 0;
		std::string ks;
		for (auto &e : d->ents) {
			if (e.second->type == Dir)
				rec(e.second, p + "/" + e.first);
			else if (e.first.compare(0, 4, "KEY=") == 0) {
				n++;
				ks += " " + e.first;
			}
		}
		if (n > 1 && bad.empty())
			bad = p + ":" + ks;
	};
	rec(fs.root, "");
	return bad;
}

static void killplan(ProcOpts &o, int maxcalls) {
	if (chance(1, 3)) {
		o.killcall = 1 + draw(maxcalls);
		describe("kill@call%lu ", (unsigned long) o.killcall);
	}
}

// ------------------------------------------------------------------ R01
static void ensureroot(const std::string &root) {
	size_t s = root.rfind('/');
	if (s != std::string::npos && s > 0)
		fs.mkdirs(root.substr(0, s));
}

struct Known { Attrs a; std::string path; };

static void checkpath(std::vector<Known> &known, const Attrs &a, const ProcP &p, const char *cls) {
	std::string path = chomp(p->out);
	if (p->status == Crashed || p->status == Hung) {
		violate(strf("%s/%s", cls, statusname(p->status)), "pathfor %s: %s %s", astr(a).c_str(), statusname(p->status), p->what.c_str());
		return;
	}
	if (!p->ok()) {
		if (p->status == Exited && p->out.size())
			violate(strf("%s/failed-but-printed", cls), "pathfor %s exited %d but printed %s", astr(a).c_str(), p->code, path.c_str());
		if (p->status == Exited && p->err.empty())
			violate(strf("%s/silent-failure", cls), "pathfor %s exited %d with no message", astr(a).c_str(), p->code);
		if (p->status == Exited && !p->sawfault)
			violate(strf("%s/failed-without-fault", cls), "pathfor %s failed without a fault: %s", astr(a).c_str(), p->err.c_str());
		return;
	}
	if (path.empty() || lines(p->out).size() != 1) {
		violate(strf("%s/no-path", cls), "pathfor %s exited 0 printing '%s'", astr(a).c_str(), p->out.c_str());
		return;
	}
	for (auto &k : known) {
		if (k.a == a && k.path != path)
			violate(strf("%s/two-paths", cls), "attributes %s gave %s and then %s", astr(a).c_str(), k.path.c_str(), path.c_str());
		if (k.a != a && k.path == path)
			for (auto &e : k.a)
				if (a.count(e.first) && a.find(e.first)->second != e.second)
					violate(strf("%s/shared-path", cls), "%s and %s both gave %s", astr(a).c_str(), astr(k.a).c_str(), path.c_str());
	}
	known.push_back({a, path});
}

SCENARIO2("R01", r01_concurrent, 3) {
	int nk = drawrange(1, 4), nv = drawrange(2, 7);
	std::string root = roots[draw(6)];
	ensureroot(root);
	switchpct = 10 + draw(80);
	bool withfaults = chance(1, 2);
	describe("root %s keys %d; ", root.c_str(), nk);
	std::vector<Known> known;
	if (chance(1, 12)) {	// a wide directory to begin with
		nv = 60;
		Strs order = draworder(nk);
		for (int i = drawrange(10, 60); i > 0 && !violated(); i--) {
			Attrs a = drawattrs(nk, true, nv);
			Strs args = attrargs(a, order);
			args.insert(args.begin(), root);
			checkpath(known, a, tool("pathfor", pathfor_main, args), "R01");
		}
	}
	int rounds = drawrange(1, 4);
	for (int r = 0; r < rounds && !violated(); r++) {
		Strs order = draworder(nk);
		// A directory's key may be chosen only once; racing creators are
		// promised agreement when they use one attribute order and one key set.
		int np = drawrange(1, 4);
		std::vector<Attrs> as;
		std::vector<ProcP> ps;
		bool conc = chance(2, 3);
		bool full = conc;
		nofaults();
		if (withfaults && chance(1, 2))
			drawfaults(FOpen | FDir | FStat | FMeta | FClose);
		for (int i = 0; i < np; i++) {
			Attrs a = drawattrs(nk, full, nv);
			ProcOpts o;
			if (withfaults)
				killplan(o, 40);
			describe("[%d:%s] ", r, join(attrargs(a, order)).c_str());
			as.push_back(a);
			Strs args = attrargs(a, order);
			args.insert(args.begin(), root);
			ps.push_back(start("pathfor", pathfor_main, args, o));
			if (!conc) {
				runall();
				checkpath(known, a, ps.back(), "R01");
				order = draworder(nk);
			}
		}
		if (conc) {
			runall();
			for (int i = 0; i < np; i++)
				checkpath(known, as[i], ps[i], "R01");
			if (np > 1)
				nontrivial();
		}
		std::string two = twokeys();
		if (two.size())
			violate("R01/two-keys", "directory with two attribute keys: %s", two.c_str());
		count("r01.requests", np);
	}
	// everything again, alone and without faults: same paths
	nofaults();
	std::vector<Known> again = known;
	for (auto &k : again) {
		if (violated())
			break;
		Strs args = attrargs(k.a, draworder(nk));
		args.insert(args.begin(), root);
		checkpath(known, k.a, tool("pathfor", pathfor_main, args), "R01");
	}
	if (known.size())
		nontrivial();
}

// ------------------------------------------------------------------ R02
struct Res { Attrs a; std::string path; };

// a writer stores one result: asks for its path, then writes the file
static Body writer(std::string root, Strs args, std::string content) {
	return [=]() {
		std::vector<const char *> av;
		for (auto &a : args)
			av.push_back(a.c_str());
		RdbAttrs at = attrargs(av.size(), av.data());
		std::string p = pathfor(root, at);
		FILE *f = fopen(p.c_str(), "w");
		if (!f)
			return 1;
		fputs(content.c_str(), f);
		fclose(f);
		puts(p.c_str());
		return 0;
	};
}

static std::string normal(const std::string &p) {	// absolute spelling, for comparing
	std::string s = p[0] == '/' ? p : cwd + "/" + p;
	std::string r;
	size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find('/', i);
		if (j == std::string::npos) j = s.size();
		std::string c = s.substr(i, j - i);
		if (c.size() && c != ".")
			r += "/" + c;
		i = j + 1;
	}
	return r;
}

static bool match(const Attrs &have, const Attrs &want) {
	for (auto &e : want) {
		auto it = have.find(e.first);
		if (it == have.end() || it->second != e.second)
			return false;
	}
	return true;
}

SCENARIO("R02", r02_query) {
	int nk = drawrange(1, 4), nv = drawrange(2, 7);
	std::string root = roots[draw(6)];
	ensureroot(root);
	switchpct = 10 + draw(80);
	describe("root %s ", root.c_str());
	std::vector<Res> stored;
	Strs order = draworder(nk);
	int n = draw(9);
	if (chance(1, 10)) {
		nv = 60;
		n = drawrange(10, 60);
	}
	bool some = chance(1, 3);	// some results lack some attributes
	for (int i = 0; i < n; i++) {
		Attrs a = drawattrs(nk, !some, nv);
		if (n < 10 && chance(1, 3))
			order = draworder(nk);
		ProcOpts o;
		bool die = chance(1, 8);
		if (die)
			o.killcall = 1 + draw(20);	// an earlier creator died midway
		ProcP p = run(o, writer(root, attrargs(a, order), "r"));
		if (p->ok())
			stored.push_back({a, normal(chomp(p->out))});
		else if (p->status != Killed && some)
			;	// its place may be a directory, or below a file
		else if (p->status != Killed)
			violate("R02/store-failed", "storing %s: %s %s", astr(a).c_str(), p->what.c_str(), p->err.c_str());
		else {
			// killed between creating the file and reporting it: it is stored
			for (auto &f : fs.files()) {
				bool key = f.find("/KEY=") != std::string::npos && f.rfind("/KEY=") == f.rfind('/');
				bool known = false;
				for (auto &s : stored)
					known |= s.path == f;
				if (!key && !known && f.compare(0, 3, "/w/") == 0)
					stored.push_back({a, f});
			}
		}
	}
	Attrs q;
	for (int i = 0; i < nk; i++)
		if (chance(1, nv > 8 ? 4 : 2))
			q[keynames[i]] = drawval(nv);
	// writers adding at the same time: same key order as the tree's newest
	std::vector<Attrs> adding;
	std::vector<ProcP> ws;
	bool flt = chance(1, 3);
	int nw = draw(3);
	for (int i = 0; i < nw; i++) {
		Attrs a = drawattrs(nk, true, nv);
		adding.push_back(a);
		ws.push_back(spawn(ProcOpts(), writer(root, attrargs(a, order), "r")));
	}
	Strs args = attrargs(q, draworder(nk));
	args.insert(args.begin(), root);
	describe("stored %zu adding %d query [%s] ", stored.size(), nw, astr(q).c_str());
	if (flt)
		drawfaults(FDir | FStat | FOpen);
	ProcP p = start("withattrs", withattrs_main, args);
	runall();
	nofaults();
	if (p->status != Exited) {
		violate(strf("R02/%s", statusname(p->status)), "query %s: %s", astr(q).c_str(), p->what.c_str());
		return;
	}
	if (p->code != 0) {
		if (!p->sawfault)
			violate("R02/failed-without-fault", "query failed: %s", p->err.c_str());
		if (p->err.empty())
			violate("R02/silent-failure", "query failed with no message");
		return;
	}
	std::map<std::string, int> got;
	for (auto &l : lines(p->out))
		got[normal(l)]++;
	for (auto &g : got)
		if (g.second > 1)
			violate("R02/duplicate", "%s listed %d times", g.first.c_str(), g.second);
	std::set<std::string> may;
	for (auto &s : stored) {
		if (match(s.a, q)) {
			may.insert(s.path);
			if (!got.count(s.path))
				violate("R02/missing", "%s (%s) not listed for [%s]", s.path.c_str(), astr(s.a).c_str(), astr(q).c_str());
			nontrivial();
		}
	}
	for (size_t i = 0; i < ws.size(); i++)
		if (ws[i]->ok() && match(adding[i], q))
			may.insert(normal(chomp(ws[i]->out)));
		else if (!ws[i]->ok()) {
			// failed writers: their file may exist
			for (auto &f : fs.files())
				if (match(adding[i], q))
					may.insert(f);
		}
	auto lacks = [&](const Attrs &a) {	// lacks what was asked for, but does not contradict it
		for (auto &e : q) { auto it = a.find(e.first); if (it != a.end() && it->second != e.second) return false; }
		return true;
	};
	if (some) {
		for (auto &s : stored) if (lacks(s.a)) may.insert(s.path);
	}
	for (auto &g : got)
		if (!may.count(g.first))
			violate("R02/extra", "%s listed for [%s]", g.first.c_str(), astr(q).c_str());
}

// ------------------------------------------------------------------ R03
static std::string drawtext(int len) {
	static const char cs[] = "abcXYZ019 .-+_/%\\[]{}~!@'";
	std::string s;
	for (int i = 0; i < len; i++)
		s += cs[draw(sizeof cs - 1)];
	return s;
}
static int drawlen() {
	switch (draw(4)) {
	case 0: return draw(12);
	case 1: return 225 + draw(40);
	case 2: return 100 + draw(200);
	default: return draw(700);
	}
}

SCENARIO("R03", r03_addattrs) {
	// the file
	Strs pre, post;
	Attrs have;
	pre.push_back("#start data file format 4");
	int nj = draw(3);
	for (int i = 0; i < nj; i++)
		pre.push_back(draw(2) ? "# comment " + drawtext(draw(20)) : drawtext(1 + draw(30)));
	int np = drawrange(0, 5);
	bool nopair = np == 0;
	for (int i = 0; i < np; i++) {
		std::string k = draw(2) ? keynames[draw(5)] : "k" + drawtext(draw(9)), v = drawtext(drawlen());
		have[k] = v;
		post.push_back(dfpairline(k, v));
		if (chance(1, 4))
			post.push_back("#altrow  \"x\"\t1\t2");
		if (chance(1, 6))
			post.push_back("");
		if (chance(1, 6))
			post.push_back(drawtext(draw(500)));
	}
	post.push_back("#end data file format 4");
	std::string old = join(pre, "\n") + "\n" + join(post, "\n") + "\n";
	// the new attributes
	Strs args, added;
	std::string file = draw(2) ? "/w/d/res" : "res";
	args.push_back(file);
	int na = draw(5);
	std::set<std::string> seen;
	std::string ins;
	for (int i = 0; i < na; i++) {
		std::string k = keynames[draw(5)];
		if (draw(3) == 0)
			k += drawtext(draw(3));
		size_t eq = k.find('=');
		if (eq != std::string::npos)
			k.resize(eq);
		std::string v = drawtext(drawlen());
		args.push_back(k + "=" + v);
		if (seen.count(k))
			continue;
		seen.insert(k);
		if (!have.count(k))
			ins += dfpairline(k, v) + "\n";
	}
	std::string want = join(pre, "\n") + "\n" + ins + join(post, "\n") + "\n";
	fs.write(file, old);
	if (chance(1, 4))
		fs.write(file + "~", "stale temporary of an earlier crash\n");
	ProcOpts o;
	killplan(o, 60);
	bool flt = chance(1, 2);
	if (flt)
		drawfaults(FRead | FWrite | FOpen | FMeta | FClose | FStat | FShort);
	describe("file %zu bytes, %zu pairs, %d new ", old.size(), have.size(), na);
	ProcP p = tool("addattrs", addattrs_main, args, o);
	bool faulted = p->sawfault;
	nofaults();
	std::string now;
	if (!fs.read(file, now)) {
		violate("R03/missing", "the datafile is gone");
		return;
	}
	if (p->status == Crashed || p->status == Hung)
		violate(strf("R03/%s", statusname(p->status)), "%s", p->what.c_str());
	if (now != old && now != want) {
		size_t i = 0;
		while (i < now.size() && i < want.size() && now[i] == want[i]) i++;
		violate("R03/damaged", "file is neither the old nor the new contents (%zu bytes, old %zu, new %zu, differs from new at %zu: '%s' wanted '%s'); %s %d", now.size(), old.size(), want.size(), i, now.substr(i, 40).c_str(), want.substr(i, 40).c_str(), statusname(p->status), p->code);
	}
	if (p->ok() && now != want)
		violate(nopair ? "R03/false-success-nopair" : "R03/false-success", "exit 0 but the attributes were not added");
	if (p->status == Exited && p->code != 0 && !faulted && !nopair)
		violate("R03/failed-without-fault", "exit %d: %s", p->code, p->err.c_str());
	if (p->status == Exited && p->code != 0 && p->err.empty() && p->out.empty())
		violate("R03/silent-failure", "exit %d with no message", p->code);
	if (ins.size() && (faulted || p->status == Killed || flt))
		nontrivial();
	// an undisturbed retry completes the job
	if (p->status != Exited && !nopair && !violated()) {
		ProcP q = tool("addattrs", addattrs_main, args);
		fs.read(file, now);
		if (!q->ok() || now != want)
			violate("R03/retry", "a retry after the crash did not complete: exit %d %s", q->code, q->err.c_str());
	}
}

// ------------------------------------------------------------------ R04
SCENARIO("R04", r04_inverse) {
	int nk = drawrange(1, 4), nv = drawrange(2, 6);
	static const char *rts[] = { "/w/db", "db", ".", "./db", "/", "a/b", "/w/MONKEY=3/db" };
	std::string root = rts[draw(7)];
	ensureroot(root);
	bool flt = chance(1, 3);
	describe("root %s ", root.c_str());
	int n = drawrange(1, 5);
	for (int i = 0; i < n && !violated(); i++) {
		Attrs a = drawattrs(nk, chance(3, 4), nv);
		if (root == "/" || root == ".")	// keep clear of the sandbox's own names
			for (auto &e : a)
				if (e.second == "w" || e.second == "tmp") e.second = "1";
		Strs order = draworder(nk), args = attrargs(a, order);
		describe("[%s] ", join(args).c_str());
		nofaults();
		ProcP p = run(ProcOpts(), writer(root, args, "r"));
		if (!p->ok()) {
			// the path is an inner directory of results with more attributes, or below a result
			if (p->status == Exited)
				continue;
			violate("R04/store", "%s %s", p->what.c_str(), p->err.c_str());
			return;
		}
		std::string path = chomp(p->out);
		if (flt)
			drawfaults(FDir | FStat | FOpen);
		ProcOpts o;
		o.maxticks = 3000000;
		ProcP q = tool("pathattrs", pathattrs_main, {path}, o);
		bool f = q->sawfault;
		nofaults();
		if (q->status != Exited) {
			violate(strf("R04/%s", statusname(q->status)), "pathattrs %s: %s", path.c_str(), q->what.c_str());
			return;
		}
		if (q->code != 0) {
			if (!f)
				violate("R04/failed-without-fault", "pathattrs %s: %s", path.c_str(), q->err.c_str());
			if (q->err.empty())
				violate("R04/silent-failure", "pathattrs %s", path.c_str());
			continue;
		}
		// the words of the output, read back the way the tools read them
		std::vector<std::string> words;
		{
			// values and keys contain spaces: match greedily against the known pairs
			std::string s = chomp(q->out);
			Attrs got;
			Strs goto_;
			bool bad = false;
			while (s.size() && !bad) {
				bad = true;
				for (int k = 0; k < 5 && bad; k++) {
					std::string kn = keynames[k];
					if (s.compare(0, kn.size() + 1, kn + "=") != 0)
						continue;
					for (int v = -1; v < 8 && bad; v++) {
						std::string vn = v < 0 ? "UNSPECIFIED" : valnames[v];
						std::string both = kn + "=" + vn;
						if (s.compare(0, both.size(), both) == 0 && (s.size() == both.size() || s[both.size()] == ' ')) {
							got[kn] = vn;
							goto_.push_back(both);
							s.erase(0, both.size() + 1);
							bad = false;
						}
					}
				}
			}
			Attrs cmp = got;
			for (auto it = cmp.begin(); it != cmp.end(); )
				if (it->second == "UNSPECIFIED" && !a.count(it->first))
					it = cmp.erase(it);
				else
					++it;
			if (bad || cmp != a) {
				violate("R04/wrong-attrs", "pathattrs %s printed '%s', requested with %s", path.c_str(), chomp(q->out).c_str(), astr(a).c_str());
				return;
			}
			Strs back = goto_;
			back.insert(back.begin(), root);
			ProcP r = tool("pathfor", pathfor_main, back);
			// the result is a file now; asking again must lead to the same path
			if (!r->ok() || chomp(r->out) != path)
				violate("R04/no-return", "pathfor of the printed attributes gave '%s' instead of %s (%s)", chomp(r->out).c_str(), path.c_str(), r->err.c_str());
			nontrivial();
		}
	}
}

// ------------------------------------------------------------------ R05
static std::string drawpath(int depth) {
	static const char *names[] = { "a", "b", "c" };
	std::string p = draw(2) ? "/w" : "";
	int d = drawrange(1, depth);
	for (int i = 0; i < d; i++)
		p += (p.size() ? "/" : "") + std::string(names[draw(3)]);
	return p;
}

SCENARIO("R05", r05_ensuredir) {
	switchpct = 20 + draw(80);
	if (chance(1, 2))
		fs.mkdirs("/w/" + std::string(1, 'a' + draw(3)));
	bool obstacle = chance(1, 5);
	if (obstacle)
		fs.write("/w/" + std::string(1, 'a' + draw(3)) + (draw(2) ? "" : "/b"), "a file");
	bool flt = chance(1, 3);
	if (flt)
		drawfaults(FStat | FMeta);
	int np = drawrange(1, 4);
	std::vector<std::string> paths;
	std::vector<ProcP> ps;
	for (int i = 0; i < np; i++) {
		std::string p = drawpath(4) + "/file";
		ProcOpts o;
		if (chance(1, 8))
			killplan(o, 15);
		paths.push_back(p);
		describe("%s ", p.c_str());
		ps.push_back(spawn(o, [p]() { ensuredir(p); return 0; }));
	}
	runall();
	nofaults();
	for (int i = 0; i < np; i++) {
		std::string dir = paths[i].substr(0, paths[i].rfind('/'));
		int e;
		InodeP d = fs.resolve(dir, true, e);
		if (ps[i]->status == Crashed || ps[i]->status == Hung)
			violate("R05/crash", "ensuredir %s: %s", paths[i].c_str(), ps[i]->what.c_str());
		if (ps[i]->ok() && (!d || d->type != Dir))
			violate("R05/false-success", "ensuredir(%s) succeeded but %s is not a directory", paths[i].c_str(), dir.c_str());
		if (ps[i]->status == Exited && ps[i]->code != 0) {
			if (!ps[i]->sawfault && !obstacle)
				violate("R05/failed-without-fault", "ensuredir(%s): %s", paths[i].c_str(), ps[i]->err.c_str());
			if (ps[i]->err.empty())
				violate("R05/silent-failure", "ensuredir(%s)", paths[i].c_str());
		}
	}
	if (np > 1)
		nontrivial();
}

static void mktree(const std::string &at, int depth) {
	fs.mkdirs(at);
	int n = draw(20) ? draw(4) : 10 + draw(40);
	static const char *odd[] = { ".hid", "..x", "e 1", "-rf", "KEY=k", "*", "x~", "\xc3\xa9" };
	for (int i = 0; i < n; i++) {
		std::string p = at + "/" + (i && draw(4) == 0 ? odd[draw(8)] : "e" + std::to_string(i));
		int er;
		if (fs.resolve(p, false, er))
			continue;
		switch (draw(depth > 0 ? 5 : 3)) {
		case 0: fs.write(p, "x"); break;
		case 1: fs.symlink(draw(2) ? "/w/keep/sub" : "/w/keep/f", p); break;
		case 2: fs.symlink(draw(2) ? "e0" : "nowhere", p); break;
		default: mktree(p, depth - 1);
		}
	}
}

SCENARIO("R05", r05_rmrecur) {
	switchpct = 20 + draw(80);
	fs.write("/w/keep/f", "precious");
	fs.write("/w/keep/sub/g", "precious");
	fs.write("/w/other", "precious");
	std::string root = draw(2) ? "/w/t" : "t";
	mktree("/w/t", 3);
	if (chance(1, 10)) {
		int e;
		InodeP par;
		std::string last;
		fs.resolve("/w/t", false, e, &par, &last);
		par->remove("t");
		fs.symlink("/w/keep", "/w/t");
	}
	int np = chance(2, 3) ? 1 : 2;
	bool flt = chance(1, 2);
	if (flt)
		drawfaults(FMeta | FDir | FStat);
	std::vector<ProcP> ps;
	std::string before = fs.dump();
	describe("rm -r %s by %d, tree of %zu entries ", root.c_str(), np, lines(before).size());
	for (int i = 0; i < np; i++) {
		ProcOpts o;
		if (chance(1, 6))
			killplan(o, 30);
		ps.push_back(spawn(o, [root]() { return rmrecur(root) ? 0 : 7; }));
	}
	runall();
	nofaults();
	std::string d;
	if (!fs.read("/w/keep/f", d) || d != "precious" || !fs.read("/w/keep/sub/g", d) || d != "precious" || !fs.read("/w/other", d) || d != "precious")
		violate("R05/escaped", "removal of %s damaged files outside it", root.c_str());
	int e;
	bool gone = !fs.resolve("/w/t", false, e);
	for (auto &p : ps) {
		if (p->status == Crashed || p->status == Hung)
			violate("R05/crash", "rmrecur: %s", p->what.c_str());
		if (p->ok() && !gone)
			violate("R05/false-success", "rmrecur reported success but entries remain");
		if (p->status == Exited && p->code != 0 && !p->sawfault && np == 1)
			violate("R05/failed-without-fault", "rmrecur failed: %s", p->err.c_str());
		if (p->status == Exited && p->code != 0 && p->err.empty())
			violate("R05/silent-failure", "rmrecur failed with no message");
	}
	nontrivial();
}

// ------------------------------------------------------------------ D02
static void keeprec(void *v, const std::vector<std::string> &t) {
	OffSut off;	// copy outside of the simulated heap
	Strs c;
	for (auto &x : t)
		c.push_back(std::string(x.data(), x.size()));
	((std::vector<Strs> *) v)->push_back(c);
}

struct Rec { int kind; Strs toks; };	// 0 pair, 1 altcols, 2 altrow

SCENARIO("D02", d02_roundtrip) {
	struct Op { int kind; std::string a, b; std::string fmt; std::vector<double> g; std::vector<long> d; Strs cols; };
	std::vector<Op> ops;
	std::vector<Rec> want;
	std::vector<bool> mayfail;
	int n = drawrange(1, 6);
	for (int i = 0; i < n; i++) {
		Op o;
		o.kind = draw(4) < 2 ? 0 : 1 + draw(2);
		if (o.kind == 0) {
			o.a = "k" + drawtext(draw(3) ? draw(10) : draw(270));
			int l = drawlen();
			if (chance(1, 2)) {
				// land right around the writer's internal buffer
				int head = 10 + o.a.size();
				l = 256 - head - 6 + (int) draw(12);
				if (l < 0) l = draw(10);
			}
			o.b = drawtext(l);
			describe("pair(%zu,%zu) ", o.a.size(), o.b.size());
			want.push_back({0, {"#pair", o.a, o.b}});
			mayfail.push_back(o.a.size() > 200);
		} else if (o.kind == 1) {
			o.a = "n" + drawtext(draw(10));
			int nc = drawrange(1, 4);
			Rec r{1, {"#altcols", o.a}};
			int total = 12 + o.a.size();
			for (int c = 0; c < nc; c++) {
				std::string cn = "c" + drawtext(draw(30));
				if (c == nc - 1 && chance(1, 2)) {
					int pad = 256 - 5 + (int) draw(8) - total - (4 + o.a.size());
					if (pad > 0) cn = "c" + drawtext(pad - 1);
				}
				o.cols.push_back(cn);
				total += 4 + o.a.size() + cn.size();
				r.toks.push_back(o.a + " " + cn);
			}
			want.push_back(r);
			mayfail.push_back(total > 230);
			describe("cols(%d) ", total);
		} else {
			o.a = "n" + drawtext(draw(10));
			int nc = drawrange(1, 4);
			if (chance(1, 3)) {
				o.a = "n" + drawtext(225 - draw(30));
				nc = 3;
			}
			Rec r{2, {"#altrow", o.a}};
			size_t total = 11 + o.a.size();
			for (int c = 0; c < nc; c++) {
				char k = "gfdu"[draw(4)];
				o.fmt += k;
				static const double gs[] = { 0, 1, -1, 0.5, 1e-9, 123456789.0, 1e300, 3.0000001, 42 };
				double g = gs[draw(9)];
				long d = (long) draw64() >> draw(63);
				if (draw(2)) d = -d;
				o.g.push_back(g);
				o.d.push_back(d);
				std::string t = k == 'g' ? strf("%g", g) : k == 'f' ? strf("%f", g) : k == 'd' ? strf("%ld", d) : strf("%lu", (unsigned long) d);
				r.toks.push_back(t);
				total += 1 + t.size();
			}
			want.push_back(r);
			mayfail.push_back(total > 230);
			describe("row(%zu) ", total);
		}
		ops.push_back(o);
	}
	int ob = draw(2) ? -1 : (int) (1 + draw(300));
	if (chance(1, 3))
		faults.shortio = 500;
	static size_t done;
	done = 0;
	ProcOpts po;
	po.name = "writer";
	po.outpath = "/w/data";
	po.outbuf = ob;
	ProcP p = run(po, [&]() {
		for (auto &o : ops) {
			if (o.kind == 0)
				dfpair(stdout, o.a.c_str(), "%s", o.b.c_str());
			else if (o.kind == 1) {
				const char *c[4] = { "", "", "", "" };
				for (size_t i = 0; i < o.cols.size(); i++)
					c[i] = o.cols[i].c_str();
				dfrowhdr(stdout, o.a.c_str(), o.cols.size(), c[0], c[1], c[2], c[3]);
			} else {
				// every combination of up to four columns through the one variadic call
				std::string &f = o.fmt;
				struct A { static bool isd(char c) { return c == 'g' || c == 'f'; } };
				int m = 0;
				for (size_t i = 0; i < f.size(); i++)
					m |= A::isd(f[i]) << i;
#define V(i) ((m >> i) & 1)
#define CALL(x0, x1, x2, x3) dfrow(stdout, o.a.c_str(), f.c_str(), x0, x1, x2, x3)
				o.g.resize(4); o.d.resize(4);
				switch (m) {
				case 0: CALL(o.d[0], o.d[1], o.d[2], o.d[3]); break;
				case 1: CALL(o.g[0], o.d[1], o.d[2], o.d[3]); break;
				case 2: CALL(o.d[0], o.g[1], o.d[2], o.d[3]); break;
				case 3: CALL(o.g[0], o.g[1], o.d[2], o.d[3]); break;
				case 4: CALL(o.d[0], o.d[1], o.g[2], o.d[3]); break;
				case 5: CALL(o.g[0], o.d[1], o.g[2], o.d[3]); break;
				case 6: CALL(o.d[0], o.g[1], o.g[2], o.d[3]); break;
				case 7: CALL(o.g[0], o.g[1], o.g[2], o.d[3]); break;
				case 8: CALL(o.d[0], o.d[1], o.d[2], o.g[3]); break;
				case 9: CALL(o.g[0], o.d[1], o.d[2], o.g[3]); break;
				case 10: CALL(o.d[0], o.g[1], o.d[2], o.g[3]); break;
				case 11: CALL(o.g[0], o.g[1], o.d[2], o.g[3]); break;
				case 12: CALL(o.d[0], o.d[1], o.g[2], o.g[3]); break;
				case 13: CALL(o.g[0], o.d[1], o.g[2], o.g[3]); break;
				case 14: CALL(o.d[0], o.g[1], o.g[2], o.g[3]); break;
				case 15: CALL(o.g[0], o.g[1], o.g[2], o.g[3]); break;
				}
			}
			done++;
		}
		return 0;
	});
	if (p->status != Exited) {
		violate(strf("D02/writer-%s", statusname(p->status)), "%s", p->what.c_str());
		return;
	}
	if (p->code != 0) {
		if (!mayfail[done])
			violate("D02/refused", "a record that fits was refused: %s", p->err.c_str());
		if (p->err.empty())
			violate("D02/silent-failure", "writer failed with no message");
		want.resize(done);
	}
	// read back, chunked
	faults.shortio = draw(2) ? 700 : 0;
	bool echo = draw(2);
	std::vector<Strs> got;
	ProcOpts ro;
	ro.name = "reader";
	ro.in = "/w/data";
	ro.infile = true;
	ro.inchunk = draw(3) ? 0 : 1 + draw(40);
	ProcP r = run(ro, [&]() {
		dfread(stdin, [](std::vector<std::string> &t, void *v) {
			keeprec(v, t);
		}, &got, echo ? stdout : NULL);
		return 0;
	});
	nofaults();
	if (!r->ok()) {
		violate("D02/unreadable", "reader %s %d: %s%s", statusname(r->status), r->code, r->err.c_str(), r->what.c_str());
		return;
	}
	std::string data;
	fs.read("/w/data", data);
	if (echo && r->out != data)
		violate("D02/echo", "echoed text differs from the file (%zu and %zu bytes)", r->out.size(), data.size());
	for (size_t i = 0; i < std::max(got.size(), want.size()); i++) {
		if (i >= got.size() || i >= want.size() || got[i] != want[i].toks) {
			std::string w = i < want.size() ? join(want[i].toks, "|") : "(nothing)", g = i < got.size() ? join(got[i], "|") : "(nothing)";
			violate("D02/altered", "record %zu: wrote %s (%zu), read %s (%zu)", i, w.substr(0, 900).c_str(), w.size(), g.substr(0, 900).c_str(), g.size());
			break;
		}
	}
	nontrivial();
}
// ------------------------------------------------------------------ D03
static std::string mkdatafile(bool complete) {
	std::string s = "#start data file format 4\n";
	int n = draw(12);
	for (int i = 0; i < n; i++)
		switch (draw(4)) {
		case 0: s += dfpairline(keynames[draw(5)], drawtext(drawlen())) + "\n"; break;
		case 1: s += "#altrow  \"r\"\t1\t2.5\n"; break;
		case 2: s += drawtext(draw(300)) + "\n"; break;
		case 3: s += dfpairline("k" + std::to_string(i), std::to_string(draw(1000))) + "\n"; break;
		}
	s += "#pair  \"last\"\t\"1\"\n";
	if (complete) {
		s += "#end data file format 4\n";
		if (chance(1, 3)) {
			// a footer inside, then more: the end of the data is the end of the file
			s += dfpairline("after", drawtext(draw(600))) + "\n";
			if (draw(2))
				s += "#end data file format 4\n";
		}
	}
	return s;
}

SCENARIO2("D03", d03_dfcmplt, 2) {
	std::string s = mkdatafile(chance(3, 4));
	fs.write("/w/f", s);
	bool viastdin = draw(2);
	ProcOpts o;
	if (viastdin) {
		o.in = "/w/f";
		o.infile = true;
	}
	Strs args;
	if (!viastdin)
		args.push_back("/w/f");
	ProcP base = tool("dfcmplt", dfcmplt_main, args, o);
	bool complete = s.compare(0, 26, "#start data file format 4\n") == 0 && s.size() > 24 && s.compare(s.size() - 24, 24, "#end data file format 4\n") == 0;
	if (base->status != Exited || (base->code == 0) != complete)
		violate("D03/dfcmplt", "complete=%d but the checker %s %d %s", complete, statusname(base->status), base->code, base->what.c_str());
	drawfaults(FRead | FOpen | FStat | FShort);
	o.inchunk = draw(2) ? 0 : 1 + draw(50);
	if (faults.read && faults.read < 100 && o.inchunk == 0) faults.read = 120;
	ProcP p = tool("dfcmplt", dfcmplt_main, args, o);
	describe("%zu bytes complete=%d ", s.size(), complete);
	if (p->status != Exited)
		violate("D03/crash", "dfcmplt: %s", p->what.c_str());
	else if (p->sawfault && p->code == 0)
		violate("D03/complete-after-error", "a read error, yet the file is reported complete");
	else if (p->sawfault && p->err.empty())
		violate("D03/silent", "an error without a message");
	else if (!p->sawfault && p->code != base->code)
		violate("D03/chunking", "short reads changed the answer");
	if (p->sawfault)
		nontrivial();
	nofaults();
}

SCENARIO2("D03", d03_dfread, 2) {
	std::string s = mkdatafile(true);
	fs.write("/w/f", s);
	std::vector<Strs> base, got;
	auto reader = [](std::vector<Strs> *to) {
		return [to]() {
			FILE *f = fopen("/w/f", "r");
			if (!f) {
				fprintf(stderr, "cannot open\n");
				return 3;
			}
			dfread(f, [](std::vector<std::string> &t, void *v) { keeprec(v, t); }, to);
			fclose(f);
			return 0;
		};
	};
	ProcP b = run(ProcOpts(), reader(&base));
	if (!b->ok())
		violate("D03/dfread", "plain read failed: %s%s", b->err.c_str(), b->what.c_str());
	drawfaults(FRead | FOpen | FShort);
	ProcP p = run(ProcOpts(), reader(&got));
	if (p->status != Exited)
		violate("D03/crash", "dfread: %s", p->what.c_str());
	else if (p->code == 0 && got != base)
		violate("D03/shortened", "read succeeded with %zu of %zu records", got.size(), base.size());
	else if (p->sawfault && p->code == 0 && faults.open == 0)
		violate("D03/error-ignored", "a read error, yet the reader succeeded");
	else if (p->code != 0 && p->err.empty())
		violate("D03/silent", "an error without a message");
	else if (!p->sawfault && p->code != 0)
		violate("D03/failed-without-fault", "%s", p->err.c_str());
	if (p->sawfault)
		nontrivial();
	nofaults();
}

SCENARIO2("D03", d03_tools, 3) {
	// a small database with a few results
	int nk = drawrange(1, 3), nv = 3;
	std::string root = "/w/db";
	Strs order = draworder(nk);
	std::string apath;
	Attrs last;
	int n = drawrange(1, 4);
	for (int i = 0; i < n; i++) {
		Attrs a = drawattrs(nk, true, nv);
		ProcP p = run(ProcOpts(), writer(root, attrargs(a, order), mkdatafile(true)));
		apath = chomp(p->out);
		last = a;
	}
	int which = draw(4);
	Strs args;
	std::function<int(int, const char **)> m;
	const char *name = "";
	switch (which) {
	case 0:
		name = "withattrs"; m = withattrs_main;
		args = {root};
		if (draw(2)) args.push_back(std::string(keynames[0]) + "=" + last[keynames[0]]);
		break;
	case 1: name = "pathattrs"; m = pathattrs_main; args = {apath}; break;
	case 2: {
		name = "pathfor"; m = pathfor_main;
		args = attrargs(drawattrs(nk, true, nv + 1), order);
		args.insert(args.begin(), root);
		break;
	}
	case 3: name = "addattrs"; m = addattrs_main; args = {apath, "new=" + drawtext(draw(30)), "k2=v"}; break;
	}
	// what an undisturbed run does, on a copy of the disk
	InodeP saved = fs.root;
	std::function<InodeP(InodeP)> clone = [&](InodeP i) {
		InodeP c = std::make_shared<Inode>(*i);
		for (auto &e : c->ents)
			e.second = clone(e.second);
		return c;
	};
	std::string before = fs.dump();
	fs.root = clone(saved);
	ProcP b = tool(name, m, args);
	std::string bdump = fs.dump();
	Strs blines = lines(b->out);
	std::sort(blines.begin(), blines.end());
	fs.root = saved;
	drawfaults(FRead | FDir | FStat | FOpen | FShort | (which == 3 ? FMeta : 0));
	describe("%s %s ", name, join(args).substr(0, 100).c_str());
	ProcP p = tool(name, m, args);
	bool flt = p->sawfault;
	nofaults();
	if (!b->ok()) {
		violate("D03/tool", "%s fails undisturbed: %s%s", name, b->err.c_str(), b->what.c_str());
		return;
	}
	if (p->status != Exited) {
		violate("D03/crash", "%s: %s %s", name, statusname(p->status), p->what.c_str());
		return;
	}
	Strs pl = lines(p->out);
	std::sort(pl.begin(), pl.end());
	if (p->code == 0 && pl != blines)
		violate("D03/shortened", "%s exited 0 with different output after a fault", name);
	if (p->code != 0 && !flt)
		violate("D03/failed-without-fault", "%s: %s", name, p->err.c_str());
	if (p->code != 0 && p->err.empty())
		violate("D03/silent", "%s failed with no message", name);
	if (which == 3) {
		std::string now, was;
		fs.read(apath, now);
		fs.root = clone(saved);
		if (p->code != 0 && before.find("f " + apath + " " + now) == std::string::npos)
			violate("D03/replaced", "addattrs failed but replaced the file");
		if (p->code == 0 && bdump.find("f " + apath + " " + now) == std::string::npos)
			violate("D03/replaced-short", "addattrs wrote something else after a read error");
	}
	if (flt)
		nontrivial();
}

// ------------------------------------------------------------------ R07
// Query tools, bestwt and the scenario importer: an exit status of 0 stands for
// the whole answer.
static void drawoutfaults(ProcOpts &o, int mask) {
	drawfaults(mask);
	faults.sout = true;
	if (faults.write && faults.write < 100) faults.write = 150;
	const int bufs[] = { -1, -1, 1, 16, 100, 0 };
	o.outbuf = bufs[draw(6)];
}

SCENARIO2("R07", r07_output, 2) {
	int nk = drawrange(1, 3), nv = draw(4) == 3 ? 40 : 3;
	std::string root = "/w/db";
	Strs order = draworder(nk);
	std::string apath;
	int n = drawrange(1, nv > 8 ? 40 : 4);
	for (int i = 0; i < n; i++) {
		Attrs a = drawattrs(nk, true, nv);
		apath = chomp(run(ProcOpts(), writer(root, attrargs(a, order), "r"))->out);
	}
	std::function<int(int, const char **)> m;
	const char *name = "";
	Strs args;
	switch (draw(3)) {
	case 0: name = "withattrs"; m = withattrs_main; args = {root}; break;
	case 1: name = "pathattrs"; m = pathattrs_main; args = {apath}; break;
	case 2:
		name = "pathfor"; m = pathfor_main;
		args = attrargs(drawattrs(nk, true, nv + 1), order);
		args.insert(args.begin(), root);
		break;
	}
	ProcP b = tool(name, m, args);
	ProcOpts o;
	drawoutfaults(o, FWrite | FShort);
	describe("%s %s, %d results, buffer %d ", name, join(args).c_str(), n, o.outbuf);
	ProcP p = tool(name, m, args, o);
	bool flt = p->sawfault;
	nofaults();
	faults.sout = false;
	if (!b->ok() || p->status != Exited) {
		violate("R07/crash", "%s: %s %s", name, p->what.c_str(), b->err.c_str());
		return;
	}
	if (flt) nontrivial();
	Strs x = lines(p->out), y = lines(b->out);
	std::sort(x.begin(), x.end());
	std::sort(y.begin(), y.end());
	if (p->code == 0 && (x != y || p->out.size() != b->out.size()))
		violate("R07/output-lost", "%s exits 0 having written %zu of %zu bytes", name, p->out.size(), b->out.size());
	if (p->code != 0 && !flt)
		violate("R07/failed-without-fault", "%s: %s", name, p->err.c_str());
	if (p->code != 0 && p->err.empty())
		violate("R07/silent", "%s failed with no message", name);
}

SCENARIO2("R07", r07_bestwt, 2) {
	std::string root = "/w/db";
	int n = draw(8), nw = 1 + draw(4);
	const double wts[] = { 1, 1.5, 2, 3, 10 };
	double wf = draw(4), wt = draw(4);
	struct R { std::string path, body; double w, v; std::string dom; bool whole; };
	std::vector<R> rs;
	bool cut = draw(4) == 3, anycut = false;
	for (int i = 0; i < n; i++) {
		R r;
		double c = 1 + draw(20), t = draw(40) / 4.0;
		r.w = wts[draw(nw)];
		r.v = wf * c + wt * t;
		r.dom = draw(3) ? "a" : "b";
		Strs a{"dom=" + r.dom, "alg=arastar", "num=" + std::to_string(i)};
		Strs l{dfpairline("weight", strf("%g", r.w)), dfpairline("final sol cost", strf("%f", c)), dfpairline("total wall time", strf("%f", t))};
		for (size_t k = 3; k > 1; k--) std::swap(l[k-1], l[k - 1 - draw(k)]);
		r.body = "#start data file format 4\n" + dfpairline("attrs", "arastar") + "\n";
		for (auto &s : l) {
			if (draw(4) == 3) r.body += "#altrow  \"weight\"\t3\n";
			if (draw(4) == 3) r.body += "a line of another program\n";
			r.body += s + "\n";
		}
		size_t whole = r.body.size();
		r.body += "#end data file format 4\n";
		r.whole = true;
		if (cut && draw(3) == 2) {	// its writer died
			r.body.resize(draw(r.body.size()));
			r.whole = r.body.size() + 1 >= whole;
			if (!r.whole) anycut = true;
		}
		ProcP p = run(ProcOpts(), writer(root, a, r.body));
		if (!p->ok()) { violate("R07/store", "%s", p->err.c_str()); return; }
		r.path = chomp(p->out);
		rs.push_back(r);
	}
	if (!n) run(ProcOpts(), writer(root, Strs{"dom=c"}, "#start data file format 4\n#end data file format 4\n"));
	const char *doms[] = { "", "dom=a", "dom=b" };
	std::string q = n ? doms[draw(3)] : "dom=a";
	Strs args{strf("%g", wf), strf("%g", wt), root};
	if (q.size()) args.push_back(q);
	int few = draw(12) == 11 ? draw(3) : 3;
	if (few < 3) args.resize(few);
	ProcOpts o;
	bool f = draw(2);
	if (f)
		drawoutfaults(o, FRead | FWrite | FOpen | FDir | FStat | FShort);
	describe("bestwt %s, %d results%s ", join(args).c_str(), n, anycut ? ", some cut short" : "");
	ProcP p = tool("bestwt", bestwt_main, args, o);
	bool flt = p->sawfault;
	nofaults();
	faults.sout = false;
	if (p->status != Exited) {
		violate("R07/crash", "bestwt: %s %s", statusname(p->status), p->what.c_str());
		return;
	}
	nontrivial();
	if (p->code != 0) {
		if (p->err.find(":") == std::string::npos && p->err.find(" ") == std::string::npos)
			violate("R07/silent", "bestwt failed with no message");
		bool empty = true;
		for (auto &r : rs) empty = empty && q.size() && q != "dom=" + r.dom;
		if (!flt && !anycut && few == 3 && !empty)
			violate("R07/failed-without-fault", "bestwt: %s", p->err.c_str());
		return;
	}
	if (few < 3) {
		violate("R07/usage", "bestwt succeeds with %d arguments", few);
		return;
	}
	// what the averages say; a result that could not be opened was warned about
	std::map<double, std::pair<double, int>> s;
	for (auto &r : rs) {
		if (q.size() && q != "dom=" + r.dom) continue;
		if (p->err.find("failed to open " + r.path) != std::string::npos) continue;
		if (!r.whole) {
			violate("R07/cut", "bestwt succeeds although %s was cut short: '%s'", r.path.c_str(), r.body.substr(r.body.size() > 30 ? r.body.size() - 30 : 0).c_str());
			return;
		}
		s[r.w].first += r.v;
		s[r.w].second++;
	}
	if (s.empty()) {
		violate("R07/noresults", "bestwt found the best weight %s of no results", chomp(p->out).c_str());
		return;
	}
	double best = INFINITY;
	for (auto &e : s) best = std::min(best, e.second.first / e.second.second);
	double got = atof(p->out.c_str());
	if (p->out.empty() || p->out.back() != '\n')
		violate("R07/output-lost", "bestwt exits 0 having written '%s'", p->out.c_str());
	else if (!s.count(got) || s[got].first / s[got].second > best + 1e-6)
		violate("R07/bestwt", "bestwt says %s, the best average is %g", chomp(p->out).c_str(), best);
}

SCENARIO2("R07", r07_import, 2) {
	std::string root = draw(2) ? "/w/db" : "/w/a/b";
	fs.mkdirs("/w/a");
	const char *files[] = { "/w/arena.map.scen", "/w/s/100%done.scen", "m.scen" };
	const char *maps[] = { "maps/dao/arena.map", "arena.map", "x%s%d.map", "50%.map", "d/a%n.map", "a_b-c.map" };
	std::string file = files[draw(3)];
	const char *vers[] = { "version 1", "version 1.0", "version 1\r" };
	int ver = draw(8) < 6 ? draw(2) : 2;
	std::string eol = ver == 2 ? "\r\n" : "\n";
	std::string in = std::string(vers[ver]) + "\n";
	struct E { std::string map, bucket, x0, y0, x1, y1, cost; };
	std::vector<E> es;
	int n = draw(6);
	bool many = draw(150) == 149;	// as many as real files have
	if (many) n += 1000;
	size_t lastfrom = in.size();
	for (int i = 0; i < n; i++) {
		E e;
		if (many && i < n - 5) {
			e.map = maps[1], e.bucket = std::to_string(i / 40), e.x0 = std::to_string(i % 50), e.y0 = "0", e.x1 = "1", e.y1 = "2", e.cost = "3";
			es.push_back(e);
			in += e.bucket + " " + e.map + " 49 49 " + e.x0 + " 0 1 2 3" + eol;
			continue;
		}
		e.map = maps[draw(6)];
		e.bucket = std::to_string(draw(4));
		e.x0 = std::to_string(draw(50)), e.y0 = std::to_string(draw(50)), e.x1 = std::to_string(draw(50)), e.y1 = std::to_string(draw(50));
		e.cost = strf("%d.%08u", (int) draw(100), draw(100000000));
		lastfrom = in.size();
		const char *sep = draw(5) == 4 ? " " : "\t";
		in += e.bucket + sep + e.map + sep + "49" + sep + "49" + sep + e.x0 + sep + e.y0 + sep + e.x1 + sep + e.y1 + sep + e.cost + eol;
		es.push_back(e);
	}
	bool cut = n && draw(4) == 3;
	if (cut) {	// the last entry misses fields
		std::string last = in.substr(lastfrom);
		size_t c = last.find_last_of("\t ");
		in.resize(lastfrom + 1 + draw(c));
	} else if (n && ver != 2 && draw(4) == 3)
		in.pop_back();	// the last line may miss its end
	fs.mkdirs("/w/s");
	fs.write(file, in);
	ProcOpts o;
	bool f = draw(2), out = false;
	if (f) {
		if (draw(2)) drawfaults(FRead | FWrite | FOpen | FDir | FStat | FMeta | FClose | FShort);
		else drawoutfaults(o, FWrite | FShort), out = true;
	}
	describe("import %s of %d entries%s%s ", file.c_str(), n, cut ? ", the last is cut short" : "", out ? ", writes fail" : "");
	ProcP p = tool("scenario2rdb", scenario2rdb_main, {root, file}, o);
	bool flt = p->sawfault;
	nofaults();
	faults.sout = false;
	if (p->status != Exited) {
		violate("R07/crash", "scenario2rdb: %s %s", statusname(p->status), p->what.c_str());
		return;
	}
	nontrivial();
	if (p->code != 0) {
		if (!flt && !cut)
			violate("R07/failed-without-fault", "scenario2rdb: %s", p->err.c_str());
		if (p->err.empty())
			violate("R07/silent", "scenario2rdb failed with no message");
		return;
	}
	if (cut) {
		violate("R07/cut", "scenario2rdb succeeds although the last entry was cut short: '%s'", in.substr(lastfrom).c_str());
		return;
	}
	Strs ps = lines(p->out);
	if (ps.size() != es.size() || (ps.size() && p->out.back() != '\n')) {
		violate("R07/output-lost", "scenario2rdb exits 0, printed %zu paths for %zu entries", ps.size(), es.size());
		return;
	}
	std::string base = file.substr(file.rfind('/') == std::string::npos ? 0 : file.rfind('/') + 1);
	for (size_t i = 0; i < es.size(); i++) {
		if (many && i > 3 && i + 12 < es.size()) continue;
		E &e = es[i];
		std::string got, num = std::to_string(i);
		std::string want = "#start data file format 4\n" + dfpairline("scenario file", file) + "\n" + dfpairline("num", num) + "\n" + dfpairline("map", e.map) + "\n" +
			dfpairline("optimal cost", e.cost) + "\n" + dfpairline("start x", e.x0) + "\n" + dfpairline("start y", e.y0) + "\n" +
			dfpairline("goal x", e.x1) + "\n" + dfpairline("goal y", e.y1) + "\n" + "#end data file format 4\n";
		if (!fs.read(ps[i], got) || got != want) {
			violate("R07/import", "entry %zu was stored as '%s' instead of '%s'", i, got.c_str(), want.c_str());
			return;
		}
		std::string mb = e.map.substr(e.map.rfind('/') == std::string::npos ? 0 : e.map.rfind('/') + 1);
		ProcP q = tool("withattrs", withattrs_main, {root, "scenario file=" + base, "bucket=" + e.bucket, "map=" + mb, "num=" + num});
		if (chomp(q->out) != ps[i])
			violate("R07/import", "entry %zu is not found by its attributes: '%s' instead of %s", i, chomp(q->out).c_str(), ps[i].c_str());
	}
}
