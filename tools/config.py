"""Which binary holds what, and which properties they decide."""
UTILS = ["utils/datafile.cc", "utils/fs.cc", "utils/fatal.cc", "utils/str.cc", "utils/time.cc", "utils/mem.cc", "utils/rand.cc"]
BINS = {
    "rdb": {
        "harness": ["rdb.cc"],
        "repo": UTILS + ["rdb/rdb.cc"],
        "mains": {"rdb/addattrs.cc": "addattrs", "rdb/dfcmplt.cc": "dfcmplt", "rdb/pathattrs.cc": "pathattrs",
                  "rdb/pathfor.cc": "pathfor", "rdb/withattrs.cc": "withattrs",
                  "search/anyprof/bestwt.cc": "bestwt", "gridnav/scenario2rdb.cc": "scenario2rdb"},
    },
}
BINS["conts"] = {"harness": ["conts.cc"], "drivers": ["d_conts.cc"], "repo": UTILS}
BINS["prof"] = {"harness": ["prof.cc"], "drivers": ["d_prof.cc"], "repo": UTILS + ["rdb/rdb.cc", "search/anyprof/profile.cc"], "mains": {"search/anyprof/mkprof.cc": "mkprof"}}
SWRAP = ["-Wl,--wrap=_ZN11SearchStats6outputEP8_IO_FILE", "-Wl,--wrap=_ZN11SearchStats5startEv", "-Wl,--wrap=_ZN11SearchStats6finishEv"]
SREPO = UTILS + ["utils/geom2d.cc", "utils/math.cc", "utils/hash.c", "utils/encode.cc", "rdb/rdb.cc", "search/search.cc", "search/anyprof/profile.cc"]
SMAINS = {"rdb/dfcmplt.cc": "dfcmplt"}
def solverbin(name, drivers, gen, repo=(), defs=(), mains={}):
    BINS[name] = {"harness": ["solver.cc", gen], "drivers": drivers, "repo": SREPO + list(repo), "mains": dict(SMAINS, **mains), "libs": SWRAP,
                  "defs": list(defs), "tag": "_" + name if defs else "", "own": list(repo)}
solverbin("graph", ["d_graphi.cc", "d_graphd.cc"], "gen_graph.cc")
solverbin("tiles", ["d_tiles.cc"], "gen_tiles.cc", ["tiles/tiles.cc", "tiles/mdist.cc"], ["-DWIDTH=3", "-DHEIGHT=3"], {"tiles/generator.cc": "tgen"})
solverbin("pancake", ["d_pancake.cc"], "gen_pancake.cc", ["pancake/pancake.cc"], ["-DNCAKES=7"])
GRID = ["gridnav/gridmap.cc"]
solverbin("gridnav", ["d_gridnav.cc"], "gen_gridnav.cc", ["gridnav/gridnav.cc", "gridnav/scenario.cc", "visnav/polymap.cc", "visnav/grid2poly.cc", "graphics/image.cc"] + GRID, mains={"gridnav/main_scenario.cc": "scenario", "gridnav/2poly.cc": "g2poly", "gridnav/randinst.cc": "grandinst", "gridnav/mkseedinst.cc": "gmkseed", "gridnav/ppm2grid.cc": "ppm2grid"})
solverbin("vacuum", ["d_vacuum.cc"], "gen_vacuum.cc", ["vacuum/vacuum.cc"] + GRID, mains={"vacuum/main_cs730.cc": "vcs730"})
solverbin("traffic", ["d_traffic.cc"], "gen_traffic.cc", ["traffic/traffic.cc", "traffic/gridmap.cc"], mains={"traffic/randinst.cc": "trandinst"})
solverbin("drobot", ["d_drobot.cc"], "gen_drobot.cc", ["drobot/drobot.cc"])
solverbin("visnav", ["d_visnav.cc"], "gen_visnav.cc", ["visnav/polymap.cc", "visnav/grid2poly.cc", "visnav/visgraph.cc", "visnav/visnav.cc", "graphics/image.cc"], mains={"visnav/rand.cc": "vrand", "visnav/mkgraph.cc": "vmkgraph", "visnav/inst.cc": "vinst", "visnav/pbm2poly.cc": "pbm2poly"})
solverbin("segments", ["d_segments.cc"], "gen_segments.cc", ["segments/segments.cc"], mains={"segments/mkinst.cc": "smkinst"})
solverbin("plat2d", ["d_plat2d.cc"], "gen_plat2d.cc", ["plat2d/%s.cc" % f for f in ("lvl", "tile", "body", "player", "plat2d")] + ["visnav/polymap.cc", "visnav/grid2poly.cc", "visnav/visgraph.cc", "graphics/image.cc"], mains={"plat2d/2poly.cc": "p2poly"})
BUDGET = {"quick": 25, "thorough": 600}
RDBREAL = "rdb/*.cc with their main functions, utils/datafile.cc, fs.cc, str.cc, fatal.cc: real code, unmodified, glibc stdio included"
PROPS = {
    "R01": {"bins": {"rdb": 1}, "rule": "non-trivial: at least one path was handed out or two lookups raced", "real": RDBREAL},
    "R02": {"bins": {"rdb": 1}, "rule": "non-trivial: some stored result matched the query", "real": RDBREAL},
    "R03": {"bins": {"rdb": 1}, "rule": "non-trivial: attributes were to be added and a fault mix or kill was active", "real": RDBREAL},
    "R04": {"bins": {"rdb": 1}, "rule": "non-trivial: a handed-out path was inverted", "real": RDBREAL},
    "R05": {"bins": {"rdb": 1}, "rule": "non-trivial: racing creators, or a removal", "real": RDBREAL},
    "R07": {"bins": {"rdb": 1}, "rule": "non-trivial: a fault reached the tool, or it read results or a scenario", "real": RDBREAL + "; bestwt and scenario2rdb with their main functions, libstdc++ streams included"},
    "D02": {"bins": {"rdb": 1}, "rule": "non-trivial: records were written and read back", "real": RDBREAL},
    "D03": {"bins": {"rdb": 1}, "rule": "non-trivial: an injected error reached the reader", "real": RDBREAL},
}
PROPS["C01"] = {"bins": {"conts": 1}, "rule": "non-trivial: an allocation failed, or at least three elements were held at once",
    "real": "structs/binheap.hpp, intpq.hpp, htable.hpp, kdtree.hpp, search/closedlist.hpp, both open lists of search/search.hpp, utils/pool.hpp: real code"}
PROPS["A01"] = {"bins": {"prof": 1}, "rule": "non-trivial: the profile was cut, read or written with failures, or its writers were killed or concurrent",
    "real": "search/anyprof/profile.cc and profile.hpp, mkprof with its main function, rdb/rdb.cc, utils: real code"}
SOLVREAL = "search/*.hpp, search/search.cc, utils and structs, the domain with its main function: real code; all nine domains with their main functions; 'graph' is a further test domain driven through the real search/main.hpp"
SOLV = {
    "S01": "non-trivial: a solution was reported, the instance is unsolvable, or a limit or allocation failure interrupted the run",
    "S02": "non-trivial: a complete run on an instance with known optimum",
    "S03": "non-trivial: a complete run on an instance with known optimum",
    "S04": "non-trivial: at least one incumbent was reported",
    "S05": "non-trivial: a count limit was set, or the time limit's signal arrived during the search",
    "S06": "non-trivial: a time limit was set",
    "S07": "non-trivial: both runs ended",
    "S08": "non-trivial: an allocation failed during the search",
    "S09": "non-trivial: the agent's run ended",
    "S10": "non-trivial: the run ended",
    "D01": "non-trivial: the run was killed, its output failed, or the file was cut",
    "I01": "non-trivial: the stream came in pieces, was cut, or a read of it failed",
    "R06": "non-trivial: the cache was reused, cut, unreadable, or its writers were killed, failing or concurrent",
    "S11": "non-trivial: all runs of the reused object ended",
}
ALL = {"graph": 6, "tiles": 2, "pancake": 1, "gridnav": 2, "vacuum": 1, "traffic": 1, "drobot": 1, "visnav": 1, "segments": 1, "plat2d": 1}
QUICK = {	# the domains a quick check covers; the thorough one covers all
    "S01": list(ALL), "S02": list(ALL), "S11": list(ALL), "D01": list(ALL),
    "S03": ["pancake", "gridnav", "traffic", "drobot"],
    "S04": ["gridnav", "vacuum", "segments"],
    "S05": ["gridnav", "visnav"],
    "S06": ["traffic", "plat2d"],
    "S07": ["pancake", "drobot", "segments"],
    "S08": ["pancake", "gridnav", "drobot", "vacuum"],
    "S09": ["gridnav", "vacuum", "traffic", "plat2d"],
    "S10": ["gridnav", "vacuum"],
}
QUICK["R06"] = ["gridnav"]
QUICK["I01"] = list(ALL)
SOLV["G01"] = "non-trivial: the maker's fault-free run made legal instances"
ALLMAKERS = {"tiles": 1, "gridnav": 2, "traffic": 1, "segments": 1, "visnav": 2, "plat2d": 1}
QUICK["G01"] = list(ALLMAKERS)
SOLV["S13"] = "non-trivial: the definition left no choice, and the run was compared with it"
SOLV["S14"] = "non-trivial: the program reported, and its account was compared with the simulated clocks"
SOLV["T01"] = "non-trivial: the scenario solver's run ended"
SOLV["S12"] = "non-trivial: a plan was printed and carried out"
OWNBINS = {"S13": {"graph": 1}, "G01": ALLMAKERS, "T01": {"gridnav": 1}, "S12": {"traffic": 1, "segments": 1, "vacuum": 1}}
QUICK["S14"] = ["gridnav", "traffic"]
QUICK["S13"] = ["graph"]
QUICK["T01"], QUICK["S12"] = ["gridnav"], ["traffic", "segments", "vacuum"]
for k, v in SOLV.items():
    bins = {d: w for d, w in ALL.items() if k not in ("I01", "R06") or d != "graph"}	# the graph domain's loader is the harness's
    bins = OWNBINS.get(k, bins)
    PROPS[k] = {"bins": bins, "qbins": {d: w for d, w in bins.items() if d in ("graph", "tiles") or d in QUICK[k]}, "rule": v, "real": SOLVREAL}
PURE = "A pure function of its input: no thread, clock, I/O, crash or fault for a simulator to control, so generating inputs for it would not be deterministic simulation."
NA = {"N01": PURE, "N02": PURE, "N03": PURE,
      "N04": "A deterministic single-threaded data structure without I/O, clock or schedule; operation sequences alone give a simulator nothing to decide.",
      "N05": PURE, "N06": PURE}
