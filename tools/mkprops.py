#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code only because JSON lines are awkward to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

DOM=["tiles/","pancake/","gridnav/","vacuum/","drobot/","traffic/","visnav/","plat2d/","segments/"]
NOTEST="None of the 55 tests runs a search: they exercise containers, geometry, encoders, the packing of one domain and four single-process rdb lookups."

p("S01","Every reported solution is a real solution",
 "Whatever the domain, instance, algorithm, limits and interruption, a solver that reports a solution reports a real one: it begins at the instance's start state, every step is a legal move of the domain with the right effect, and it ends in a goal state. The reported cost is the sum of the costs of those moves and the reported length is the number of states on the path. A solver that has no solution to report says so with cost -1 and length 0, and never leaves a partial or stale path behind; no search crashes on a valid instance.",
 ["inputs","configurations","schedules","fault_sequences"],
 "for all domains, instances, algorithms and parameters, every instant at which a time limit signal, an expansion/generation limit or an allocation failure can interrupt the search",
 NOTEST+" The interruption point ranges over every instruction of the search.",
 ["search/main.hpp","search/search.hpp","search/*.hpp"]+DOM,
 [("solution reconstruction along parent links","search/search.hpp: solpath"),("goal-to-start iteration on limits","search/*.hpp: search()"),("result reporting","search/main.hpp: searchGet"),("domain operators, apply and undo","*/<domain>.hpp: Operators, Edge, pathcost")],
 ["search result (path, ops)","'final sol cost', 'final sol length' pairs on stdout"],
 "SEARCH_SIM: initial closed-list size chosen by the simulator (search/closedlist.hpp)")

p("S02","Optimal searches return optimal solutions, or none exactly when none exists",
 "astar, astar-dump and idastar, when not interrupted, report a solution of the cheapest possible cost on every solvable instance, and terminate reporting no solution on every instance whose finite reachable state space (for idastar: finite search tree) holds no goal. When a limit or a failure interrupts them they either report a solution of optimal cost or report none. This holds in every domain whose heuristic is admissible, including domains with zero-cost moves and inconsistent heuristics.",
 ["inputs","configurations","schedules","fault_sequences"],
 "for all instances (including unsolvable ones), hash table sizes and growth points, memory contents, and interruption points",
 NOTEST,
 ["search/astar.hpp","search/astar-dump.hpp","search/idastar.hpp","search/search.hpp","search/closedlist.hpp"]+DOM,
 [("best-first order and re-opening","search/astar.hpp: expand/considerkid"),("depth-first iterations with rising bound","search/idastar.hpp"),("bucketed and heap open lists","search/search.hpp: OpenList; structs/binheap.hpp"),("admissible domain heuristics","*/<domain>.hpp: h")],
 ["'final sol cost' compared with an independent exhaustive reference search"],
 "SEARCH_SIM closed-list size hook")

p("S03","Weighted searches stay within their promised suboptimality bound",
 "With duplicates re-opened (the default), wastar with weight w never reports a solution costing more than w times the optimum, and with weight 1 it is optimal. With or without -dropdups it reports none only if the instance is unsolvable or it was interrupted. An interrupted search reports either nothing or a solution within the bound.",
 ["inputs","configurations","schedules","fault_sequences"],
 "for all instances, weights >= 1, admissible heuristics, hash table sizes, memory contents and interruption points",
 NOTEST,
 ["search/wastar.hpp","search/search.hpp","search/closedlist.hpp"],
 [("weighted f ordering and re-opening","search/wastar.hpp"),("open list update","search/search.hpp: OpenList; structs/binheap.hpp")],
 ["'final sol cost' compared with reference optimum times w"],"SEARCH_SIM closed-list size hook")

p("S04","Anytime searches only ever improve, with truthful bounds",
 "The anytime searches (arastar, arastarmon, arastarnora, and bugsy-like streams of solutions) print a sequence of solution rows whose costs strictly decrease, whose every cost is achievable, and whose every claimed suboptimality bound is true of that solution at that moment. The final reported solution is the last, cheapest row, at whatever instant a limit, timer or monitor decision stopped the search. A search that claims convergence has proved optimality: its final cost is the optimum (for admissible, consistent heuristics).",
 ["inputs","configurations","schedules","fault_sequences"],
 "for all instances, weight schedules (initial weight, decrement), interruption instants, clock behaviours, table growth points",
 NOTEST+" A bound is claimed at every improvement and must hold at each.",
 ["search/arastar.hpp"],
 [("incumbent improvement and bound computation","search/arastar.hpp: Arastar::improve, findbound"),("inconsistent list re-insertion","search/arastar.hpp: Incons"),("monitored stopping","search/arastar.hpp: ArastarMon, ArastarNORA")],
 ["'#altrow \"sol\"' / 'sol' rows, 'converged', 'final sol cost'"],"SEARCH_SIM closed-list size hook")

p("S05","Limits stop a search promptly and change nothing else",
 "With an expansion or generation limit a search never reports more expansions than the limit, nor more generations than the limit plus the successors of one state (searches that expand in steps may finish the current step's fixed-size lookahead); with a wall or cpu time limit it stops after at most a few further expansions once the limit's signal has arrived. A limit that is never reached leaves the outcome and all reported counts identical to running without it. A search that hits a limit still prints a complete, well formed datafile.",
 ["inputs","configurations","schedules"],
 "for all limit values and combinations, all instants of signal arrival, all relations between simulated cpu time and wall time",
 NOTEST+" No test uses a limit or a timer.",
 ["search/search.hpp","search/search.cc","search/*.hpp"],
 [("limit test in the main loop","search/search.hpp: Limit::reached, SearchAlgorithm::limit"),("timers","search/search.cc: Limit::start/finish, settimer")],
 ["'total nodes expanded', 'total nodes generated', expansions counted at signal delivery"],"SEARCH_SIM closed-list size hook")

p("S06","Time limits arm and disarm cleanly, however the search ends",
 "While a search with a time limit runs, the timer counts the kind of time the user asked for and its expiry stops the search rather than killing the process; after the search has finished by any route (solution, exhaustion, limit, out of memory) no timer is armed and the signal's default behaviour is back, and no signal arriving at any instant is lost, kills the process during the search, or disturbs the output written. Wall-clock jumps do not fire or postpone the limit. Without a time limit no timer or handler is touched.",
 ["schedules","fault_sequences","configurations"],
 "for all instants of signal delivery including during start, finish and output, all ways a search can end, all clock jumps, wall and cpu limits together or apart",
 NOTEST,
 ["search/search.cc","search/search.hpp","search/main.hpp"],
 [("timer arm/disarm","search/search.cc: settimer, stoptimer, Limit::start, Limit::finish"),("finish on out of memory","search/main.hpp: searchGet")],
 ["simulated interval timers, signal dispositions and signal delivery outcomes"],None,
 [("timed","the limit object the signal handler marks","search/search.cc")])

p("S07","Results depend only on the instance and the arguments",
 "For searches whose policy does not consult a clock, running the same command on the same instance always gives the same solution, cost and counters: nothing depends on what uninitialised memory happened to contain, on the time of day or clock jumps, on the process id or host, or on random seeds drawn from the clock. Changing only the size or growth schedule of internal tables never changes whether a solution is found, its cost, or (for searches that do not iterate over a table) the expansion counts.",
 ["inputs","configurations","fault_sequences"],
 "for all pairs of environments: heap and stack contents, clock values and jumps, seeds, hash table sizes",
 NOTEST+" A test runs in one environment and cannot compare two.",
 ["search/*.hpp","structs/","utils/rand.cc"]+DOM,
 [("initialisation of search state","search/*.hpp constructors"),("hash tables","search/closedlist.hpp, structs/htable.hpp"),("zobrist and other hash seeds","tiles/, vacuum/, traffic/")],
 ["datafile minus time and host fields"],"SEARCH_SIM closed-list size hook")

p("S08","Running out of memory ends in an honest, complete report",
 "If memory runs out during a search, at whatever allocation, the solver reports that it ran out of memory, reports no solution (cost -1, length 0), and still writes a complete datafile; or, if the failure came before or after the search proper, it ends with failure. It never crashes on corrupted state, never hangs, and never reports a wrong, partial or suboptimal-but-claimed-optimal solution as a consequence of the failure.",
 ["fault_sequences","inputs","configurations"],
 "for all allocations of a run: the n-th allocation fails, once or from then on, or the configured memory limit is exceeded",
 NOTEST+" No test injects an allocation failure.",
 ["search/main.hpp","search/search.cc","utils/pool.hpp","search/closedlist.hpp","structs/"],
 [("catch of allocation failure","search/main.hpp: searchGet"),("memory limit","search/search.cc: Limit::memlimit"),("containers left destructible by failed growth","search/closedlist.hpp: resize; utils/pool.hpp; structs/*.hpp")],
 ["'out of memory', 'final sol cost', datafile completeness, exit status"],"SEARCH_SIM closed-list size hook")

p("S09","Real-time searches act within their lookahead and reach the goal",
 "The real-time searches lsslrtastar2, fhatlrtastar, dtastar-dump and dtastar plan at most the configured number of expansions per move step, print one step record per planning step that agrees with the moves made, and move along a contiguous legal trajectory from the start. In finite domains where every reachable state can still reach a goal, they (dtastar aside, whose scaled learning does not promise it) reach it; where the agent is trapped in a region without a goal that fits within one lookahead they stop and report no solution rather than crashing or running forever.",
 ["inputs","configurations","schedules"],
 "for all instances (including dead ends and unsolvable ones), lookaheads, modes, heuristics with depressions, interruption instants",
 NOTEST,
 ["search/lsslrtastar.hpp","search/fhatlrtastar.hpp","search/dtastar.hpp","search/dtastar-dump.hpp"],
 [("local search space expansion bound","search/lsslrtastar.hpp: LookaheadLimit, expandLss"),("heuristic learning","search/lsslrtastar.hpp: hCostLearning"),("move execution","search/lsslrtastar.hpp: move")],
 ["step rows, result path, expansion counts"],"SEARCH_SIM closed-list size hook")

p("S10","Clock-guided searches are complete under any clock",
 "bugsy and bugsy-slim, whose node ordering uses measured time per expansion, find a solution on every solvable instance and report none only for unsolvable or interrupted ones, whatever the clock does: stalled, jumping backwards or forwards, or failing to advance between readings. With zero weight on time plain bugsy returns a solution of optimal cost when its heuristic is admissible and no learned estimates are switched on. Greedy, speedy and beam-free best-first searches are likewise complete regardless of the environment.",
 ["schedules","inputs","fault_sequences"],
 "for all clock behaviours (stalls, jumps, skews) and all instances, cost/time weights",
 NOTEST+" Results depend on the measured clock, which tests do not control.",
 ["search/bugsy.hpp","search/bugsy-slim.hpp","search/greedy.hpp"],
 [("utility ordering and resort","search/bugsy.hpp: updatetime, updateopen, resort"),("expansion-time estimate","search/bugsy.hpp: timeper, nextresort")],
 ["'final sol cost', termination"],"SEARCH_SIM closed-list size hook")

p("S11","A reset search behaves like a fresh one",
 "A search object that has been run, by any route including interruption by a limit or a failed allocation, and then reset, produces on its next run exactly what a freshly created object would produce on that instance. The same holds over any sequence of runs and resets.",
 ["histories","inputs","schedules","fault_sequences"],
 "for all sequences of (run, interrupt at any instant, reset) over differing instances",
 NOTEST+" reset() is never called by any test.",
 ["search/search.hpp","search/*.hpp","search/restartingsearch.hpp"],
 [("reset of each algorithm","search/*.hpp: reset()"),("timer flag","search/search.hpp: Limit")],
 ["results of the reused object versus a fresh one"],"SEARCH_SIM closed-list size hook",)

p("D01","A datafile accepted as complete is complete",
 "If a solver run's output is accepted by the completeness checker, it contains every record the run printed, undamaged and in order, from header to footer, no matter when the process was killed or how writing to its output failed (full disk, transient errors, short writes, interrupted calls). A solver exits with success only if its whole output was written; a run cut off anywhere, or a missing or empty file, is reported incomplete. An undisturbed run is always accepted.",
 ["crash_points","fault_sequences","inputs"],
 "for all kill points, output-error placements and chunkings of the output stream, for every solver program",
 "The tests never write a datafile, kill a process, or make a write fail.",
 ["utils/datafile.cc","rdb/dfcmplt.cc","search/main.hpp"]+[d+"main*.cc" for d in DOM],
 [("header/footer framing","utils/datafile.cc: dfheader, dffooter"),("completeness checker","rdb/dfcmplt.cc")],
 ["exit status of solver and checker, bytes of the file"],None)

p("D02","Datafile records survive a round trip at any length",
 "Every key/value pair and table row written to a datafile is read back with exactly the key, values, order and count that were written, for values of any length and any content without quotes or newlines, whatever the chunking of the stream between writer and reader, optional echoing included. Records of different lengths never affect each other. A record that cannot be represented stops the writer with an error instead of being written altered.",
 ["inputs","fault_sequences","histories"],
 "for all sequences of records with all lengths around and beyond internal buffer sizes, all chunk sizes on write and read",
 "The tests never write or read a datafile; length-dependent truncation shows only at particular lengths.",
 ["utils/datafile.cc","utils/fs.cc","utils/str.cc"],
 [("record writers","utils/datafile.cc: dfpair, dfrowhdr, dfrow"),("record reader","utils/datafile.cc: dfread; utils/str.cc: gettoken")],
 ["records delivered by the reader"],None)

p("D03","Read errors are never mistaken for the end of the data",
 "When reading a datafile or directory fails part-way (I/O error at any byte or entry), the reading program stops with a failure status and a message: it never treats the data read so far as the whole, never reports a file complete, and never overwrites or replaces a file with the shortened contents.",
 ["fault_sequences","inputs"],
 "for all positions and kinds of read, open, seek, stat and directory-listing failure",
 "No test injects a read error.",
 ["utils/fs.cc","utils/datafile.cc","rdb/dfcmplt.cc","rdb/addattrs.cc","rdb/rdb.cc"],
 [("error check after end of file","utils/fs.cc: readline, readdir, fileexists, isdir")],
 ["exit status, stdout, resulting file system state"],None)

p("R01","Every attribute set has one path, even with concurrent creators",
 "Asking the results database for the path of an attribute set always gives the same path for the same set, and different paths for sets that differ in the value of some attribute; this holds when any number of processes that use the same attribute order ask concurrently, and after any of them was killed or failed midway. Lookup never creates a second attribute for a directory, and a failed request says so instead of printing a path.",
 ["schedules","crash_points","fault_sequences","histories"],
 "for all interleavings of concurrent lookups at system-call granularity, kill points, I/O error placements, and sequences of requests",
 "The tests run four single-process lookups on an idle file system.",
 ["rdb/rdb.cc","rdb/pathfor.cc","utils/fs.cc"],
 [("walk and create of key directories","rdb/rdb.cc: pathfor, makepath, touch"),("key file lookup","rdb/rdb.cc: getkey")],
 ["printed paths, directory tree"],None)

p("R02","Queries return exactly the matching results",
 "Querying the results database for attributes (in a database all of whose results carry the queried keys) returns every stored result whose attributes include the queried values, each exactly once, and nothing else, independently of directory order, and regardless of entries other processes are adding at the same time: results present throughout the query are always returned, results absent throughout never are. If part of the tree cannot be read the query fails rather than returning a shortened answer.",
 ["schedules","inputs","fault_sequences","histories"],
 "for all trees reachable by database operations, query attribute subsets, directory orders, interleavings with writers, I/O errors",
 "withattrs is not tested at all.",
 ["rdb/rdb.cc","rdb/withattrs.cc","utils/fs.cc"],
 [("tree walk","rdb/rdb.cc: withattrs, collect, addfiles")],
 ["printed file list"],None)

p("R03","Adding attributes never loses or damages a result file",
 "Adding attributes to a datafile either leaves the file exactly as it was or replaces it, in one step, by the same contents with the new pairs inserted before the first existing pair; no crash point, full disk, write error or read error can leave it truncated, partly written or missing. The tool reports success only if the new contents are in place. Keys already present keep their value, and all requested new keys are added.",
 ["crash_points","fault_sequences","inputs"],
 "for all kill points at system-call granularity, all placements of read/write/rename/close failure, all datafile contents and attribute lists",
 "addattrs is not tested at all.",
 ["rdb/addattrs.cc","utils/datafile.cc","utils/fs.cc"],
 [("write to temporary and rename","rdb/addattrs.cc: main")],
 ["file bytes after the run, exit status"],None)

p("R04","A result's path gives back exactly its attributes",
 "For every path the results database hands out, asking for that path's attributes yields exactly the attribute set the path was requested with, in an order that leads to the same path again; it works for absolute and relative roots alike, always terminates, and fails with an error on I/O failure instead of printing a shortened set.",
 ["histories","inputs","schedules","fault_sequences"],
 "for all attribute sets and request histories, root spellings (absolute, relative, current directory), directory orders, I/O errors",
 "pathattrs is not tested at all.",
 ["rdb/rdb.cc","rdb/pathattrs.cc","utils/fs.cc"],
 [("upward walk","rdb/rdb.cc: pathattrs"),("path splitting","utils/fs.cc: dirname, basename")],
 ["printed attributes"],None)

p("R05","Directory creation and removal are complete, contained and honest",
 "Ensuring a directory succeeds, with the directory present, when any number of processes ensure overlapping paths concurrently, and otherwise fails with an error. Recursive removal deletes everything below the given path and nothing outside it, symbolic links included, reports success only if everything is gone, and tolerates entries vanishing concurrently.",
 ["schedules","fault_sequences","histories","crash_points"],
 "for all trees (with symbolic links), interleavings of concurrent creators and removers, failures of individual removals",
 "Tests cover path splitting only.",
 ["utils/fs.cc"],
 [("ensuredir","utils/fs.cc: ensuredir"),("rmrecur","utils/fs.cc: rmrecur")],
 ["file system state, return value"],None)

p("R06","Cached lookahead tables are used only when whole and right",
 "A real-time search that takes its lookahead from a table of measured planning times trains the table once and keeps it in a cache: a later run with the same training attributes uses exactly the table that was stored, and plans as the run that stored it did. If the cache is missing, truncated, damaged or unreadable the run trains the table anew or fails, and never plans with part of a table. A run killed or failing while it writes the cache, or several runs writing it at once, leave nothing a later run would mistake for a whole table.",
 ["crash_points","fault_sequences","schedules"],
 "for all kill points and write failures while storing, all truncations, all interleavings of concurrent runs",
 "Not tested at all.",
 ["search/lsslrtastar.hpp","search/search.cc","rdb/rdb.cc"],
 [("table store/load","search/lsslrtastar.hpp: MaxTimeLimit")],
 ["per-step lookahead used, cache file bytes"],None)

p("A01","Anytime profiles are stored and loaded faithfully",
 "A performance profile made from the solution streams of solver datafiles holds the probabilities those streams define, for any number of bins and any streams of improving solutions, and saved and loaded again it gives exactly the same probabilities and stopping decisions. A truncated or unreadable profile is rejected with an error. A failed, killed or concurrent making of the profile in the results database leaves the old profile or a whole new one, never something later accepted as a different profile, and success is reported only if the profile is in place.",
 ["fault_sequences","crash_points","inputs"],
 "for all sets of solution streams, all truncations and read/write error placements",
 "Not tested at all.",
 ["search/anyprof/profile.cc","search/anyprof/profile.hpp","search/anyprof/mkprof.cc"],
 [("profile read/save","search/anyprof/profile.cc"),("profile builder","search/anyprof/mkprof.cc")],
 ["profile file, probabilities, exit status"],None)

p("I01","Instances are read whole or rejected",
 "A solver given an instance stream reports results for exactly the instance written there, however the stream is chunked. When a read error occurs anywhere in the stream, or it ends before the last value the instance needs has begun or inside one of its optional trailing records, the solver fails (or, where nothing it needs was lost, reports what it would have reported for the whole stream); it never reports a solution of some other, misread instance, and it never hangs or crashes.",
 ["fault_sequences","inputs"],
 "for all instances, all cut points, all read-error positions, all chunk sizes, in all nine domains",
 "Only the drobot loader is tested, on intact input.",
 ["tiles/tiles.cc","pancake/pancake.cc","gridnav/gridmap.cc","vacuum/vacuum.cc","drobot/main.cc","drobot/drobot.cc","traffic/traffic.cc","visnav/visgraph.cc","plat2d/plat2d.cc","segments/segments.cc"],
 [("instance parsers","<domain>/*.cc constructors and mains")],
 ["exit status, reported initial state and solution"],None)

p("C01","Containers stay correct when an allocation fails mid-operation",
 "The open lists, heaps, hash tables, closed lists and pools keep exactly the elements put in and not taken out, return them in priority order (or find them by key), and keep each element's recorded position right, over every sequence of operations; when an allocation fails during an operation, that operation either happened or did not, and every other element is still there and still retrievable.",
 ["histories","fault_sequences"],
 "for all operation sequences and all placements of allocation failure within them",
 "Existing tests run fixed or lightly randomised insert/pop sequences and never fail an allocation or remove interior elements of chains.",
 ["structs/binheap.hpp","structs/intpq.hpp","structs/htable.hpp","structs/kdtree.hpp","search/closedlist.hpp","search/search.hpp","utils/pool.hpp"],
 [("heap","structs/binheap.hpp"),("bucket queues","structs/intpq.hpp; search/search.hpp: OpenList<...,IntOpenCost>"),("hash chains","structs/htable.hpp; search/closedlist.hpp"),("block pool","utils/pool.hpp")],
 ["container contents against a reference multiset/map"],"SEARCH_SIM closed-list size hook")

p("G01","Instance makers leave whole, legal instances or fail",
 "A program that makes or converts instances (the tiles generator, gridnav's randinst, mkseedinst, ppm2grid and 2poly, traffic's randinst, segments' mkinst, visnav's rand, mkgraph, inst and pbm2poly, plat2d's 2poly) and exits with success has written the whole of what was asked for, where it was asked to: of the requested size and number, legal in its domain (poses in bounds and apart, points on the map and not blocked, polygons that cover the blocked cells and no others), accepted by the domain's solver, and solvable where the maker promises that. The same arguments, including the seed, make the same instances at any time. When writing, reading, opening or closing fails, or the disk is full, it exits with failure.",
 ["inputs","configurations","fault_sequences"],
 "for all sizes, counts, seeds, maps and pictures for which such an instance exists, all placements of failing, short and interrupted reads and writes, all clocks and memory contents",
 "No test runs any of these programs.",
 ["tiles/generator.cc","gridnav/randinst.cc","gridnav/mkseedinst.cc","gridnav/ppm2grid.cc","gridnav/2poly.cc","traffic/randinst.cc","segments/mkinst.cc","visnav/rand.cc","visnav/mkgraph.cc","visnav/inst.cc","visnav/pbm2poly.cc","visnav/grid2poly.cc","plat2d/2poly.cc"],
 [("solvability by parity","tiles/generator.cc: solvable"),("rejection until solvable","gridnav/mkseedinst.cc, traffic/randinst.cc: main"),("rejection until apart","segments/mkinst.cc: mkinst; visnav/rand.cc: randpolys"),("outlines of components","visnav/grid2poly.cc"),("visibility edges","visnav/visgraph.cc")],
 ["files and standard output of the makers, their exit status, the solvers' acceptance"])

p("R07","Database tools succeed only with the whole answer",
 "pathfor, pathattrs and withattrs exit with success only if everything they found was written out. bestwt names a weight whose average utility, over the results that match the query, is the best there is for the given utility function; without any matching result, with a result that was cut short, or when it cannot read the database it fails instead (a result it cannot open is left out with a warning). Importing a scenario file stores exactly its entries, each found again by its attributes and its path printed, whatever characters its names hold; a file that cannot be read, is cut inside an entry, or whose entries cannot be stored or reported is an error with a message.",
 ["fault_sequences","crash_points","inputs"],
 "for all databases, all results cut short by their writers, all placements of failing, short and interrupted reads and writes",
 "No test runs these programs.",
 ["rdb/pathfor.cc","rdb/pathattrs.cc","rdb/withattrs.cc","search/anyprof/bestwt.cc","gridnav/scenario2rdb.cc","utils/datafile.cc"],
 [("query tools","rdb/*.cc: main"),("average utility per weight","search/anyprof/bestwt.cc"),("scenario importer","gridnav/scenario2rdb.cc")],
 ["standard output, exit status, stored files"])

p("S12","Printed plans can be carried out",
 "The plan a program prints is the solution it reports: carried out from the start, move by move, every printed move is possible, passes through the states of the solution, ends in a goal, and costs what the report says. No plan is printed without a solution. A program that could not print all of its plan exits with failure.",
 ["inputs","configurations","fault_sequences"],
 "for all instances, algorithms and limits, and all placements of failing and short writes of the plan",
 "No test prints a plan.",
 ["traffic/traffic.hpp","segments/segments.hpp","segments/segments.cc","vacuum/main_cs730.cc"],
 [("controls","traffic/traffic.hpp: output"),("printed path","segments/segments.hpp: output"),("printed moves","vacuum/main_cs730.cc")],
 ["printed plan, exit status"])

p("S13","A search is the search its definition says",
 "Where no two candidates tie, the search algorithms have no choices left: A*, weighted A*, greedy, speedy and beam search, IDA*, ARA*, Bugsy (given the clock's readings) and the real-time searches LSS-LRTA* and f-hat LRTA* then expand, generate, reopen and discard exactly the nodes that a direct execution of the algorithm's definition on the same graph does, stop with the same path and cost (for the real-time searches, after the same steps of the same lengths), and report exactly those counts; with a limit on expansions or generations they stop where the definition's execution reaches that count.",
 ["inputs","configurations","histories"],
 "for all graphs without ties, weights, widths, lookaheads, duplicate-handling options and count limits",
 "The tests check no search's order of expansion; a search that expands in another order still finds paths, and the reported counts, which experiments are made of, change without a trace.",
 ["search/astar.hpp","search/wastar.hpp","search/greedy.hpp","search/beam.hpp","search/idastar.hpp","search/arastar.hpp","search/bugsy.hpp","search/bugsy-slim.hpp","search/lsslrtastar.hpp","search/fhatlrtastar.hpp"],
 [("order","search/wastar.hpp: pred, search"),("beam","search/beam.hpp: search"),("lss and learning","search/lsslrtastar.hpp: expandLss, hCostLearning; search/fhatlrtastar.hpp"),("contours","search/idastar.hpp: search, dfs")],
 ["total nodes expanded, generated, duplicated, reopened, final solution cost and length, steps and step lengths"])

p("S14","The report's account of the run is true",
 "The times a search reports are the wall clock and cpu time that passed between its start and finish; the start and finish dates and times are those of the clock; the reported peak memory is what the system said; the rows printed as an anytime search or IDA* goes on count nodes that never decrease nor exceed the totals, at times that never decrease nor exceed the total; and the step times and lengths of a real-time search are consistent with the number of steps and the total time.",
 ["inputs","schedules","fault_sequences"],
 "for all instances, algorithms and limits, all speeds, granularities, stalls and jumps of the clocks, and all placements of a failing allocation",
 "No test controls a clock; a wrong time is still a plausible number.",
 ["search/search.hpp","search/search.cc","search/main.hpp","search/lsslrtastar.hpp","search/fhatlrtastar.hpp","search/arastar.hpp","utils/time.cc"],
 [("start and finish","search/search.cc: SearchStats::start, finish, output"),("rows","search/arastar.hpp: row; search/idastar.hpp"),("steps","search/lsslrtastar.hpp: output; search/fhatlrtastar.hpp: output")],
 ["total wall time, total raw cpu time, dates, max virtual kilobytes, incumbent and iter rows, step statistics"])

p("T01","Scenarios are solved entry by entry",
 "The scenario solver reports, for every entry of a scenario file (or for the one asked for), the same search that the solver runs on that entry's map, start and goal alone: same expansions, generations and solution length, and, for an optimal search, a cost that is the shortest distance between those two cells, or -1 where there is no path between them (the file says 0 there). Its totals are the sums over the entries. An entry whose stated optimum is not what was found, a file or map that cannot be read or is cut short, or a report that cannot be written is an error, never a run that looks complete.",
 ["inputs","histories","fault_sequences"],
 "for all scenario files over several maps and all placements of failing, short and interrupted reads and writes",
 "No test runs the scenario solver.",
 ["gridnav/scenario.cc","gridnav/scenario.hpp","gridnav/main_scenario.cc","gridnav/gridmap.cc"],
 [("entries","gridnav/scenario.cc: Scenario::run, ScenarioEntry"),("maps kept between entries","gridnav/scenario.hpp: mapFilter")],
 ["rows and totals of the report, exit status"])

# pure functions: listed, not claimed
p("N01","Permutation ranking is a bijection",
 "Ranking a permutation yields a distinct number in 0..n!-1 for every permutation, and rank orders of sub-permutations are collision free.",
 ["inputs"],"for all permutations of all supported sizes","Tests sample a few sizes.",
 ["utils/rank.cc"],[("Ranker","utils/rank.cc")],["rank values"])
p("N02","Encoders round-trip every byte string",
 "Decoding what the run-length and base64 encoders produced gives back the original bytes for every input, and malformed input is rejected.",
 ["inputs"],"for all byte strings","Tests sample random strings.",
 ["utils/encode.cc"],[("encoders","utils/encode.cc")],["decoded bytes"])
p("N03","Geometric predicates agree with exact geometry",
 "Line, segment, box, polygon and arc intersection and containment agree with exact arithmetic up to the documented tolerance.",
 ["inputs"],"for all coordinates","Tests use fixed and random shapes.",
 ["utils/geom2d.cc","utils/geom2d.hpp"],[("predicates","utils/geom2d.cc")],["predicate results"])
p("N04","Simple temporal networks detect exactly the inconsistent constraint sets",
 "Adding a constraint succeeds exactly when the set of constraints stays consistent, keeps bounds tight, and a rejected addition or an undo leaves the network unchanged.",
 ["inputs","histories"],"for all sequences of constraints","Tests use random sequences without an exhaustive reference.",
 ["structs/stn.cc"],[("propagation","structs/stn.cc")],["bounds"])
p("N05","Nearest-neighbour queries return the nearest point",
 "The k-d tree returns a nearest stored point for every query after every insertion sequence.",
 ["inputs"],"for all point sets and queries","Tests sample random points.",
 ["structs/kdtree.hpp"],[("search","structs/kdtree.hpp")],["returned point"])
p("N06","Checked arithmetic reports overflow exactly",
 "Checked integer operations return the exact result or report overflow, never a wrapped value.",
 ["inputs"],"for all operand pairs","No test.",
 ["utils/safeops.hpp"],[("checked ops","utils/safeops.hpp")],["returned value"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
