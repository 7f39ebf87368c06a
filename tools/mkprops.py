#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Every returned solution is a legal path from the start to a goal",
 "Whenever any search algorithm reports a solution for any domain, the reported states start at the given initial state, end at a goal, and each consecutive pair is connected by the reported operator being applicable in the first state and producing the second. The solution cost a program prints equals the sum of the costs of those operators, and the number of operators is exactly one less than the number of states. No algorithm corrupts memory while producing it.",
 ["inputs","configurations"],"every algorithm name and option combination the solver programs accept, on every well-formed problem of every domain and on arbitrary finite directed graphs with non-negative costs, equal costs, parallel edges, self loops, colliding hashes and several goals",
 "The tests contain no test that runs a search algorithm end to end; they only touch the containers it is built on. A wrong parent or operator link appears only after particular re-expansion, duplicate and hash-chain histories.",
 ["search/search.hpp","search/astar.hpp","search/wastar.hpp","search/greedy.hpp","search/idastar.hpp","search/arastar.hpp","search/bugsy.hpp","search/bugsy-slim.hpp","search/beam.hpp","search/astar-dump.hpp","search/main.hpp"],
 [("solution path reconstruction from parent links","search/search.hpp solpath/SearchNode"),("duplicate handling and parent update","search/astar.hpp, wastar.hpp, arastar.hpp, bugsy.hpp, beam.hpp considerkid"),("operator in-place apply/undo","*/ *.hpp Edge classes")],
 ["SearchAlgorithm::res.path / res.ops after search()","solver stdout key 'final sol cost'"],
 [("res.path","solution states, goal first"),("res.ops","operators of the solution, last first")])

p("P02","Optimal algorithms return minimum-cost solutions",
 "On every solvable problem whose heuristic never overestimates, A*, IDA*, the heuristic-dumping A*, weighted A* with weight one, and, when the heuristic is also consistent, the anytime repairing search that ran to convergence return a solution whose cost is the minimum over all paths from the start to a goal. Except for the anytime search this holds for inconsistent as well as consistent heuristics; it holds for integer and floating-point costs, for zero-cost actions (IDA* excepted), and whatever order the successors are generated in.",
 ["inputs","configurations"],"all finite problem graphs with admissible heuristics (consistent or not), all tie patterns, all hash collisions and resize points of the closed list, and small instances of every real domain",
 "No existing test runs any of the algorithms; optimality errors need a specific re-opening, tie or update order that samples of typical instances miss.",
 ["search/astar.hpp","search/idastar.hpp","search/wastar.hpp","search/arastar.hpp","search/astar-dump.hpp","search/search.hpp","structs/binheap.hpp","search/closedlist.hpp"],
 [("re-opening on cheaper path","search/astar.hpp considerkid"),("f ordering with high-g tie breaking","Node::pred in each algorithm"),("iteration bound update","search/idastar.hpp"),("open list update key","search/search.hpp OpenList")],
 ["cost of res.ops after search() against an independent shortest-path computation"])

p("P03","Weighted and anytime searches keep their suboptimality bounds",
 "A weighted search with weight w on a problem with an admissible heuristic returns a solution costing at most w times the optimum, unless it is told to drop duplicates. Anytime searches report incumbents of strictly decreasing cost, and the solution returned costs no more than the last one reported. With a consistent heuristic each incumbent is within the bound reported with it, bounds never get worse, and a search that says it converged has returned an optimal solution.",
 ["inputs","histories","configurations"],"all weights, weight decrements, time/expansion cut-offs and problem graphs; every prefix of an anytime run",
 "Nothing in the test suites runs a weighted or anytime search; the bound can be lost by one missed repair of an inconsistent node in one iteration.",
 ["search/wastar.hpp","search/arastar.hpp","search/anyprof/profile.cc"],
 [("inconsistent-node list carried between iterations","search/arastar.hpp Incons"),("bound computed from the frontier minimum","search/arastar.hpp findbound"),("weight schedule","search/arastar.hpp nextwt")],
 ["anytime rows ('incumbent' rows) of the algorithm's output and res.ops"])

p("P04","Searches terminate and find a solution exactly when one exists",
 "On every finite problem, each complete algorithm (iterative deepening only where a goal is reachable or there are no cycles, and without zero-cost cycles) stops on its own without resource limits, and it reports a solution if and only if a goal can be reached from the start. A start that is itself a goal yields a solution with no operators and cost zero. Incomplete algorithms (beam search) stop too and never report a solution for an unsolvable problem.",
 ["inputs","configurations"],"all finite problem graphs, solvable and unsolvable, including unreachable goals, disconnected parts, dead ends, cycles and goal starts; all algorithm options",
 "Termination and completeness quantify over all graphs; the tests never run a search, let alone an unsolvable one.",
 ["search/astar.hpp","search/wastar.hpp","search/greedy.hpp","search/idastar.hpp","search/arastar.hpp","search/bugsy.hpp","search/bugsy-slim.hpp","search/beam.hpp"],
 [("open list exhaustion loop","main loop of each algorithm"),("iterative deepening bound raise","search/idastar.hpp")],
 ["res.path emptiness after search() returns"])

p("P05","Resource limits stop a search without false claims",
 "A search (other than the sampling and minimin real-time ones) given an expansion, generation, CPU-time, wall-time or memory limit stops once it is exceeded, having expanded at most as many states as the expansion limit allows and exceeded a generation limit by at most the last expansion. A search cut short never reports a wrong solution, an optimality or convergence claim or a bound that does not hold. With limits that are not reached, the outcome is identical to running without limits, and nothing of a limit is left running when its search is over: a later search has its whole time.",
 ["inputs","configurations","fault_sequences"],"every limit value from zero upward, for every algorithm, i.e. every point at which the search can be cut",
 "Only one sampled stopping point per run is seen by hand use; the tests include none. A wrong claim appears only when the cut falls at a particular step.",
 ["search/search.hpp","search/search.cc","search/arastar.hpp","search/main.hpp"],
 [("limit test in the main loop","search/search.hpp Limit::reached, search/search.cc"),("parsing of -expd -gend -mem -cputime -walltime","search/search.hpp SearchAlgorithm ctor")],
 ["res.expd, res.gend, res.path, algorithm output rows after a limited run"])

p("P06","Reset and repetition reproduce a fresh run; statistics are consistent",
 "Running an algorithm object after resetting it gives the same solution and the same expansion, generation, duplicate and re-opening counts as a freshly created object (real-time search with -complete may choose differently among equally good states), and running the same command twice gives the same result. Reported statistics agree with what happened: the counts of expanded and generated states equal the number of states whose successors were requested and the number of successors produced, duplicates never exceed generated, and every repeated expansion is accounted for by a re-opening.",
 ["inputs","histories","configurations"],"all sequences of problems run through one algorithm object with resets in between, including after interrupted and unsolvable runs; all algorithms",
 "Left-over state from an earlier run shows only for particular pairs of problems; the tests do not run searches at all.",
 ["search/search.hpp","search/astar.hpp","search/wastar.hpp","search/greedy.hpp","search/idastar.hpp","search/arastar.hpp","search/bugsy.hpp","search/bugsy-slim.hpp","search/beam.hpp","search/lsslrtastar.hpp","search/fhatlrtastar.hpp"],
 [("reset()","each algorithm"),("counter increments","search/search.hpp Result and expand() of each algorithm")],
 ["res.expd, res.gend, res.dups, res.reopnd, res.path after search()/reset()/search()"])

p("P07","Real-time searches reach the goal by legal moves when they can",
 "The real-time (agent-centred) searches terminate with a legal solution on every finite problem in which a goal is reachable from every reachable state and the heuristic is consistent, for every lookahead setting (minimin real-time A* where actions can be undone at the same cost). The committed moves form one continuous legal walk from the start to the goal, and the per-step records they print agree with that walk. Resource limits stop them cleanly.",
 ["inputs","configurations"],"all finite, safely explorable problem graphs, all lookahead limits from one upward, one-step and multi-step commitment",
 "Convergence of learned heuristics depends on the whole visit history; the tests contain no real-time search run.",
 ["search/lsslrtastar.hpp","search/fhatlrtastar.hpp","search/rtastar.hpp","search/dtastar-dump.hpp","search/search.cc"],
 [("heuristic learning by reverse Dijkstra","search/lsslrtastar.hpp hcostlearning"),("committing to the frontier","move() of each algorithm")],
 ["res.path/res.ops","'num steps' and length records in output()"])

p("P08","Priority queues always yield a best element and never lose one",
 "For every history of insertions, removals of the best, removals and key changes of arbitrary elements, bulk appends, re-ordering and clearing, the heap, the bucketed open list and the integer bucket queue each return an element that no other held element beats. They hold exactly the elements put in and not yet taken out, and each element's membership indication is right at all times, including after clearing.",
 ["histories","inputs"],"all operation histories and key distributions (ties, negative keys where permitted, sparse and huge priorities), all sizes across growth boundaries",
 "The tests exercise short fixed scripts with distinct random keys; orders involving ties, updates in both directions, clears and re-insertion are unbounded.",
 ["structs/binheap.hpp","structs/intpq.hpp","search/search.hpp"],
 [("sift up/down with index callbacks","structs/binheap.hpp"),("two-level integer buckets with moving minimum","structs/intpq.hpp"),("f/g bucket open list","search/search.hpp OpenList")],
 ["pop/front/size/empty/mem and element index fields"])

p("P09","Hash tables and closed lists behave as exact maps",
 "For every history of additions, lookups, removals, clearing, resizing and iteration and for every hash function however badly it collides, a lookup returns the element stored under an equal key if and only if one was added and not removed. Size and reported fill agree with the contents, growing the table loses or duplicates nothing, and iteration visits every element exactly once.",
 ["histories","inputs"],"all operation histories, all key distributions and hash functions, all initial sizes and growth points",
 "The existing tests use a few thousand random keys with a good hash; removal from the middle of a chain and collisions across a resize are not reached.",
 ["structs/htable.hpp","search/closedlist.hpp","utils/hash.c"],
 [("chained buckets and growth","structs/htable.hpp, search/closedlist.hpp"),("element removal from a chain","rm()/remove()")],
 ["find/add/rm/for_each/size"])

p("P10","Nearest-neighbour queries return a true nearest point",
 "For every set of inserted points, in every insertion order and however the tree was split or rebuilt, the nearest query returns an inserted point whose distance to the query is the minimum over all inserted points, together with its own payload. Duplicate points, collinear points and points on splitting planes included; the size and iteration agree with the insertions.",
 ["histories","inputs"],"all insertion histories and query points, in two and more dimensions",
 "The tests use random points in general position; ties, duplicates and degenerate splits are measure-zero there.",
 ["structs/kdtree.hpp"],[("branch-and-bound descent","structs/kdtree.hpp nearest"),("split and rebalance on insert","structs/kdtree.hpp insert")],["nearest()/size()/for_each"])

p("P11","Object pools and disjoint sets manage identity correctly",
 "A pool hands out properly constructed, aligned objects that never overlap while live, runs each destructor exactly once when told to, and may reuse memory only after that. Disjoint sets report two elements in the same set exactly when a chain of unions links them, for every sequence of unions and lookups.",
 ["histories"],"all interleavings of construct/destruct and union/find, across block boundaries",
 "No existing test covers either structure under reuse.",
 ["utils/pool.hpp","structs/djset.hpp"],[("free list and block growth","utils/pool.hpp"),("union by rank with path compression","structs/djset.hpp")],["construct/destruct, find/join results"])

p("P12","Temporal networks detect exactly the inconsistent constraint sets",
 "Adding a temporal constraint succeeds if and only if the constraints accepted so far together with it have a solution, and a rejected constraint leaves the network exactly as it was. After any sequence of additions, rejections, undos and growth, every event's reported earliest and latest times are the exact tightest bounds implied by the accepted constraints, and undoing a constraint restores the state before it.",
 ["histories","inputs"],"all sequences of add/undo/grow/copy over all constraint kinds, including zero-length, repeated and contradictory windows",
 "The tests run a few random networks; propagation order, undo after partial failure, and growth after additions combine without bound.",
 ["structs/stn.hpp","structs/stn.cc"],[("incremental bound propagation with cycle check","structs/stn.cc propagate"),("undo log","structs/stn.cc undo")],["add() result, node time bounds, eq, undo"])

p("P13","State transitions are reversible, copyable and hash-consistent",
 "In every domain, applying any operator and then discarding the transition leaves the state exactly as it was; applying the reported inverse operator, where one is reported, leads back to the predecessor at the reported reverse cost. Packing and unpacking a state preserves everything that affects the future, equal states have equal hashes and packing is deterministic, and different states compare different. Heuristic values carried incrementally equal the ones computed from scratch.",
 ["inputs","histories"],"all reachable states of all well-formed instances of every domain and all operator sequences",
 "The tests do not include any domain; a mistake in one operator/position combination corrupts a search only when that combination is reached.",
 ["tiles/tiles.hpp","tiles/mdist.hpp","pancake/pancake.hpp","gridnav/gridnav.hpp","gridnav/gridnav.cc","vacuum/vacuum.hpp","traffic/traffic.hpp","drobot/drobot.hpp","segments/segments.hpp","plat2d/plat2d.hpp","visnav/visnav.hpp"],
 [("in-place apply with undo","Edge classes"),("pack/unpack","each domain header"),("operator reversal","revop")],["public domain interface: Operators, Edge, pack, unpack, hash, eq, h"])

p("P14","Domain heuristics never overestimate and are zero at goals",
 "For every state of every instance of the domains that advertise an admissible estimate, the cost-to-go estimate is never greater than the cheapest cost of reaching a goal, and it is zero exactly where it must be, at goal states. The distance-to-go estimate is likewise never negative and zero at goals.",
 ["inputs"],"all reachable states of all well-formed instances of tiles, pancake, grid navigation (all cost models and move sets), vacuum, dock robot and visibility navigation, plus traffic along unhit trajectories",
 "Admissibility is a statement over all states; no test computes a heuristic.",
 ["tiles/mdist.hpp","pancake/pancake.hpp","gridnav/gridnav.hpp","gridnav/gridnav.cc","vacuum/vacuum.hpp","drobot/drobot.hpp","traffic/traffic.hpp","visnav/visnav.hpp","plat2d/plat2d.hpp"],
 [("heuristic computation","h()/d() of each domain")],["h(), d() against exact cost-to-go from an independent exhaustive search"])

p("P15","Domains implement exactly their documented rules",
 "In every reachable state of the sliding tile puzzle, pancake, grid navigation, vacuum, traffic and dock robot domains, the set of available operators, the successor each produces, its cost and the goal test agree with the rules of the puzzle. No legal move is missing (other than the pruned inverse of the move just made), and no illegal move is offered.",
 ["inputs","histories"],"all well-formed instances (sizes, maps, parameters) and all reachable states",
 "The existing domain test covers a few dock-robot scenarios; the rules quantify over all states.",
 ["tiles/tiles.hpp","tiles/mdist.hpp","pancake/pancake.hpp","gridnav/gridnav.hpp","gridnav/gridnav.cc","gridnav/gridmap.cc","vacuum/vacuum.hpp","traffic/traffic.hpp","drobot/drobot.cc","drobot/drobot.hpp"],
 [("operator generation and application","Operators and Edge classes")],["public domain interface compared to a reference model"])

p("P16","Continuous-motion domains never let a body pass through obstacles",
 "In the platformer, the body never overlaps a solid tile after any sequence of actions, so no solution passes through walls. In the segment-moving domain, every offered motion keeps the moved segment inside the arena and free of contact with every other segment over the whole sweep. The legal motions that clearly have room are offered: where nothing solid is near, a frame moves the player by exactly its speed, which never exceeds the maximum.",
 ["inputs","histories"],"all levels and arenas, all reachable states, all action sequences",
 "Collision handling quantifies over continuous positions; no test runs these domains.",
 ["plat2d/player.hpp","plat2d/player.cc","plat2d/lvl.cc","plat2d/lvl.hpp","plat2d/body.cc","segments/segments.hpp","segments/segments.cc","utils/geom2d.cc","utils/geom2d.hpp"],
 [("stepwise collision resolution","plat2d/lvl.cc isection, plat2d/body.cc"),("sweep collision tests","segments/segments.cc move/rotate sweeps")],["player bounding box against the tile map","segment positions sampled along each operator's motion"])

p("P17","Geometric predicates agree with exact geometry",
 "Point, line, segment, arc, box and polygon operations (intersection tests and points, containment, distance, rotation, translation and scaling) give the mathematically correct answer up to rounding for every input in general or degenerate position that is not within rounding error of a decision boundary. Predicates that are symmetric by definition answer symmetrically.",
 ["inputs"],"all coordinates in the working range, including vertical, horizontal, parallel, collinear and touching configurations",
 "The tests check a few hand-picked configurations.",
 ["utils/geom2d.hpp","utils/geom2d.cc"],[("line/segment/arc intersection","utils/geom2d.hpp"),("polygon containment and hits","utils/geom2d.cc Poly")],["return values of the geometry functions"])

p("P18","Visibility graphs and polygon maps represent the map faithfully",
 "Two vertices of a visibility graph are connected exactly when the straight line between them crosses no obstacle, with an edge cost equal to its length, and paths found in it are true shortest obstacle-avoiding paths. Polygon maps extracted from bitmaps with a blocked border and connected free cells cover exactly the blocked cells, and saving and reloading maps or graphs yields the same ones.",
 ["inputs"],"all bitmaps, all sets of disjoint simple polygons, all start and goal points in free space",
 "The existing tests do not cover the package.",
 ["visnav/polymap.cc","visnav/polymap.hpp","visnav/visgraph.cc","visnav/visgraph.hpp","visnav/visnav.hpp"],[("bitmap outline tracing","visnav/polymap.cc"),("visibility test","visnav/visgraph.cc")],["graph edges and polygon sets"])

p("P19","Encodings and permutation ranks round-trip for every input",
 "Decoding an encoding returns the original bytes for every byte string (base64, base85 and run length), encoded output uses only its documented alphabet, and EPS images written with any encoding reproduce every pixel. Ranking maps the k-permutations of n one-to-one onto 0..n!/(n-k)!-1 in lexicographic order, and operator strings printed for a plan read back as the same plan.",
 ["inputs"],"all byte strings of any length (including empty, runs at length limits, high bytes), all permutations and sub-permutations, all plans",
 "The tests sample random strings of a few lengths; run-length boundaries and padding lengths are sparse.",
 ["utils/encode.cc","utils/rank.cc","utils/utils.hpp","graphics/image.cc","graphics/image.hpp","plat2d/plat2d.hpp","plat2d/plat2d.cc"],[("encoders and decoders","utils/encode.cc"),("Ranker","utils/rank.cc")],["output of encode/decode functions"])

p("P20","Data files are well-formed, read back, and incomplete ones are recognised",
 "Every run of a solver program on any input it accepts writes a data file that begins and ends with its markers and whose key/value pairs and rows read back to exactly what was written, for values of any length and any characters other than quotes and line ends. A file cut anywhere before the end of its end marker, as after a crash, is recognised as incomplete, and a finished one as complete.",
 ["inputs","crash_points"],"all keys, values and rows; every truncation point of every data file; all solver programs and algorithms",
 "The tests write and read back a few short values and no truncated files.",
 ["utils/datafile.cc","rdb/dfcmplt.cc","search/main.hpp","search/search.hpp","utils/str.cc"],[("header/footer","utils/datafile.cc dfheader/dffooter"),("line formatting and parsing","utils/datafile.cc dfpair/dfread"),("completeness test","rdb/dfcmplt.cc")],["bytes written; callbacks of dfread; dfcmplt exit status"])

p("P21","The results database maps attributes to paths one-to-one and finds them again",
 "Looking up the path for a set of attributes gives the same path for the same attributes whatever order they are given in, different paths for attribute sets that differ, and the attributes read back from a path are those that created it. Querying with a partial attribute set returns exactly the files that have all of the given attributes. This holds for every database in which no attribute set contains another, and for all keys and values that are not empty, have no slashes and are not '.', '..' or 'UNSPECIFIED' (nor begin with KEY=), whatever other characters they have, and also when several processes ask for paths at once.",
 ["histories","inputs"],"all sequences of insertions of attribute sets in any key order and all queries",
 "The tests insert a small fixed set of attribute combinations.",
 ["rdb/rdb.cc","rdb/rdb.hpp","rdb/addattrs.cc","rdb/pathattrs.cc","rdb/pathfor.cc","rdb/withattrs.cc"],[("KEY= files and directory descent","rdb/rdb.cc pathfor/withattrs/getattrs")],["returned paths and directory contents"])

p("P22","File-system and string helpers do what they say, only where they may",
 "Recursive removal removes the whole named tree and nothing outside it, directory creation makes every missing component, and directory listing returns every entry other than . and .. exactly once and nothing else. Path splitting and joining are mutually consistent, and line reading, formatting, splitting and prefix/suffix helpers agree with their definitions for every string.",
 ["inputs","histories"],"all directory trees (including symbolic links, empty directories, odd names) and all strings of any length",
 "The tests use a handful of fixed names and paths.",
 ["utils/fs.cc","utils/str.cc","utils/utils.hpp"],[("recursive remove","utils/fs.cc rmrecur"),("path handling","utils/fs.cc"),("readline","utils/str.cc")],["file system state before and after; returned strings"])

p("P23","Instance generators and loaders produce valid, reproducible instances",
 "Every instance generator, for every seed and size it accepts, writes instances that its loader accepts, that are solvable where the domain promises it, and that are the same for the same seed. Loading an instance and writing it again yields the same instance, and the loader's view of it matches what the file says.",
 ["inputs","configurations"],"all seeds, sizes and densities accepted by the generators; all well-formed instance files",
 "No test runs a generator.",
 ["tiles/generator.cc","tiles/tiles.cc","gridnav/randinst.cc","gridnav/mkseedinst.cc","gridnav/ppm2grid.cc","gridnav/gridmap.cc","gridnav/scenario.cc","vacuum/vacuum.cc","traffic/randinst.cc","traffic/gridmap.cc","segments/mkinst.cc","segments/segments.cc","visnav/rand.cc","visnav/inst.cc","visnav/pbm2poly.cc"],[("instance writing and reading","per-domain tools")],["generator stdout, loader state"])

p("P24","Malformed input is rejected cleanly",
 "For every byte sequence given as an instance, map, encoded string, data file or command line, the readers either accept it as a well-formed value or stop with an error message and a failing exit status. They never read or write outside their buffers, use uninitialised data, abort, hang (unless asked for an unlimited search, or for more than fits in memory), or silently accept an instance as complete that lacks some of what its format announces.",
 ["inputs","fault_sequences"],"all byte sequences, in particular all truncations and small mutations of well-formed files",
 "The tests feed well-formed input only.",
 ["tiles/tiles.cc","pancake/pancake.cc","gridnav/gridmap.cc","vacuum/vacuum.cc","traffic/traffic.cc","drobot/drobot.cc","segments/segments.cc","plat2d/lvl.cc","visnav/polymap.cc","utils/encode.cc","utils/datafile.cc"],[("instance parsers","per-domain constructors"),("fatal error exit","utils/fatal.cc")],["exit status, sanitizer reports"])

p("P25","Anytime stopping policies are computed and read back faithfully",
 "A performance profile built from solution traces is a proper conditional probability table: it counts the solutions by their cost bin, and by the cost bin of the incumbent each time bin later, and its probabilities are these frequencies, smoothed by half of the least one and normalised over the costs that are no worse. Saving and loading a profile keeps all of it. The stopping policy derived from it is optimal for the stated utility of cost and time, within the costs and times of the profile. The monitored search never stops before it has a solution unless there is none or a limit is reached, goes on or stops as the policy says, and reports its best incumbent.",
 ["inputs","histories"],"all sets of solution streams, bin counts and utility weights, and all monitored searches",
 "The existing tests do not cover profiles or monitoring.",
 ["search/anyprof/profile.cc","search/anyprof/profile.hpp","search/anyprof/mkprof.cc","search/arastar.hpp"],[("profile counting and normalising","search/anyprof/profile.cc"),("policy by dynamic programming","search/anyprof/profile.cc AnytimeMonitor")],["profile queries, saved file, stop decisions"])

p("P26","Numeric and random helpers stay exact over their whole range",
 "Checked arithmetic reports an overflow exactly when the true result does not fit and otherwise returns the true result, for every pair of operands of every width. Random integers, reals and bits stay inside their stated ranges, reach every value there, and depend only on the seed; factorials, powers of two, logarithms, hashes and number formatting match their definitions.",
 ["inputs"],"all operand pairs at and around the type limits, all seeds and range bounds",
 "The tests check a few values per type.",
 ["utils/safeops.hpp","utils/math.cc","utils/rand.cc","utils/hash.c","utils/str.cc","utils/utils.hpp"],[("overflow checks","utils/safeops.hpp"),("xorshift generator","utils/rand.cc")],["return values"])

p("P27","Every solver program runs clean and answers right on any valid instance",
 "Each solver program, for each algorithm it offers with sensible options and any well-formed instance, exits successfully without memory errors or undefined behaviour, and the solution cost it prints is that of a real solution of that instance or the no-solution marker when there is none. Programs that offer several optimal algorithms print the same cost for all of them on the same instance.",
 ["inputs","configurations"],"all well-formed instances, all algorithms and documented domain options of all the solver programs",
 "No test starts a solver program.",
 ["tiles/main_mdist.cc","pancake/main.cc","gridnav/main_gridnav.cc","vacuum/main.cc","traffic/main_traffic.cc","drobot/main.cc","segments/main.cc","plat2d/main.cc","visnav/main.cc","search/main.hpp"],[("option parsing, load, search, report","*/main.cc, search/main.hpp")],["stdout data file and exit status of the built programs"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
