"""What each check runs.  BINARIES: how the simulated programs are built from /repo/src; CHECKS: stages per property."""
G = ["-std=c++20", "-O1", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS"]   # an access outside of a container is a crash, not luck
CORE = ["sim/core.cpp"]

BINARIES = {
    "stream": dict(src=["harness/h_stream.cpp"] + CORE, flags=G),
    "stream-alt": dict(src=["harness/h_stream.cpp"] + CORE, flags=G + ["-DSIM_ALT"]),
    "stream-fallback": dict(src=["harness/h_stream.cpp"] + CORE, flags=G + ["-DDOUBLE_FALLBACK"]),
    "multi-alt": dict(src=["harness/h_multi.cpp"] + CORE, flags=G + ["-DSIM_ALT"]),
    "args": dict(src=["harness/h_args.cpp"] + CORE, flags=G),
    "random": dict(src=["harness/h_random.cpp"] + CORE, flags=G),
    "dist": dict(src=["harness/h_dist.cpp"] + CORE, flags=["-std=c++20", "-O2", "-g0", "-w"]),
    "random-no128": dict(src=["harness/h_random.cpp"] + CORE, flags=G + ["-DSIM_NO128"]),
    "dist-no128": dict(src=["harness/h_dist.cpp"] + CORE, flags=["-std=c++20", "-O2", "-g0", "-w", "-DSIM_NO128"]),
    "graphgen": dict(src=["harness/h_graphgen.cpp"] + CORE, flags=G),
    "graphval": dict(src=["harness/h_graphval.cpp"] + CORE, flags=G),
    "gen": dict(src=["harness/h_gen.cpp"] + CORE, flags=G),
    "genvar-g0": dict(src=["harness/h_genvar.cpp"], flags=["-std=c++20", "-O0", "-w"], link=[]),
    "genvar-g3": dict(src=["harness/h_genvar.cpp"], flags=["-std=c++20", "-O3", "-w"], link=[]),
    "genvar-c2": dict(cxx="clang++", src=["harness/h_genvar.cpp"], flags=["-std=c++20", "-O2", "-w"], link=[]),
    "genvar-m32": dict(src=["harness/h_genvar.cpp"], flags=["-std=c++20", "-m32", "-O2", "-w"], link=[]),
    "genvar-cm32": dict(cxx="clang++", src=["harness/h_genvar.cpp"], flags=["-std=c++20", "-m32", "-O1", "-w"], link=[]),
    "png": dict(src=["harness/h_png.cpp"] + CORE, flags=G),
    "svg": dict(src=["harness/h_svg.cpp"] + CORE, flags=G),
    "trip": dict(src=["harness/h_trip.cpp"] + CORE, flags=G),
    "rt-val": dict(src=["harness/h_rtval.cpp"], flags=G + ["-fPIC", "-fvisibility=hidden", "-fno-gnu-unique"], link=["-shared", "-Wl,-Bsymbolic"]),
    "inter": dict(src=["harness/h_inter.cpp"] + CORE, flags=G),
    "multi": dict(src=["harness/h_multi.cpp"] + CORE, flags=G),
}

STREAM_REAL = ["src/validate.h compiled unchanged: command parser, settings, InputStream, OutputStream, verdicts, constraints, role initialisation, exit path", "libstdc++ iostreams, regex, filesystem and the glibc stdio buffering in front of the seam"]
STREAM_STUB = ["kernel side of open/read/write/seek/stat/unlink/exit-time flush (in-memory disk and pipes under the scheduler)", "judging system that starts the process and reads status and files (the oracle)", "clock, entropy and heap contents"]
STREAM_RULE = "Each run draws a validator process (input, answer, output validator or interactor), its flags and settings, a script of reads, checks and writes, matching stream contents with random corruption, and a delivery/fault plan; the real process is executed on the simulated machine and compared with an executable model of the documented stream semantics."
NT = "initialisation completed and the script has at least two operations"
ASSUME = ["libstdc++/glibc above the interposed symbols behave as on the judge's machine", "default C locale", "the model in the harness states the documented meaning; values whose tolerance comparison is closer than 1e-14 to the limit are skipped and counted"]


def stage(binary, scenarios, quick, thorough, **kw):
    return dict(binary=binary, scenarios=scenarios, quick=quick, thorough=thorough, **kw)


def stream(*stages, **kw):
    return dict(stages=list(stages), rule=STREAM_RULE, nontrivial=NT, real=STREAM_REAL, stub=STREAM_STUB, assumptions=ASSUME, **kw)


def st(scenarios, quick=150000, thorough=4000000):
    return stage("stream", scenarios, quick, thorough)


GEN_REAL = ["src/validate.h compiled unchanged: namespace Random, Generator, output streams and exit path"]
GEN_STUB = ["random engine behind the library's documented seam Settings::RandomEngine", "clock, entropy and heap contents", "stdout (in-memory)"]


def gen(*stages, **kw):
    d = dict(stages=list(stages), nontrivial="at least one draw was made", real=GEN_REAL, stub=GEN_STUB, assumptions=["x86-64, gcc, default rounding mode; Real is the x87 long double", "a fair engine is mt19937_64; no-progress is reported after 300000 engine words for parameters whose acceptance probability is not small"], states="engine mode x function sequence")
    d.update(kw)
    return d


CHECKS = {
    "C01": stream(st(["verdict", "verdict-faults"]), stage("args", ["startup"], 50000, 1000000), must_reach=["accepted", "explicit rejection"]),
    "C02": stream(st(["tokens"])),
    "C03": stream(st(["typed"]), stage("stream-fallback", ["typed"], 60000, 1500000, cap_quick=25), must_reach=["real of extreme magnitude"]),
    "C04": stream(st(["diag"]), must_reach=["diag: location printed"]),
    "C05": dict(stages=[stage("inter", ["inter", "inter-faults"], 150000, 4000000)],
                rule="Each run draws a protocol (interactor script of writes, flushless reads, checks and verdict), the matching or misbehaving peer (garbage, early close, stall in a token, death, refusal to read), pipe capacities, stdio buffer size and delivery schedule; interactor and peer run under the scheduler.",
                nontrivial="initialisation completed and at least one byte was exchanged", real=STREAM_REAL, stub=STREAM_STUB + ["team program: a scripted peer driven by the scheduler"],
                assumptions=ASSUME, states="role x settings x peer behaviour x capacity class x outcome"),
    "C06": stream(st(["feedback", "feedback-faults"])),
    "C07": dict(stages=[stage("multi", ["chain"], 60000, 1500000)],
                rule="Each run draws a chain of 1 to 14 passes (output validators and interactors mixed) over one feedback directory with per-pass state, next input and jury writes of up to 80 kB in any interleaving and any way of ending; every pass is a separate process on the same simulated disk; delivery is chunked and interrupted at random.",
                nontrivial="at least one pass was executed", real=STREAM_REAL, stub=STREAM_STUB, assumptions=ASSUME, states="pass number class x way of ending x fault kind x status"),
    "C08": dict(stages=[stage("multi", ["chain-faults"], 60000, 1500000)],
                rule="As C07, with disk faults (full disk, write error, failed open), crash at any simulated call, exhausted memory and read errors injected into one pass, and the chain continued afterwards over whatever survived on disk.",
                nontrivial="at least one pass was executed", real=STREAM_REAL, stub=STREAM_STUB, assumptions=ASSUME + ["a write is durable once the kernel accepted it (process crash, not power loss)"], states="pass number class x way of ending x fault kind x status"),
    "C09": stream(st(["constraints"]), must_reach=["constraints file compared"]),
    "C10": gen(stage("gen", ["generator"], 40000, 3000000, cap_quick=70, also=["genvar-g0", "genvar-g3", "genvar-c2", "genvar-m32", "genvar-cm32"]), stage("gen", ["engines"], 100000, 3000000, cap_quick=40),
               rule="Each run draws a generator program (1 to 9 operations from all draws, structures, geometry, graph families, graph operations, shuffles, re-seeding, direct engine use and printing, parameters included), one of the three supplied engines and a seed. It is executed as a simulated process with Random::seed, again once or twice on another machine state (memory contents, address order of allocations, stack garbage, clock, entropy, environment, working directory, unrelated earlier activity, short writes; seeded by --seed, by code, by default, or re-seeded after use), and by five other builds; all output bytes must be identical. Engine runs compare interleaved, copied and jumped instances word by word with reference implementations.",
               real=GEN_REAL + ["src/graph_gen.h, src/rng.h, src/secure_rng.h; the real process exit path", "the same sources built by g++ -O0/-O1/-O3, clang++ -O2, g++ -m32 -O2, clang++ -m32 -O1"], stub=["clock, entropy, process id, heap placement and contents, stack garbage", "stdout (in-memory, short writes)", "Random engine: a dispatcher that forwards to the supplied engines", "the other builds run outside of the simulator as plain processes on the script of the simulated run (their only inputs are script and seed)"],
               nontrivial="always", assumptions=["x87 long double on all builds", "the address space layout of globals varies only between builds"], states="engine x operation sequence x seeding x machine state", floor=3000,
               must_reach=["op reseed", "op convex", "op permutate", "op engine", "Random::seed after use", "--seed", "g++ -m32 -O2", "clang++ -O2"]),
    "C11": gen(stage("random", ["scalars"], 600000, 20000000), stage("random-no128", ["scalars"], 150000, 3000000, cap_quick=25),
               rule="Each run is one generator process whose random engine is the simulator: a fair mt19937_64, an adversary choosing every 64-bit word, or an adversarial prefix followed by a fair tail; 1 to 5 draws with parameters from all of the 64-bit and floating point range (boundary-biased, valid and invalid)."),
    "C12": gen(stage("random", ["structures"], 300000, 10000000),
               rule="As C11 for sequences, strings, permutations, partitions, selections, convex polygons and points in general position; every result is checked against its full contract."),
    "C13": gen(stage("dist", ["dist"], 14000, 600000), stage("dist-no128", ["dist"], 3000, 60000, cap_quick=25), must_reach=["chi-square tests", "large structures"],
               rule="Each run draws one documented draw with parameters whose exact outcome probabilities the model computes (by enumeration, from the distribution function, or, for structures of up to 1000 elements, the exact distribution of one visible feature: places, fixed points, parity, cycle lengths, memberships, counts, depths, degrees, distances), one of the three supplied engines, a seed and a seeding discipline (once, before every draw, with unrelated draws in between), executes 10000 to 150000 draws and compares the counts by a chi-square test with error probability below e^-45 per run; outcomes of probability zero are violations.",
               stub=["seeds and parameters: the simulator", "clock, entropy and heap contents", "stdout (in-memory)"], real=GEN_REAL + ["src/rng.h, src/secure_rng.h and std::mt19937_64 as engines; src/graph_gen.h for random trees and graphs"],
               assumptions=["Laurent-Massart bound for the chi-square tail; cells with fewer than 60 expected draws are merged", "exact probabilities computed in long double"], states="function x engine x seeding discipline"),
    "C14": gen(stage("graphgen", ["families"], 400000, 12000000), real=["src/graph_gen.h compiled unchanged (with src/validate.h): every graph family, both orientations, with and without edge data"],
               rule="Each run is one generator process whose random engine is the simulator (fair mt19937_64, adversary choosing every word, adversarial prefix); 1 to 5 graphs of random family and parameters (valid and invalid) are built and compared with the defining vertex and edge set or, for random families, with the full contract; every view of the container must agree.",
               states="engine mode x family sequence"),
    "C15": gen(stage("graphgen", ["graph-ops"], 300000, 10000000), real=["src/graph_gen.h compiled unchanged (with src/validate.h): GraphType for all four combinations of orientation and edge data"],
               rule="Each run is one process with three graphs and a history of up to 25 (thorough 60) operations; after every operation every graph is compared with a reference graph through every accessor (id access, edge views, per-vertex views, lookups, degrees, printing); the random engine is simulated.",
               nontrivial="at least one operation was executed", states="engine mode x operation sequence", must_reach=["op combine", "op lineGraph", "op transitiveClosure", "op strongProduct", "op permutate", "op range"]),
    "C16": gen(stage("graphval", ["graph-containers", "graph-streams"], 500000, 15000000), real=["src/graph_val.h compiled unchanged: Graph, DiGraph, UnionFind; src/validate.h: input validator process, stream reads, verdicts"], stub=["stdin delivery (file, pipe, single bytes, random chunks), kernel", "clock, entropy and heap contents"],
               rule="Each run draws edge lists (anything, trees, forests, cycles, bipartite, DAGs, unicyclic, multi-edges, loops; up to 21000 vertices) in adversarial arrival orders and id offsets. In container runs every predicate is compared with a recomputation from the edge list after each edge (or after a random subset); in stream runs a whole input validator process reads the edges from a chunked stream and its verdict must be accept iff the complete list has the demanded property.",
               nontrivial="always", assumptions=["vertex ids within the declared range", "connectivity and tree-ness of graphs without vertices, and degrees at vertices with loops or multi-edges, are not claimed"], states="graph kind x size class x loop/multi-edge x verdict", must_reach=["tree accepted", "out-tree accepted", "DAG accepted", "union-find"]),
    "C17": dict(stages=[stage("png", ["png"], 200000, 8000000, cap_quick=40), stage("png", ["png-faults"], 100000, 4000000, cap_quick=20)],
                rule="Each run is one visualizer process with a global (Visualizer::init), named or moved image and a history of up to 14 operations (clear to any size up to 16383 wide, pixels, rectangles with and without border, lines, flood fills in all four blend modes, explicit writes, colour arithmetic); after every operation the canvas is compared with a reference canvas, and the file left on the simulated disk is decoded by an independent PNG decoder and compared with the canvas. In fault runs the disk is full, fails to write, open or close, or the process is killed at any simulated call, over an absent or stale old file.",
                nontrivial="always", real=["src/visualizer_png.h compiled unchanged: PNG, Color, PNGWriter, Visualizer::init", "libstdc++ file streams, destructors at process exit"], stub=["kernel side of open/write/close (in-memory disk)", "heap contents"],
                assumptions=["images at most 16383 pixels wide (the header asserts it)", "drawing coordinates inside the image", "blend to within rounding of its 8-bit arithmetic"], states="fault kind x image kind x blend mode and operation sequence",
                must_reach=["file decoded", "flood fill", "line", "rectangle with border", "rectangle", "clear wide", "colour arithmetic", "file incomplete", "killed"]),
    "C18": dict(stages=[stage("svg", ["svg"], 200000, 8000000, cap_quick=40), stage("svg", ["svg-faults"], 100000, 4000000, cap_quick=20)],
                rule="Each run is one visualizer process with a global (Visualizer::init), named, move-assigned or unnamed image and a history of up to 40 operations: every shape with strokes and fills, comments, groups and text through the stream, each alone or chained behind text, manipulators or comments, explicit points and margins, moves, explicit writes, copies on other streams, colour arithmetic. The file left on the simulated disk is parsed by an independent XML parser and compared part by part with what was drawn; the view box is compared with the bounding box. In fault runs the disk is full, fails to write, open or close, or the process is killed at any simulated call, over an absent or stale old file.",
                nontrivial="always", real=["src/visualizer_svg.h compiled unchanged: SVG, all shapes, Color, Visualizer::init", "libstdc++ file and string streams, destructors at process exit"], stub=["kernel side of open/write/close (in-memory disk)", "heap contents"],
                assumptions=["finite coordinates, non-negative sizes, text without control characters", "coordinates to six significant digits, view box to six decimals"], states="fault kind x image kind x sequence of ways of writing",
                must_reach=["file parsed", "rectangle", "circle", "ellipse", "line", "polygon", "polyline", "comment", "group", "chained behind text", "chained behind a manipulator", "chained behind a comment", "move assignment", "margin", "explicit write", "copy on another stream", "file incomplete", "killed"]),
    "C19": stream(st(["flags"], 100000), stage("args", ["args", "startup"], 100000, 2000000)),
    "C20": dict(stages=[stage("trip", ["trip"], 200000, 8000000, cap_quick=25), stage("trip", ["trip-faults"], 100000, 4000000, cap_quick=20),
                        stage("trip", ["graph-trip", "graph-trip-faults"], 100000, 4000000, cap_quick=25, also=["rt-val"])],
                rule="Each run writes 1 to 8 items (every printable kind: integers, reals of any precision, strings, booleans, pairs, tuples, arrays, containers, nested containers, joins with and without separator, graphs) with the library in one simulated process and reads them with the library in another one, over seven channels: generator to input validator, answer validator, strict output validator, test input or jury answer of an output validator, and state or next input of a multipass validator to its next pass. The reader draws any suitable reading function per token. Fault runs cut the data anywhere, stop the writer's output with an error, lose, double, swap or replace one separator or append data.",
                nontrivial="always", real=STREAM_REAL + ["src/graph_gen.h on the writing and src/graph_val.h on the reading side"], stub=STREAM_STUB, assumptions=ASSUME + ["string tokens of printable ASCII characters"], states="channel x case sensitivity x sequence of item kinds",
                must_reach=["cut", "separator lost", "separator doubled", "separator swapped", "separator replaced", "more data", "failing output", "graph read back", "read i at once", "read s at once", "read r at once", "expectInt", "expectReal", "realStrict", "state to next pass: 42", "next input to next pass: 42"] + ["written %02d" % i for i in range(32)]),
    "C23": stream(stage("stream-alt", ["verdict", "verdict-faults", "tokens", "typed", "diag", "feedback", "feedback-faults", "constraints", "flags"], 150000, 4000000, cap_quick=50),
                  stage("multi-alt", ["chain", "chain-faults"], 60000, 1500000, cap_quick=40),
                  must_reach=["verdict through the overridden exitVerdict", "pass ended through the overridden exitVerdict", "accepted", "explicit rejection", "diag: location printed", "constraints file compared"]),
}
