#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
V="src/validate.h"; GG="src/graph_gen.h"; GV="src/graph_val.h"; PN="src/visualizer_png.h"; SV="src/visualizer_svg.h"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=hook)))

prop("C01","Exit status is the earned verdict, under every input, delivery and fault",
 "A validator or interactor process ends with status 42 only if the judge's code explicitly issued AC after every read and check before it succeeded on the bytes actually delivered; malformed or missing data ends it with 43 when it came on the team (standard input) stream and with 1 when it came from a judge-supplied file. "
 "If initialisation cannot complete (missing or unopenable file, malformed flag value, double initialisation) or an internal failure such as exhausted memory or an I/O error on a judge file interrupts the run, the process never ends with 42 or 43. "
 "How the bytes are delivered (chunk sizes, file or pipe, interrupted calls) never changes the status.",
 ["inputs","schedules","fault_sequences","configurations"],
 "every validator role (input, answer, output, interactor), every script of reads/checks, every content of test input, jury answer and team stream, every chunking of delivery, every I/O or allocation fault and the point where it strikes",
 "test/validate.cpp overrides the exit with an exception and drives single streams from string streams: no process ever runs to its real exit, no role's init is called, no stream is a file or pipe, and no call ever fails.",
 [V],[("Verdict::exit / operator<<",V+":180"),("InputStream onFail",V+":2255"),("role init functions",V+":2870-2960")],
 [("onFail","verdict a stream fails with",V+":2261")],["process exit status"])

prop("C02","Tokenisation depends on the byte stream and mode only, never on its delivery",
 "Reads that skip whitespace return exactly the maximal runs of non-whitespace bytes in order, whatever whitespace separates them; reads on space-sensitive streams succeed exactly when the next byte is the one demanded (a token byte, a single space, a single newline, end of data) and consume nothing else. "
 "On a case-insensitive stream tokens arrive with ASCII letters lower-cased and otherwise unchanged; on a case-sensitive one they arrive byte for byte. "
 "The sequence of results is the same for every way the bytes are split across deliveries, for files, pipes and terminals that deliver late.",
 ["inputs","schedules","histories"],
 "every byte stream, every sequence of string/space/newline/eof/noteof/strings calls, both modes, every chunking and every buffering of the source",
 "checkInputStream feeds a few dozen fixed strings through std::stringstream, where a read never stops mid-token.",
 [V],[("InputStream::string/space/newline/eof/noteof",V+":2316-2396")],[("spaceSensitive, caseSensitive","stream mode",V+":2259")],["values returned","exit status"])

prop("C03","Typed reads accept exactly the documented tokens, ranges and tolerances",
 "Integer reads accept exactly canonical decimal integers of 64-bit range; real reads accept exactly finite decimal/scientific notation and return its correctly rounded value; strict real reads accept exactly canonical decimals (no exponent, plus sign or redundant leading zeros) whose count of decimals and value lie in the given half-open ranges. "
 "A bounded read succeeds exactly if the value (or the token's length) is in the half-open range, reals being also accepted within the configured absolute or relative tolerance of either bound; pattern reads succeed exactly if the whole token matches; expected-value reads succeed exactly if the token equals the expected string (modulo case on case-insensitive streams) or number (modulo tolerance for reals). "
 "List reads return exactly the requested number of such values, demanding the separator between but not after them.",
 ["inputs","configurations","histories"],
 "every token, every bound/tolerance/pattern/count/separator, every combination and order of calls, for each stream of each role and each way of setting the tolerances",
 "tests call each function on a handful of literals with default tolerances; expectReal, list reads and flag-configured tolerances on the team stream are not exercised at all.",
 [V],[("typed reads",V+":2398-2668"),("details::floatEqual/parse",V+":898-985"),("regex constants",V+":152-154")],[],["values returned","exit status","which call fails"])

prop("C04","Every rejection is explained to the jury only, at the right place",
 "Whenever a stream read or check fails, a message describing that failure is in the jury's output channel by the time the process has ended, and nothing about it is in the team's message file or on the team's input. "
 "When the message gives a line and character and an excerpt, they designate the token or byte that was rejected: its line, its column, and a marker spanning it in the printed excerpt, for every length of line and token. "
 "Reporting always terminates, and it never changes the verdict.",
 ["inputs","histories","configurations"],
 "every role and stream, every failing call, every position of the offending token (first/last line, long lines, long tokens, end of file), seekable and non-seekable sources",
 "the tests discard the jury output (it goes to the test program's stdout) and never look at the excerpt.",
 [V],[("InputStream::fail",V+":2672-2724"),("expectString formatting",V+":2614-2640")],[],["judgemessage.txt / stdout","teammessage.txt"])

prop("C05","Interactive exchange never deadlocks and survives any peer behaviour",
 "Everything the interactor has written towards the team is delivered before the interactor blocks waiting for the team, and everything not yet delivered is delivered at a verdict, so an exchange in which both sides follow the protocol always completes, for every message size, pipe capacity and delivery schedule. "
 "Bytes arrive at the team exactly once and in the order written, and replies are read in order. "
 "If the team closes, stalls mid-token and then dies, sends garbage or stops reading, the interactor ends within a bounded number of further steps and not with AC unless the judge's code had everything it asked for.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of interactor and team steps, every pipe capacity and chunking, every length of conversation, every point at which the team closes, dies, babbles or stops reading",
 "no test runs an interactor; there is no second process, no pipe and no blocking in the test-suite.",
 [V],[("cin tied to cout",V+":2843-2844"),("Interactor::init",V+":2949"),("toTeam",V+":2943")],[],["bytes seen by the simulated team","exit status","deadlock detector"])

prop("C06","All feedback issued before a verdict is on disk when the process ends",
 "For every verdict and every way of issuing it, when the process has ended the judge message, the team message, the constraints file and the next state contain exactly what was written to each, complete, in order and each in its own file, with nothing left over from earlier runs. "
 "Numbers, booleans, pairs, tuples and containers appear in the documented format (fixed precision, boolalpha, single separators). "
 "A failed or short write to one of these files never alters the verdict.",
 ["histories","inputs","fault_sequences"],
 "every interleaving of writes to the channels, sizes crossing buffer boundaries, pre-existing files, each verdict, write faults at any write",
 "tests only stringify through join(); files, flushing at exit and verdict streaming are never executed.",
 [V],[("OutputStream",V+":244-312"),("Verdict operator<<",V+":184"),("static destruction order",V+":313-316")],[],["files in feedback directory after exit"])

prop("C07","Multipass passes see exactly the state and input their predecessor produced",
 "In a chain of passes over one feedback directory the pass number is 0 in the first pass and grows by one per pass; the previous-state stream of pass k+1 contains exactly what pass k wrote as next state; and the next pass's input is exactly what pass k wrote for it, however many passes there are and however much each writes. "
 "A pass that asks for another pass ends with status 42 and has written the next input completely; a pass that ends with an ordinary verdict leaves no next input of its own. "
 "State of older passes never reappears.",
 ["histories","schedules"],
 "every number of passes, every content and size of state and next input (including empty), output validators and interactors",
 "Multipass is not referenced by any test; it needs several process lifetimes over one directory.",
 [V],[("Multipass::init",V+":2972"),("Multipass::NEXT",V+":2996")],[("pass counter","persisted in .pass",V+":2975"),("state files","alternate by parity",V+":2976")],["feedback directory between passes","exit status"])

prop("C08","Disk-full, I/O errors and crashes never turn a lost pass into an accepted one",
 "If the input of the next pass, the next state or the pass counter could not be stored completely (full disk, I/O error, failed open, short write), the pass does not end with status 42; whenever a pass ends with 42 after asking for another pass, the files the next pass will read are complete. "
 "If a pass is killed at any point, a later pass over the same directory never reads a mixture of two passes' states as if it were one complete state.",
 ["fault_sequences","crash_points","histories"],
 "every write, open, close or unlink of a pass failing or the process dying just before or after it, in any pass of the chain",
 "needs failing system calls and process death at chosen points; no test opens a file.",
 [V],[("Multipass::NEXT write",V+":2996-3003"),("Multipass::init rotation",V+":2972-2994")],[],["exit status","feedback directory after the run"])

prop("C09","The constraints file reports exactly the bounds and extremes of what was read",
 "For each constraint name, in order of first mention, the constraints file has one line with the name twice, whether the lower and the upper (closed) bound was ever attained, the smallest and largest value read, and the widest bounds used; constraints that never saw a value have none. "
 "This holds for every order and number of reads through integer, real, strict real, string-length and list reads, and for every verdict that ends the run. "
 "Using one name for two kinds of value is refused.",
 ["histories","inputs","configurations"],
 "every history of constrained reads, names, bounds and values including extremes; ended by every verdict including a failing read",
 "no test creates a ConstraintsLogger, and the file is written during static destruction after exit.",
 [V],[("Bounds::update",V+":2127"),("Constraint::log",V+":2193-2206"),("ConstraintsLogger::write",V+":2229")],[],["constraints file after exit"])

prop("C10","Generator output is a function of seed and arguments alone",
 "The bytes a generator produces from a seed are identical in every run: independent of memory layout and prior memory contents, environment, locale, wall clock, working directory, entropy sources and earlier unrelated activity, of the compiler (gcc, clang), optimisation level and word size (64/32 bit). "
 "This covers all scalar, sequence, string, point and graph generation and all supplied random engines, whose seeding fully determines their output. "
 "Re-seeding restarts the identical sequence, and --seed on the command line has the same effect as seeding with that value before the first draw.",
 ["configurations","schedules","histories","inputs"],
 "every seed and every sequence of generator calls, under every environment, heap state, compiler and word size",
 "tests compare seven numbers from one seed; they cannot see dependence on heap layout, uninitialised memory, clock, or argument-evaluation order across compilers for the other functions.",
 [V,GG,"src/rng.h","src/secure_rng.h"],[("Random namespace",V+":1330-1900"),("RandomEngine setting",V+":79"),("--seed",V+":2848")],[("randomNumberGenerator","the only source of randomness",V+":1335")],["bytes written to testOut, compared across environments and builds"])

prop("C11","Random scalars respect their documented range for every engine output",
 "Every scalar draw returns a value in its documented range for all valid parameters and whatever 64-bit words the engine yields: integers in [lower,upper) including full-width and extreme ranges, reals in [0,1) or [lower,upper), discrete results an index with positive weight, bounded normal/exponential/geometric/binomial/maximum/minimum/minmax in [lower,upper), binomial in [0,n], primes prime and in range. "
 "Invalid parameters are refused instead of drawing. "
 "With a fair engine every draw finishes, and every value of a small range is attainable.",
 ["inputs","schedules"],
 "every valid parameter tuple (including extremes of 64-bit range, p near 0 and 1) and every engine stream, including runs of all-zero, all-one and boundary words",
 "checkRandom draws a fixed number of values from one fixed seed, so streams of probability 2^-54 or boundary parameters never occur.",
 [V],[("Random scalar functions",V+":1340-1625")],[],["returned values"])

prop("C12","Random sequences and structures always satisfy their contract",
 "For all valid parameters and every engine output: distinct draws are distinct and in range; permutations are permutations of the stated interval, with exactly the requested cycle lengths or fixed points; increasing, decreasing, non-increasing and non-decreasing sequences have the stated order and range; partitions have k parts of at least the minimum summing to n; strings have the length and alphabet; bracket sequences are balanced; select returns an element; shuffle and rotate permute/rotate their input by the reported amount. "
 "Convex polygons have n points in counter-clockwise convex position inside the open square and span its full width and height; point sets in general position are distinct, inside the square and have no three collinear. "
 "Invalid parameters are refused.",
 ["inputs","schedules"],
 "every valid parameter tuple (including minimal and degenerate ones) and every engine stream",
 "tests run few parameter choices from one seed; degenerate outcomes (e.g. all turns in one direction) have low probability there.",
 [V],[("Random sequences",V+":1690-1810"),("Random geometry",V+":1815-1900")],[],["returned containers"])

prop("C13","Random draws are unbiased",
 "Over many independently seeded runs, integer draws from any range, bits, reals, discrete draws, selections, shuffles, permutations, distinct samples, partitions, bracket sequences, rotations and uniformly random trees occur with equal (or the stated) probabilities, and bounded normal, exponential, geometric, binomial and maximum/minimum draws follow their stated distribution.",
 ["schedules","inputs"],
 "all seeds; every range size including ones that do not divide 2^64 and ones just above a power of two",
 "tests check ranges and one golden sequence, never frequencies.",
 [V,GG],[("rejection sampling in integer",V+":1360"),("shuffle",V+":1655"),("randomTree",GG+":700")],[],["observed frequencies over many simulated seeds against exact probabilities at error rate below 1e-9 per check"])

prop("C14","Graph generators produce exactly the promised graph for every engine output",
 "For all valid sizes, both orientations and every engine output: random trees are trees (rooted at vertex 0 when directed), random graphs and bipartite graphs have the promised vertices, sides and edge count without loops or duplicates, random graphs with a degree sequence have exactly that sequence, growing graphs are connected as documented; deterministic families (clique, bipartite, path, cycle, star, wheel, lolly, broom, grid, hypercube, Boolean lattice, Rado prefix, complete tree, flow worst cases) have exactly the documented vertex ids and edges. "
 "Shuffling vertex or edge ids yields an isomorphic graph. "
 "Invalid parameters are refused.",
 ["inputs","schedules"],
 "every valid parameter tuple and every engine stream, including p of 0 and 1 and extreme edge counts",
 "graph_gen.h has no tests at all; the build only compiles it.",
 [GG],[("generators",GG+":560-984")],[],["edges and vertices of the returned graph"])

prop("C15","Generated-graph containers stay consistent under every history of operations",
 "After any sequence of edge insertion, overwrite, lookup, erasure, id shift, range, append, combine, products, power, line graph, complement, transitive closure, orientation changes, reversal and random permutation, the container equals the mathematical graph obtained by the same operations: vertex range, edge set, edge data, degrees, edge counts, id access and per-vertex views all agree with each other. "
 "Undirected edges are visible from both ends with the same data. "
 "Printing lists exactly the edges, in the current id order.",
 ["histories","inputs","schedules"],
 "every history of container operations on directed/undirected graphs with and without edge data, any id offset, every engine stream for the random operations",
 "graph_gen.h has no tests; index maintenance on erase/permute only breaks after multi-step histories.",
 [GG],[("GraphBase",GG+":120-555")],[("edges, adj","edge storage and adjacency index",GG+":150")],["public API after every operation"])

prop("C16","Graph validators decide their predicates for every arrival order of edges",
 "At every moment while edges are being read, whatever their order and multiplicity, connectivity, forest, tree, bipartite, component, self-loop, multi-edge, degree, neighbour and edge-existence answers are exactly those of the graph read so far; directed graphs answer acyclicity with a genuine topological order iff one exists and tree-ness with the root iff the graph is an out-tree. "
 "Hence a graph validator streaming edges accepts exactly the graphs that have the property it demands, independent of edge order and vertex id offset.",
 ["histories","inputs","schedules"],
 "every sequence of edges (loops, duplicates, both orientations), any id offset, queries interleaved at any point",
 "graph_val.h has no tests at all.",
 [GV],[("Graph",GV+":60-140"),("DiGraph",GV+":140-218"),("UnionFind",GV+":20-58")],[("union-find with parity","incremental connectivity and bipartiteness",GV+":25")],["query results","validator exit status"])

prop("C17","A PNG written to disk decodes to exactly the canvas that was drawn",
 "For every image size and history of clear, pixel, rectangle, line and flood-fill operations with any blend mode and colour, the file written when the image is destroyed or written explicitly is a structurally valid PNG (signature, chunk lengths, CRCs, zlib stream and checksum) that decodes to exactly the canvas: filled rectangles cover exactly the spanned area with the border where asked, lines connect their end points, flood fill covers exactly the connected region of equal colour and always terminates. "
 "Colour arithmetic saturates per channel. "
 "Faults while writing never crash or hang the program and never leave a file that decodes completely to a different image.",
 ["histories","inputs","fault_sequences"],
 "every drawing history, image size (including sizes crossing compression-block boundaries and 1-pixel images), corner order, blend mode, and every write fault",
 "no test draws or decodes an image.",
 [PN],[("PNG::write",PN+":190-260"),("fillRectangle/drawLine/floodFill",PN+":270-400")],[],["bytes of the file on the simulated disk, decoded independently"])

prop("C18","An SVG written to disk is well-formed and contains every object in its view",
 "For every history of objects, strokes, fills and groups written to the image, the file at destruction is a well-formed document that contains exactly the objects written, in order, with the given coordinates and colours, and whose view box contains the bounding box of every object and explicitly included point. "
 "Copies written to other streams are identical. "
 "Write faults never crash or hang the program.",
 ["histories","inputs","fault_sequences"],
 "every drawing history and coordinates of any sign and magnitude, every write fault",
 "no test draws an image.",
 [SV],[("SVG::write",SV+":300-420"),("bounding boxes",SV+":120-300")],[],["bytes of the file on the simulated disk, parsed independently"])

prop("C19","Command line flags and settings take effect exactly as documented",
 "For every order and mixture of recognised flags, --commands and positional arguments: case sensitivity, space sensitivity and absolute/relative tolerance take the value given on the command line, else the value set before initialisation, else the documented default of the role, and these values govern every stream and comparison of the run; commands return exactly their parameters, missing ones the default. "
 "Malformed numbers, duplicate commands, double initialisation and changing a setting after initialisation are refused, and such a process never ends with 42 or 43.",
 ["configurations","inputs","histories"],
 "every argument vector, every setting history before init, every role",
 "checkCommandParser parses a few fixed argument vectors; settings and role init are never run.",
 [V],[("CommandParser",V+":2040-2112"),("ValidateBase::details::init",V+":2838"),("Setting",V+":2745-2790")],[],["observable behaviour of streams and comparisons","exit status"])

prop("C20","Whatever is written with the library is read back equal by its validators",
 "Data a generator or a multipass state writes through the library's output streams with the documented separators is accepted by a space-sensitive validator reading the same shape, and every integer, string, boolean word and container read back equals what was written, reals to the printed precision, for every chunking of the connecting pipe or file. "
 "Generated trees and graphs printed by the generator are accepted by the graph validator for the property they were generated with. "
 "If the connection is cut or a byte is lost anywhere the validator does not accept a different value list of the same shape as complete.",
 ["inputs","schedules","histories","fault_sequences"],
 "every shape and content of data, every chunking, every cut point",
 "tests never connect output to input.",
 [V,GG,GV],[("OutputStream",V+":244"),("InputStream",V+":2256"),("graph printing",GG+":60")],[],["values read back","exit status"])

prop("C21","Math and geometry helpers compute the exact result",
 "Modular arithmetic, primality, prime enumeration, and the convexity, simplicity and orientation predicates return the mathematically exact answer over their documented domain without overflow.",
 ["inputs"],"every argument in the documented domain",
 "tests sample; but the functions are pure and sequential.",
 [V],[("math",V+":1000-1150"),("geometry",V+":1180-1320")],[],["return values"])

prop("C22","String and sequence helpers compute the exact result",
 "isPerm, adjacency and ordering predicates, areDistinct, case conversion, character classes, range and Thue-Morse generation return exactly the documented answer and a genuine witness.",
 ["inputs"],"every argument",
 "tests sample; but the functions are pure and sequential.",
 [V],[("utility functions",V+":560-890")],[],["return values"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
