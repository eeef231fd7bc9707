G = "TLA+ specification; TLC enumerates its state graph and every transition is replayed in the real code, plus seeded random histories whose results and observations TLC computes from the same specification"
CLAIMS = {
 "C01": ("TLA+ specification of the pool and of an implementation model (refinement checked by TLC); the real pool runs under a deterministic scheduler and every recorded trace is checked against the specification by TLC",
         "Interleavings of the real, compiled pool at its synchronisation operations and unprotected memory accesses: systematically explored with a preemption bound for small programs, randomly for larger ones. Assumes sequentially consistent memory and that standard library primitives behave as modelled by the scheduler."),
 "C02": (G, "All histories reaching at most two rules over a small universe, plus random histories with larger zones. Assumes integer bounds represent real ones, and that rules are only observed through the public API."),
 "C05": (G, "All books over three ring ids and 26 ring contents covering each way a ring can be malformed, plus random books of up to four rings with rings of up to four phases."),
 "C06": (G, "All states of a small universe (two rings, two intersections, legal and unknown phases, hand-set states), plus random histories over four rings and three intersections with random geometry, rules and regions. A phase that the ring does not have may be answered by an exception or by nothing."),
 "C03": (G, "All registries over three types and a family of value sets covering each way a set, a value or a built rule can be malformed, plus random histories over five types and the built-in ones."),
 "C04": (G, "All states of providers over three rules (two discrete, one range) with shared and partially matching related rules, and two right-of-way rules, plus random histories over six rules. Where several rules of one type cover a position any of their states is accepted."),
 "C08": (G, "All pairs of ranges with bounds up to 4 on one or two lanes with five tolerances, all region points around two lanes, plus random routes of up to four ranges and regions on random straight lanes. With a nonzero tolerance the ends of an intersection range may lie anywhere within the tolerance of the exact ones; points within tolerance of the lane but not of the range may be answered either way."),
 "C07": (G, "All ways of assembling three bulbs, two groups and two lights with clashing and delimiter-containing ids, plus random assemblies. Uniqueness is that of UniqueBulbId and UniqueBulbGroupId as values; their strings are only required to be the documented concatenation."),
 "C09": (G, "All orders of attaching eleven elements of which three have ids in use (two junctions, two segments and two lanes in any order and nesting), plus random assemblies of twenty elements. After an element with an id in use is refused, only what was attached before is still judged. Attaching an object twice cannot be expressed through the owning-pointer interface."),
 "C10": (G, "All placements of the four ends of two lanes on the sides of two branch points with at most one default, plus random histories over up to seven lanes and six branch points. Segments have at least one lane."),
 "C13": (G, "Every connectivity of three lanes over two branch points (a sample of them in the quick tier), plus random and road-like connectivities of up to seven lanes. Where two lanes meet at both their ends, the way a sequence goes is ambiguous and either answer about U-turns is accepted."),
 "C14": (G, "Random and road-like geometries of up to seven segments of one to three lanes in any order; all placements of four lanes over four branch points for the specification's own invariants. The lanes of a segment have different branch points at each end; where two segments meet on equal sides of one branch point and opposite sides of another, either answer about drivability is accepted."),
 "C19": ("TLA+ specification of the searches' meaning and of the tree algorithm, compared by TLC on every tree of every small point set; results of random point sets and queries computed by TLC and replayed in the real code", "The algorithm: all sets of up to four points on a 3x2 grid (five on 3x3 in the thorough tier), every tree a median selection may leave, all queries. The code: random point sets of up to 65 points in 1 to 4 dimensions with duplicates, flat and sorted sets, infinite and degenerate boxes. Where only the tolerance of a box decides, either answer about overlap or range membership is accepted; a zero tolerance may be refused."),
 "C20": ("TLA+ specification; TLC checks its consistency and computes from it, exactly, the results of seeded random histories, which are replayed in the real code", "Random pairs of boxes with integer centres and half sizes and orientations from eight angles per axis with rational sines and cosines. Boxes that touch in a point or segment, or are apart by less than their tolerances, may be taken either way for intersection."),
 "C12": (G, "Three geometries (neighbouring lanes, a crossing, a bridge, a translated frame, no lanes) with every point of a grid around them, every hint and six radii; random geometries of up to 18 lanes with both strategies. Straight horizontal lanes along the axes only. Between lanes of different segments that are equally far from a point on none of them either may be chosen; with radius zero, positions within the linear tolerance may be returned."),
 "C15": (G, "Two road layouts (a segment with and against the direction of the other) with five routes each, every point of a grid, every pair of ranges; random roads of up to four segments of one to four lanes, each segment in either direction, with routes either way, split and empty stretches. Phases whose ranges go left to right are accepted or not; where several positions could be matched, either answer about connectivity is accepted."),
 "C16": (G, "Three networks (parallel segments of opposite directions with a lane that ends halfway, rings with a spur, a two-lane road of alternating directions) with every pair of positions of a grid and nine constraints; random road networks of up to seven segments of up to three straight lanes with loops, dead ends and random constraints. The order in which routes are listed is left open."),
 "C17": (G, "Every document that is one edit away from a description of each kind, loaded in its place of two chains of descriptions (registered rule types, and right-of-way rules); random consistent chains of descriptions of all kinds, preceded by random edits of each. Texts alternate between flow and block style, strings and files. Duplicate keys, states that a bulb does not have, orientations that are no unit quaternion, empty lists of related rules and durations that are not positive are left open."),
 "C18": (G, "One directory tree with nested directories, broken libraries, duplicates and files of other suffixes: every search path of up to two entries and some longer ones, every history of additions; random trees with links, later files and histories. Plugins are copies of one library whose id, type and answers are written into it; road networks are created in processes of their own. Which of two libraries with one id in one directory prevails is left open."),
 "C11": (G, "One small network of each kind with every single fault and every combination of options, and random networks of up to three rows of three lanes in either direction with up to three random faults among ids, owners, indices, positions, headings, rules, phases and states. Where the tolerance makes contiguity not transitive, or a zone of one range names an unknown lane, either answer is accepted; which exception is thrown is not judged."),
 "C22": ("TLA+ specification of rotations by their rational matrices; TLC checks that every rotation it forms is proper and computes, exactly, the results of seeded random histories, which are replayed in the real code", "Random histories of rotations with rational sines and cosines in every form, integer and rational matrices of order two and three, vectors of dimension one to four and texts of every malformation. Quaternions are judged up to sign; values to small absolute tolerances."),
 "C21": (G, "One small geometry in four settings with its routes of up to three ranges, every rate and every position of a grid; random routes of up to five ranges of either direction over one to five lanes of varying bounds, rates from negative to longer than the route, tolerances from zero to larger than a lane. Where the remainder of a route is shorter than the tolerance its end may be left out; the empty route is left open."),
 "C23": (G, "Simplification: every terrain of a small grid with cells whole or split, and random terrains of up to 5x5 cells with holes, ridges and plateaus in any order of faces. Scenes: random road geometries of up to nine straight lanes, tapering or not, with up to four branch points, every feature, five grids, four resolutions, both modes of generation, three tolerances and any highlighted segments. Coverage is judged by unit cells at five points each; cells on slanted bounds may be covered in part; where two branch points are exactly as far apart as their clearance, any elevation is accepted. Materials' colours are not judged."),
 "C24": (G, "Every history over trees of at most two levels of two names with both working directories, plus random histories over five names, up to six levels, four contents (empty, text, NUL and other bytes, 100 kB) and every set of temporary variables. One user; permissions, links and concurrent processes are left out, as is removing a directory spelled with a last '.'."),
 "C25": (G, "Pairs of each of some seventy kinds of values: equal, different in one randomly chosen place (an element more or fewer, another key, a changed leaf, one side absent) or unrelated; arrays with infinities and NaNs; every single fault of an index of three junctions and random double faults. Which words a message uses is not judged."),
 "C26": ("TLA+ specification; TLC enumerates its state graph and every transition is replayed in the real code", "All histories over seven levels, a global logger with two sinks and another with three, and four lists of up to five arguments of five types. One thread: the logger makes no promise to several."),
 "C27": (G, "Random networks of up to four junctions, three segments and four lanes with whole coordinates; random graphs of up to twelve edges and routes; numbers of at most 15 significant digits (six for positions, whose streaming rounds); every enumerator. Lines of networks are judged to the letter, DOT by its statements."),
 "C28": (G, "All histories over two contexts, points up to three and two functions for five integrators (integral, inverse, equation in s), plus random histories over six contexts with whole lower bounds, domains of up to twelve units and six settings of step sizes and accuracy. Integrands are polynomials with whole integrals, exact for the method: answers are compared within 1e-6 (inverses: 4e-3 at accuracies of 1e-3 or finer). image_lower_bound is left at zero for integrals, which ignore it."),
 "C29": (G, "All histories of each kind of object over small catalogues (bounds -2..2, positions with components -1..2, seven strings, three lanes, four validators' worth of ranges in sixteenths, rules of up to three states), plus random histories over all kinds at once: components up to 5000, validators over ranges of up to thirty units, rules of up to six states with related ids. Not asked, because the documentation leaves it open: NaN, direction usage rules of several states, validators whose margins cross, whether related ids in another order make another state."),
}
NOT = {}
