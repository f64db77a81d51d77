NA={}
REF="bounded exhaustive enumeration of configurations x position vectors, executed on the real code against a double-double reference model"
AS=["values in the table are finite and of order one","coordinates are within 1e6 grid spans"]
def sweepb(x): return {"quick":"1-D: every length from the minimum to minimum+6 and 17..65540, four spacing patterns, every node, its float neighbours, 4 fractions of every cell, 9 outside positions; order: forward, reverse, every ordered pair, every ordered triple of core positions; 2-D: 3x3 lengths x all spacing pairs; 3-D to "+x+": every axis-length pattern over {min,min+1} (restricted in high dimension), full products or all pairs of axes of {below, first cell, interior, last cell, above}; one axis in turn at graded distances 2^-5..2^-48 of a cell from every node and midpoint and up to 1e10 spans outside; all combinations of below/inside/above in every dimension; almost-even grids; dense, one-hot, scaled and flat-cell tables; f32 and f64; all entry points; default and fma builds",
 "thorough":"as quick with more lengths, more spacing mixes per pattern, full products in higher dimension"}
# the fma build differs only in how products are accumulated: judged for every value property by C01-C05,
# C18 and C24; the other checks use it in the thorough tier
V1={"quick":["std"],"thorough":["std","fma"]}
CHECKS={
"C01":dict(technique=REF,note="Exhaustive over the stated finite alphabet of grids, positions, tables and entry points; agreement to a rounding bound. Not over all real inputs.",bounds=sweepb("8-D"),assumptions=AS),
"C02":dict(technique=REF,note="Exhaustive over the stated finite alphabet of grids, inside positions, tables and entry points; agreement to a rounding bound.",bounds=sweepb("8-D"),assumptions=AS),
"C03":dict(technique=REF,note="Exhaustive over the stated finite alphabet; every combination over axes of below/first/interior/last/above up to 4-D, every pair of axes up to 8-D; both settings of the switch.",bounds=sweepb("8-D"),assumptions=AS),
"C04":dict(technique=REF,note="Exhaustive over the stated finite alphabet; exact equality; exact midpoints on exactly representable grids, points within rounding of a midpoint of other grids are not judged.",bounds=sweepb("6-D"),assumptions=AS),
"C05":dict(technique=REF,note="Exhaustive over the stated finite alphabet of 1-D grids, positions, tables, rules and evaluation forms; hold and nearest rules exactly, straight lines to a rounding bound.",bounds={"quick":"lengths 2..10 and 17..65540, four spacing patterns on both grid kinds, positions: every node, its float neighbours, fractions of every cell, outside near and far; forward, reverse, every ordered pair and triple; dense and one-hot tables; five rules x batch/single/allocating; f32 and f64; default and fma builds","thorough":"lengths 2..24, longer orders"},assumptions=AS),
"C06":dict(variants=V1,technique="bounded exhaustive enumeration: every node of every enumerated grid, dense and position-coded tables, executed on the real code",note="Exhaustive over every node of every enumerated grid (axis-length patterns, spacing mixes, index-coded tables that tell every entry apart); rounding bound for linear/cubic, exact for nearest.",bounds={"quick":"1-D lengths min..min+12, 33..5003 and larger; 2-D..8-D every axis-length pattern over {min,min+1} and one long axis in every place; tables of more than 2^31 and 2^32 entries (selected nodes); every node of every grid, or all nodes on 2 axes with the rest fixed for big grids; all entry points; f32 and f64; default and fma builds","thorough":"longer axes, more patterns"},assumptions=AS),
"C07":dict(variants=V1,technique="bounded exhaustive enumeration of configurations x position vectors, cross-checking every pair of entry points on the real code",note="All entry points of one method against each other, over the same finite alphabet as C01-C04.",bounds=sweepb("8-D"),assumptions=AS),
"C08":dict(variants=V1,technique="bounded exhaustive enumeration of configurations x position vectors, regular against rectilinear implementation on the real code",note="Same axis given both ways; rounding bound, nearest exact away from rounded ties.",bounds=sweepb("8-D"),assumptions=AS),
"C09":dict(variants=V1,technique="bounded exhaustive enumeration of every neighbourhood (cell or side per axis) with all values outside poisoned, executed on the real code",note="Every combination over the axes of below/each cell/each node/above; every table entry outside the documented neighbourhood replaced with NaN, infinity and a huge number at once, result bitwise unchanged; entries inside with non-zero weight move the result by their weight.",bounds={"quick":"1-D lengths min..min+12, 33..300; 2-D {min,min+1,min+3}^2; 3-D {min,min+1}^3, full products; 4-D to 8-D every pair (high-dimensional cubic: every line) of axes over all neighbourhoods; spacing mixes; both implementations of each method; f32 and f64; default and fma builds","thorough":"three poisons in every dimension, full products for 3-D cubic, influence everywhere"},assumptions=AS),
"C10":dict(variants=V1,technique="bounded exhaustive enumeration of every face, cell and extrapolation region of every enumerated grid, executed on the real code in double-double and native precision",note="Every node of every enumerated axis is crossed from both sides with every combination of surroundings on the other axes; degree of every piece by finite differences on exact-ish points; next-float steps over every node in f32 and f64.",bounds={"quick":"1-D lengths min..9 and long ones, 2-D..8-D axis-length patterns over {min,min+1}, spacing mixes; every node and every piece of every axis, the piece's polynomial at graded distances 2^-3..2^-46 of a cell from its ends and middle (or of each axis in turn with the others fixed in every side/cell); both extrapolation settings; double-double, f64, f32; default and fma builds","thorough":"longer axes, full products"},assumptions=AS),
"C11":dict(variants=V1,technique="bounded exhaustive enumeration: every axis permutation, reversal pattern and unit/origin change of every enumerated configuration, executed on the real code against itself",note="All permutations up to 5-D (generators above), all reversal patterns, a list of power-of-two scalings and shifts.",bounds={"quick":"all permutations up to 5-D (adjacent swaps and rotations above), all reversal patterns up to 2^8, power-of-two unit changes from 2^-500 to 2^500 (f64) on axes and values, shifts; 1-D to 8-D; every entry point; f32 and f64; default and fma builds","thorough":"more length patterns and positions"},assumptions=AS),
"C12":dict(variants=V1,technique="exhaustive operation histories (every sequence of k operations as a de Bruijn history on live objects) and controlled-scheduler exploration of two-thread interleavings up to a preemption bound, at operations of the element type and at every machine instruction (trap flag), on the real code",note="Histories: every ordered triple (pair for the large alphabet) of operations over live interpolators, and every ordered pair of evaluations over four contents of the same memory, bitwise against fresh evaluation. Threads: every schedule with up to 3 preemptions at arithmetic operations or comparisons of an instrumented element type; and, on f64 itself, every schedule in which one evaluation is interrupted at any machine instruction by the whole of another. Sharing by type (Send+Sync) is checked statically.",bounds={"quick":"batch lengths 0..70 and powers of two +-1 to 4097, every position; histories of order 2-3 over 12-40 operations; every schedule of two threads with at most 3 preemptions at number operations (2 or 1 where there would be more than 12000 schedules); one preemption at every machine instruction of every evaluation of up to 1400 instructions (1-D to 3-D), same object and two objects, same and other point; default build","thorough":"order 4 histories, higher schedule limits, evaluations of up to 9000 instructions, two preemptions at every pair of instructions of evaluations up to 160 instructions, fma build too"},assumptions=["memory accesses of threads interleave in a sequentially consistent order"]),
"C13":dict(technique="bounded exhaustive enumeration of every single and pairwise deviation from well-formed arguments, executed on the real code with overflow checks",note="Every function and constructor; every argument length from a list around each limit, singly and in pairs; dimension counts 0..12; huge dimensions; plus the well-formed arguments of every size that must be accepted.",bounds={"quick":"every single and pairwise deviation out of the deviation lists (lengths 0, +-1, doubled, huge; descending/equal/NaN/zero/negative first entries or steps), 0-D to 12-D, f32 and f64, default build with overflow and debug checks","thorough":"as quick with longer deviation lists"},variants=["std"],assumptions=["lengths are those of real slices; only the dims array can claim more than memory holds"]),
"C14":dict(technique="bounded exhaustive enumeration of every combination over axes of coordinate classes, executed on the real code",note="Classes are exact boundary points: edge, exactly the tolerance outside, next float beyond, far, infinite. Coordinates within rounding of the tolerance on grids that are not exactly representable are not used. NaN coordinates are not judged.",bounds={"quick":"1-D to 10-D; six tolerances; every ordered pair of 14 coordinate classes on each axis against three backgrounds, every combination over axes of {inside, edge, below, above} (fewer classes above 4-D); three initial flag patterns; one offending point at every position of lists of every length to 70 and selected lengths to 65537; f32 and f64","thorough":"to 12-D, lists of every length to 200"},variants=["std"],assumptions=["coordinates are not NaN"]),
"C15":dict(technique="bounded exhaustive enumeration of operations x configurations x point classes executed on the real code under a counting allocator and a painted stack",note="Every allocation call is counted on every enumerated operation, successful or failing; stack depth is measured and compared between data sizes and point positions of the same method and dimension count.",bounds={"quick":"every method and dimension count, both grid kinds and types; every class of point per axis; every single and pairwise argument error; grids from the minimum to tens of thousands of values, batches 0 to thousands","thorough":"as quick with more axis-length patterns and larger grids and batches"},variants=["std"],assumptions=["allocation happens through the global allocator; stack is measured in an opt-level 1 build"]),
"C16":dict(technique="bounded exhaustive enumeration of configurations x point classes x batch positions, executed on the real code with an operation-counting number type and under an instruction-counting single-step engine",note="Counts every arithmetic operation and comparison on the element type, and machine instructions of the native build by single-stepping (x86 trap flag); the count for a point must not exceed the largest count on the smallest grid of the same method and dimension count (plus a logarithmic allowance per rectilinear axis), and the count of a batch must be the sum of its points.",bounds={"quick":"every method, 1-D to 8-D; lengths from the minimum to tens of thousands; every point class including 1e300 away; every ordered pair of classes in a batch","thorough":"as quick with more lengths and patterns"},variants=["std"],assumptions=["work is measured in operations on the element type and, for the native types, in machine instructions (limit 1.5 times the smallest grid plus a constant)"]),
"C17":dict(variants=V1,technique="bounded exhaustive enumeration of special float values over all argument places, executed on the real code",note="Every combination of 20-odd special values over coordinates (all axes up to 3-D, pairs above), singly and in pairs in starts, steps, nodes and table entries.",bounds={"quick":"special values {NaN, +-inf, +-0, +-subnormal, +-min, +-max, +-huge, ordinary}; coordinates: every combination up to 3-D, every pair of axes to 8-D; grid parameters: every single and pair; table entries: every entry of small tables; f32 and f64","thorough":"as quick in the fma build as well, longer lists"}),
"C18":dict(variants=["std","fma","nostd","nostd-fma"],cross=True,technique="bounded exhaustive enumeration of calls executed in every build configuration and element type, against the double-double reference model and build against build",note="The same call list runs in std/no-std x fma/no-fma and f32/f64; values against the model to the type's rounding, errors, messages, flags and acceptance identical between builds; the no-std build is also linked into a program without std, allocator or libc, which is run.",bounds={"quick":"every method, 1-D to 8-D, both grid kinds, spacing mixes, {min, min+1} and longer axes, every point class; every single argument deviation; four builds; f32 and f64","thorough":"as quick with more positions"}),
"C24":dict(technique="bounded exhaustive enumeration of hard configurations x position vectors x tables, executed on the real code in f32, f64 and double-double against the double-double reference model",note="Tolerance: eps of the element type times the largest table entry in the point's own neighbourhood, times weights and coordinate conditioning of the defining formula; the double-double instantiation is held to 1e-31, so a detour through a narrower type or an inexact constant is seen at once.",bounds={"quick":"offsets of 1e4..1e6 steps, steps 1e-12..1e11, spacing ratios 1e6, geometric axes, axes to 10007; tables dense, graded by 1e-2 per index, one spike, offset by 1000; 1-D all positions, 2-D all pairs of axis kinds, 3-D to 8-D each kind and rotating mixes; f32, f64, double-double; default and fma builds","thorough":"more lengths, all position classes in 2-D and 3-D, double-double everywhere"},assumptions=AS[:1]),
"C25":dict(variants=V1,technique="bounded exhaustive enumeration of monomials, basis tables, their pairwise sums and multiples over every enumerated grid and position class, executed on the real code",note="Every monomial up to the method's degree per axis (all exponent vectors to 4-D, all pairs of axes above), constants of sizes 1e-20..1e30, every basis table of small grids, every pairwise sum; compared with the function itself or with other runs of the code, to a rounding bound; double-double as well.",bounds={"quick":"1-D lengths min..min+7 and 33..4099, 2-D {min,min+1,min+3}^2, 3-D to 8-D (cubic 6-D) length patterns over {min,min+1}; spacing mixes; every position class inside and outside (50 spans in 1-D and 2-D); f32, f64, double-double","thorough":"as quick with more lengths and dimensions, and the fma build"}),
"C26":dict(variants=["std"],technique="bounded exhaustive enumeration of lengths, end points, axis counts and length patterns, executed on the real code",note="linspace at every length in the list for every ordered pair of 24 end points; meshgrid for every length pattern over small alphabets, 1 to 8 axes; expected results computed independently.",bounds={"quick":"linspace: n = 2..260 and selected to 65537, 576 (start, stop) pairs, f32 and f64; meshgrid: 1 axis to 70001 points, every pattern of 2 axes over 9 lengths ... 8 axes over {1,2}, zero-length axes included","thorough":"n to 1500 and selected to 4e6; 9 axes"},assumptions=["stop - start does not overflow"]),
"C27":dict(variants=["std","fma"],technique="bounded exhaustive enumeration of grids x locations (every ordered pair on small grids) and of user-written grids and rules x failing cells x batches, executed on the real code",note="Lookup judged from the definition (exact on rectilinear and dyadic grids, to rounding otherwise); user grids of three kinds with a failing cell at every place, all five rules and a user rule, every run of consecutive locations of length 0..4.",bounds={"quick":"lengths 2..12 and 17..131073, five spacings, over 20 locations per cell and outside to 1e12 spans; user grids of 2..8 nodes; f32 and f64; default and fma builds","thorough":"lengths to 40, user grids to 16 nodes"}),
"C28":dict(kind="python",technique="systematic exploration of thread schedules: a tracing scheduler runs two real threads one at a time and enumerates every point of interruption of the real package",note="16 kinds of call against each other. One preemption at every bytecode executed inside the package (the other thread makes its whole call there), and two preemptions (each call stopped once) at source lines; results, exceptions and outputs compared bit for bit with the call made alone, arrays checked for shared memory. Compiled code runs under the interpreter lock as one step.",bounds={"quick":"every ordered pair of 16 calls, equal element types and sizes, and different ones; one preemption: every bytecode; two preemptions: every second line of each (every fifth for calls running through all six classes)","thorough":"all type and size combinations; every line of each"},
 counts="state = one schedule; transition = one comparison of an outcome with the call made alone; trace = one call pair and place",assumptions=["compiled calls are atomic (they hold the interpreter lock)"]),
"C29":dict(kind="python",technique="bounded exhaustive enumeration of objects x assignments x pairs of kinds of copy, executed on the real classes",note="After every attempted change the JSON text and the results are compared with the original's; copies of copies in 1-D and 2-D, single copies above.",bounds={"quick":"six classes (cubic with both settings), both types, 1-D to the limit (cubic to 6-D); every field x 5 kinds of assignment; 11 kinds of copy","thorough":"cubic to 8-D, more tables"},
 counts="state = one attempted change or one copy; transition = one comparison; trace = one object"),
"C19":dict(kind="python",technique="bounded exhaustive enumeration of configurations x points x observation shapes and memory layouts x entry points, executed on the real extension module and package against an independent reference model",note="Every method, both grid kinds, both element types, 1-D to the limit; the helper (detecting or told that the grid is regular, with and without output), the classes (eval, eval_unchecked, with and without output) and the raw bindings against one reference (extended precision, from the definitions), to a rounding bound; nearest exactly.",bounds={"quick":"axis-length patterns with all lengths different to 3-D, long axis in each place above; even, uneven on every axis, on each axis in turn, and on each interval in turn (down to 2^-10 and 2^-20 of a step); position classes: full products to 2-D, core products to 4-D, at most two axes off the middle above; helper: 14 shapes from () and (0,3) to 5-D x 7 layouts, mixed layouts per axis, 6 layouts of values and grids; lists of every length to 70","thorough":"more lengths, full position classes in 2-D, core products in 4-D, shapes in 4-D"},
 counts="state = one point of one configuration; transition = one comparison of a returned array with the reference; trace = one configuration or shape taken through its entry points",assumptions=AS),
"C20":dict(kind="python",technique="bounded exhaustive enumeration of objects x round-trip histories, executed on the real classes",note="Six classes, both element types, all dimension counts; six routes to JSON and back, one to three trips; every exponent of each float format with a dozen or more mantissas and both signs as table entries, grid fields with special values; fields, types, settings and results compared bit by bit, JSON text compared literally.",bounds={"quick":"1-D to 8-D (cubic and nearest to 6-D); 5 tables per configuration; all finite exponents x 12-35 mantissas x signs; 13 starts x 10 steps on each axis in turn to 3-D; rectilinear axes made of every magnitude","thorough":"cubic to 8-D, some 300 mantissas per exponent"},
 counts="state = one stored array entry (per route); transition = one round trip; trace = one object through one route"),
"C21":dict(kind="python",technique="bounded exhaustive enumeration of every single and pairwise deviation from correct arguments, executed on the real entry points, against a validity oracle written from the documentation",note="Raw bindings, raw bounds, class construction + evaluation (checked, unchecked, from fields), class bounds, and the helper with and without the hint; each combination must raise an Exception, be accepted, or (where the documentation does not say) at least not panic; inputs are compared byte for byte afterwards.",bounds={"quick":"single deviations in 1-D to two above the limit, at every axis position; all pairs in 1-D and 2-D; both element types","thorough":"all pairs in 3-D as well"},
 counts="state = transition = one call with one combination of arguments; trace = the same, when its outcome agreed"),
"C22":dict(kind="python",technique="exhaustive operation histories: every sequence of k operations (as de Bruijn histories) on live objects with a shadow of every input and every array handed out, on the real package",note="20 operations (evaluate with and without output, change the caller's arrays and lists, rebuild, restore from JSON, failing calls, helper calls, writing over returned arrays, another object of the other type): every sequence of 3 of them, and of 4 of the 10 that change state; results bitwise against isolated objects, returned memory never shared or overwritten. Output arrays: every layout x shape.",bounds={"quick":"six classes (cubic with both settings), both types, 1-D to 3-D every sequence of 3 out of 20 and of 4 out of 10 operations, to the limit every pair; helper outputs: 14 shapes x 8 layouts x 4 observation layouts","thorough":"every sequence of 5 out of 10 core operations"},
 counts="state = one operation in a history; trace = one sequence of k operations (each occurs in the history) or one call with an output"),
"C23":dict(kind="python",technique="bounded exhaustive enumeration of every combination of axis, side and margin class around the tolerance, executed on the real entry points against exact rational arithmetic",note="Expected flags from exact rationals; positions within rounding of the tolerance are judged only where the subtraction is exact in the element type.",bounds={"quick":"three families of classes, raw and helper; both types; 1-D to the limit; 6 tolerances; over 40 positions per axis (edges, next floats, fractions and multiples of the tolerance, far, infinite), each axis in turn and with a second axis outside; one bad point at every place of lists to 65 points and of shaped observations","thorough":"both settings of cubic, cubic to 8-D"},
 counts="state = one set of observations; transition = one call judged; trace = one position class through its entry points"),
}
