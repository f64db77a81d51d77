#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json, os
ML="src/multilinear/"; MC="src/multicubic/"; NE="src/nearest/"; OD="src/one_dim/"; PY="src/interpn/"
LIN=[ML+f for f in ("regular.rs","rectilinear.rs","regular_recursive.rs","rectilinear_recursive.rs")]
CUB=[MC+f for f in ("mod.rs","regular.rs","rectilinear.rs","regular_recursive.rs","rectilinear_recursive.rs")]
NEA=[NE+f for f in ("regular.rs","rectilinear.rs")]
ONE=[OD+f for f in ("mod.rs","linear.rs","hold.rs")]
CLS=[PY+f for f in ("multilinear_regular.py","multilinear_rectilinear.py","multicubic_regular.py","multicubic_rectilinear.py","nearest_regular.py","nearest_rectilinear.py")]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Linear interpolation and extrapolation equal the multilinear formula",
 "For every grid of 1 to 8 dimensions (regular or rectilinear, at least 2 points per axis, axes of any differing lengths), every C-ordered table of values and every observation point, the linear method returns, to rounding, the tensor product of the one-dimensional straight lines through the grid cell enclosing the point on each axis. Outside the grid, at any distance and on any combination of axes and sides, the edge cell's straight line is continued. This holds for f64 and f32, with and without the fma feature, and for every way of calling the method.",
 ["inputs","configurations"],"every grid shape and spacing, value table, observation point (per-axis: inside any cell, on a node, below, above), dimension count, element type, build feature and entry point",
 "The unit tests check values that are sums of the coordinates on uniform-ish grids of one size; per-axis mistakes, addressing mistakes and branch mistakes that cancel on such data, or that need a particular cell, side, size or dimension count, never show.",
 LIN,[("cell search",ML+"*: get_loc"),("vertex loop",ML+"{regular,rectilinear}.rs: interp_one"),("recursion",ML+"*_recursive.rs: populate")],"return value of the evaluation calls")
p("C02","Cubic interpolation inside the grid is the documented Hermite spline",
 "For every grid of 1 to 8 dimensions with at least 4 points per axis and every point inside it, the cubic method returns, to rounding, the tensor product of one-dimensional Hermite cubics that pass through the grid values, whose slope at an interior grid point is the second-order central difference there (distance-weighted on uneven spacing), and whose first and last cell are quadratic because the end slope satisfies the natural (zero third derivative) condition. This holds in every cell and for every combination of edge and interior cells over the axes, for regular and rectilinear grids, f64 and f32, with and without fma, and for every way of calling the method.",
 ["inputs","configurations"],"every grid shape and spacing, value table, inside point (any combination of first, interior, last cell over axes), dimension count, element type, build feature and entry point",
 "The unit tests use only data for which any slope rule that is exact on quadratics (or sines with a loose tolerance) passes, on uniform or nearly uniform grids and low dimension; wrong weights in one axis, one edge or one code path stay hidden.",
 CUB,[("end/interior case selection",MC+"*: get_loc"),("cell spline",MC+"*: interp_inner"),("slope on uneven grid",MC+"mod.rs: centered_difference_nonuniform"),("Hermite evaluation",MC+"mod.rs: normalized_hermite_spline")],"return value of the evaluation calls")
p("C03","Cubic extrapolation: straight line or continued quadratic, per axis",
 "Outside the grid the cubic method, per axis and on each side, continues the edge value with the edge slope as a straight line when linearized extrapolation is on, and continues the edge cell's quadratic when it is off, at any distance. Axes on which the point is inside the grid are treated exactly as inside the grid, so any mixture of inside and outside axes is the tensor product of the per-axis rules. The switch never changes a result at points inside or on the boundary of the grid.",
 ["inputs","configurations"],"every combination over axes of below/first cell/interior/last cell/above, both settings of the switch, every grid, table, dimension count 1..8, element type, build feature and entry point",
 "Tests extrapolate only polynomial data (where both modes are checked against data that hide the edge slope) and only all axes at once; per-side, per-axis or per-dimension-count deviations are invisible.",
 CUB,[("outside cases",MC+"*: interp_inner OutsideLow/OutsideHigh"),("flag plumbing",MC+"*: new, interpn")],"return value of the evaluation calls")
p("C04","Nearest-neighbour picks the closest node per axis, lower index on ties",
 "For every regular or rectilinear grid of 1 to 6 dimensions and every observation point, the nearest method returns exactly (bit for bit) the stored value of the grid node that is closest along each axis independently. A point exactly halfway between two nodes takes the lower-index node, and a point outside the grid takes the edge node of that axis.",
 ["inputs","configurations"],"every grid shape and spacing, point (per-axis: node, either side of a midpoint, exact midpoint, below, above), dimension count 1..6, element type, build feature and entry point",
 "Tests compare against a copy of the same index formula, on a few sizes; ties, uneven cells, edge clamping in one axis, and value addressing with unequal axis lengths are barely touched.",
 NEA,[("cell search",NE+"*: get_loc"),("rounding and tie rule",NE+"*: interp_one dt <= half")],"return value of the evaluation calls")
p("C05","One-dimensional interpolators follow their rule on both grid kinds",
 "On a regular or rectilinear 1-D grid with at least 2 points: linear gives the straight line of the enclosing cell, continued outside; linear-hold-last is the same inside and returns the first/last value outside; left returns the value of the last node at or below the point, right the value of the first node at or above it, nearest the closest node with ties to the left, all three clamping to the first/last value outside. At a node all five return that node's value, and both grid kinds give the same answer for the same nodes. Batch, single and allocating evaluation agree.",
 ["inputs","configurations"],"every grid length and spacing, table, location (node, between, midpoint, outside near and far, on either side), grid kind, element type, build feature",
 "The tests sample a few grids at random off-node points; exact nodes, exact midpoints, and the two edges are where the rules differ and are never enumerated.",
 ONE,[("cell search",OD+"mod.rs: index"),("rules",OD+"{linear,hold}.rs: eval_one")],"return value of eval_one/eval/eval_alloc")
p("C06","Every grid node is reproduced, in C order, whatever the axis lengths",
 "Evaluating any method at a grid node returns the value stored for that node, with the table read in C order (last axis fastest), for every node of every grid: any axis lengths (from the minimum to many thousands, all equal or all different), any dimension count, including corners, edges and the last node of each axis. Nearest-neighbour returns it bit for bit, linear and cubic to rounding.",
 ["inputs","configurations"],"every node of every grid shape, all methods, grid kinds, dimension counts, element types, entry points",
 "Tests visit small grids with equal axis lengths or smooth data; an index computed with a narrowed type, a swapped stride or a clipped last cell shows only for particular shapes and nodes.",
 LIN+CUB+NEA+["src/lib.rs"],[("strides","interp_one: dimprod"),("addressing","src/lib.rs: index_arr, index_arr_fixed_dims"),("upper clip","get_loc: dimmax")],"return value of the evaluation calls")
p("C07","All ways of evaluating one interpolant agree",
 "For the same grid, values and points, the one-shot function, its allocating variant, the interpolator object's batch method and its single-point method, the flattened implementation and the bounded-recursion implementation (with any maximum-dimension parameter at least the actual dimension), all give the same results to rounding and the same success or failure. Constructing the object once and reusing it is the same as constructing it per call, and every output element is written.",
 ["inputs","configurations"],"every dimension count at which both implementations exist, every grid shape, table and point class, both cubic extrapolation settings, every entry point and spare maximum dimension",
 "Flattened and recursive code are separate copies of the algorithm (8 pairs of files and features); tests exercise each against loose targets, never against each other over all cells, sides and dimension counts.",
 LIN+CUB+NEA,[("dispatch","interpn: match ndims"),("flattened","interp_one"),("recursive","*_recursive.rs: populate")],"return values of all entry points")
p("C08","Regular and rectilinear grids give the same interpolant for the same nodes",
 "Describing an evenly spaced grid by start and step or by its list of node coordinates gives the same linear, cubic (both extrapolation settings), nearest and one-dimensional results to rounding at every point, inside and outside, and the same bounds report.",
 ["inputs","configurations"],"every evenly spaced grid of every shape, start sign and step size, every point class per axis, every method and dimension count, element type and build feature",
 "The two grid kinds are implemented separately and tested separately; nothing compares them cell by cell, and ties or edges exactly on nodes are the places they part.",
 LIN+CUB+NEA+ONE,[("regular location","get_loc in regular*.rs"),("rectilinear location","get_loc in rectilinear*.rs")],"return values")
p("C09","A result depends only on the documented neighbourhood of values",
 "A linear result depends only on the 2 nodes per axis of the enclosing (or nearest edge) cell, a cubic result only on the 4 nodes per axis around the cell (the first or last 4 at the edges and outside), a nearest result only on the single chosen node. Replacing any other entry of the value table, even by NaN or infinity, leaves the result bit-for-bit unchanged, and every entry of the neighbourhood that has non-zero weight does influence it.",
 ["inputs"],"every cell and side per axis, every table entry outside the neighbourhood (poisoned), every method, grid kind, dimension count and entry point",
 "Tests use smooth finite tables, for which reading a wrong or additional neighbour with a small or zero weight changes little or nothing.",
 LIN+CUB+NEA,[("footprint","interp_one / populate: origin, loc"),("clipping","get_loc")],"return value under poisoned tables")
p("C10","Linear results are continuous, cubic ones also smooth, across every cell face",
 "Along each axis, crossing any grid node including the grid's first and last node (into extrapolation), linear results are continuous, and cubic results are continuous with continuous first derivative, for both extrapolation settings and all positions on the other axes. Within a cell the result is a polynomial along each axis: degree 1 for linear, at most 3 for cubic in interior cells, at most 2 in the first and last cells and in continued extrapolation, 1 in linearized extrapolation. No floating-point coordinate arbitrarily close to a node gives a jump beyond rounding.",
 ["inputs"],"every face of every cell, every axis, all positions of the remaining axes, regular and rectilinear, both settings, adjacent floating-point numbers around each node",
 "Tests sample points away from faces, and compare values, not one-sided slopes; a wrong cell on one side of one node, or a slope rule that differs between neighbouring cells, is a jump no sampled value reveals.",
 LIN+CUB,[("cell choice at a node","get_loc"),("matching slopes","interp_inner")],"return values on both sides of each node")
p("C11","Symmetry: axis order, axis direction, units and origin do not matter",
 "Reordering the axes (with the table transposed), reversing an axis (coordinates negated, table flipped), shifting all coordinates of an axis, or changing its unit or the unit of the values by a power of two gives the correspondingly transformed result for every method, to rounding; the tie rule of nearest-neighbour is the only exception under reversal. No method depends on the absolute size of coordinates, steps or values as long as nothing overflows or underflows.",
 ["inputs"],"every axis permutation, every subset of reversed axes, shifts, and power-of-two scales from about 2^-300 to 2^300 (2^-30 to 2^30 in f32), over grids, point classes, methods and dimension counts",
 "Tests use coordinates and values of order one in a fixed axis order; absolute thresholds (an epsilon, a tolerance, a special case for tiny steps) and axis-specific code act only elsewhere.",
 LIN+CUB+NEA+ONE,[("location and normalisation","get_loc, interp_one: dts"),("spline","interp_inner")],"return values of the transformed problem")
p("C12","Results do not depend on batch, order, history or other threads",
 "The result for a point is bit-for-bit the same alone or in a batch of any length and at any position in it, whatever was evaluated before with the same or another interpolator, and whatever other threads evaluate at the same time on the same or another interpolator, under every interleaving. Interpolators can be shared between threads without locking, and a call changes nothing but its output slice.",
 ["schedules","histories"],"every sequence of points up to the bound, every batch length and position, every interleaving of two threads up to a preemption bound, every pair of interpolators",
 "A remembered last cell, a shared scratch buffer, a chunked fast path with a remainder, or a cached coefficient fails only for a particular predecessor, length or interleaving; unit tests run one batch on one thread.",
 LIN+CUB+NEA+ONE,[("batch loop","interp"),("single point","interp_one"),("1-D batch",OD+"mod.rs: eval")],"outputs of calls in a history or schedule")
p("C13","Malformed input is an error and never a panic; well-formed input is accepted",
 "Whatever slices are passed, calls return instead of panicking. Mismatched lengths (grid description, values, observation axes against each other, outputs), zero or too many dimensions, axes shorter than the method needs, and non-increasing first entries or non-positive or NaN steps give an error from every constructor and function that documents it; everything that is consistent, including empty observation lists and axes of exactly the minimum size, is accepted and gives a result.",
 ["inputs"],"every single and pairwise deviation of lengths, at every axis position, dimension counts 0 to 10, every entry point, element type",
 "Validation is written out separately in fourteen constructors and as many functions; tests try a handful of failing inputs, mostly on the first axis.",
 LIN+CUB+NEA+ONE,[("constructor validation","new"),("batch validation","interp, interpn, interpn_alloc"),("bounds validation",ML+"*: check_bounds")],"Result values, panics")
p("C14","The bounds check flags exactly the axes violated by more than the tolerance",
 "After a successful bounds check, the flag of an axis is true if and only if at least one of the observation coordinates on that axis lies below the first or above the last grid node by more than the absolute tolerance; a point on the edge is inside even with tolerance zero. The answer for an axis depends on nothing but that axis's grid and coordinates, every flag is overwritten whatever it held before, and any number and position of points is considered, for both grid kinds.",
 ["inputs"],"every set of violated axes, both sides, every position of the offending point in lists of any length, margins on both sides of the tolerance, tolerances including zero, previous flag contents, dimension counts",
 "Tests check one or two dimensional cases with a point far outside; exact edges, tolerances, later axes and later points are not enumerated.",
 [ML+"regular.rs",ML+"rectilinear.rs",ML+"regular_recursive.rs",ML+"rectilinear_recursive.rs"],[("comparison",ML+"*: check_bounds")],"flag slice and Result")
p("C15","Evaluation never allocates and its stack does not grow with the data",
 "Constructing an interpolator, evaluating it (batch or single) and checking bounds perform no heap allocation at all on any path, successful or failing, for every method, dimension count and point class. The stack depth used is bounded by the dimension count: it does not grow with grid size, number of points or where the points lie.",
 ["inputs","configurations"],"every method, dimension count, point class, success and error path, grids up to many thousands of points, batches up to many thousands of points",
 "No test measures allocation or stack at all; a temporary vector on one rare branch passes every value test.",
 LIN+CUB+NEA+ONE,[("fixed storage","interp_one: store, origin, dimprod"),("bounded recursion","populate")],"calls to the global allocator; touched stack")
p("C16","Work per point is bounded by the method, not by the data",
 "The number of arithmetic operations and comparisons for one evaluation depends on the method and dimension count only, apart from the cell search on rectilinear grids, which is logarithmic in the axis length; it does not grow with grid size on regular grids, with the distance of the point from the grid, or with earlier points of a batch. A batch costs the sum of its points.",
 ["inputs"],"grid lengths from the minimum to tens of thousands, every point class including far outside, every dimension count and method, every position in a batch",
 "Tests never count operations; a linear scan from the last cell, or stepping outward cell by cell, returns the same values.",
 LIN+CUB+NEA+ONE,[("index by division / bisection","get_loc, index"),("O(2^N), O(4^N) vertex loops","interp_one, populate")],"operation count of an instrumented number type")
p("C17","No float input makes a call panic; NaN coordinates never give a number",
 "For every floating-point value of coordinates, grid parameters and table entries, including infinities, NaN, subnormals, signed zeros and the largest finite numbers, calls on a successfully constructed interpolator return and never panic. A NaN coordinate yields an error or NaN, never an ordinary number, in every method. A NaN or infinite table entry affects only results whose neighbourhood contains it, and finite well-scaled problems give finite results.",
 ["inputs"],"every combination of special values over coordinates of all axes, starts, steps, grid nodes and table entries, all methods, types and entry points",
 "The tests use ordinary finite numbers; the conversions float-to-index and the comparisons with NaN fail only on specific special values.",
 LIN+CUB+NEA+ONE,[("float to index","get_loc: floor, NumCast"),("comparisons with NaN","partition_point, dt <= half")],"panics, Result and value")
p("C18","Build features and element type change only rounding",
 "The same calls give the same results to rounding, and the same errors, in the std and the no-std build, with and without the fma feature, and in f32 and f64; the no-std build needs neither std nor an allocator. f32 evaluation stays accurate to f32 rounding and f64 evaluation to f64 rounding.",
 ["configurations","inputs"],"every build configuration and element type times every method, grid kind, dimension count and point class",
 "Each formula is written twice (fma and not), and CI values are compared per configuration against loose tolerances, never between configurations; the no-std build is never executed.",
 LIN+CUB+NEA+ONE+["src/lib.rs"],[("duplicated formulas","cfg(feature=\"fma\") blocks"),("std gating","src/lib.rs cfg_attr no_std")],"results of the same call list in every configuration")
p("C19","The Python layers compute the same interpolants as the Rust core",
 "For float32 and float64, every method, both grid kinds, every supported dimension count, the helper function (contiguous or strided inputs, observation arrays of any shape), the six classes (checked and unchecked evaluation; contiguous one-dimensional observations) and the raw bindings return the documented interpolant of the given grids, values and points, in the shape of the observations. Letting the helper detect whether the grid is regular, or telling it, does not change the result.",
 ["inputs","configurations"],"method x grid kind x dtype x dimension count x entry point x observation shape/layout x extrapolation flag x regularity hint",
 "The Python tests evaluate two-dimensional linear data on nodes; wrong argument order, swapped bindings (f32/f64, method, grid kind), flags or dimension ordering are invisible on such data.",
 CLS+[PY+"__init__.py",PY+"raw.py","src/python.rs"],[("dispatch",PY+"__init__.py: interpn"),("bindings","src/python.rs"),("classes","eval, eval_unchecked")],"returned arrays")
p("C20","Saving and restoring a Python interpolator loses nothing",
 "Serializing any interpolator object to JSON and validating it back gives an object of equal configuration: same element type, same grid, same values bit for bit (all finite values, including signed zero, subnormals and extremes), same extrapolation setting, and bit-identical results everywhere. Repeating the round trip changes nothing.",
 ["inputs","histories"],"every class, element type, dimension count, special finite value, flag setting, and number of round trips",
 "The tests round-trip one friendly array per class and compare with a tolerance.",
 CLS+[PY+"serialization.py"],[("array codec",PY+"serialization.py"),("model fields","classes")],"restored fields and results")
p("C21","Python callers get exceptions for bad input, and inputs are never modified",
 "Bad arguments from Python (mismatched shapes, dtypes or dimension counts, too small axes, non-increasing grids, non-positive steps, wrong method names, too many dimensions) raise an ordinary Exception, at the latest on evaluation, never abort or panic, from the helper, the classes and the raw bindings; correct arguments are accepted. (Construction through `new`, and the helper on a regular grid, convert the grid to the element type of the values; a grid that decreases only after its first two entries is rejected by the classes; the helper and raw bindings look at the first two only.) No call, successful or failing, modifies its grids, values or observations.",
 ["inputs"],"every single deviation at every argument and axis position, every class, raw binding and helper, dtype",
 "Tests cover the good path; panics crossing the language boundary and validators that miss one field appear only for specific bad arguments.",
 CLS+[PY+"__init__.py","src/python.rs"],[("model validators","classes: _validate_model"),("error conversion","src/python.rs")],"exception type; inputs after the call")
p("C22","Python interpolators are immutable snapshots and calls are independent",
 "An interpolator object keeps giving the results of the data it was built from: mutating the caller's arrays afterwards, evaluating other objects or dtypes, earlier failing calls, or serializing it changes nothing. When an output array is given (to the helper: of any shape matching the observations, contiguous or not, zero-size or not; to a class: contiguous and one-dimensional), the results are written into it completely and it is what is returned; otherwise a fresh array is returned that later calls do not overwrite.",
 ["histories"],"every sequence of operations (build, mutate inputs, evaluate with and without out, fail, serialize) up to a depth, over objects and dtypes",
 "Tests evaluate once with fresh arrays; aliasing, reused buffers and state carried from a previous call need a history.",
 CLS+[PY+"__init__.py",PY+"serialization.py"],[("out handling",PY+"__init__.py: interpn; classes: eval"),("array copy",PY+"serialization.py")],"results and array contents along a history")
p("C23","Python bounds checks are exact and raised when asked for",
 "The bounds check of every class and raw binding, and the helper's optional one, report a point outside the grid by more than the tolerance on any axis and side, for any dimension count and element type, and report nothing otherwise; the helper raises if and only if its check is on and some point is outside, and then leaves a given output untouched.",
 ["inputs"],"every axis and side, margins around the tolerance, dimension counts, dtype, class/raw/helper, regular/rectilinear, position of the point",
 "Tests only use the check in one dimension with far-away points.",
 CLS+[PY+"__init__.py","src/python.rs"],[("helper check",PY+"__init__.py: interpn"),("class check","classes: check_bounds")],"flags or exception")
p("C24","Rounding error stays within a small multiple of what the data allow",
 "For every method, f64 and f32 results differ from the exact value of the defining formula by at most a small constant times machine epsilon times the magnitude of the contributing values, their weights, and the conditioning of the coordinates (coordinate magnitude over local spacing). No intermediate loss of precision occurs on any path: long axes, large offsets, strongly uneven spacing, fine steps, high dimension, or points near nodes.",
 ["inputs"],"every method and entry point over offsets up to 1e6 steps, spacing ratios up to 1e6, axis lengths up to 10^4, fractions that are not dyadic, dimension counts, both element types and builds",
 "Tests allow 1e-12 absolute (or much looser) on order-one data; a detour through f32, an accumulated node coordinate or a cancellation-prone rearrangement stays below that there.",
 LIN+CUB+NEA+ONE,[("node coordinate","interp_one: starts + steps*i"),("blend","interp_one, interp_inner")],"difference to the same evaluation in double-double arithmetic")
p("C25","Linearity in the values and exactness on polynomials",
 "For every linear and cubic configuration the result is linear in the value table: the results for a sum or multiple of tables are the sum or multiple of the results, and a constant table gives that constant everywhere. Functions that are linear along each axis are reproduced exactly (to rounding) by the linear method inside and outside, and functions quadratic along each axis by the cubic method inside and, without linearization, outside, on even and uneven grids in any dimension.",
 ["inputs"],"every monomial up to the method's degree per axis, every pair of basis tables, every point class, grid, dimension count and entry point",
 "Tests check one or two polynomials per method on one grid; weights that do not sum to one at some cell or side, or data-dependent shortcuts, need other tables and places.",
 LIN+CUB,[("blend","interp_one, interp_inner")],"return values for monomial and basis tables")
p("C26","Grid helpers give exactly spaced nodes and C-ordered products",
 "linspace(start, stop, n) for n at least 2 returns n points, first exactly start, last stop to rounding, evenly spaced to rounding and strictly increasing when start is below stop by a representable margin. meshgrid returns every combination of its axes exactly once, in C order (last axis fastest), for any number of axes and lengths.",
 ["inputs"],"every n up to the bound, start/stop pairs, every axis count and length combination up to the bound",
 "The helpers are exercised only as test scaffolding, so an error in them would be shared by data and expectation.",
 ["src/utils.rs"],[("linspace","src/utils.rs"),("meshgrid","src/utils.rs")],"returned vectors")
p("C27","One-dimensional grids name the cell that holds the point, and the rules work on any grid",
 "For a regular or rectilinear 1-D grid of at least 2 increasing nodes, the grid's own lookup (index and at, on the grid or a copy of it) returns for any representable location a cell whose two nodes enclose it (on a node, either neighbour; to rounding on regular grids), the first cell below the grid and the last cell above it, with the flag saying inside (both ends included), below or above; at returns exactly that cell's two table values and its nodes, and index and at agree. The five rules depend on the grid only through at, so they give the same rule's result on any grid type a user writes, batch evaluation of any user rule or grid equals its single evaluations in order, errors raised by the grid are passed on unchanged, and lists of unequal length are errors.",
 ["inputs","configurations"],"every grid length, spacing, location and grid kind; every user grid and rule, every failing cell and batch",
 "No test calls index or at or implements either public trait; a neighbouring cell, a stale flag or a lost error still gives the right value for the rules and data the tests use.",
 ONE,[("lookup",OD+"mod.rs: RegularGrid1D::{index,at}, RectilinearGrid1D::{index,at}"),("default methods",OD+"mod.rs: Interp1D::{eval,eval_alloc}"),("rules",OD+"{linear,hold}.rs")],"return values of index/at/eval/eval_one/eval_alloc")
p("C28","Python calls from several threads do not disturb each other",
 "Whatever two Python threads are doing with the package at the same time (helper calls with any method, output and bounds checking, building, evaluating, bounds-checking, saving and restoring interpolators, failing calls, sharing one interpolator), each call returns or raises exactly what it does alone, wherever one is interrupted by the other, and arrays handed to one caller are never memory of the other's.",
 ["schedules"],"every point of interruption of every call by every other call, same or different element types and sizes, on separate or shared interpolators",
 "No test uses threads; a reused buffer or a remembered detail at module or class level is right in every sequential run and wrong only under particular interruptions.",
 CLS+[PY+"__init__.py",PY+"serialization.py"],[("helper",PY+"__init__.py: interpn"),("classes","classes: new/eval/eval_unchecked/check_bounds")],"results and arrays of both threads under every enumerated schedule")
p("C29","Python interpolators cannot be changed, and every copy is the same interpolator",
 "Fields of an interpolator and of its stored arrays cannot be assigned, deleted or added (an attempt raises and changes nothing), unknown fields are refused when building one, ndims and dims describe the grid, and copying by copy, deepcopy, pickle (protocol 2 and later), model_copy, or building from another's fields gives an interpolator of the same class with equal configuration (element type, grid, values bit for bit, extrapolation setting) and bit-identical results; overwriting the memory of a deep copy does not reach the original.",
 ["inputs","histories"],"every class, element type, dimension count and extrapolation setting; every field and kind of assignment; every pair of kinds of copy",
 "The tests neither assign to fields nor copy or pickle interpolators.",
 CLS+[PY+"serialization.py"],[("frozen models","classes: model_config"),("array wrappers",PY+"serialization.py")],"exceptions, fields and results of originals and copies")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
