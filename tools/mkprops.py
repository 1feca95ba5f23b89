#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

ML = ["src/multilinear/regular.rs","src/multilinear/rectilinear.rs","src/multilinear/regular_recursive.rs","src/multilinear/rectilinear_recursive.rs"]
MC = ["src/multicubic/mod.rs","src/multicubic/regular.rs","src/multicubic/rectilinear.rs","src/multicubic/regular_recursive.rs","src/multicubic/rectilinear_recursive.rs"]
NN = ["src/nearest/regular.rs","src/nearest/rectilinear.rs"]
OD = ["src/one_dim/mod.rs","src/one_dim/hold.rs","src/one_dim/linear.rs"]
PYC = ["src/interpn/multilinear_regular.py","src/interpn/multilinear_rectilinear.py","src/interpn/multicubic_regular.py","src/interpn/multicubic_rectilinear.py","src/interpn/nearest_regular.py","src/interpn/nearest_rectilinear.py"]
cell = ("cell search", "get_loc in each interpolator")
idx = ("C-order indexing", "index_arr / index_arr_fixed_dims in src/lib.rs")

prop("C01","Multilinear results are the multilinear interpolant, inside and outside the grid",
 "For every valid regular or rectilinear grid, every set of finite values and every finite observation point, multilinear evaluation returns, to within floating-point rounding, the tensor product of straight-line interpolation on the grid cell containing the point along each axis. Outside the grid along an axis, the line of the nearest edge cell on that axis is continued. This holds in f32 and f64, for 1 to 8 dimensions through the convenience functions and for more through the interpolator types, with any mix of axis sizes (2 and up), for C-ordered values.",
 ["inputs","configurations"],"all grids (size, spacing, scale, offset), all values, all points in every in/out combination per axis, f32/f64, 1..10 dims, fma on/off",
 "The tests use a handful of grids with the value function sum(x), which is symmetric in the axes and linear, so wrong strides, wrong cell, wrong weights or swapped axes are mostly invisible; sizes are at most a few points per axis.",
 ML+["src/lib.rs"],[cell,idx,("nested interpolation","interp_one / populate in src/multilinear")],["return values of multilinear::{regular,rectilinear}::interpn, interp, interp_one and the recursive types"])
prop("C02","Multicubic results inside the grid are the documented Hermite spline",
 "For every valid grid with at least four points per axis and every point inside the grid, multicubic evaluation returns, to within rounding, the tensor product of cubic Hermite splines whose slope at each inner grid point is the second-order central difference for the actual (possibly non-uniform) spacing. On the first and last interval of an axis the interpolant is the quadratic that a zero third derivative at the grid edge implies. This holds in f32 and f64, for 1 to 8 dimensions, regular and rectilinear grids.",
 ["inputs","configurations"],"all grids with >=4 points per axis, all values, all points in the grid, f32/f64, 1..8+ dims, fma on/off",
 "Tests check linear and quadratic data, which any slope estimate that is exact for quadratics reproduces, and a sine to 2e-2; an arbitrary-data result is never checked, nor are slopes on strongly non-uniform grids.",
 MC,[cell,idx,("central-difference slopes","centered_difference_nonuniform / interp_inner"),("Hermite form","normalized_hermite_spline")],["return values of multicubic::{regular,rectilinear} functions and types"])
prop("C03","Multicubic extrapolation is linear or quadratic as configured, per axis",
 "For every point outside the grid along one or more axes, multicubic evaluation with linearized extrapolation continues each exceeded axis along the straight line that has the interpolant's value and slope at that grid edge; without linearization it continues the edge cell's quadratic. Axes along which the point is inside the grid are interpolated exactly as for interior points, whatever the other axes do. The result is right to within rounding in f32 and f64, for 1 to 8 dimensions, regular and rectilinear grids, at any distance from the grid.",
 ["inputs","configurations"],"all points with at least one exceeded axis, every low/high/inside combination over the axes, both settings, all distances, f32/f64, 1..8 dims",
 "Tests extrapolate linear data in both modes and quadratic data only unlinearized, a fixed small distance out; linearized extrapolation of curved data is never compared with anything.",
 MC,[("saturation flags","get_loc"),("edge cases of the 1D rule","interp_inner")],["return values of multicubic functions and types"])
prop("C04","Nearest-neighbour returns the stored value of the closest grid point",
 "For every valid grid and finite point, nearest-neighbour evaluation returns exactly (bit for bit) the stored value at the grid point whose coordinate is closest along each axis, clamping to the first or last grid point outside the grid. At an exact midpoint the lower grid point is taken. This holds in f32 and f64, 1 to 6 dimensions, regular and rectilinear grids.",
 ["inputs","configurations"],"all grids, values (including negative zero, infinities and NaN payloads), points inside and outside, exact ties, f32/f64, 1..6 dims",
 "Tests compare with a transcription of the same index formula on one small grid per dimension count; ties and far points are not met.",
 NN,[cell,("half-cell test","interp_one in src/nearest"),idx],["return values of nearest::{regular,rectilinear}"])
prop("C05","1-D hold-left, hold-right and nearest return the right stored value",
 "On 1-D regular and rectilinear grids, hold-left returns the stored value of the last grid point at or below the location, hold-right that of the first grid point at or above it, and 1-D nearest that of the closest grid point with ties to the left. Outside the grid all three return the value at the nearest end, and exactly at a grid point all three return that grid point's value (on a regular grid, up to the rounding of start + i*step). The value returned is bit-for-bit one of the stored values.",
 ["inputs"],"all 1-D grids of two or more points, all finite locations including every grid point and midpoint, f32/f64",
 "One regular grid with random locations is tested; locations exactly on grid points, two-point grids and rectilinear grids are not.",
 OD,[("cell lookup","RegularGrid1D::index / RectilinearGrid1D::index"),("selection","eval_one in src/one_dim/hold.rs")],["eval_one, eval, eval_alloc of Left1D, Right1D, Nearest1D"])
prop("C06","1-D linear and hold-last linear follow the straight line of the right cell",
 "On 1-D regular and rectilinear grids, linear evaluation returns the straight line through the two grid points of the containing cell, continued from the edge cell outside the grid, to within rounding. The hold-last variant equals it inside the grid and outside returns exactly the first (below) or last (above) stored value.",
 ["inputs"],"all 1-D grids of two or more points, all finite locations, f32/f64, fma on/off",
 "One regular and one rectilinear f64 grid with 77 points are sampled.",
 OD,[("cell lookup","RegularGrid1D::index / RectilinearGrid1D::index"),("line evaluation","eval_one in src/one_dim/linear.rs")],["eval_one, eval, eval_alloc of Linear1D, LinearHoldLast1D"])
prop("C07","Every method reproduces the data at every grid point",
 "Evaluated at the coordinates of any grid point - corner, edge, face or interior, first or last along any axis - every method (linear, cubic in both extrapolation modes, nearest, and the 1-D family) returns the value stored for that grid point: exactly for the piecewise-constant methods, to within rounding (of the value, and on a regular grid of the coordinate start + i*step) for the others. Every grid point of the grid is reachable this way: the C-ordered value array maps one-to-one onto the tensor product of the axes.",
 ["inputs","configurations"],"every grid point of every generated grid, all methods, grid kinds, dimension counts, f32/f64",
 "No test evaluates arbitrary data at the grid's own points; the value functions used are smooth sums that hide permuted or shifted indices.",
 ML+MC+NN+OD+["src/lib.rs"],[cell,idx],["return values of all evaluators at grid coordinates"])
prop("C08","Linear and quadratic functions are reproduced exactly",
 "If the values sample a function that is multilinear (a product-sum with every coordinate to power at most one), multilinear and multicubic evaluation return that function at every point, inside or outside the grid, to within rounding. If the values sample a function that is at most quadratic in each coordinate, including all cross terms, multicubic evaluation without linearized extrapolation returns it at every point, and with linearized extrapolation at every point inside the grid.",
 ["inputs","configurations"],"all coefficients including cross terms, all (non-uniform) grids, all points, f32/f64, 1..6 dims",
 "Tests use sum(x) and sum(x^2) only: no cross terms, equal coefficients for every axis.",
 ML+MC,[("second-order slope estimate","centered_difference_nonuniform"),("natural edge condition","interp_inner")],["return values against the analytic function"])
prop("C09","Interpolants are continuous, and multicubic has a continuous first derivative",
 "Approaching any cell boundary or grid edge from both sides along any axis, multilinear and multicubic evaluations converge to the same value, and the one-sided first derivatives of multicubic evaluations converge to the same slope, including across the grid edge in both extrapolation modes. There is no jump in value or (for cubic) slope anywhere, in f32 or f64, for regular and rectilinear grids.",
 ["inputs","configurations"],"all grids and values, all cell faces and grid edges in every dimension, both extrapolation modes",
 "No test looks across a cell boundary; smoothness is only visible on arbitrary data at many boundaries.",
 ML+MC,[("shared slope at a grid point","interp_inner"),cell],["pairs and stencils of evaluations straddling a boundary"])
prop("C10","A result depends only on the grid values around the point",
 "A multilinear result depends only on the 2 grid points per axis bounding the (nearest) cell, a multicubic result only on the 4 grid points per axis nearest the cell (the first or last four at an edge), and a nearest-neighbour result only on the one grid point it returns. Replacing any other grid values, even by NaN or infinity, leaves the result bit-for-bit unchanged.",
 ["inputs","configurations"],"all grids, points and replaced values; every subset outside the footprint at once",
 "Tests always use well-behaved values over the whole grid, so extra reads with zero or small weight do not show.",
 ML+MC+NN,[("footprint","origin + 2 or 4 offsets in interp_one / populate"),idx],["paired evaluations with poisoned values"])
prop("C11","Results are linear in the values and respect symmetries of the problem",
 "Multilinear and multicubic evaluation is a linear function of the grid values (sums and scalings of value arrays give the sums and scalings of results, to within rounding). Reordering the axes (of grid, values and points together), reversing an axis, and scaling or shifting all coordinates of an axis leave the result unchanged to within rounding; nearest-neighbour results obey the coordinate symmetries away from ties.",
 ["inputs","configurations"],"all pairs of value arrays, scale factors, axis permutations, reversals, scalings and shifts, f32/f64, 1..6 dims",
 "A relation between runs is never tested; the test data are symmetric in the axes.",
 ML+MC+NN,[("axis order of the reduction","interp_one / populate"),("mirrored edge rules","interp_inner InsideLow/InsideHigh/OutsideLow/OutsideHigh")],["paired evaluations of transformed problems"])
prop("C12","No overshoot: linear stays within its cell's data range",
 "For points inside the grid, multilinear (any dimension) and 1-D linear results lie between the smallest and the largest of the values at the corners of the containing cell, to within rounding; hold-last linear stays within the range of its data everywhere. On constant data every linear and cubic method returns the constant everywhere, inside or outside the grid, to within rounding of the constant itself, and the results are never NaN or infinite for finite, moderately sized inputs.",
 ["inputs","configurations"],"all grids, finite values and points, f32/f64, all dims",
 "Range and constancy are invariants over all points; tests sample one smooth function.",
 ML+MC+OD,[("convex weights","interp_one"),("difference form y0 + t*dy","interp_one / interp_inner")],["return values"])
prop("C13","Regular and rectilinear, flattened and recursive implementations agree",
 "The regular-grid and rectilinear-grid versions of a method give the same result to within rounding on the same evenly spaced grid, and the flattened and recursive versions give the same result to within rounding on the same input. A recursive interpolator declared for more dimensions than it is given, or used directly above eight dimensions, gives the same results as the exactly sized one. All agree on whether a point is an error.",
 ["inputs","configurations"],"all grids with exactly representable points, all values and points, both extrapolation modes, f32/f64, 1..8 dims, several declared maxima",
 "The tests check each implementation alone against smooth functions; no test compares two of them.",
 ML+MC+NN,[("eight near-copies of one algorithm","src/multilinear, src/multicubic"),("dispatch on dimension count","interpn in each module")],["paired evaluations"])
prop("C14","Evaluation is a pure pointwise function; batch and entry point do not matter",
 "The result for an observation point depends only on the grid, the values, the configuration and that point, not on where in memory any of them lie: evaluating it alone, in any position of a batch of any length, repeatedly, after other points, through the function, the allocating function, the interpolator's batch method or its single-point method gives bit-for-bit the same result. A batch writes exactly one output per point, in order, and nothing else; an empty batch succeeds.",
 ["inputs","histories"],"all batches (length, order, repetition, mixture of regions), all evaluation histories of one interpolator, all entry points",
 "Tests evaluate one batch once through one entry point.",
 ML+MC+NN+OD,[("batch loop","interp / eval"),("no state kept between points","interp_one / eval_one")],["return values over histories of calls"])
prop("C15","A shared interpolator can be evaluated from many threads at once",
 "Interpolators and 1-D grids can be shared between threads, and any number of concurrent evaluations on one shared interpolator return bit-for-bit what the same evaluations return serially, without data races. No evaluation leaves anything behind that another can observe.",
 ["schedules","histories"],"all interleavings of concurrent evaluations on one interpolator, every interpolator type",
 "No test uses threads.",
 ML+MC+NN+OD,[("immutable borrowed data, &self evaluation, no globals","all interpolator types")],["per-thread results, race detector reports, Send/Sync of the public types"])
prop("C16","Malformed problems are rejected with an error, valid ones accepted",
 "Every constructor and evaluation function accepts every well-formed problem and returns an error - never a panic, never a result - when lengths of axes, starts, steps, values, points or outputs do not match, when an axis is too short (2 points, 4 for cubic), when a step or the first spacing is not positive, or when the number of dimensions is zero or unsupported. Bounds checks likewise return an error, not a panic, when the number of axes, point arrays or flags differ or an axis is empty. A rejected call leaves the output buffer untouched.",
 ["inputs","configurations"],"every single and combined mutation of the shape of a valid problem, every entry point, every dimension count, sizes whose product overflows",
 "No test passes a malformed problem to the Rust API; doc comments list the errors.",
 ML+MC+NN+OD,[("checks in new / interpn / interp / check_bounds","each module")],["Ok/Err/panic and output buffer contents"])
prop("C17","Hostile coordinates and values never panic, hang or fabricate a result",
 "For any bit pattern as observation coordinate or stored value on a valid grid, evaluation terminates and returns either a value or an error, never a panic. A coordinate whose cell index cannot be represented on a regular grid (NaN, infinite or astronomically far) is reported as an error, a NaN coordinate never yields an ordinary number on any grid, and every finite coordinate within a representable number of steps is evaluated successfully, however far outside the grid.",
 ["inputs"],"all floating-point bit patterns for coordinates and values, f32/f64, all methods and grid kinds",
 "Tests use tame numbers only.",
 ML+MC+NN+OD,[("checked float-to-integer conversion and clamping","get_loc / index"),("bounds-checked indexing","index_arr")],["Ok/Err/panic, result class, CPU time per call"])
prop("C18","Evaluation allocates no heap memory and uses bounded stack",
 "Building an interpolator, evaluating points (single or batch) and checking bounds perform no heap allocation at all, apart from the functions documented to allocate their output. Peak stack use depends only on method and dimension count, not on the size of the grid, the values or the number of points, and stays within a few kilobytes plus a small amount per dimension.",
 ["inputs","configurations"],"all grid sizes, batch lengths, dimension counts, methods, regions",
 "Nothing measures allocation or stack in the tests.",
 ML+MC+NN+OD,[("fixed-size stack arrays","interp_one"),("recursion depth bounded by the dimension count","populate")],["global allocator counters, painted stacks"])
prop("C19","Work per point is O(2^N) or O(4^N), plus a logarithmic search",
 "The number of arithmetic operations per observation point depends on the method and the number of dimensions only: it does not grow with the size of a regular grid, and on a rectilinear grid only by a number of comparisons logarithmic in each axis length. It grows with the dimension count no faster than 2^N (linear) or 4^N (cubic) times a small factor, and linearly with the number of points in a batch.",
 ["inputs","configurations"],"all grid sizes up to 2^20 per axis, all regions, dimension counts 1..6, batch lengths",
 "Benchmarks are not run by the tests, and tests only use tiny grids.",
 ML+MC+NN+OD,[("closed-form cell index (regular), bisection (rectilinear)","get_loc"),("fixed footprint","interp_one / populate")],["operation counts of an instrumented number type"])
prop("C20","Bounds checks flag exactly the axes that have a point out of bounds",
 "A bounds check sets the flag of an axis if, and only if, some point's coordinate on that axis lies below the first or above the last grid coordinate by more than the given tolerance (up to rounding at the threshold itself); each axis is judged on its own, and previous contents of the output do not matter. Points inside the grid or exactly on its edge are never flagged, also with zero tolerance.",
 ["inputs"],"all grids, batches, tolerances and positions of the offending point, every axis combination, f32/f64",
 "Two 1-D cases per dtype are tested, through Python.",
 ["src/multilinear/regular.rs","src/multilinear/rectilinear.rs","src/multilinear/regular_recursive.rs","src/multilinear/rectilinear_recursive.rs"],[("edge computation and comparison","check_bounds")],["output flags"])
prop("C21","Build configurations agree: fma, default, no-std",
 "The same calls give the same results to within rounding, and the same errors, whether the crate is built with default features, with fused multiply-add, or without the standard library, and with or without debug assertions and overflow checks. Results that are picked rather than computed (nearest, holds, errors, bounds flags) are identical in all of them, except where the point is within rounding of a tie or threshold.",
 ["configurations","inputs"],"default, fma, no-std and release-like builds on a shared corpus of problems covering all methods, regions and dimension counts",
 "Each configuration is tested alone, and the no-std build is only compiled.",
 ML+MC+NN+OD+["Cargo.toml","src/lib.rs"],[("cfg(feature = \"fma\") twins of each expression","all evaluators"),("libm-backed float functions without std","num-traits")],["recorded results of each build"])
prop("C22","linspace and meshgrid produce the grids they document",
 "linspace returns exactly the requested number of points, starting exactly at the start, evenly spaced and ending at the stop value to within rounding, for any count and any order of the bounds. meshgrid returns every combination of the axis coordinates exactly once, in C order (last axis fastest), so that values computed from it in that order are the values the interpolators expect.",
 ["inputs"],"all bounds, counts (0, 1, 2, many), axis counts and lengths, f32/f64",
 "Only used as a helper by the tests with fixed sizes.",
 ["src/utils.rs"],[("linspace","src/utils.rs"),("meshgrid","src/utils.rs")],["return values"])
prop("C23","Python interpn evaluates the requested method on the grid as given",
 "The Python interpn function returns, for every supported dtype, method, grid spacing, dimension count and extrapolation setting, the interpolant of that method on exactly the grid and values supplied, in the shape and dtype of the first observation array. Array layout (non-contiguous, Fortran-ordered, reversed, multi-dimensional views) of any input does not matter, inputs and results returned earlier are never modified, and evenly and unevenly spaced grids give consistent results whether or not regularity is detected or assumed.",
 ["inputs","configurations"],"dtype x method x regularity x linearize x assume_regular x layout x dimension count, arbitrary data",
 "Only four 1-D linear calls are tested.",
 ["src/interpn/__init__.py","src/python.rs"],[("regularity detection and dispatch","interpn, _check_regular"),("flatten / reshape","interpn")],["return values, dtype, shape, hashes of inputs"])
prop("C24","Python interpn honours out= and check_bounds=",
 "When an output array is supplied, of any shape or layout, the Python interpn function writes the results into that array and returns them; the results equal those of a call without it. With bounds checking on it raises ValueError exactly when some observation point lies below the first or above the last supplied grid coordinate by more than the tolerance on some axis, for any dimension count, and otherwise returns the same results as without checking.",
 ["inputs","configurations"],"out absent/contiguous/strided/multi-dimensional/zero or non-zero initial contents, any dimension count, any offending axis and point, dtype, grid kind, tolerance",
 "out= is never tested, and bounds checking only in one dimension.",
 ["src/interpn/__init__.py"],[("output handling","interpn"),("bounds flags","interpn check_bounds branch")],["contents of out, return value, exceptions"])
prop("C25","Python interpolator objects evaluate their method and are isolated from callers",
 "Each Python interpolator class returns, for both dtypes and every supported dimension count, the interpolant its name and settings say, through eval with or without out and through eval_unchecked, and its bounds check flags exactly the axes with points outside by more than the tolerance. Changing the arrays it was built from afterwards does not change its results; evaluating never changes it, its inputs or results returned earlier, several threads may evaluate it at once, and its fields cannot be reassigned.",
 ["inputs","histories","configurations"],"six classes x dtype x dimension count x out/no out x settings, sequences of evaluations and caller mutations",
 "One small grid per class is tested with smooth data, in one order of calls.",
 PYC+["src/python.rs"],[("dispatch to the native function by dtype","eval_unchecked"),("copying validators","src/interpn/serialization.py"),("frozen models","model_config")],["return values, out contents, exceptions, hashes"])
prop("C26","JSON round trips and copies preserve Python interpolators exactly",
 "Serializing any Python interpolator to JSON and loading it back gives an interpolator of the same class with bit-for-bit the same grid, values, dtype and settings, and bit-for-bit the same evaluations - for all floats including subnormals, signed zeros, extreme magnitudes, infinities and NaN values, in both dtypes, any number of times. Copies (copy, deepcopy, pickle, pydantic's model_copy) preserve them likewise.",
 ["inputs","histories"],"all six classes, dtypes, dimension counts, settings, float values, repeated round trips",
 "One round trip of tame data per class is tested.",
 ["src/interpn/serialization.py"]+PYC,[("array serializers and validators","src/interpn/serialization.py")],["fields and evaluations before and after"])
prop("C27","Malformed Python calls raise ordinary exceptions and never corrupt memory",
 "Any call of the Python API with mismatched lengths, dtypes, dimension counts (including more than supported), non-contiguous or read-only outputs, overlapping input and output arrays, or wrong types either raises an ordinary Python exception (a subclass of Exception) or returns correct results; it never aborts the interpreter, and never writes anywhere but into the output array it was given. A call rejected for malformed arguments leaves the output unchanged.",
 ["inputs","fault_sequences"],"every native function, the interpn function and six classes, with every kind of malformed or aliased argument",
 "Tests never pass a malformed argument.",
 ["src/python.rs","src/interpn/raw.py","src/interpn/__init__.py"]+PYC,[("conversion of arrays to slices","unpack_vec_of_arr, as_slice in src/python.rs"),("runtime borrow checking of arrays","numpy::borrow"),("error mapping","src/python.rs")],["exceptions, process status, canary bytes around buffers, hashes of inputs"])
prop("C28","Each raw Python binding computes what its name says",
 "Each function exported by the raw module computes the method, grid kind and dtype in its name, with the arguments in the documented order, for every supported dimension count and extrapolation setting; the bounds functions flag axes likewise. Each writes all results, and only results, into the supplied output.",
 ["inputs","configurations"],"sixteen functions x dimension counts x settings, arbitrary data",
 "The bindings are only exercised indirectly, on smooth data that linear, cubic and partly nearest evaluations share.",
 ["src/python.rs","src/interpn/raw.py","src/interpn/raw.pyi"],[("macro instantiations","src/python.rs")],["outputs of the raw functions"])
prop("C29","Python interpolator construction validates and normalizes its inputs",
 "Constructing a Python interpolator, directly, through new, or from JSON, fails with a validation error when the number of dimensions is unsupported, sizes do not match, an axis is not strictly increasing (or a step is not positive), dtypes are mixed, or unknown fields are given; every well-formed input is accepted. Through new, arrays of any layout and shape are flattened in C order and converted to the dtype of the values, and the resulting interpolator is equivalent to one built from flat contiguous arrays.",
 ["inputs","configurations"],"every class, every kind of malformation and layout, at every axis position",
 "No test constructs an invalid interpolator or passes non-contiguous arrays.",
 PYC+["src/interpn/serialization.py"],[("model validators","_validate_model"),("new classmethods","src/interpn/*.py")],["exceptions, fields and evaluations"])
prop("C30","1-D grids report the right cell and side; any user-written grid works",
 "For every finite location, looking it up on a 1-D regular or rectilinear grid (at, index) names two adjacent grid points and reports exactly their stored values and their coordinates (exactly, or on a regular grid to within rounding). The two points bracket the location when it is inside the grid and are the first or last two when it is outside, and the reported side - below, inside, above - is right up to rounding of a regular grid's coordinates; both lookups agree. The five 1-D interpolators work on any grid type a user writes: every result follows from what that grid reports for the location alone, including grids that are never outside or whose cells do not share values, and an error the grid returns is passed on unchanged.",
 ["inputs","configurations"],"all 1-D grids and finite locations, f32/f64; user-written grid types of several kinds, with and without refused locations, through eval_one, eval and eval_alloc",
 "The lookups are never tested on their own, and no test implements the Grid1D trait.",
 OD,[("cell lookup","RegularGrid1D::index / RectilinearGrid1D::index / at"),("generic interpolators","impl Interp1D for ... in src/one_dim")],["GridSample fields, index and Extrap, return values and errors of the 1-D interpolators"])
prop("C31","Any Float type gets results accurate to its own precision",
 "Everything in the Rust crate is generic over the number type. With a number type of the user's own that behaves as a floating-point number - of higher precision than f64, or merely wrapping f64 - every function and interpolator gives results right to within rounding of that type, not of f64 or f32; values that are picked (nearest, holds, grid data) come back with all their digits; cells, ties, bounds and grid coordinates are decided at the full precision of the coordinates; and a type that only wraps f64 gives the results and errors f64 gives, bit for bit.",
 ["inputs","configurations"],"all grids, values and points, in number types wider than f64 and in types wrapping f64, all methods, entry points and dimension counts, fma on/off",
 "The tests instantiate f32 and f64 only, so a detour of coordinates, values or weights through f64, or a tolerance fitted to f64, is invisible to them.",
 ML+MC+NN+OD+["src/utils.rs"],[("generic over num_traits::Float","every type and function"),("integer conversions through NumCast","get_loc, dims - 1, index to coordinate")],["return values in the user's number type"])
prop("C32","Python calls keep nothing of the caller's arrays and do not leak",
 "However a call from Python ends - with a result or an exception, in the wrappers, in pydantic or in the binding - it leaves nothing behind: no reference to any of the caller's arrays remains, their writability, shape and dtype are as before, no borrow lingers (every argument can be the output of a next call at once), results share no memory with inputs, numpy's error state is unchanged, and repeating a call does not accumulate memory. Interpolator objects hold copies and release them when dropped.",
 ["inputs","histories"],"every function and class, well-formed and malformed calls of every kind, f32/f64, all methods and grid kinds, repeated calls",
 "Leaks and lingering borrows do not change any result, and tests make each call once.",
 PYC+["src/python.rs","src/interpn/__init__.py","src/interpn/serialization.py"],[("borrowed views of numpy arrays","src/python.rs"),("copies on construction","ArrayF64 / ArrayF32 in src/interpn/serialization.py")],["reference counts, array flags, following calls, process memory"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
