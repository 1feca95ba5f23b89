"""What each check runs, and how to describe it. Used by run.py and mkmanifest.py."""

# property -> (multiplier on std, multiplier on fma) of the default number of cases, quick tier; then thorough
VALUE = {  # judged on both arithmetic variants
    "C01": (12, 6), "C02": (12, 6), "C03": (15, 7), "C04": (10, 2), "C05": (4, 1), "C06": (4, 3), "C07": (3, 1),
    "C08": (15, 6), "C09": (4, 2), "C10": (10, 4), "C11": (18, 9), "C12": (24, 12), "C13": (18, 9),
    "C30": (30, 15), "C31": (30, 10),
}
STD = {"C14": 5, "C15": 5, "C16": 5, "C17": 30, "C18": 3, "C20": 15, "C22": 15}
# the same without debug assertions and overflow checks (the fma build of VALUE is one, too)
REL = {"C14": 2, "C15": 1, "C16": 4, "C17": 10, "C18": 1, "C20": 5, "C22": 5}
# thorough: multiplier per variant for one round; rounds are repeated with fresh seeds until the budget is spent
THOROUGH = {
    "C01": 60, "C02": 60, "C03": 60, "C04": 40, "C05": 40, "C06": 40, "C07": 20, "C08": 60, "C09": 30, "C10": 60,
    "C11": 80, "C12": 80, "C13": 60, "C14": 30, "C15": 30, "C16": 30, "C17": 100, "C18": 10, "C20": 60, "C22": 60,
    "C30": 100, "C31": 150,
}
THOROUGH_BUDGET = 420  # seconds of monitored running per property, builds not counted
PYMULT = {"C23": 2, "C24": 2, "C27": 2, "C28": 1.5, "C29": 2}  # quick tier, of the default number of cases
PYTHON = ["C23", "C24", "C25", "C26", "C27", "C28", "C29", "C32"]

REF = ("online monitor comparing every result of the real code with an independent reference model in double-double "
       "arithmetic, under generated hostile workloads")
TECH = {
    "C01": REF, "C02": REF, "C03": REF, "C06": REF,
    "C04": "online monitor: every result bit-compared with an independent nearest-point oracle in extended precision",
    "C05": "online monitor: every result bit-compared with an independent hold/nearest oracle",
    "C07": "online monitor: every grid point of generated grids visited, result compared with the stored value",
    "C08": "online monitor: results on sampled polynomials compared with the polynomial in double-double arithmetic",
    "C09": "online monitor of straddling pairs and difference stencils across cell boundaries",
    "C10": "differential monitor: paired runs with poisoned values (NaN/inf) outside the permitted footprint",
    "C11": "metamorphic monitor over pairs of runs (superposition, axis permutation, reversal, scaling, shift)",
    "C12": "online range and constancy monitor",
    "C13": "differential monitor between the implementations of a method",
    "C14": "online monitor over histories of calls, with canary-filled buffers and bit comparison",
    "C15": "ThreadSanitizer build and concurrent stress with per-thread bit comparison; Send/Sync probe",
    "C16": "fault-injecting monitor: malformed problems against an accept/reject oracle, panics caught, canary buffers",
    "C17": "hostile-input monitor: arbitrary bit patterns, panic/hang/result-class oracle; overflow checks compiled in",
    "C18": "counting global allocator and painted-stack high-water monitor",
    "C19": "operation-counting number type with an independent cost oracle",
    "C20": "online monitor: flags compared with an exact-edge oracle",
    "C21": "offline checker over recorded result logs of four builds (default, fma, no-std, release-like)",
    "C22": "online monitor against exact definitions of linspace and meshgrid",
    "C23": "online monitor in Python: results against an independent numpy long-double model, input fingerprints",
    "C24": "online monitor in Python: output buffers with canaries, bounds oracle",
    "C25": "online monitor in Python over call histories with mutation of the caller's arrays",
    "C26": "online round-trip monitor in Python, bit comparison",
    "C27": "fault-injecting monitor in Python in isolated worker processes with canary buffers",
    "C28": "online monitor in Python: each raw binding against an independent model",
    "C29": "fault-injecting monitor in Python: accept/reject oracle and normalization comparison",
    "C32": "online monitor in Python of reference counts, borrow state, array flags and process memory around every call",
    "C31": "online monitor with user-defined number types: double-double results compared with the reference model, a wrapped f64 bit-compared with f64",
    "C30": "online monitor of grid lookups against an extended-precision cell oracle; user-written grid types as instrumented stand-ins",
}
RULE = {
    "C01": "A case draws a grid (1-10 axes, sizes 2 and up, spacing styles from even to wildly uneven, offsets, scales, f32/f64), values and a batch of points in every in/out combination; every entry point is run and each result is judged. Distinct: (entry point, type, dims, cell/region per axis) signatures of judged results.",
    "C02": "As C01 with at least four points per axis and points inside the grid, on flattened and recursive cubic types in both extrapolation settings. Distinct: (entry point, type, dims, edge/inner interval per axis) signatures.",
    "C03": "Cubic evaluation at points beyond the grid on at least one axis, from just outside to very far, both settings. Distinct: (entry point, type, setting, low/in/high per axis) signatures.",
    "C04": "Nearest-neighbour evaluation at points inside, at midpoints, outside, with special values stored; bit comparison. Distinct: (entry point, type, dims, chosen point) signatures.",
    "C05": "Hold-left, hold-right, nearest on 1-D grids of 2 and more points, at grid points, midpoints, neighbours of both and outside. Distinct: (type, grid size, position class) signatures.",
    "C06": "Linear and hold-last on 1-D grids at grid points, inside, outside. Distinct: (type, grid, position class) signatures.",
    "C07": "Every grid point of each generated grid is evaluated by every method. Distinct: (method, dims, grid point) signatures.",
    "C08": "Random multilinear and tensor-quadratic polynomials sampled on random grids, evaluated inside and outside. Distinct: (method, degree class, region) signatures.",
    "C09": "Pairs and stencils of points closing in on a cell face or grid edge on one axis, the other axes anywhere. Distinct: (method, dims, face) signatures.",
    "C10": "Each point is evaluated with the original values and with everything outside its permitted footprint replaced by NaN, infinities or huge numbers; the two results are bit-compared. Distinct: (method, dims, footprint position) signatures.",
    "C11": "Each problem is evaluated with its transform (superposition, scaling of values, axis permutation, reversal, coordinate scaling and shift). Distinct: (transform, method, dims, region) signatures.",
    "C12": "Range of cell corners, hold-last range, constants. Distinct: (clause, method, dims, region) signatures.",
    "C13": "The same problem given to every implementation that accepts it. Distinct: (pair, dims, region) signatures.",
    "C14": "Histories: batches in different orders and lengths through all entry points, repeated, interleaved. Distinct: (entry point, length class, history step) signatures.",
    "C15": "One shared interpolator evaluated by several threads at once, started together, with yields injected; each result compared with the serial one. Distinct: (type, dims, threads, observed interleaving) signatures.",
    "C16": "Valid problems mutated in every way (and combinations) and given to every constructor, function and bounds check. Distinct: (entry point, mutation, dims) signatures.",
    "C17": "Random bit patterns and hand-picked hostile numbers as coordinates and values. Distinct: (entry point, coordinate class) signatures.",
    "C18": "Calls measured for allocations and stack high-water over grid sizes, batch lengths, dims. Distinct: (entry point, dims, size class) signatures.",
    "C19": "Evaluations with a number type that counts its operations, over axis sizes 2..2^20, dims and regions. Distinct: (method, dims, axis size, region) signatures.",
    "C20": "Batches with offending points planted on chosen axes and positions, all tolerances. Distinct: (grid kind, dims, flag pattern, tolerance class) signatures.",
    "C21": "The same corpus of calls recorded in four builds and compared record by record. Non-trivial: records whose bits differ between builds (decided by the error bound) or that are required to be identical.",
    "C22": "Random and special bounds, counts and axis lists. Distinct: (function, count class, direction) signatures.",
    "C23": "Random well-formed calls of interpn over dtype, method, spacing, layout, dims. Distinct: settings signatures.",
    "C24": "Calls with out= of all layouts and with bounds checking, offending points planted. Distinct: settings signatures.",
    "C25": "Histories of evaluations, mutations of the caller's arrays and rejected assignments for each class. Distinct: settings signatures.",
    "C26": "Interpolators with special floats serialized and restored repeatedly. Distinct: (class, settings, values) signatures.",
    "C27": "Every function and class called with every kind of malformed or aliased argument. Distinct: (callee, malformation) signatures.",
    "C28": "Every raw function over dims and settings with canary-surrounded outputs. Distinct: settings signatures.",
    "C29": "Well-formed and malformed constructions, direct, through new and from JSON. Distinct: (class, malformation, position) signatures.",
    "C32": "Each kind of well-formed and malformed call of C27, and building, using and failing to build objects, with the arguments' reference counts, flags and shared memory compared before and after and every argument then used as an output; a sample of the calls repeated with the size of the process watched. Distinct: (callee, kind, dims, dtype, outcome) signatures.",
    "C31": "The workloads of C01-C06, C20 and C22 run with a double-double number type (values, and in half of the cases coordinates, that need more digits than f64 has), and every entry point with a type that merely wraps f64. Distinct: (type, entry point, dims, region) signatures.",
    "C30": "Lookups on built-in 1-D grids at every kind of location, and the five interpolators on three user-written grid types, some refusing locations. Distinct: (type, grid, side, cell class) signatures.",
}
NOTE = {}
_v = ("Holds on everything observed in this run; no claim beyond it. Trusts the reference model in harness/src/refmodel.rs "
      "(written from the documentation, in double-double arithmetic) and a rounding bound derived from the data's magnitude.")
for k in ("C01", "C02", "C03", "C06", "C08"):
    NOTE[k] = _v
for k in ("C04", "C05", "C07", "C20", "C22"):
    NOTE[k] = "Holds on everything observed in this run. Trusts the exact oracle in the harness; points where rounding of a regular grid's coordinate decides may take either neighbour."
for k in ("C09", "C10", "C11", "C12", "C13", "C14"):
    NOTE[k] = "Holds on everything observed in this run. Compares runs of the real code with each other or with its own data; needs no model of the method beyond a rounding bound."
NOTE["C15"] = "Holds on the schedules that occurred, as observed by ThreadSanitizer and by comparison of results."
NOTE["C30"] = "Holds on the locations looked up. Trusts the cell oracle in harness/src/refmodel.rs and the user-written grids in harness/src/grid1.rs."
NOTE["C31"] = "Holds on everything observed in this run, judged at a unit roundoff of 2^-90. Trusts the double-double arithmetic in harness/src/dd.rs, which both the number type and the reference model use."
NOTE["C16"] = "Holds on the malformations generated. Trusts the accept/reject oracle in the harness."
NOTE["C17"] = "Holds on the bit patterns generated; termination is judged by CPU time per case."
NOTE["C18"] = "Heap: exact counts. Stack: high-water of a painted region in an unoptimized-library, optimized-harness build; ceiling 8 KiB + 1 KiB per dimension."
NOTE["C19"] = "Counts operations on the number type; integer work is only bounded through the comparisons it accompanies and a time-per-call sanity limit."
NOTE["C21"] = "Holds on the recorded corpus."
for k in PYTHON:
    NOTE[k] = "Holds on the calls made in this run. Trusts the long-double model in py/pyref.py; tolerance far above rounding and far below a wrong cell, weight or method."
NOTE["C32"] = "Holds on the calls made. A leak below about 40 kB per call that is not a Python object would be missed."
ASSUME = {
    "default": ["x86-64, the installed rustc and CPython; the library is built from /repo's working tree, with overflow checks and debug assertions on in the default and no-std builds and off in the fma and rel builds"],
}
