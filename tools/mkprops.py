#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=["src/MathUtils/" + f for f in files],
                          mechanism=[dict(name=n, where="src/MathUtils/" + w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

# ------------------------------------------------------------------ concurrency / history independence
prop("C01", "Shared lookup tables and interpolators answer any concurrent query correctly",
 "Any number of threads may query the same fully built 1D or 2D lookup table, bare 1D or 2D interpolator or spline at once (single point, vector, all-series and range queries), without locking. Every answer equals the linear or bilinear interpolant - extrapolated or saturated outside the range according to the table's method - of the data that were in force when the series was added, whatever the interleaving and whatever was asked before. No query races with another, or touches freed or foreign memory.",
 ["schedules", "histories", "inputs"], "every interleaving of queries by 2..4 threads on every table shape, method, series set and query history",
 "unit tests query one object from one thread with a few points; an unsynchronised cache or a cursor left by the previous query shows only under particular interleavings or query orders",
 ["LookupTable1D.h", "LookupTable2D.h", "Interp1d.h", "Interp2d.h", "Spline.h"],
 [("LookupTable1D::Eval (three forms)", "LookupTable1D.h"), ("LookupTable2d::Eval", "LookupTable2D.h"), ("Interp1dLinearBase::PrivEval, Interp1dLinearSaturate::PrivEval", "Interp1d.h"), ("Interp2dLinear::Eval", "Interp2d.h"), ("Spline::operator()", "Spline.h")],
 ["return values of Eval/operator()", "every memory access of the queries"])
prop("C02", "Shared regular-grid objects answer any concurrent query correctly",
 "Any number of threads may query, or copy from, the same filled regular-grid interpolator or nearest-node grid at once (and query the multilinear and simplex interpolators underneath directly). Every interpolation equals the multilinear interpolant of the grid data clamped at the grid's border (or is refused with an exception when bound checking was asked for and the point is outside), every nearest-node answer is the closest node with its own indices, coordinates and value, and every surrounding-node list holds the corners of the cell around the point. No query races with another, or touches freed or foreign memory.",
 ["schedules", "histories", "inputs"], "every interleaving of queries and copies by 2..4 threads, grids of dimension 1 to 4",
 "tests query one grid from one thread; a shared scratch buffer or a cached cell is right until two queries overlap or alternate",
 ["RegularGridInterpolator.h", "RegularGridNearest.h", "thirdparty/linterp.h"],
 [("RegularGridInterpolator::Interp", "RegularGridInterpolator.h"), ("InterpMultilinear, InterpSimplex: interp_vec, find_cell, get_f_val", "thirdparty/linterp.h"), ("RegularGridNearest::Nearest, GetSurroundingGridNodes, GetNode", "RegularGridNearest.h")])
prop("C03", "Shared series and quadrature objects evaluate re-entrantly",
 "Any number of threads may evaluate the same Chebyshev series, power series (values, all derivatives, predefined-z and z-infinity forms, conversion coefficients) or triangle quadrature at once, and an integrand or approximated function may itself evaluate series and quadratures. Every result equals the value of the polynomial, or the weighted sum of the quadrature, that the object was built with, whatever the interleaving and the history; none races or touches freed or foreign memory.",
 ["schedules", "histories", "inputs"], "every interleaving of evaluations by 2..4 threads, orders 0..4, all closed/opened/mixed domains, nested evaluations from callbacks",
 "tests evaluate one series at one point in one thread; shared workspaces and memoised powers fail only when evaluations overlap, nest or alternate",
 ["ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h", "Integration2dTriangle.h", "Integration2d.h", "QuadratureTables.h", "Polynomial.h"],
 [("ChebyshevSeries*::Evaluate*", "ChebyshevSeries3d.h"), ("PowerSeries*::Evaluate*, Compute_cij", "PowerSeries3d.h"), ("Integration2dTriangle::Compute", "Integration2dTriangle.h"), ("Horner, Horner_derivative", "Polynomial.h")])
prop("C04", "Special functions do not depend on other calls, earlier or concurrent",
 "The special functions (cylindrical Bessel, modified Bessel, Hankel, Struve, Legendre, Chebyshev, factorial, gamma and exponential-integral families, with their derivatives and approximations) may be called by any number of threads at once. Each call returns the value of the function at its own arguments, bit for bit what the same call returns alone in a fresh process, whatever other calls precede or overlap it. No call races with another, or touches freed or foreign memory.",
 ["schedules", "histories", "inputs"], "every interleaving and order of calls by 1..4 threads, first calls included",
 "tests call each function a few times in one thread; lazily built tables, static workspaces and memoised last results fail only on first-use races, or when calls with other arguments come in between",
 ["BoostFunctions.h", "Polynomial.h"],
 [("Cyl_Bessel_*, Cyl_modified_Bessel_*, Cyl_Hankel_*", "BoostFunctions.h"), ("Struve_*, Ei, Ei_approximation, expEi, E1, E1_approximation", "BoostFunctions.h"), ("Legendre_*, Chebyshev_*, Factorial, Gamma", "BoostFunctions.h")])
prop("C05", "Geometry, unit, vector, signal and matrix calls never interfere across threads",
 "Threads working on objects of their own - unit and angle conversions, rotations and projections, vector and signal helpers, trapezoidal and convolution sums, polynomials, matrix decompositions, solvers and inverses, Fourier transforms - never influence one another. Each call returns the mathematically expected result for its own arguments, bit for bit what the same call returns alone in a fresh process, whatever other calls precede or overlap it. No call races with another, or touches freed or foreign memory.",
 ["schedules", "histories", "inputs"], "every interleaving and order of calls by 2..4 threads on private objects",
 "tests run every routine alone; hidden process-wide state shows only when calls from different threads overlap or alternate",
 ["Unit.h", "Angles.h", "Geometry.h", "Vector2d.h", "Vector3d.h", "Vector6d.h", "VectorN.h", "Matrix.h", "Matrix33.h", "Matrix66.h", "StdVector.h", "Functions.h", "VectorGeneration.h", "Complex.h", "Convolution.h", "Integration1d.h", "Polynomial.h", "FFT.h"],
 [("convert_frequency, convert_velocity_unit", "Unit.h"), ("Normalize_*, _GetTrigo", "Angles.h"), ("Euler/quaternion/matrix conversions", "Geometry.h"), ("ProjectLocalOnNED, TransportAtPoint", "Vector2d.h"), ("decompositions and solvers", "Matrix.h"), ("fft, ifft", "FFT.h"), ("Trapz", "Integration1d.h"), ("NaiveConvolution", "Convolution.h")])
# ------------------------------------------------------------------ fault atomicity
prop("C06", "Adding a series to a lookup table is all-or-nothing and names never alias",
 "An attempt to add a series to a 1D or 2D lookup table either succeeds completely or, when it is refused (name already present, data too short) or fails (no memory at any point, output stream failing), leaves the table exactly as it was: same number of series, same names, same answers. After any history of successes, refusals, failures, coordinate changes and moves, every name answers with its own data and with the coordinates in force when it was added, and the failed addition can be repeated successfully once the fault is gone.",
 ["fault_sequences", "histories", "inputs"], "every position of an allocation or stream failure in every history of SetX/SetY/AddY/AddData/move/Eval operations",
 "tests never make an allocation fail in the middle of an addition; the damage (a stale name that aliases the next series) appears only in later operations",
 ["LookupTable1D.h", "LookupTable2D.h", "Interp1d.h", "Interp2d.h"],
 [("LookupTable1D::AddY, SetX, move operations", "LookupTable1D.h"), ("LookupTable2d::AddData, SetX, SetY", "LookupTable2D.h")])
prop("C07", "Initialising an interpolator again or after a failure is all-or-nothing",
 "A 1D or 2D interpolator may be initialised any number of times, with data of any size and with memory failing at any point: after a successful initialisation it answers exactly as a new interpolator given the same data, and after a failed one it answers exactly as before. It answers from the data it was given even when the caller has dropped its own references to them, and its reported bounds always belong to the data it answers from.",
 ["fault_sequences", "histories", "inputs"], "every history of successful and failing initialisations and queries, every allocation-failure point",
 "tests initialise each interpolator exactly once and never fail an allocation",
 ["Interp1d.h", "Interp2d.h"],
 [("Interp1d::Initialize, Interp1dLinearBase::Initialize", "Interp1d.h"), ("Interp2d::Initialize, Interp2dLinear::Initialize", "Interp2d.h")])
prop("C08", "Regular-grid objects stay whole through failed updates, copies and reuse",
 "After any history of adding coordinates and data, refused or failing updates (no memory at any point, data of the wrong size, non-increasing coordinates), copies, assignments and destruction of the original, a regular-grid object that reports itself valid answers from one complete grid with matching data - the last one successfully given to it. An object whose update failed either still answers from its previous grid and data or reports itself not valid; copies are independent of their source, and no answer is read from freed memory.",
 ["fault_sequences", "histories", "inputs"], "every history of AddCoord/AddVar/copy/assign/destroy/query, every allocation-failure point, dimensions 1 to 3",
 "tests fill one object once; a stale pointer into replaced data reads plausible numbers until the memory is reused",
 ["RegularGridInterpolator.h", "RegularGridNearest.h", "thirdparty/linterp.h"],
 [("RegularGridInterpolator::AddVar, operator=, _BuildInterpolator", "RegularGridInterpolator.h"), ("RegularGridNearest::AddVar, operator=", "RegularGridNearest.h"), ("NDInterpolator::set_grids, set_f_array", "thirdparty/linterp.h")])
prop("C09", "Chebyshev coefficients depend only on the function, never on the history",
 "Computing the coefficients of a 1D, 2D or 3D Chebyshev series succeeds completely or, when the approximated function throws at any of its evaluations or memory fails at any point, leaves the series evaluating as before. After a successful computation - the first, a repeated one, or a retry after failures - the series equals the Chebyshev interpolant of the function at the Chebyshev nodes of its domain, and the power series made from its conversion coefficients equals it too.",
 ["fault_sequences", "histories", "inputs"], "every failing evaluation, every allocation-failure point, every history of computations and evaluations, orders 0..4, all domain kinds",
 "tests compute each series once with a function that never fails; accumulation into old coefficients shows only on the second computation",
 ["ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h"],
 [("Compute_ai", "ChebyshevSeries1d.h"), ("Compute_aij", "ChebyshevSeries2d.h"), ("Compute_aijk", "ChebyshevSeries3d.h"), ("Compute_bi/bij/bijk", "ChebyshevSeries3d.h")])
prop("C10", "An integral always reflects the integrator's current settings",
 "Whatever the history of bound changes, method changes, queries, and queries that failed because the integrand threw, memory ran out or the method is not available, a query of a 1D integrator that returns gives the trapezoidal sum of the current integrand or samples over the current bounds; with a method that is not available it always throws. A triangle quadrature whose integrand throws or whose memory fails can be asked again and then gives the right integral, and integrators used inside an integrand do not disturb the outer one.",
 ["fault_sequences", "histories", "inputs"], "every history of setters and queries, every failing evaluation of the integrand and allocation, nested integrators",
 "tests build, query once and drop; a cached result that survives a setter or a failed query needs a longer history",
 ["Integration1d.h", "Integration2dTriangle.h", "Integration2d.h", "QuadratureTables.h"],
 [("Integrate1d::Get, Compute, SetXmin, SetXmax, SetIntegrationMethod", "Integration1d.h"), ("Integration2dTriangle::Compute", "Integration2dTriangle.h")])
prop("C11", "A Fourier-transform object has no memory of earlier transforms",
 "For every history of transforms of any lengths of two samples or more, directions and flag settings on one Fourier-transform object, including transforms that failed because memory ran out at any point, each successful transform equals the discrete Fourier transform of its own input under the flags in force (full or half spectrum, scaled or unscaled inverse) and its frequency vector matches that length and those flags. Its input is never modified.",
 ["fault_sequences", "histories", "inputs"], "every history of fft/ifft/flag/frequency operations with lengths 2..40, every allocation-failure point",
 "tests do one transform per object; plan caches keyed or filled wrongly need several lengths, or a failure while a plan is built",
 ["FFT.h"], [("FFT::fft, ifft, HalfSpectrumON/OFF, ScalingON/OFF, GetFrequencyVector", "FFT.h")])
prop("C12", "Matrix operations that run out of memory leave their operands whole",
 "When memory fails at any point of a matrix or vector operation - inverse, transpose, QR, LU, Cholesky, Cholesky update, SVD, pseudo-inverse, linear and least-squares solves, eigenvalues - no operand is modified: the matrix, the right-hand sides and, for in-place operations, the matrix being changed still hold their previous values. Repeating the operation then gives the right result (factors multiply back to the matrix, solutions satisfy the system), the same as without the failure.",
 ["fault_sequences", "histories", "inputs"], "every allocation-failure point of every operation, chains of operations on shared operands, sizes 1..8, well-conditioned operands",
 "tests never fail an allocation inside a decomposition",
 ["Matrix.h", "VectorN.h", "Matrix33.h", "Matrix66.h"],
 [("MatrixMN::Inverse, Transpose, InPlaceCholeskyUpdate", "Matrix.h"), ("MatrixMN::Get*Decomposition, LUSolver, QRSolver, LeastSquareSolver*", "Matrix.h"), ("VectorN", "VectorN.h")])
prop("C13", "No failing operation leaks or corrupts memory",
 "Whatever operation of the library fails - memory exhausted at any point, a user function throwing, data refused, a stream failing - once the objects involved are destroyed all memory they took is returned exactly once: repeating the same failing sequence any number of times does not increase the memory in use. The same holds for objects deleted through a pointer to their base class, moved, copied, assigned or re-initialised.",
 ["fault_sequences", "histories"], "every allocation-failure point, callback failure and refusal in construction, filling, copying, querying and destruction of every kind of object",
 "a leak on an error path changes no result; tests neither fail allocations nor account for memory",
 ["LookupTable1D.h", "LookupTable2D.h", "Interp1d.h", "Interp2d.h", "RegularGridInterpolator.h", "RegularGridNearest.h", "ChebyshevSeries1d.h", "Integration2d.h", "FFT.h", "Matrix.h", "thirdparty/linterp.h"],
 [("LookupTable1D::AddY", "LookupTable1D.h"), ("MakeInterp1d, MakeInterp2d factories", "Interp1d.h"), ("unique_ptr ownership of interpolators and tables", "RegularGridInterpolator.h")])
prop("C14", "Printing and diagnostics change nothing and survive failing streams",
 "Printing a vector or matrix, or being told that a series was refused, never modifies the object, the stream's formatting or the program's state; what is written is deterministic: the name, then every coefficient row by row as the stream's formatting renders it. When the output stream fails, stops after any number of bytes or throws, exactly a prefix of the fault-free output has been written, the failure stays visible in the stream's state, the object is intact, and printing again on a repaired stream gives the full output.",
 ["fault_sequences", "inputs"], "every byte position at which the stream stops, as a silent failure or an exception, for every printable type, prior formatting state and value",
 "tests print to a terminal that never fails and compare nothing",
 ["Matrix.h", "Matrix33.h", "Matrix66.h", "VectorN.h", "Vector2d.h", "Vector3d.h", "Vector6d.h", "LookupTable1D.h", "LookupTable2D.h"],
 [("print", "Matrix.h"), ("print", "Vector3d.h"), ("refusal message of AddY/AddData", "LookupTable1D.h")])
prop("C15", "Randomised matrices and vectors are reproducible and stay in range",
 "Randomising a matrix or vector draws only on the process's own random generator: with the generator in the same state it gives the same values, with a different state different ones, in any schedule of other non-randomising threads. Every coefficient lies in [-1, 1] even when the generator returns its extreme values, ordinary draws spread over the whole interval, every coefficient is redrawn independently of the others, and the size never changes.",
 ["inputs", "schedules", "fault_sequences"], "every generator state, extreme draws included, every size, other threads running",
 "tests see one stream of one generator and never its extreme values",
 ["Matrix.h", "Matrix33.h", "Matrix66.h", "VectorN.h"], [("Randomize", "Matrix.h"), ("Randomize", "VectorN.h"), ("Randomize", "Matrix33.h"), ("Randomize", "Matrix66.h")])
prop("C16", "A request that cannot be answered never yields a number",
 "A request outside the library's domain - a strict table queried out of range, an unavailable interpolation or integration method, an unknown series or unit name, a grid with too many or missing coordinates, a checked point outside the grid, a matrix that is not square, symmetric or positive definite given to Cholesky, special functions and series conversions outside their domain, a quadrature order that does not exist - never returns a value: it throws, or ends the process with a failure status after a diagnostic. This holds when the diagnostic stream fails, when memory is exhausted, and while other threads are being served correctly; a request within the domain, up to its very edge, is never refused.",
 ["inputs", "fault_sequences", "schedules"], "every refused request kind and offending value, every stream and allocation failure during the refusal, every schedule of concurrent valid queries",
 "process-ending paths end the test program too, and nobody fails the diagnostic stream",
 ["Interp1d.h", "LookupTable1D.h", "LookupTable2D.h", "RegularGridInterpolator.h", "RegularGridNearest.h", "Angles.h", "BoostFunctions.h", "Integration1d.h", "Integration2dTriangle.h", "ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "Matrix.h"],
 [("Interp1dLinear::PrivEval", "Interp1d.h"), ("GetCoord*, AddCoord, AddVar, Interp(bound_check)", "RegularGridInterpolator.h"), ("STRING2ANGLE", "Angles.h"), ("Struve_*, Ei_approximation, E1_approximation", "BoostFunctions.h"), ("Compute_bi/bij/bijk order limits", "ChebyshevSeries1d.h"), ("GetCholeskyDecomposition", "Matrix.h")])
prop("C17", "Results depend only on the arguments; calls leave process-wide state alone",
 "A query, evaluation, transform, decomposition, integral or special function gives the same bits whatever the surroundings of the call: what memory it is handed contained before, where objects lie on the heap or stack, which thread calls, which other calls of the library ran or ran out of memory before it or run beside it, the locale, stream formats, errno and floating-point flags it is called with, the clock and the random generator. In turn a call that succeeds writes nothing to the standard streams and leaves locale, stream formats and states, floating-point rounding and trapping modes, signal, new and terminate handlers as they were; only Randomize draws on the process's random generator.",
 ["histories", "schedules", "fault_sequences", "inputs"], "every content and place of memory, every earlier or concurrent call and failure, every state of the process's shared settings",
 "tests run each call once, in a fresh process, on zeroed memory, in the C locale",
 ["Interp1d.h", "LookupTable1D.h", "LookupTable2D.h", "RegularGridInterpolator.h", "ChebyshevSeries1d.h", "PowerSeries1d.h", "BoostFunctions.h", "FFT.h", "Convolution.h", "Integration1d.h", "Integration2dTriangle.h", "Matrix.h", "Matrix33.h", "Matrix66.h", "VectorN.h", "Angles.h", "Unit.h"],
 [("Evaluate, Compute_*", "ChebyshevSeries1d.h"), ("fft, ifft", "FFT.h"), ("Eval, Interp", "LookupTable1D.h"), ("special functions", "BoostFunctions.h"), ("decompositions and solvers", "Matrix.h")])
prop("C18", "Steady use takes bounded memory and steady work",
 "However long a program goes on using the library, memory and time do not build up: any number of queries on an object, of refills or re-initialisations with data of the same size, of short-lived threads that query a shared object, or of objects made and destroyed leaves the memory in use bounded, and a given query takes no more work after many uses than after a few. Failures (memory exhausted) in between change nothing about this. Caches whose size is bounded independently of the number of uses are allowed.",
 ["histories", "fault_sequences", "schedules"], "every long history of queries, updates, threads and object lifetimes, with failures in between",
 "a test makes a handful of calls; a cache, log or list that grows by a few bytes per call never shows",
 ["Interp1d.h", "LookupTable1D.h", "LookupTable2D.h", "RegularGridInterpolator.h", "RegularGridNearest.h", "ChebyshevSeries2d.h", "BoostFunctions.h", "FFT.h", "Convolution.h", "Integration1d.h", "Matrix.h", "thirdparty/linterp.h"],
 [("Eval, Interp, Nearest", "RegularGridInterpolator.h"), ("SetX, AddY, Initialize", "Interp1d.h"), ("Compute_*", "ChebyshevSeries2d.h"), ("Struve_*", "BoostFunctions.h"), ("Get, Compute", "Integration1d.h")])
prop("C19", "Copies, moves and assignments give equal and independent objects",
 "Every table, interpolator, spline, grid, series, quadrature, integrator, Fourier-transform object, matrix and vector that can be copied, assigned, moved, exchanged or kept in a growing container keeps its meaning: the destination answers every question as the source did, whatever it held before, and goes on doing so when the source is changed, assigned or destroyed; changing the destination does not show in the source. Assigning an object to itself changes nothing. Several threads may copy from the same object at once. When memory fails during a copy or an assignment the source is unchanged, and the destination can be destroyed or assigned again.",
 ["histories", "fault_sequences", "schedules"], "every history of making, changing, copying, assigning, moving, exchanging, relocating and destroying over four objects, every allocation-failure point of a copy, every interleaving of concurrent copies",
 "tests hardly copy anything, and never change, destroy or reuse one side of a copy afterwards",
 ["LookupTable1D.h", "Interp1d.h", "Interp2d.h", "Spline.h", "RegularGridInterpolator.h", "RegularGridNearest.h", "ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h", "Integration1d.h", "Integration2d.h", "FFT.h", "Matrix.h", "VectorN.h", "Matrix33.h", "Matrix66.h", "Vector3d.h"],
 [("copy constructor, operator=", "RegularGridInterpolator.h"), ("copy constructor, operator=", "RegularGridNearest.h"), ("move constructor, move assignment", "LookupTable1D.h"), ("defaulted copies and moves", "ChebyshevSeries1d.h"), ("operator=", "Matrix.h"), ("shared_ptr data, coefficients", "Interp1d.h")])
# ------------------------------------------------------------------ pure-function properties: not applicable to this family
na = []
def pure(id, title, statement, files, mech, why):
    prop(id, title, statement, ["inputs"], "every input value", "infinitely many inputs, a test samples a handful", files, mech)
    na.append((id, why))
PURE = "a stateless function of its arguments: no schedule, time, I/O, allocation or callback can change whether it holds, so a simulator has nothing to decide; only input-space techniques (proof, property-based testing) address it"
pure("N01", "Special functions are accurate over their whole domain",
 "For every argument in their documented domain the Bessel, Hankel, Struve, Legendre, Chebyshev, gamma and exponential-integral functions and approximations agree with the mathematical function within their stated accuracy.", ["BoostFunctions.h"], [("all functions", "BoostFunctions.h")], PURE)
pure("N02", "Unit conversions round-trip and compose",
 "Converting any speed, angle or frequency to another unit and back returns the original value up to rounding, and converting through an intermediate unit equals converting directly.", ["Unit.h"], [("convert_velocity_unit, convert_frequency", "Unit.h")], PURE)
pure("N03", "Angle normalisation lands in its documented interval",
 "For every finite angle the normalised angle lies in the documented half-open interval and differs from the input by a whole number of turns up to rounding.", ["Angles.h"], [("Normalize_*", "Angles.h")], PURE)
pure("N04", "Rotation representations agree",
 "Euler angles, quaternion and rotation matrix conversions describe the same rotation for every attitude away from the documented singularity, and the matrices are orthonormal.", ["Geometry.h"], [("conversions", "Geometry.h")], PURE)
pure("N05", "Decompositions and solvers are numerically backward stable",
 "For every well-conditioned matrix the factors multiply back to the matrix and solutions satisfy their system with an error proportional to machine precision and condition number.", ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("decompositions, solvers", "Matrix.h")], PURE)
pure("N06", "Quadrature rules are exact for polynomials of their order",
 "A triangle quadrature of order n integrates every polynomial of degree at most n exactly up to rounding, over every triangle.", ["Integration2dTriangle.h"], [("quadrature tables", "Integration2dTriangle.h")], PURE)
pure("N07", "Generated vectors have the documented end points, length and spacing",
 "Linear, logarithmic and stepped ranges have the requested number of points, hit their end points exactly and are monotone, for every valid argument.", ["VectorGeneration.h"], [("linspace, logspace, arange", "VectorGeneration.h")], PURE)
pure("N08", "Chebyshev approximation converges to the function",
 "For every smooth function the approximation error of a Chebyshev series on its domain decreases with the order at the rate the theory gives.", ["ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h"], [("Compute_ai", "ChebyshevSeries1d.h")], PURE)
pure("N09", "Matrix predicates decide what their name says",
 "For every matrix the symmetry, orthogonality, identity, squareness, semi-definiteness and equality predicates are true exactly when the property holds within the tolerance.", ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("IsSymmetric, IsOrthogonal, IsIdentity, IsPositiveSemiDefinite", "Matrix.h")], PURE)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
json.dump([dict(property=i, reason=r) for i, r in na], open(os.path.join(here, "tools", "na.json"), "w"), indent=1)
