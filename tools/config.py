"""What each check builds and how much it explores."""
WRAP = """malloc free calloc realloc aligned_alloc memalign posix_memalign memcmp bcmp
pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock
pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_once
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort sched_yield exit _exit _Exit quick_exit abort __assert_fail
rand srand random srandom time clock clock_gettime gettimeofday
_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv
_ZNSt13random_device9_M_getvalEv getrandom getentropy""".split()

MT_RULE = ("the seed draws the objects, their sizes and data, 2 to 4 caller threads, their operations and the scheduler "
           "(random walk, PCT priorities, conflict-directed, sequential, round-robin) that decides every context switch.")
FAULT_RULE = ("the seed draws a history of operations, and for each operation whether and where a fault strikes "
              "(k-th allocation fails, once or persistently; k-th callback throws; the stream stops after k bytes).")
BASE_ASSUME = [
    "memory accesses are interleaved under sequential consistency; weak-memory reorderings are covered only in that any "
    "race that could expose them is itself reported",
    "sampling, not enumeration: a clean batch is evidence, not proof",
    "code inside precompiled libraries (libm, libstdc++'s iostream internals) runs as one uninterrupted step",
]

CHECKS = {}


def add(pid, sources, runs, level, rule, real, assumptions=(), **kw):
    CHECKS[pid] = dict(sources=sources.split(), runs=runs, level=level, rule=rule, real=real,
                       assumptions=BASE_ASSUME + list(assumptions), **kw)


add("C01", "C01_tables", 50000, "exploration", MT_RULE,
    "LookupTable1D.h, LookupTable2D.h, Interp1d.h, Interp2d.h, Spline.h, Eigen splines: all compiled from the tree")
add("C02", "C02_grids", 50000, "exploration", MT_RULE,
    "RegularGridInterpolator.h, RegularGridNearest.h, thirdparty/linterp.h, Boost.MultiArray: all compiled from the tree")
add("C03", "C03_series", 60000, "exploration", MT_RULE,
    "ChebyshevSeries*.h, PowerSeries*.h, Integration2d*.h, QuadratureTables.h, Polynomial.h, Eigen, Boost.Math: all compiled from the tree",
    must_probe=["nested approximation", "nested quadrature"])

add("C04", "C04_special C04_calls", 40000, "exploration", MT_RULE + " Arguments are drawn from a small pool and its neighbours (last bit, "
    "1e-9, 1e-5 apart) and the branch points of the approximations; afterwards every call is repeated alone in another order.",
    "BoostFunctions.h, Polynomial.h, Boost.Math: all compiled from the tree",
    oracle="series, quadratures and recurrences in extended precision as oracle, plus bitwise repetition alone",
    assumptions=["the Struve approximations are judged against their published accuracy of about 1e-8, the others against 2e-13"])

add("C05", "C05_main C05_kernels C05_linear C05_fixed", 30000, "exploration", MT_RULE + " Arguments come from a small pool shared by the threads and its close "
    "neighbours; afterwards every call is repeated alone and compared bit for bit.",
    "Unit.h, Angles.h, Geometry.h, Vector*.h, Matrix*.h, StdVector.h, Functions.h, VectorGeneration.h, Complex.h, Convolution.h, "
    "Integration1d.h, Polynomial.h, FFT.h, Maths.h, Check.h, Eigen: all compiled from the tree",
    oracle="naive extended-precision models as oracle, plus bitwise repetition alone")

STREAM_STUB = "std::cout/std::cerr write into the simulator's stream buffer"
add("C06", "C06_add", 60000, "exploration", FAULT_RULE + " After every operation all tables are compared with a model that keeps, per name, "
    "the data and coordinates of its successful addition.",
    "LookupTable1D.h, LookupTable2D.h, Interp1d.h, Interp2d.h: all compiled from the tree", stub=STREAM_STUB,
    must_probe=["failed addition", "refused name", "refused data"],
    assumptions=["1D data whose length differs from the coordinates is a precondition guarded by assert, not part of the histories",
                 "a table that was moved from is only assigned to or destroyed"])

add("C07", "C07_reinit", 80000, "exploration", FAULT_RULE + " After every operation each interpolator is compared with a naive interpolant of the "
    "data of its last successful initialisation and, bit for bit, with a new interpolator given the same data.",
    "Interp1d.h, Interp2d.h: all compiled from the tree", must_probe=["failed initialisation", "failed re-initialisation"],
    assumptions=["1D data whose length differs from the coordinates is a precondition guarded by assert, not part of the histories"])

add("C08", "C08_gridlife", 40000, "exploration", FAULT_RULE + " Up to three objects of a kind are filled, refilled, copied, assigned and destroyed; "
    "after every operation each is compared with its model.",
    "RegularGridInterpolator.h, RegularGridNearest.h, thirdparty/linterp.h, Boost.MultiArray: all compiled from the tree",
    must_probe=["failed update", "failed copy", "refused update", "not valid after a failure"],
    assumptions=["numeric data, coordinates of one value or more"])

add("C09", "C09_cheb", 40000, "exploration", FAULT_RULE + " After every operation each series is compared with the interpolant recomputed naively in "
    "extended precision from the function's values at the Chebyshev nodes.",
    "ChebyshevSeries*.h, PowerSeries*.h, BoostFunctions.h, Matrix.h, VectorN.h, Eigen, Boost.Math: all compiled from the tree",
    must_probe=["computed again", "function threw", "memory failed", "nested computation"], stub="the approximated functions are the harness's")

add("C10", "C10_integrals", 80000, "exploration", FAULT_RULE + " Every query is compared with the trapezoidal sum over the current settings, or the "
    "exact integral of a polynomial the quadrature order covers, in extended precision.",
    "Integration1d.h, Integration2d.h, Integration2dTriangle.h, QuadratureTables.h, Integrand.h, Vector3d.h, Eigen: all compiled from the tree",
    must_probe=["integrand threw", "memory failed", "method not available", "nested integrator", "triangle integral failed", "failed construction"],
    stub="the integrands are the harness's",
    assumptions=["at least two points; sampled data have as many values as points"])

add("C11", "C11_fft", 60000, "exploration", FAULT_RULE + " Every transform is compared with the naive sum in extended precision.",
    "FFT.h, Unit.h, Eigen's unsupported FFT module and kissfft: all compiled from the tree", must_probe=["failed transform"],
    assumptions=["two samples or more (a transform of one sample crashes inside Eigen's own kissfft)",
                 "half-spectrum inverses of an even number of samples: the length of an odd one cannot be told from its half spectrum"])

add("C12", "C12_matrices C12_dyn C12_fixed", 80000, "exploration", FAULT_RULE + " Each operation is first counted on a copy, then struck at one of its own allocations; the "
    "operands are compared bit for bit, results with naive extended-precision checks and with an undisturbed run.",
    "Matrix.h, Matrix33.h, Matrix66.h, VectorN.h, Eigen: all compiled from the tree",
    must_probe=["failed operation", "living matrix, failed operation"],
    assumptions=["outputs passed in are empty or already of the right size: Eigen's own resize to another size leaves a matrix unusable when memory fails",
                 "well-conditioned operands, sizes 1 to 20"])

add("C13", "C13_leaks C13_linear", 60000, "exploration", FAULT_RULE + " Each sequence is first run undisturbed to count its allocations, then four times "
    "with the same faults; a leak is growth of the live memory in every repetition. Double frees, frees by the wrong size or kind and accesses to "
    "freed memory end a run at once.",
    "every header that allocates, Eigen, Boost.MultiArray: all compiled from the tree", stub=STREAM_STUB + "; approximated functions and integrands are the harness's",
    must_probe=["step failed or survived a fault"],
    oracle="the simulator's heap ledger as oracle",
    assumptions=["SVD-based operations on non-square matrices are not struck (known finding of C12 in Eigen)"])

add("C14", "C14_print", 60000, "exploration", FAULT_RULE + " The stream stops after any byte silently, by an exception of the stream or of its "
    "buffer, or for a moment only; the output is compared with a naive rendering and byte by byte with the undisturbed output.",
    "print of every vector and matrix type, refusal messages of the lookup tables, Eigen's output, libstdc++'s streams (precompiled): compiled from the tree",
    stub=STREAM_STUB, must_probe=["stream failed silently", "stream threw", "memory failed while printing", "printed while others read"],
    oracle="naive rendering of every coefficient, the undisturbed output and the bytes of the object as oracle",
    assumptions=["no pending field width when printing begins",
                 "when the stream throws inside a number, the width and fill set for that number are Eigen's and not judged",
                 "when memory fails inside libstdc++'s string streams, Eigen's column alignment is not judged, the content is"])

add("C15", "C15_random", 60000, "exploration", "the seed draws the objects, the state and behaviour of the random generator (ordinary, all 0, all RAND_MAX, "
    "mixed, constant), allocation failures, other threads and their schedule; every object is filled with numbers out of range before a draw.",
    "Randomize of MatrixMN, Matrix33, Matrix66, VectorN (double, float, complex), Eigen: all compiled from the tree",
    stub="rand(), clocks and entropy sources are the simulator's", must_probe=["extreme draws", "randomised beside other threads", "two randomising threads"],
    oracle="range, size, repetition from the same state, independence of the numbers and the simulator's count of clock and entropy readings as oracle",
    assumptions=["the generator is std::rand's; its quality is not judged"])

add("C16", "C16_refusals", 60000, "exploration", "the seed draws the kind of request, the offending value, stream and allocation faults during the refusal, "
    "and up to three other threads with valid requests and their schedule. Ending the process is caught and judged by its status and diagnostic.",
    "Interp*.h, LookupTable*.h, RegularGrid*.h, Angles.h, BoostFunctions.h, ChebyshevSeries*.h, Integration*.h, Matrix*.h: all compiled from the tree",
    stub=STREAM_STUB + "; exit() ends the simulated process", must_probe=["process ended by the library", "refused although the stream failed",
    "refused by an exception under a fault", "refused by an exception", "others were served during a refusal"],
    oracle="no answer, a failure status, a diagnostic, and the correct answers of all valid requests as oracle",
    assumptions=["arguments that are not numbers (NaN) are answered by NaN and not part of the requests",
                 "2D tables refuse by assertion, which the library's build leaves on"])

PROBES = " P_tables P_grids P_series P_calls C04_calls C05_kernels C05_linear C05_fixed"
add("C17", "C17_env" + PROBES, 30000, "exploration", "the seed draws objects and calls from every part of the library and two sets of surroundings: content and place of heap "
    "and stack memory, reuse of freed blocks, calling thread, calls that ran or ran out of memory before or run beside it, locale, stream formats and "
    "states, errno and floating-point flags, clock and random generator. The calls are made in both and compared bit for bit; process-wide state is compared around every call.",
    "every header of the library, Eigen, Boost: all compiled from the tree", stub=STREAM_STUB + "; clocks and rand() are the simulator's",
    must_probe=["other memory content", "a call failed before", "another call failed before", "other calls before", "other process settings", "another thread"],
    oracle="the same calls in other surroundings as oracle",
    assumptions=["blocks stay aligned to 16 bytes, as malloc's are", "printing and randomising are C14's and C15's"])
add("C18", "C18_steady" + PROBES, 6000, "exploration", "the seed draws an object, the kind of use (queries, updates, queries by rounds of new threads, new objects for each), "
    "arguments and allocation failures; uses come in blocks that double in size. Memory that keeps pace with the number of uses in each of the last three blocks is a "
    "violation, and so is a query that takes more than four times the simulated steps it took at first.",
    "every header of the library, Eigen, Boost: all compiled from the tree", stub=STREAM_STUB,
    must_probe=["rounds of short-lived threads", "updates again and again", "failed now and then"],
    oracle="the simulator's heap ledger and step count as oracle",
    assumptions=["sizes are bounded: one Fourier-transform object is given ten lengths (its engine keeps a plan per length), tables get no new series",
                 "caches of at most a few hundred entries count as bounded"])
add("C19", "C19_values C19_tables C19_cheb C19_power", 40000, "exploration", "the seed draws a class, a history of making, changing, copying, assigning, moving, exchanging, destroying and moving through "
    "growing containers over four objects, allocation failures in copies and assignments, and threads that copy from the same objects. After every operation every "
    "object is asked and compared with an object of the same making that was never copied or moved.",
    "LookupTable1D, interpolators, Spline, grids, Chebyshev and power series, quadratures, Integrate1d, FFT, matrices and vectors, Eigen, Boost: all compiled from the tree",
    must_probe=["copied", "assigned", "assigned to itself", "moved", "exchanged", "through a container", "changed one of several", "failed copy", "copied by several threads"],
    oracle="objects made the same way and left alone as oracle",
    assumptions=["an object that was moved from, or whose assignment ran out of memory, is only destroyed or assigned again",
                 "assignments of classes built on Eigen are not struck: Eigen 3.4's resize does not survive a failed allocation"])
