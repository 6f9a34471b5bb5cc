OP = ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/dct_transforms.c", "src/matrix_transforms.c"]
IFC = ["interfaces/python/l1cPy.c", "interfaces/mex/l1qc_dct_mex.c",
       "interfaces/mex/nesta_dctTV_mex.c", "interfaces/mex/breg_anistropic_TV_mex.c"]
SOLV = ["src/l1qc_newton.c", "src/l1qc_dct.c", "src/nesta.c", "src/bregman.c", "src/cgsolve.c"]
NOTE = ("All paths of all analysed functions, for all inputs, over clang's IR of the tree. "
        "Undecided obligations are listed in the evidence and never counted as held.")

prop("C01", "Every acquired resource is released exactly once, on every path",
     "Whatever a call acquires (memory, FFT plans, files, JSON trees, Python and MATLAB "
     "objects) is, when the call returns, released, handed to the caller, or reachable from a "
     "set-up transform that its destroy operation then releases; this holds on success and on "
     "every failure path. Nothing is released twice, used after release, or released through "
     "the wrong deallocator. Setting up one transform after another and destroying them "
     "releases everything.",
     ["inputs", "fault_sequences", "histories"],
     "every path through every public function, the Python and MATLAB entry points and the "
     "example, every subset of failing acquisitions, and every history of two set-ups with "
     "their destroys",
     "The tests run the success paths with leak checking off; acquisition failures and "
     "set-up/destroy histories are not sampled.",
     OP + SOLV + ["src/json_utils.c"] + IFC,
     [("ownership", "set-up functions, destroy operations and solver work arrays"),
      ("error paths", "exit labels in the solvers and in the Python/MEX entry points")],
     "ownership typestate dataflow over LLVM IR, interprocedural", note=NOTE)

prop("C02", "A failed memory or plan acquisition is detected and reported",
     "If an allocation, an FFT plan creation, a file open or a JSON lookup fails, its result is "
     "never dereferenced or passed on as if it were valid. The call that needed it ends by "
     "reporting failure to its caller (non-zero status, null result, or an exception in the "
     "Python and MATLAB interfaces).",
     ["inputs", "fault_sequences"],
     "every acquisition site on every path, failing at any combination of sites",
     "No test makes an allocation or a plan creation fail.",
     OP + SOLV + ["src/json_utils.c", "src/l1c_memory.c"] + IFC,
     [("null checks", "after each acquisition"), ("status codes", "return values of set-ups "
      "and solvers")],
     "nullness and typestate dataflow with path facts", level="fault_enumeration", note=NOTE)

prop("C07", "Invalid problem descriptions are rejected before they are used",
     "A transform set-up or solver called with dimensions, sample indices or modes outside its "
     "documented domain (non-positive or inconsistent dimensions, sample indices out of range, "
     "TV weights without a two-dimensional image, unknown modes) returns a failure status "
     "and leaves no transform set up. In Python the "
     "same invalid calls raise an exception.",
     ["inputs"],
     "all argument values of the set-up functions and solvers",
     "The tests try a few invalid argument tuples of one set-up function.",
     OP + ["src/nesta.c", "src/bregman.c", "src/l1qc_newton.c"] + IFC[:1],
     [("argument checks", "entry of set-up functions and solvers")],
     "interval and relational abstract interpretation of the entry guards", note=NOTE)

prop("C08", "Failures inside a solve are reported to the caller",
     "When an inner step of a solver or interface function reports failure (a set-up, a linear "
     "solve, an allocation, a projection), the enclosing public call reports failure too: its "
     "returned or stored status is non-zero, or a Python exception or MATLAB error is raised. "
     "A success status is never produced on a path on which an inner step failed.",
     ["inputs", "fault_sequences"],
     "every call site of a status-returning operation on every path of every public function "
     "and interface entry point",
     "The tests only exercise solves whose inner steps succeed.",
     SOLV + IFC,
     [("status propagation", "solver exits; interface functions")],
     "outcome-tracking dataflow", note=NOTE)

prop("C09", "A successful set-up yields a complete, consistent set of operators",
     "After any transform set-up returns success, every operator a solver may call is present, "
     "including the destroy operation, and the recorded dimensions are those of the "
     "transform described by the arguments. Calling any of these operators is possible without "
     "further preparation.",
     ["inputs", "configurations"],
     "all successful set-up calls, all modes",
     "Tests use a handful of sizes and modes and call only some operators per mode.",
     OP, [("operator table", "filled by each set-up function")],
     "abstract interpretation of the set-up functions; table contents on every success path",
     note=NOTE)

prop("C16", "A new set-up does not depend on earlier ones",
     "The behaviour of a transform set up successfully depends only on the arguments of that "
     "set-up: nothing stored by an earlier set-up, solve or destroy influences the set-up or "
     "any operator of the new transform. In particular a second set-up with other sizes or "
     "modes works as it would in a fresh process.",
     ["histories", "inputs"],
     "all prior states of the library's process-wide state, all set-ups and operators",
     "Each test process performs few set-ups, and never compares against a fresh process.",
     OP, [("file-global state", "transform implementation files")],
     "definite-assignment dataflow on process-wide state", note=NOTE)

NUM = ("Derived for symbolic sizes from clang's IR; the derived summaries and their "
       "specifications are compared by random interpretation (identity testing) at several "
       "small shapes, at shapes around every constant the code compares sizes with, and for "
       "several distributions of values. Floating point is read as real arithmetic.")

prop("C17", "Every operator of a set-up transform is the documented linear map",
     "After a successful set-up, each operator in the table computes, for every input vector, "
     "the map the documentation gives: Mx the orthonormal inverse DCT (1D or 2D, with the TV "
     "blocks in dctTV synthesis mode), Rx the selection of the sampled entries, Ax = R M (or R "
     "in analysis mode, or the caller's matrix), Wz the dictionary [M, a_v Dy, a_h Dx]; Mty, "
     "Rty, Aty, Wtx are the exact transposes and AtAx the product. Inputs are left as they "
     "were, and the result does not depend on which operators were called before. norm_W is an "
     "upper bound of the norm of W.",
     ["inputs", "histories", "configurations"],
     "all input vectors, sizes, sets of distinct sample indices, TV weights, modes, and all "
     "orders of operator calls",
     "Tests compare a few stored vectors per operator, mostly square images, each operator in "
     "a fresh set-up.",
     OP, [("operators", "static functions installed by each set-up function")],
     "symbolic loop summaries by abstract interpretation, compared with the specification by "
     "random interpretation", note=NUM)

prop("C18", "The TV difference operators, their transposes and normal operators are exact",
     "For every n by m image (row major, n, m >= 2) and every weight a, l1c_Dx and l1c_Dy "
     "compute a times the forward differences along rows and columns with zero in the last "
     "column or row; l1c_DxT and l1c_DyT are their exact transposes; l1c_DxTDx and l1c_DyTDy "
     "are the products of transpose and operator (weight a squared). Every output entry is "
     "written and the input is not changed.",
     ["inputs"], "all images, sizes and weights",
     "Tests compare a few stored images.",
     ["src/TV.c"], [("stencils", "l1c_Dx, l1c_Dy and friends")],
     "symbolic loop summaries by abstract interpretation, compared with the specification by "
     "random interpretation", note=NUM)

prop("C22", "The vector kernels compute their formulas for every length",
     "The shared vector kernels (scaled sums, products, absolute values, fills, sums, sums of "
     "logarithms, norms, relative errors, maximum; scalar and SIMD versions) compute the "
     "documented formula over exactly the first N entries for every N, including lengths that "
     "are not a multiple of the SIMD width, read no other entries and write no other entries.",
     ["inputs"], "all lengths and contents",
     "Tests use one or two lengths per kernel.",
     ["src/l1c_math.c", "src/vcl/vcl_math.cpp"], [("loops", "vector kernels and SIMD tails")],
     "symbolic loop summaries by abstract interpretation, compared with the specification by "
     "random interpretation", note=NUM)

prop("C10", "A line search returns a point of sufficient decrease, or leaves the point alone",
     "l1c_linesearch and l1c_linesearch_xu try the steps s, beta s, beta^2 s, ... in this order, "
     "at most 32 of them, and accept the first whose objective value is a number not above "
     "f(x0) + alpha step g'd, with f(x0) the value on entry even if the objective overwrites "
     "the location it was passed in. On acceptance the point, the objective value, step, "
     "iteration count and threshold are those of the accepted trial and the status is 0. If no "
     "trial is acceptable, the point and the objective value are as on entry and the status is "
     "not 0.",
     ["inputs"], "all objectives (including ones that return NaN or write to their data), "
     "directions, parameters and lengths",
     "Tests try one quadratic objective with an early success.",
     ["src/linesearch.c", "src/linesearch.h"], [("search loops", "l1c_linesearch, l1c_linesearch_xu")],
     "symbolic one-iteration transition relations by abstract interpretation, composed and "
     "compared with the specification by random interpretation", note=NUM)

prop("C11", "The CG solvers return their best iterate and its true relative residual",
     "l1c_cgsolve and l1c_cgsolve_diag_precond start from the caller's x (residual b - A x), "
     "perform the (preconditioned) conjugate gradient recurrence, stop as soon as the relative "
     "residual |b - A x|/|b| falls below the tolerance or after max_iter iterations, and return "
     "in x the iterate with the smallest relative residual among all visited ones, the "
     "starting point included. The reported residual is that of the returned x, the reported "
     "count the number of iterations performed, never above max_iter; b and the preconditioner "
     "are not changed.",
     ["inputs"], "all symmetric positive definite systems, right-hand sides, warm starts, "
     "diagonal preconditioners and parameters",
     "Tests solve a few systems from zero to convergence.",
     ["src/cgsolve.c"], [("recurrence", "main loops of the two solvers"),
                         ("best iterate", "bookkeeping in the loops and after them")],
     "symbolic one-iteration transition relations by abstract interpretation, composed and "
     "compared with the reference recurrence by random interpretation", note=NUM)

prop("C19", "The log-barrier Newton solver works on the barrier problem it documents",
     "The quadratically constrained solver (l1c_l1qc_newton) evaluates f(x,u) = sum u - "
     "(1/tau)(sum log(u-x) + sum log(u+x) + log((eps^2-|Ax-b|^2)/2)) with its exact gradient, "
     "hands its CG solver the reduced Newton system of that function and recovers the "
     "Newton direction from the result; the step offered to the line search is 0.99 times the "
     "smaller of 1 and the largest step that keeps all three families of constraints. The start "
     "values of u (strictly above |x|), tau and the number of barrier iterations follow "
     "from x, lbtol and mu (a caller's non-zero lbiter is kept); an infeasible start is "
     "refused. Per barrier iteration Newton steps are taken until half the Newton decrement is "
     "below newton_tol or the iteration limit is reached, then tau is multiplied by mu; "
     "reported counts and the reported l1 norm are those of the run and of the returned point.",
     ["inputs", "configurations"],
     "all linear operators, data, feasible points, options, sizes",
     "Tests compare stored vectors of one problem for the building blocks and one or two end "
     "results.",
     ["src/l1qc_newton.c", "src/l1qc_dct.c"],
     [("building blocks", "_l1c_l1qc_* functions"), ("schedule", "l1c_l1qc_newton")],
     "symbolic summaries and one-iteration transition relations by abstract interpretation, "
     "compared with the barrier function and its derivatives by random interpretation",
     note=NUM)

prop("C20", "NESTA smooths, projects, accelerates and continues as documented",
     "l1c_nesta starts at A'b and runs n_continue continuation steps in which mu and tol fall "
     "geometrically from 0.9 max|W'A'b| and 0.1 to the caller's mu and tol. Within a step it "
     "evaluates the smoothed l1 norm of W'x and its exact gradient, takes both of Nesterov's "
     "gradient steps with L = norm_W^2/mu from the iterate and from the prox centre (the "
     "previous step's result, with weights (k+1)/2 for the gradient sum and 2/(k+3) for the "
     "combination), each followed by the exact Euclidean projection onto {|Ax-b| <= sigma}, and "
     "stops when the value differs relatively by less than tol from the mean of the (at most "
     "ten) previous values of that step. The result is the last iterate; nothing carries over "
     "between steps but the iterate.",
     ["inputs", "configurations"],
     "all data, operators with orthonormal measurement rows, dictionaries, options, sizes",
     "Tests compare stored vectors for two building blocks and only that a solve ends.",
     ["src/nesta.c"],
     [("building blocks", "l1c_nesta_project, l1c_nesta_feval, l1c_nesta_setup, fifo"),
      ("iteration", "l1c_nesta")],
     "symbolic summaries and one-iteration transition relations by abstract interpretation, "
     "compared with the method by random interpretation", note=NUM)

prop("C21", "Split Bregman TV denoising performs the documented iteration",
     "l1c_breg_anistropic_TV starts at u = f with zero splitting variables and, for at most "
     "max_iter iterations, applies max_jac_iter Gauss-Seidel sweeps to (mu I + lambda(Dx'Dx + "
     "Dy'Dy)) u = mu f + lambda Dx'(dx-bx) + lambda Dy'(dy-by) with lambda = 2 mu, thresholds "
     "D u + b at 1/lambda, performs the Bregman update, and stops when the relative change of u "
     "is below tol. The building blocks (threshold, sweeps of both linear solvers, inverse "
     "diagonal, right-hand side) are exact for every image of at least 2 by 2 pixels; f is not "
     "changed.",
     ["inputs", "configurations"], "all images, sizes, weights and iteration limits",
     "Tests compare stored vectors for the blocks on one image shape and only that the "
     "denoiser ends.",
     ["src/bregman.c"], [("building blocks", "functions in the exported table"),
                         ("iteration", "l1c_breg_anistropic_TV")],
     "symbolic summaries and one-iteration transition relations by abstract interpretation, "
     "compared with the method by random interpretation", note=NUM)

prop("C14", "Interfaces pass on every argument and option and return the solver's result",
     "The one-call DCT solver, the three Python methods and the three MATLAB functions hand the "
     "caller's dimensions, data, sample indices and every named option to the solver they stand "
     "for unchanged (MATLAB's one-based indices shifted to zero-based), whatever subset of the "
     "options is given; an omitted Python option takes its fixed default. Array arguments are "
     "converted to the element type and contiguous layout that the solver reads. The "
     "image, counts, l1 norm and status they return are those the solver produced, in an array "
     "of the image's shape; in l1qc_dct the image is the inverse transform of the solution found "
     "from the start A'b.",
     ["inputs", "configurations"],
     "all argument values, array layouts and subsets of the options",
     "Tests call each interface once or twice with one option set and square images.",
     IFC + ["src/l1qc_dct.c"], [("argument parsing", "Python methods and mexFunction bodies"),
                                ("result building", "after the solver call")],
     "abstract interpretation with the solvers as opaque calls; argument terms compared by "
     "random interpretation", note=NUM)

prop("C06", "No call reads or writes outside the arrays it was given or allocated",
     "With arguments of the documented shape, no public function, operator, callback, solver, "
     "Python method or MATLAB function accesses memory outside the arrays it was handed (with "
     "their documented lengths), the ones the library allocated (with the length it asked for) "
     "or its own variables. This holds for all sizes, including non-square images, lengths that "
     "are not a multiple of the SIMD width, any sample pattern and any mode.",
     ["inputs", "configurations"],
     "all sizes, modes and paths; every access of every function reached from the public calls",
     "The tests use few, mostly square sizes and no memory checker.",
     ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c", "src/TV.c",
      "src/l1c_math.c", "src/vcl/vcl_math.cpp", "src/linesearch.c"] + SOLV + IFC,
     [("work arrays", "allocations in solvers and set-up functions and the loops over them"),
      ("kernels", "stencils, SIMD tails, sweeps")],
     "symbolic-extent bounds analysis: abstract interpretation with offsets and extents as "
     "polynomials, discharged by variable elimination", note=NOTE + " An access is reported "
     "only when it is out of bounds at a concrete size on a consistent path.")

prop("C04", "Allocated arrays have the requested size, alignment and content",
     "l1c_malloc_double(N) and the rows of l1c_malloc_double_2D(nrow, ncol) own at least the "
     "requested number of doubles, for every count, aligned to the boundary the vectorised code "
     "relies on; the calloc variants return them all zero. A failed allocation returns NULL and "
     "keeps nothing allocated, and the matching free functions release everything exactly once "
     "and accept NULL.",
     ["inputs", "fault_sequences"],
     "all counts, all patterns of failing row allocations (up to a bounded number of rows)",
     "The tests allocate a few small arrays and never make one fail.",
     ["src/l1c_memory.c"], [("allocators", "the six allocation and release functions")],
     "abstract interpretation of the allocators down to the C library, every call of which may "
     "fail", note="Element counts symbolic; row tables followed row by row up to 4 (quick) or 7 "
     "(thorough) rows, every failure pattern.")

prop("C05", "Parallel loops give the serial result on any number of threads",
     "Built with OpenMP, every parallel loop of the library computes what the same loop computes "
     "on one thread, whatever the number of threads and the schedule: no two iterations of a "
     "parallel loop conflict on shared memory outside a reduction, no iteration reads a private "
     "copy it has not set, and reductions combine all partial results once. Rounding of a "
     "reordered reduction is the only permitted difference.",
     ["schedules", "inputs"], "all thread counts, schedules and sizes",
     "The tests run one build with one thread count; a race shows only under some schedules.",
     ["src/TV.c", "src/l1c_math.c", "src/bregman.c", "src/l1qc_newton.c"],
     [("parallel loops", "loops with an OpenMP directive, analysed in an OpenMP build")],
     "data-race analysis over the OpenMP IR: accesses of two arbitrary iterations disjoint by "
     "variable elimination; serial equivalence of each thread's share by random interpretation",
     note=NUM)

prop("C12", "Every call ends, whatever the data",
     "Every function, operator, solver and interface entry returns after a number of steps "
     "bounded by its sizes and iteration limits alone, also for data with NaN or Inf, blank "
     "images, zero right-hand sides and problems that stagnate or diverge: each loop has an "
     "integer limit that floating point data can only undercut, and no count is held back or "
     "started over for as long as the data says so.",
     ["inputs"], "all inputs, NaN and Inf included, and all option values",
     "Tests run data that converges; a loop whose limit has gone still ends on it.",
     ["src/cgsolve.c", "src/linesearch.c", "src/l1qc_newton.c", "src/nesta.c", "src/bregman.c",
      "src/TV.c", "src/l1c_math.c", "src/dct1.c", "src/dct2.c", "src/dct_transforms.c",
      "interfaces/python/l1cPy.c", "interfaces/mex"],
     [("iteration limits", "max_iter, newton_max_iter, lbiter, MAX_LINESEARCH_ITER, "
       "L1C_NESTA_MAX_INNER_ITER"), ("tolerance exits", "comparisons with NaN are false")],
     "termination analysis: conditions under which each loop goes on, derived by abstract "
     "interpretation; each needs an integer quantity that moves to a fixed bound",
     note=NOTE)

prop("C03", "Vectorised code only gets addresses aligned as it assumes",
     "Wherever the code assumes an alignment of a vector (an alignment promised to the compiler, "
     "an aligned SIMD load or store, an FFTW plan executed on other arrays, the operators and "
     "solvers that do so with their arguments), the address that arrives there is a multiple of "
     "it, for every problem size, odd ones included: the array comes from the library's "
     "allocators or is documented to be aligned, and no offset into it breaks the alignment. "
     "Arrays of callers that are not documented to be aligned (observations of l1qc_dct, NumPy "
     "and MATLAB arrays) are copied before.",
     ["inputs"], "all sizes and all ways to each aligned use",
     "Tests use sizes and arrays that happen to be aligned, and this machine's instructions "
     "mostly tolerate what the language and other targets do not.",
     ["src/l1c_math.c", "src/vcl/vcl_math.cpp", "src/bregman.c", "src/dct1.c", "src/dct2.c",
      "src/dct_tv_transforms.c", "src/l1qc_newton.c", "src/cgsolve.c", "src/nesta.c",
      "src/linesearch.c", "src/l1qc_dct.c", "interfaces/python/l1cPy.c", "interfaces/mex"],
     [("__builtin_assume_aligned", "kernels and transforms promise DALIGN to the compiler"),
      ("load_a", "the vector class library loads four doubles from an aligned address"),
      ("work arrays", "solvers hand rows of their work arrays to kernels and operators")],
     "alignment analysis: offset polynomials of the addresses at every aligned use, base "
     "alignment by origin, by abstract interpretation")

prop("C13", "Calls leave the caller's input arrays as they were",
     "Every array that a caller hands in as input (measurements b, sample indices, the image, "
     "the matrix of a matrix transform, a preconditioner, the argument of an operator of a "
     "transform, MATLAB and NumPy arrays) holds exactly the same values when the call returns, "
     "successful or not. Only the documented outputs, x of the solvers included, are written.",
     ["inputs"], "all inputs, options and ways out of the call",
     "Tests use each input once and do not look at it again; a scaling that is undone inexactly, "
     "or only on the usual way out, is invisible to them.",
     ["src/dct1.c", "src/dct2.c", "src/dct_transforms.c", "src/matrix_transforms.c", "src/TV.c",
      "src/bregman.c", "src/cgsolve.c", "src/l1qc_newton.c", "src/l1qc_dct.c", "src/nesta.c",
      "src/l1c_math.c", "interfaces/python/l1cPy.c", "interfaces/mex"],
     [("in-place scaling", "the DCT operators scale the first coefficient of their argument"),
      ("copies", "the interfaces convert arguments before the solvers see them")],
     "effect analysis: stores to input objects found by abstract interpretation; where there is "
     "one, the derived content at exit is compared with that at entry", note=NUM)

prop("C15", "Printing options change what is printed and nothing else",
     "For every value of the verbosity options (0, negative, larger than the number of "
     "iterations), the solvers, l1qc_dct and the interfaces return the same solution, counts and "
     "status as with 0. With 0 a solve that meets no trouble prints nothing. All output of the "
     "library other than error messages goes through the function that l1c_replace_printf "
     "installed last, and that call returns the one in use before.",
     ["inputs", "configurations"], "all option values, inputs and iteration counts",
     "The tests run with one verbosity and never compare two.",
     SOLV + ["src/l1qc_dct.c", "src/l1c_logging.c", "src/linesearch.c"] + IFC,
     [("gated reports", "branches on the verbosity members"),
      ("print hook", "l1c_printf, l1c_replace_printf")],
     "noninterference by relational evaluation of derived one-iteration relations, output as a "
     "ghost counter; call-graph query for direct output", note=NUM)

prop("C26", "The iterative solvers reach the optimum to the requested tolerance",
     "For solvable problems and sensible options, the log-barrier, NESTA and split Bregman "
     "solvers converge: the returned point is feasible and its objective is within the requested "
     "tolerance of the optimum.",
     ["inputs"], "all problems and options",
     "Tests compare a handful of problems with stored solutions.",
     SOLV, [("iterations", "the three solvers")])
na("C26", "Convergence and optimality depend on the spectrum of the operator, the data and "
   "floating point rounding over hundreds of iterations; no static argument in reach bounds "
   "them. What each iteration computes, its stopping rules and status are decided by C10, C11, "
   "C19, C20 and C21 instead.")

prop("C27", "Results are accurate to floating point precision",
     "Operators, kernels and reductions return values within a small multiple of the unit "
     "roundoff of the exact ones, for long vectors too, and the vectorised and plain versions "
     "agree to that accuracy.",
     ["inputs"], "all finite inputs", "Tests use short vectors of moderate values.",
     ["src/l1c_math.c", "src/vcl/vcl_math.cpp", "src/TV.c"], [("reductions", "sums and norms")])
na("C27", "All numeric checks here read floating point as real arithmetic; a static rounding "
   "error analysis needs bounds on run-time magnitudes and conditioning that the callers do not "
   "give (and FFTW's and BLAS's error is theirs).")
