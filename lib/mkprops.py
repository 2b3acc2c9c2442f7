"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None,
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {})}})
L = "pykrylov/linop/linop.py"; B = "pykrylov/linop/blkop.py"; Q = "pykrylov/linop/lbfgs.py"
CG = "pykrylov/cg/cg.py"; CGS = "pykrylov/cgs/cgs.py"; BI = "pykrylov/bicgstab/bicgstab.py"; TF = "pykrylov/tfqmr/tfqmr.py"
MI = "pykrylov/minres/minres.py"; SY = "pykrylov/symmlq/symmlq.py"
LQ = "pykrylov/lls/lsqr.py"; LM = "pykrylov/lls/lsmr.py"; CR = "pykrylov/lls/craig.py"; CM = "pykrylov/lls/craigmr.py"
U = "pykrylov/tools/utils.py"; G = "pykrylov/gallery/gallery.py"; GE = "pykrylov/generic/generic.py"; CH = "pykrylov/linop/cholesky.py"
ALL = [CG, CGS, BI, TF, MI, SY, LQ, LM, CR, CM]

p("C01", "Operator expressions act like the matrix expressions they denote",
  "Any expression built from linear operators with +, -, unary minus, operator product, scalar multiplication on either side, division by a nonzero scalar (Python 2 and true division) and nonnegative integer powers acts on every vector as the dense matrix expression does, and so do the transpose and the adjoint of the expression. Its shape and dtype are those of the matrix expression and it never claims to be symmetric or Hermitian when it is not. Adding, subtracting or multiplying operators of incompatible shapes raises a shape error, and combining an operator with something that is neither a vector, a scalar nor an operator raises a value error.",
  ["programs", "inputs"], "all expression trees over operators of any shape and dtype (integer, real, complex), all vectors",
  "Unit tests multiply a few 2x3 integer matrices once per operator; they never nest expressions, mix dtypes, or apply the transpose or adjoint of a composite.",
  [L], [("closures built for each algebraic operation", L+" LinearOperator.__mul__/__add__/__sub__/__neg__/__div__/__truediv__/__pow__")],
  ["the value of expr*x, expr.T*x, expr.H*x, expr.shape, expr.dtype, expr.symmetric/hermitian"])

p("C02", "Transpose, adjoint and conjugate of an operator are mutually consistent",
  "For every operator, T, H and bar (the conjugate) act as the transpose, conjugate transpose and conjugate of the matrix the operator represents, satisfy <Ax,y> = <x,Hy> and A.T = bar(A.H), and are available whenever the supplied products allow them to be derived: a complex operator given only its transpose or only its adjoint product gets the other one. Transposing or adjointing an operator twice gives back the very same operator object (conjugates made along the way may be new objects, but act as they should), a symmetric operator is its own T, a Hermitian one its own H, and for non-complex operators T and H act alike (and are the same operator when only one of the two products was supplied) and bar is the operator itself. Without any such product T and H may be unavailable (None). rmatvec(y) equals H*y, and arbitrary chains of T, H and bar act as the corresponding chain of matrix operations.",
  ["inputs", "programs"], "all operators (real/complex, any subset of {transpose, adjoint} products supplied, declared symmetric/Hermitian or not), all chains of T/H/bar, all vectors",
  "Tests follow one or two fixed chains on two fixed complex matrices where both products are supplied.",
  [L], [("transpose/adjoint inference", L+" LinearOperator.__init__, __set_transpose, __set_adjoint, conjugate")],
  ["op.T, op.H, op.bar, op.rmatvec and products with them; object identity"])

p("C03", "Operator products check shapes, keep dtypes, copy and count correctly",
  "Multiplying an operator by an array that does not have as many entries as the operator has columns raises an exception instead of returning a value, and so does a product whose supplied function returns the wrong number of entries; a valid product has as many entries as the operator has rows and the dtype to which the operator's and the vector's dtypes promote. A product never modifies its input vector, its result shares no memory with the input or with later results, and repeating it gives the same values. The product counter of an operator increases by exactly one per product with a vector and goes back to zero when reset, and the dense matrix obtained from an operator has as its columns the products with the unit vectors.",
  ["inputs", "histories"], "all operator kinds, vector dtypes/memory layouts/lengths, and sequences of products and counter resets",
  "Tests check output dtype on one shape and never check aliasing, counters, strided or read-only inputs.",
  [L, "pykrylov/tools/types.py"], [("input/output reshaping and dtype promotion", L+" LinearOperator._matvec, __mul_vector, to_array, reset_counters")],
  ["op*x, op(x), op.nMatvec, op.to_array()/full(), input bytes before and after"],
  [("nMatvec", "number of products with vectors so far", L)])

p("C04", "Each ready-made operator represents exactly the data it was built from",
  "Operators built from an array, from coordinate triplets (duplicates summed, one triangle given when symmetric, dimensions inferred from the indices when not given), from a Pysparse-like matrix, from a diagonal, from a Cholesky factorization, the identity and the zero operator act, together with their transposes and adjoints, as the matrix (or inverse) they were built from. The absolute value and square root of a diagonal or zero operator are operators that act elementwise / square back to the original, and the square root of a real diagonal with a negative entry, or of a non-square factorization input, is refused with a value error. A diagonal operator keeps its own copy of the diagonal, which always describes what the operator does: if the caller later changes the array it was built from, neither changes.",
  ["inputs"], "all matrices, dtypes, index patterns (empty rows, duplicates, out-of-order) and symmetry flags",
  "The two coordinate-operator tests fail at the pinned commit, Pysparse and Cholesky operators are never run, and the others are checked at one fixed small input.",
  [L, CH], [("constructors", L+" linop_from_ndarray, CoordLinearOperator, PysparseLinearOperator, DiagonalOperator, IdentityOperator, ZeroOperator, sqrt"), ("CholeskyOperator", CH)],
  ["op*x, op.T*y, op.H*y, op.shape, op.dtype, op.diag, op.symmetric, op.hermitian"])

p("C05", "A reduced operator is the submatrix picked by its row and column indices",
  "Restricting an operator to lists of row and column indices gives the operator of the submatrix with those rows and columns in the order given, with the matching transpose and adjoint, for every operator and all index lists without repetition; the symmetric restriction does the same with one list and keeps the operator's symmetry and Hermitian claims. Later products with the original operator, or changes to vectors previously passed in, do not affect it.",
  ["inputs", "programs"], "all operators (real, complex, composite), all repetition-free index lists in any order, including empty complement and single index, reductions of reductions",
  "Tests use one 4x4 matrix with sorted indices and never the transpose or adjoint of a complex reduction.",
  [L], [("scatter, multiply, gather", L+" ReducedLinearOperator, SymmetricallyReducedLinearOperator")],
  ["reduced*x, reduced.T*y, reduced.H*y, shape, symmetric, hermitian, dtype"])

p("C06", "Block operators act as the block matrix assembled from their blocks",
  "A block operator, a block-diagonal operator and their preconditioner variants (whose solve is the product) act as the dense matrix assembled from their blocks, and so do their transposes and adjoints, for blocks of any kind, any rectangular shapes and mixed dtypes; a symmetric or Hermitian block operator needs only its upper triangle. The lists of blocks given by the caller are left unmodified and later changes to them do not change the operator. Blocks whose dimensions do not conform are refused with a shape error, and diagonal blocks that are not symmetric (Hermitian) where they must be are refused with a value error.",
  ["inputs", "programs"], "all block layouts (1x1 to many, nested blocks, rectangular, real/complex), all vectors",
  "Tests assemble three 2x2 layouts of integer blocks; block-diagonal operators are only tried with square symmetric blocks.",
  [B], [("assembly of product, transpose and adjoint", B+" BlockLinearOperator, BlockDiagonalLinearOperator, BlockPreconditioner, BlockDiagonalPreconditioner")],
  ["K*x, K.T*y, K.H*y, K.solve(x), K.shape, K.dtype, the caller's lists"])

p("C07", "Reading and replacing blocks keeps a block operator consistent with its blocks",
  "After any history of block assignments (by operators of the replaced blocks' shapes and of dtypes no wider than the operator's, keeping declared symmetry), the operator, its transpose and its adjoint - including transposes and adjoints obtained before the assignment - act as the matrix of the current blocks, and in a symmetric or Hermitian operator assigning an upper block also replaces its mirror image. Indexing with integers returns the very block stored there, slicing returns the operator of the selected sub-blocks, and membership and iteration reflect the current blocks. A block or block-diagonal operator refuses to store anything that is not a linear operator and is then unchanged.",
  ["histories"], "all sequences of get/set/slice/iterate/contains/product operations on block and block-diagonal operators",
  "No test ever assigns a block or slices a block operator.",
  [B], [("__getitem__/__setitem__/__contains__/__iter__ and cached transposed blocks", B)],
  ["results of every operation in the history, compared with a model holding the dense blocks"],
  [("blocks, transposed blocks, adjoint blocks", "three views that must agree", B)])

p("C08", "L-BFGS operators equal the dense BFGS matrix of the pairs they retain",
  "After any history of storing pairs, restarts and products, the inverse operator acts as the BFGS inverse Hessian approximation built from the most recent accepted pairs (at most the memory size, oldest discarded first) starting from the identity, or from the documented scaling of it by the newest pair when scaling is on; the forward and the compact operator act as its inverse, so they are symmetric positive definite and agree with each other. The newest pair always satisfies the secant equation, pairs without positive curvature are ignored and leave the operator unchanged, and a restart gives back the identity. Vectors passed to the operator are never kept by reference nor modified, and integer and complex vectors are multiplied correctly.",
  ["histories", "inputs"], "all sequences of store/restart/multiply with any pairs, memory sizes 1..10, scaling on and off",
  "The one structural test stores 7 random positive pairs once, without scaling, never restarts, and never compares with a reference.",
  [Q], [("two-loop recursion, outer-product and compact forms, circular buffer of pairs", Q)],
  ["op*v and op.full() after each event of the history"],
  [("s, y, ys, insert", "circular buffer of retained pairs", Q)])

p("C09", "The structured L-BFGS operator satisfies its secant equation and stays symmetric",
  "After any history of stored triples (s, y, yd), restarts and products, the structured operator equals the dense structured BFGS recursion over the most recent accepted triples from the (scaled) identity: it is symmetric, maps the newest accepted s to its yd, and coincides with the forward BFGS approximation when yd = y. Triples failing the documented acceptance test leave it unchanged.",
  ["histories"], "all sequences of triples with memory sizes 1..6, scaling on and off, restarts and wrap-around",
  "No test constructs this operator.",
  [Q], [("StructuredLBFGSOperator.lbfgs_matvec and store", Q)], ["op*v and op.full() after each event"])

p("C10", "CG solves SPD systems and reports convergence truthfully",
  "For every symmetric positive definite operator, right-hand side, initial guess, symmetric positive definite preconditioner and tolerances, CG given enough products ends with converged true and an iterate whose true residual, measured in the norm of the preconditioner, is at most max(abstol, reltol times the initial one) up to rounding. Whatever the budget, converged is true exactly when the reported residual norm meets that threshold, and the reported initial and final residual norms are those of the initial guess and of the returned iterate.",
  ["inputs", "configurations"], "all SPD operators (well to moderately conditioned, clustered or spread spectra, n from 1), rhs, guesses, preconditioners, tolerances and budgets",
  "Tests run CG on Poisson matrices with an all-ones solution, without guess, preconditioner or budget.",
  [CG, GE], [("CG recurrences and stopping test", CG+" CG.solve")], ["bestSolution, x, converged, residNorm, residNorm0, against dense residuals"])

p("C11", "CGS, BiCGSTAB and TFQMR solve unsymmetric systems and report truthfully",
  "For every well-conditioned nonsingular operator whose symmetric part is definite, each of the three methods - with or without guess and (right) preconditioner - converges within a modest multiple of the dimension, to an iterate whose true residual is at most max(abstol, reltol times the initial residual) up to rounding. Whatever the budget, the reported initial and final residual norms describe the initial guess and the returned iterate (for TFQMR, as the quasi-residual bounding the true one), and converged is true exactly when the threshold is met by the report. A method that breaks down exactly (a vanishing inner product it would have to divide by) ends with the finite iterate it has and converged false.",
  ["inputs", "configurations"], "all such operators, rhs, guesses, preconditioners, tolerances and every product budget",
  "No test runs any of the three methods.",
  [CGS, BI, TF], [("recurrences and stopping tests", "CGS.solve, BiCGSTAB.solve, TFQMR.solve")], ["bestSolution, converged, residNorm, residNorm0, against dense residuals"])

p("C12", "MINRES solves shifted symmetric systems, indefinite or singular",
  "For every symmetric operator (definite, indefinite or singular), shift, right-hand side and symmetric positive definite preconditioner, MINRES with tight tolerances (no tighter than about 1e-8 when A - shift I is singular) ends with converged true and an iterate solving (A - shift I)x = b when this system is consistent, and otherwise minimizing the (preconditioned) residual; the reported residual norm and iteration count describe the returned iterate, and the reported norm of A times the residual is that of the iterate preceding it, from which the least-squares test is made. When the iteration limit stops it first, converged is false. All this includes right-hand sides b with b'(A - shift I)b = 0, as in saddle-point systems. For nonsingular systems of condition number up to about 1e9 it does not give up as ill-conditioned (stopping code 4), and the accuracy claimed by converged is reached up to the loss of the method, of order eps cond(A) |A| |x|.",
  ["inputs", "configurations"], "all symmetric operators and shifts with condition number up to about 1e4 on their range (1e9 for the ill-conditioned clause), all rhs and preconditioners",
  "No test runs MINRES.",
  [MI], [("Lanczos process with QR factorization and stopping tests", MI+" Minres.solve")], ["x, bestSolution, converged, istop, itn, residNorm/rnorm, Arnorm, ynorm against dense algebra"])

p("C13", "SYMMLQ solves shifted symmetric indefinite systems",
  "For every symmetric nonsingular A - shift I, definite or indefinite, every right-hand side and symmetric positive definite preconditioner, SYMMLQ given enough products ends with converged true and an iterate whose true residual is small relative to the requested tolerance times the norms of the operator and the solution, also when b'(A - shift I)b = 0, as in saddle-point systems. The reported residual and solution norms are the true norms of the returned iterate, whatever the budget.",
  ["inputs", "configurations"], "all symmetric nonsingular shifted operators of moderate condition, rhs, preconditioners and budgets",
  "No test runs SYMMLQ.",
  [SY], [("Lanczos process with LQ factorization, final CG point", SY+" Symmlq.solve")], ["x, converged, residNorm, xNorm, nMatvec against dense algebra"])

p("C14", "LSQR and LSMR solve (damped, weighted) least-squares problems",
  "For every operator of any shape and rank deficiency, right-hand side, damping and symmetric positive definite weights M and N, LSQR and LSMR with tight tolerances return the minimizer of the damped weighted least-squares objective (the minimum-norm one when it is not unique), with a stopping code that says whether the system was solved, the least-squares problem was solved or a limit was hit. The reported residual norm, normal-equations residual and solution norm (in the norm of the weight N for LSQR, the Euclidean one for LSMR) are those of the returned solution, and the variance estimates asked of LSQR are, after a full run on an unweighted problem of full column rank, the diagonal of the inverse of the damped normal matrix.",
  ["inputs", "configurations"], "over-, under- and square systems, consistent or not, rank deficient or not, damp >= 0, weighted or not",
  "No test runs the least-squares solvers.",
  [LQ, LM], [("Golub-Kahan bidiagonalization with orthogonal factorizations", "LSQRFramework.solve, LSMRFramework.solve")], ["x, istop, optimal, r1norm, r2norm, Arnorm, xnorm, var / returned tuple, against dense least squares"])

p("C15", "CRAIG and CRAIG-MR solve symmetric quasi-definite systems",
  "For every operator A of any shape, right-hand side b and symmetric positive definite weights, generalized CRAIG returns both blocks of the solution of the symmetric quasi-definite system [M A; A' -N][r; x] = [b; 0] and CRAIG-MR returns its first block, up to the requested direct-error tolerance or, when given enough iterations, up to rounding. The norms CRAIG reports (r1norm, xnorm, r2norm) are those of the blocks it returns, in the norms of the weights, wherever it stops. CRAIG's damping parameter selects the regularization weight.",
  ["inputs", "configurations"], "all A (square, tall, wide, rank deficient), b, SPD weights given as inverses, tolerances and iteration limits",
  "No test runs CRAIG or CRAIG-MR.",
  [CR, CM], [("generalized bidiagonalization and rotations", "CRAIGFramework.solve, CRAIGMRFramework.solve")], ["x, r, istop, itn, optimal against the dense SQD solution"])

p("C16", "Krylov iterates are the optimal points of their subspaces",
  "Stored iterates are optimal over the Krylov subspace of their iteration: CG minimizes the energy norm of the error, MINRES the (preconditioned) residual norm, LSQR the damped weighted residual, LSMR the normal-equations residual, while SYMMLQ, CRAIG and CRAIG-MR produce their own Galerkin, minimum-error or minimum-residual points; so each method's measure never increases (SYMMLQ's recorded iterates being the LQ points that precede its final transfer to the conjugate-gradient point). Consequently each method reaches the exact solution, up to rounding, in no more iterations than the operator (with its preconditioner or weights) has distinct eigenvalues, or distinct nonzero singular values plus one, and CGS, BiCGSTAB and TFQMR need at most about two products per distinct eigenvalue.",
  ["inputs", "histories"], "all operators of the class of each method with well separated, moderately conditioned spectra, every iteration of the run",
  "No test looks at iterates or iteration counts.",
  ALL, [("short recurrences that implicitly maintain orthogonality", "the solve method of each solver")], ["stored iterates and returned iterates after k iterations, against explicit projections on an orthonormal Krylov basis"])

p("C17", "Solvers respect their budgets and count their products",
  "A solver never applies the operator more often than its product or iteration limit allows - a method whose iteration needs two products may complete the iteration it has begun, SYMMLQ may add the product of its final residual, and least-squares methods need one more for setting up - and always returns, whatever the operator, even when it cannot converge. The number of products it reports is the number actually performed (least-squares methods report two per iteration; products spent on optional symmetry checks are not counted), without a guess no product is spent on it, and a transpose-free method never applies the transpose.",
  ["inputs", "configurations"], "all solvers, operators (including singular, asymmetric or indefinite ones for which the method fails), budgets 0, 1, 2, ... and keyword combinations",
  "No test passes a budget that binds nor counts products.",
  ALL, [("loop guards and counters", "the solve method of each solver")], ["the log of products observed by a recording operator against nMatvec, itn and the limit"],
  [("nMatvec / itn", "reported work", GE)])

p("C18", "Solving is free of side effects and reproducible",
  "Solving never modifies the right-hand side, the initial guess, the data of the operator or of the preconditioner, or the solutions of earlier solves, does not touch the global random state or the floating-point error settings, and writes nothing to standard output unless asked to show progress (MINRES shows it unless told show=False). Two runs with the same inputs give bitwise identical results, and read-only or non-contiguous inputs give the same results as contiguous ones up to rounding.",
  ["inputs", "configurations", "histories"], "all solvers, keyword combinations, input layouts (read-only, strided, reversed), operators that retain what they were given",
  "Tests never look at inputs after a solve, at the random state or at the output.",
  ALL + [U], [("working copies made before in-place updates", "the solve method of each solver"), ("check_symmetric", U)], ["bytes of inputs before and after, random state, captured standard output, outcomes of repeated runs"])

p("C19", "A solver object can be reused: earlier solves never influence later ones",
  "After any history of solves on one solver object - with different right-hand sides, guesses, budgets and options, converged or not, failed checks included - a further solve gives the same solution, convergence verdict, product count, reported norms and recorded histories as it would on a newly created solver object.",
  ["histories"], "all sequences of solves with arbitrary options on one solver object, for all ten solvers",
  "No test calls solve twice on the same object.",
  ALL, [("per-solve (re)initialization of recorded state", "the solve method of each solver")], ["all public result attributes after the last solve, against a fresh object's"],
  [("residHistory, resids, iterates, converged, bestSolution, ...", "result state kept on the solver object", GE)])

p("C20", "Recorded histories describe the run that took place",
  "Histories recorded on request (residual vectors, residual norms, normal-equations residuals, energy norms, iterates, direct-error estimates) have one entry per iteration, plus the initial one where the method records it; each recorded residual or norm is that of the iterate of the same index, up to rounding, and the last ones agree with the reported final values and solution (SYMMLQ records the LQ points preceding its final transfer, CRAIG's first recorded iterate is its first Krylov point and its normal-equations residuals, one per iteration, are those of the preceding iterates). CG's recorded vectors are the (preconditioned) residuals, recorded arrays are snapshots that later iterations do not alter, and nothing is recorded when not requested.",
  ["inputs", "histories"], "all solvers that record histories, all option combinations, every iteration",
  "No test requests a history.",
  [CG, MI, SY, LQ, LM, CR, CM], [("history lists appended in the iteration loop", "the solve method of each solver")], ["residHistory, resids, iterates, norms, normal_eqns_resids, dir_errors_window against dense recomputation"])

p("C21", "Trivial and boundary problems are solved, not crashed on",
  "Every solver handles a zero right-hand side (the answer is zero), an initial guess that is already exact (it is returned), one-dimensional problems, multiples of the identity, right-hand sides that are eigenvectors or singular vectors, and a budget of zero or one: it returns finite values, with the exact answer - reported as converged or optimal by the methods that have such a report (CRAIG and CRAIG-MR do not) - whenever the budget suffices, and never raises an exception.",
  ["inputs", "configurations"], "all ten solvers, all dimensions, scales and the listed boundary cases",
  "No test uses a trivial right-hand side, guess or budget.",
  ALL, [("early exits before and inside the iteration loop", "the solve method of each solver")], ["x, converged/optimal/istop, exceptions"])

p("C22", "Preconditioners and weights change the path, not the solution",
  "Solving with any symmetric positive definite preconditioner (any nonsingular one for CGS, BiCGSTAB and TFQMR) gives the same solution as without, preconditioning with the identity reproduces the unpreconditioned run, and preconditioning with the exact inverse ends within two iterations. A run of CG, MINRES or SYMMLQ preconditioned by the inverse of M = LL' follows the unpreconditioned run on the operator inv(L) A inv(L') with right-hand side inv(L) b, and likewise for the weights of LSQR and LSMR, and a preconditioner is applied whether given as a dense, diagonal, block or L-BFGS operator.",
  ["inputs", "configurations"], "all solvers accepting a preconditioner or weights, SPD preconditioners of any spectrum and kind",
  "No test uses a preconditioner.",
  ALL, [("preconditioned recurrences", "the solve method of each solver"), ("preconditioner operators", B + ", " + Q)], ["iterates and solutions of paired runs, log of preconditioner applications"])

p("C23", "Stopping tolerances mean what they say",
  "Iterative solution stops as soon as, and not before, the stated criterion holds: for CG, CGS, BiCGSTAB the residual norm at max(abstol, reltol times its initial value), for TFQMR its quasi-residual bound; for MINRES, LSQR and LSMR the residual, normal-equations or truncated direct-error tests with the given rtol, atol, btol, etol, window and condition limit. Hence loosening a tolerance never increases the work, tightening it never stops earlier, and the stopping code reported corresponds to a criterion that is actually met by the returned iterate.",
  ["inputs", "configurations"], "all solvers and tolerance settings from loose to near machine precision, on well-conditioned problems",
  "Tests run CG with default tolerances only.",
  ALL, [("stopping tests", "the solve method of each solver")], ["iteration counts, reported codes, recorded norms along the run, against recomputed criteria"])

p("C24", "Unsuitable operators and preconditioners are detected, not silently used",
  "With curvature checking on, CG never accepts an iterate computed along a direction of nonpositive curvature: it stops, is not converged, reports the operator as not definite and exposes a direction d with <d,Ad> <= 0, and on positive definite operators it never does so. With symmetry checking requested, CG, MINRES and SYMMLQ refuse clearly asymmetric operators (and MINRES and SYMMLQ asymmetric or indefinite preconditioners that show negative curvature on the right-hand side) without reporting convergence, and never refuse symmetric ones.",
  ["inputs", "configurations"], "all symmetric indefinite, semidefinite, negative definite and definite operators; clearly asymmetric operators and preconditioners",
  "No test runs a solver on an unsuitable operator.",
  [CG, MI, SY, U], [("curvature test and infiniteDescent", CG), ("check_symmetric and stopping codes 6-9", MI + ", " + SY)], ["definite, converged, infiniteDescent, istop, x"])

p("C25", "Operator symmetry and definiteness checks give sound verdicts",
  "The cheap symmetry check accepts every symmetric operator of any scale and rejects non-square operators and operators with an asymmetry that is not tiny; the definiteness check accepts every positive definite operator (and positive semidefinite ones when asked to), and rejects non-square operators, operators whose quadratic form is zero, negative or not real on a substantial set of directions (given a number of repeats proportionate to their share), and the zero operator unless semidefiniteness was asked. Neither reseeds the global random generator.",
  ["inputs"], "all symmetric/asymmetric, definite/semidefinite/indefinite operators, sizes 1..60 and scales 1e-3..1e3",
  "Tests apply the checks to four L-BFGS matrices that satisfy them; a check that always says yes would pass.",
  [U], [("randomized probes", U + " check_symmetric, check_positive_definite")], ["the returned booleans, the global random state"])

p("C26", "The quadratic solver returns all real roots, accurately",
  "For all real coefficients of ordinary magnitude the quadratic root finder returns the empty list exactly when there is no real root, a single root for a linear equation, zero for the identically vanishing one, and two roots otherwise (a double root twice); each returned number is a root up to a small backward error, and the two together account for the sum and product of the roots. Accuracy does not collapse for badly scaled coefficients or when one root is much smaller than the other.",
  ["inputs"], "all real coefficient triples with magnitudes between 1e-40 and 1e40, including zeros, integers, exact double roots and widely separated roots",
  "No test calls it.",
  [U], [("stable quadratic formula, ill-conditioned branch and Newton refinement", U + " roots_quadratic")], ["returned list against exact rational arithmetic"])

p("C27", "Gallery products equal the Poisson matrices",
  "The one- and two-dimensional Poisson products equal multiplication by the standard 3-point and 5-point Poisson matrices (2 or 4 on the diagonal, -1 for each neighbour in the grid, Dirichlet boundary) for every grid size and every vector, do not modify their argument, and preserve its dtype.",
  ["inputs"], "all grid sizes (square grids in 2D, from 1), all vectors and dtypes",
  "Tests only use them inside CG on the all-ones solution, where a symmetric perturbation passes unnoticed.",
  [G], [("slice updates for the main diagonal and the first, middle and last blocks", G)], ["returned vector against the dense matrix"])

p("C28", "Results do not depend on how inputs are represented",
  "For all ten solvers, a right-hand side given with integer entries, in single precision with exactly representable values (the operator being in double precision), as a strided or reversed view, or an operator given as a dense, coordinate, block, composite or matrix-free operator of the same matrix, yields the same solution up to rounding. Scaling the right-hand side (and guess) by any factor between 1e-90 and 1e90 scales the solution, scaling the operator (with shift or damping) scales it inversely, both without changing the verdict, and a permutation of the unknowns permutes the solution.",
  ["inputs", "configurations"], "all solvers, right-hand side dtypes and layouts, operator representations, scalings and permutations",
  "Tests use float64 contiguous vectors and matrix-free Poisson operators only.",
  ALL + [L, B], [("dtype promotion and copies at the start of each solve", "the solve method of each solver")], ["solutions of paired runs"])

p("C29", "Reported norm and condition estimates never exceed the true values",
  "The operator norm estimates of LSQR, LSMR, MINRES and SYMMLQ never decrease from one iteration to the next, never exceed the Frobenius norm of the operator they work on (weighted or preconditioned, shift removed; for LSQR with the damping of each iteration added in quadrature), and equal it once a run has gone through as many iterations as the problem has unknowns (more rows than unknowns for LSQR and LSMR). LSQR's condition estimate does not exceed the Frobenius condition number of the damped operator (without weights), LSMR's and, on definite operators, MINRES's do not exceed the spectral one; none is below one where it is an estimate of a spectral condition number. Both are up to rounding, in proportion to the orthogonality the run has lost.",
  ["inputs", "configurations"], "all operators of any shape, scale and spectrum, with shifts, damping, weights and preconditioners, at every iteration limit",
  "No test looks at an estimate; any of them could be a constant.",
  [LQ, LM, MI, SY], [("sums of squared bidiagonalization and tridiagonalization coefficients", LQ + ", " + LM + ", " + MI + ", " + SY)], ["Anorm/anorm, Acond after every iteration limit, the vectors the operator was applied to"])

p("C30", "A fault inside a product comes out unchanged and leaves nothing behind",
  "If a product with an operator, its transpose, a preconditioner or a weight raises anything at any point of a solve (checks included), that very exception reaches the caller, no further product is attempted, the right-hand side, the guess, the output streams and the floating-point error handling are as before, and the same solver object, operators and preconditioners then solve exactly as if the failed solve had not taken place; a product of the wrong length raises too. Likewise a composite operator (sum, product, power, multiple, block, reduced, conjugate, nested) one of whose parts raises passes the exception on and afterwards gives bitwise the same products, transposed products and adjoint products as before.",
  ["fault_sequences", "crash_points", "programs"], "all solvers and composite operators, every product of a run as the failing one, any exception, several faults in a row",
  "No test makes a product fail, let alone uses the object again.",
  ALL + [L, B], [("state kept on the solver and operator objects across calls", "the solve method of each solver; closures in " + L + ", " + B)], ["the exception caught by the caller, input bytes, the product log, everything the next solve reports"])

p("C31", "Solves and products nested in or running beside one another do not interfere",
  "Different solver objects can be used inside each other's products (an operator or preconditioner product that itself runs a solve, through the same or other operator objects, to any depth) and at the same time in several threads, sharing operators and preconditioners: each solve reports bitwise what it reports alone, and makes as many products. Products of one operator (ready-made, quasi-Newton, composite) entered again from within themselves or made by several threads at once give the same results as alone, whatever the interleaving.",
  ["schedules", "programs"], "all pairs of methods nested up to depth three, 2-4 threads with handovers at every product or line of the library, all operator kinds",
  "Tests run one solve at a time.",
  ALL + [L, B, Q], [("work vectors and histories local to a solve, no scratch space in operators or modules", "the solve method of each solver; closures in " + L + ", " + B + ", " + Q)], ["everything reported by each solve, values of products, product counters"])

p("C32", "Data of the wrong size is refused, never cut, padded or broadcast",
  "If the right-hand side (not zero), the guess, the preconditioner or a weight given to any of the ten solvers has a size that does not match the operator, the solve raises an exception instead of returning an answer to some other problem (cut, padded or with a single entry broadcast). The caller's arrays are then unchanged, and the same solver object, whether used before or not, afterwards solves the correctly sized problem exactly as a new object does.",
  ["inputs", "histories"], "all solvers, all pairs of right and wrong sizes, dtypes, options, square and rectangular operators, fresh and used solver objects",
  "No test passes anything of a wrong size to a solver.",
  ALL, [("size of the problem taken from the right-hand side or from the operator", "the solve method of each solver")], ["whether an exception reaches the caller, input bytes, everything the next solve reports"])

p("C33", "Working memory is linear in the problem size and bounded over time",
  "For all ten solvers on matrix-free operators, unless iterates or residual vectors are asked for, the memory held does not grow with the number of iterations by more than scalars; an object reused for many solves holds no more than one solve does; and products with any operator of the library (limited-memory quasi-Newton operators and their updates, composite, block, reduced, coordinate, diagonal), its transpose and its adjoint leave nothing behind, however many are made, in arrays or in small objects, failing solves and operators built and dropped included. None of these ever needs storage of the order of a dense matrix.",
  ["histories", "configurations"], "all solvers and operator kinds, all numbers of iterations, solves, updates and products, all options not asking for recordings",
  "Tests run small problems once.",
  ALL + [L, B, Q], [("work vectors, windows, histories and limited-memory pairs", "the solve method of each solver; " + Q + "; closures in " + L + ", " + B)], ["memory allocated in the process after a collection, allocation failures under an address-space limit"])

p("C34", "Optimal methods never get worse, however long or ill-conditioned the run",
  "Along every run, of any length and conditioning, also far beyond the size of the problem and after rounding has destroyed the orthogonality of the vectors computed, what a method minimizes never grows: the energy norm of the error in CG, the residual in MINRES (preconditioned norm) and LSQR (weighted, with the damping term), the distance to the solution in SYMMLQ, the residual of the normal equations and the residual in LSMR, the energy norm of the dual error in CRAIG and the dual residual in CRAIG-MR; nor do the histories reported of these. The norm of the iterates never shrinks in CG from a zero guess, MINRES on definite operators, LSQR and LSMR. All this up to rounding in proportion to the norms involved.",
  ["inputs", "histories"], "all problems of size 1..500 with condition numbers to 1e8, weighted, preconditioned, shifted, damped, singular; all iterations",
  "Tests look at the final iterate of short runs.",
  [CG, MI, SY, LQ, LM, CR, CM], [("the recurrences for iterates and residuals", "the main loop of each solver")], ["iterates with store_iterates, residual histories"])

p("C35", "Convergence is at least as fast as the classical bounds",
  "Every iterate of CG, MINRES, SYMMLQ, LSQR, LSMR, CRAIG and CRAIG-MR satisfies the classical bounds given by Chebyshev polynomials on the spectrum of the (preconditioned, weighted, damped, regularized) problem: the error measure of the method after k steps is at most 2((sqrt(kappa)-1)/(sqrt(kappa)+1))^k times the first for definite problems (kappa that of the normal equations for least squares), with (kappa-1)/(kappa+1) and half as many steps for indefinite ones, down to rounding level. Hence with a budget the bounds show to suffice for the requested tolerance, CG, LSQR and LSMR report success.",
  ["inputs", "configurations"], "all problems of size 1..300 with known spectrum, condition numbers to 3000, preconditioners, weights, shifts, damping, guesses, tolerances",
  "Tests solve problems on which a much slower method would also pass within the default budget.",
  [CG, MI, SY, LQ, LM, CR, CM], [("search directions and plane rotations kept from step to step", "the main loop of each solver")], ["iterates with store_iterates, verdicts under a budget"])

p("C36", "What a solve logs and shows describes the run that takes place",
  "Every line a solver logs (CG, CGS, BiCGSTAB, TFQMR, SYMMLQ) or shows (MINRES, LSQR, LSMR, CRAIG, CRAIG-MR with show=True) is true of the run: the header gives the data (sizes, preconditioner present or not, shift, damping, tolerances, iteration limit), each row the quantities a solve limited to that many steps reports, to the digits printed, in order and without gaps beyond the documented thinning of long runs, the summary the values of the attributes, the closing message the meaning of the stopping code; an operator refused or found indefinite is reported as an error in the log, and no other solve logs an error. Without a logger and with show=False nothing is written, and logging or showing changes neither the results nor the products made.",
  ["inputs", "configurations"], "all solvers, square and rectangular operators, preconditioners, weights, shifts, damping, guesses, tolerances and iteration limits",
  "No test reads what is logged or shown.",
  ALL, [("logging and printing of headers, rows and summaries", "the solve method of each solver")], ["records received by the logger, standard output, what solves limited to each number of steps report"])

p("C37", "Equivalent statements of a problem are solved alike",
  "A problem stated in two ways with the means of the library is solved alike, iterate by iterate and over full runs, up to rounding: a shift given as argument or by subtracting a multiple of the identity from the operator; a damping parameter or a multiple of the identity stacked below the operator; weights, or products with diagonal operators; the identity as weight or preconditioner, or none; least squares or the normal equations; CRAIG or CRAIG-MR and the reduced equation or the augmented system; a block-diagonal problem of copies and the single one; a reduced operator and the submatrix; a guess and the shifted right-hand side; right preconditioning and the product with the preconditioner, symmetric preconditioning and the split form; an operator and any expression or block that equals it; quasi-Newton operators as system or as preconditioner and the dense matrix they stand for.",
  ["inputs", "configurations"], "all solvers, operator kinds and options of problems that have several equivalent statements",
  "Tests state each problem once.",
  ALL + [L, B, Q], [("operator arithmetic, blocks and reductions in solves; arguments shift, damp, M, N, precon, guess", "the solve method of each solver; " + L + ", " + B + ", " + Q)], ["iterates after a fixed number of steps, final solutions, reported norms and numbers of steps"])

p("C38", "Ordinary work performs no invalid floating-point operation",
  "No solve, operator product, quasi-Newton update, root finding or operator check on finite data in the documented domain divides by zero, overflows, or performs an operation without a defined result (0/0, square root of a negative number, infinity minus infinity), and none reports a quantity that is not a number: not for zero, tiny, huge, eigenvector or orthogonal right-hand sides, not for singular operators where they are allowed, multiples of the identity, one unknown or an exact guess, not with preconditioners, weights, shifts, damping or recordings, and not when a solver is stopped at any iteration. Programs that trap floating-point errors therefore run unharmed and get the same results bit for bit.",
  ["inputs", "configurations"], "all solvers, operators and tools; all finite data away from the limits of the number range",
  "Tests run with floating-point errors masked.",
  ALL + [L, B, Q, U, G], [("divisions and square roots, in particular at breakdown and convergence", "the solve method of each solver; " + Q + "; " + U)], ["floating-point traps of numpy, warnings, reported quantities, results with and without traps"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
