#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the list stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Triangular projection and triangularity predicate",
 "Projecting a square matrix to its upper (lower) triangle sets every entry strictly below (above) the diagonal to zero and leaves every other entry, diagonal included, exactly as it was, in every memory layout. The triangularity predicate is true exactly when the matrix is square and every entry on the excluded side is zero. Non-square input is rejected with the not-square error and left untouched.",
 ["inputs", "configurations"], "every value of every entry, both triangles, all shapes (square or not) and all memory layouts",
 "Unit tests check a few constant 3x3 matrices in row-major layout; one wrong index or bound is invisible when the entry happens to be zero.",
 ["src/triangular.rs"], [("IntoTriangular::triangular_inplace / into_triangular", "src/triangular.rs"), ("Triangular::is_triangular", "src/triangular.rs")], observe="returned/mutated matrix and boolean")
prop("C02", "Triangular solves return the solution and use only the chosen triangle",
 "For a square matrix with non-zero diagonal, the upper (lower) triangular solve returns X such that T*X = B holds exactly over the reals, where T is only the selected triangle: entries of the other triangle never influence the result. The borrowed, consuming and in-place forms return the same X, and wrong shapes give the corresponding error with the right expected/actual sizes instead of an answer.",
 ["inputs", "configurations"], "every matrix with non-zero diagonal, every right-hand side, any number of right-hand-side columns including none, both triangles, all layouts",
 "Tests and proptests check sampled well-conditioned matrices to a tolerance; an index error that only matters for one entry/shape or a read of the wrong triangle on clean input is not visible.",
 ["src/triangular.rs"], [("SolveTriangular / SolveTriangularInplace", "src/triangular.rs")], observe="returned X or error")
prop("C03", "Cholesky accepts exactly the positive definite matrices and factors them",
 "For a square matrix read as symmetric through its lower triangle, Cholesky returns a factor exactly when that matrix is positive definite, and reports the not-positive-definite error otherwise, including when a pivot is zero or not a number. The factor is lower triangular with strictly positive diagonal and L*L^T reproduces the matrix; the upper triangle of the input is never read, and the forms that keep the upper triangle return it unchanged.",
 ["inputs"], "every lower triangle (any real values), every content of the upper triangle, NaN/infinite entries, all shapes",
 "Acceptance is a global condition (all leading minors positive); tests use a few fixed matrices and products X*X^T that are always definite, so boundary pivots, non-finite pivots and dependence on the upper triangle are not covered.",
 ["src/cholesky.rs", "src/triangular.rs"], [("CholeskyInplace / Cholesky", "src/cholesky.rs")], observe="returned factor or error")
prop("C04", "Positive definite solve and inverse",
 "For a positive definite matrix A given by its lower triangle, the Cholesky-based solve returns X with A*X = B and the Cholesky-based inverse returns A^-1 (so A*A^-1 = I), for any number of right-hand sides. If A is not positive definite, not square, or B has the wrong number of rows, an error is returned; the non-consuming inverse leaves its argument unchanged.",
 ["inputs"], "every positive definite matrix and every right-hand side, and every indefinite/ill-shaped input",
 "Tests sample a handful of matrices with one tolerance.",
 ["src/cholesky.rs", "src/triangular.rs"], [("SolveC / SolveCInplace / InverseC / InverseCInplace", "src/cholesky.rs")], observe="returned X, inverse or error")
prop("C05", "QR decomposition reproduces the matrix with orthonormal Q and upper-triangular R",
 "For every matrix with at least as many rows as columns, QR yields Q with orthonormal columns and the shape of the input, and a square upper-triangular R with non-negative diagonal, such that Q*R equals the input, also for zero columns and rank-deficient input. Matrices with more columns than rows are rejected with the not-thin error.",
 ["inputs", "configurations"], "every real matrix incl. zero, rank-deficient and sign-mixed ones; all layouts; tall, square and empty shapes",
 "Proptests sample generic full-rank matrices; exact zeros, repeated columns and particular sign patterns (where reflections are skipped or signs flip) have measure zero in them.",
 ["src/qr.rs", "src/householder.rs", "src/reflection.rs"], [("QR / QRInto / QRDecomp::generate_q / into_r / into_decomp", "src/qr.rs"), ("clear_column, assemble_q", "src/householder.rs")], observe="Q and R")
prop("C06", "QR-based solve, least squares, minimum-norm solution and inverse",
 "With a full-column-rank decomposition, solving returns the least-squares solution (residual orthogonal to the column space; exact when square), the transposed solve returns the minimum-norm solution of the wide system, the one-call least squares picks the right one by shape, and the inverse is the two-sided inverse. A decomposition whose R has a zero on its diagonal is reported non-invertible by every one of these, wrong right-hand-side row counts and inverting a non-square matrix give an error, and the invertibility predicate agrees with all of them.",
 ["inputs", "configurations"], "every matrix and right-hand side, square/tall/wide, singular or not",
 "Optimality of least squares quantifies over all competitors and singularity is a measure-zero input; tests compare a few fixed systems.",
 ["src/qr.rs", "src/householder.rs", "src/triangular.rs", "src/reflection.rs"], [("QRDecomp::solve*, solve_tr*, inverse, is_invertible; LeastSquaresQr*", "src/qr.rs")], observe="solution, inverse, predicate, or error")
prop("C07", "Symmetric tridiagonalisation is an orthogonal similarity",
 "For every non-empty symmetric matrix, the decomposition yields an orthogonal Q and a symmetric tridiagonal T with Q*T*Q^T equal to the input; the diagonals returned separately are those of T and the off-diagonal is non-negative. Non-square and empty inputs give the not-square and empty-matrix errors.",
 ["inputs"], "every symmetric matrix incl. already tridiagonal, block diagonal and zero ones, all sizes and layouts",
 "Tests use fixed matrices and random generic ones; skipped reflections (zero sub-columns) and sign combinations are measure-zero.",
 ["src/tridiagonal.rs", "src/householder.rs"], [("SymmetricTridiagonal, TridiagonalDecomp", "src/tridiagonal.rs")], observe="Q, T, diagonals")
prop("C08", "Bidiagonalisation reproduces the matrix",
 "For every non-empty matrix, the compact bidiagonal decomposition yields U with orthonormal columns, Vt with orthonormal rows and a square bidiagonal B such that U*B*Vt equals the input; B is upper bidiagonal exactly when rows >= columns and the flag says so, otherwise lower. The diagonals returned separately are those of B and are non-negative; empty input is rejected.",
 ["inputs", "configurations"], "every real matrix, wide/tall/square incl. single rows and columns, zero and rank-deficient ones, all layouts",
 "Shapes and zero patterns select different code paths (upper/lower, skipped reflections, last row/column); tests visit a few.",
 ["src/bidiagonal.rs", "src/householder.rs"], [("Bidiagonal, BidiagonalDecomp", "src/bidiagonal.rs")], observe="U, B, Vt, diagonals, flag")
prop("C09", "Symmetric eigendecomposition",
 "For every symmetric matrix, the eigendecomposition returns orthonormal eigenvectors as columns and eigenvalues such that A*V = V*diag(w), including repeated, zero, opposite and block-decoupled spectra. The values-only variant returns the same eigenvalues in the same order, and empty and 1x1 matrices and non-square errors are handled.",
 ["inputs"], "every symmetric matrix, in particular those whose tridiagonal form decouples or has equal/zero/negative eigenvalues",
 "Deflation patterns and exact degeneracies are measure-zero events that sampled tests do not hit.",
 ["src/eigh.rs", "src/tridiagonal.rs", "src/givens.rs", "src/householder.rs"], [("Eigh / EighInto / EigValsh / EigValshInto", "src/eigh.rs")], observe="eigenvalues and eigenvectors")
prop("C10", "Singular value decomposition",
 "For every non-empty matrix, the compact SVD returns non-negative singular values and, on request, U with orthonormal columns and Vt with orthonormal rows such that U*diag(s)*Vt equals the input, including zero, rank-deficient, wide, tall and decoupled matrices. The request flags only select which of U and Vt are returned: the singular values, and whichever factor is returned, are the same for all flag combinations; empty input is rejected.",
 ["inputs", "configurations"], "every matrix, every combination of the two request flags, all shapes",
 "Zero diagonal entries in the bidiagonal form, decoupled blocks and rank deficiency are measure-zero; tests sample generic matrices.",
 ["src/svd.rs", "src/bidiagonal.rs", "src/givens.rs"], [("SVD / SVDInto", "src/svd.rs")], observe="U, singular values, Vt")
prop("C11", "Sorting an eigen- or singular-value decomposition is a consistent permutation",
 "Sorting returns the values in the requested monotone order and applies one and the same permutation to the values, the eigenvector columns (or U columns) and the Vt rows, so every value stays with its vector; no value or vector is lost, duplicated or altered, also with ties, signed zeros and infinities. Absent factors stay absent, sorting twice equals sorting once, and any NaN value panics rather than yielding an unordered result.",
 ["inputs"], "every sequence of values up to the bound incl. ties, infinities and NaN, both orders, every presence pattern of the factors",
 "Pairing of value and vector under all orderings is a statement over all permutations and tie patterns.",
 ["src/eigh.rs", "src/svd.rs"], [("EigSort", "src/eigh.rs"), ("SvdSort", "src/svd.rs")], observe="sorted decomposition")
prop("C12", "Vector norms",
 "The L1, L2 and maximum norms equal the sum of absolute values, the square root of the sum of squares and the largest absolute value over all elements of an array of any dimension and layout; they are non-negative, zero for empty arrays, invariant under sign changes and permutations, and homogeneous under scaling.",
 ["inputs", "configurations"], "every array up to the bound of any dimensionality and memory layout",
 "Norms are only exercised indirectly by the existing tests.",
 ["src/norm.rs"], [("Norm", "src/norm.rs")], observe="norm value")
prop("C13", "Householder reflection reflects columns and rows about the given plane",
 "For a unit axis n and bias b, reflecting columns maps each column x to x - 2(n.x - b)n and reflecting rows does the same to each row; the transformation is an involution, preserves the component orthogonal to the axis, fixes points of the plane n.x = b and, with zero bias, preserves inner products. The stored axis is returned unchanged.",
 ["inputs", "configurations"], "every unit axis, every bias, every matrix, all layouts",
 "The public reflection has a single example test, with zero bias.",
 ["src/reflection.rs"], [("Reflection", "src/reflection.rs")], observe="reflected matrix")
prop("C14", "LOBPCG results are self-consistent Ritz pairs with their true residuals",
 "Whenever the block eigensolver returns a result (success or error carrying a best result), the eigenvectors have orthonormal columns, each eigenvalue is the Rayleigh quotient of its vector, the values are in the requested order, and the reported residual norms are the norms of A*x - lambda*x of exactly the returned vectors (with constraints: of its part in their orthogonal complement). The result is the best iterate seen (never worse than the initial Rayleigh-Ritz one), the iteration cap is respected, and with enough iterations on tiny problems the extreme eigenpairs are found; a block wider than the problem or a rank-deficient start is reported as an error.",
 ["inputs", "configurations", "histories"], "every symmetric operator, start block, preconditioner, tolerance and iteration cap within the bound, both orders",
 "Tests look at converged results of a few fixed problems; intermediate, capped and failing runs are not examined.",
 ["src/lobpcg/algorithm.rs", "src/eigh.rs", "src/cholesky.rs"], [("lobpcg", "src/lobpcg/algorithm.rs")], observe="eigvals, eigvecs, rnorm, error")
prop("C15", "LOBPCG constraints keep the result orthogonal to any full-rank constraint block",
 "When constraint columns Y of full rank are given (orthonormal or not, scaled, correlated), every returned eigenvector is orthogonal to every column of Y and the pair is a Ritz pair of the operator restricted to the orthogonal complement, the residual norm being the one of that restricted problem. Spanning the same subspace by a different basis does not change the result.",
 ["inputs", "configurations"], "every full-rank constraint block, operator and start block within the bound",
 "Existing tests only pass orthonormal constraints, for which a wrong projector is indistinguishable from a right one.",
 ["src/lobpcg/algorithm.rs"], [("apply_constraints, lobpcg", "src/lobpcg/algorithm.rs")], observe="Y^T * eigvecs")
prop("C16", "Iterating a truncated eigenproblem enumerates the spectrum once, in order",
 "The iterator yields blocks of the requested step size (the last one possibly smaller) whose vectors are orthonormal, orthogonal to everything yielded before and to any preset constraints, with eigenvalues in the requested order across steps, and stops after the dimension left by the constraints is exhausted; a block whose solver run failed with residuals above one tenth ends the iteration without being yielded. Decomposing zero pairs returns an empty result; order, precision, iteration cap, constraints and preconditioner given to the builder are the ones used.",
 ["inputs", "configurations", "histories"], "every small symmetric problem, step size, order, constraint block; histories of repeated next calls",
 "Tests iterate a few diagonal problems with step size one and no preset constraints.",
 ["src/lobpcg/eig.rs", "src/lobpcg/algorithm.rs"], [("TruncatedEig, TruncatedEigIterator", "src/lobpcg/eig.rs")], observe="yielded pairs")
prop("C17", "Truncated SVD yields singular triplets of the problem",
 "For a converged truncated SVD the values are the largest (or smallest) singular values in descending (ascending) order, the value-only and the value-and-vector forms agree, U has one column and Vt one row per value, with U columns and Vt rows orthonormal, A*v = s*u and A^T*u = s*v, for tall, wide and square problems. Largest mode drops null values, asking for zero values gives empty results without failing, and the precision (squared, as the problem is squared) and iteration cap given to the builder are the ones the underlying eigensolver uses.",
 ["inputs", "configurations"], "every matrix in the bounded families, both orders, every requested count",
 "Tests check a few diagonal/random problems, mostly the values.",
 ["src/lobpcg/svd.rs", "src/lobpcg/algorithm.rs"], [("TruncatedSvd, TruncatedSvdResult", "src/lobpcg/svd.rs")], observe="values, U, Vt")
prop("C18", "Every shape is answered with a result or the right error, never a panic",
 "For every pair of dimensions, including zero rows or columns, and every memory layout, each public decomposition and solver either succeeds with outputs of the documented shapes or returns the documented error variant carrying the actual sizes; it never panics or accesses memory out of bounds. Entry values do not influence which shape error is reported.",
 ["inputs", "configurations"], "all shapes up to the bound, all layouts, every entry value",
 "Unchecked indexing in release builds makes a bound error silent; tests cover few shapes and mostly valid ones.",
 ["src/lib.rs", "src/index.rs", "src/triangular.rs", "src/cholesky.rs", "src/qr.rs", "src/tridiagonal.rs", "src/bidiagonal.rs", "src/eigh.rs", "src/svd.rs"], [("check_square, LinalgError", "src/lib.rs"), ("UncheckedIndex", "src/index.rs")], observe="Ok shapes / error variant")
prop("C19", "Results do not depend on memory layout or ownership of the input",
 "Every decomposition, solve, norm and reflection gives the same result for row-major, column-major, reversed, strided and transposed-view inputs holding the same values, and the by-reference, consuming, view and in-place forms of an operation agree with one another. By-reference forms leave their argument unchanged.",
 ["inputs", "configurations"], "every entry value, every layout of every operand, every form of each operation",
 "Tests use freshly allocated row-major arrays almost exclusively.",
 ["src/triangular.rs", "src/cholesky.rs", "src/qr.rs", "src/tridiagonal.rs", "src/bidiagonal.rs", "src/eigh.rs", "src/svd.rs", "src/reflection.rs", "src/norm.rs"], [("generic ArrayBase implementations", "src/*.rs")], observe="results across layouts and forms")
prop("C20", "Non-finite input: always terminates, never passed off as a valid factorisation",
 "On matrices containing NaN or infinities every decomposition and solver terminates, and Cholesky-based operations never report success with a factor whose diagonal is not strictly positive. The sign of zero in the input does not change whether a result is correct.",
 ["inputs"], "every placement of NaN, infinities and signed zeros in small matrices, IEEE semantics",
 "Tests contain no non-finite input; comparisons with NaN silently take the other branch.",
 ["src/svd.rs", "src/eigh.rs", "src/cholesky.rs", "src/qr.rs"], [("iteration loops and convergence tests", "src/svd.rs, src/eigh.rs"), ("pivot test", "src/cholesky.rs")], observe="termination, Ok/Err")
prop("C21", "Decompositions commute with scaling and are exact on already-reduced input",
 "Multiplying the input by a positive constant multiplies R, T, B, eigenvalues, singular values by that constant (the Cholesky factor by its square root) and leaves orthogonal factors unchanged; eigenvalues and singular values are unchanged by transposition where applicable, and the sum of eigenvalues equals the trace and the sum of squared singular values equals the squared Frobenius norm.",
 ["inputs"], "every matrix in the bounded families, every positive scale factor",
 "A relation between two runs over all inputs and scales; tests only look at single runs.",
 ["src/qr.rs", "src/cholesky.rs", "src/tridiagonal.rs", "src/bidiagonal.rs", "src/eigh.rs", "src/svd.rs"], [("pre-scaling by the largest entry", "src/eigh.rs, src/svd.rs"), ("reflections", "src/householder.rs")], observe="pairs of results")
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
