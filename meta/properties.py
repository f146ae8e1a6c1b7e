"""Source of properties.jsonl: run `python3 meta/gen.py` after editing."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}), **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               hook_needed=None)))


prop("C01", "The returned polynomial is the zeta function of the hypersurface",
     "For every smooth hypersurface with a supported dimension and degree over F_p (p an odd prime not dividing the degree), the returned integer polynomial is the characteristic polynomial of Frobenius on primitive middle cohomology: it is monic of the right degree, satisfies the functional equation, and its roots' power sums give the number of points over every extension field. For p = 2, where the precision tables do not reach, a call may refuse but never returns a wrong polynomial.",
     ["inputs", "configurations"], "all smooth forms of each supported (number of variables, degree), all odd primes p not dividing the degree, with and without the search for a better model",
     "The tests compare one surface at p = 3 with known values; the other calls only check that something non-zero comes back. A wrong sign, lost digit or mishandled monomial for another form, prime or degree passes.",
     ["wrapper/zeta_function.cc", "hypersurface/frob_J_ZZ.cc", "hypersurface_nd/hypersurface_nd.cc", "tools/default_args.cc", "matrix/charpoly_frob.cc", "dr_nd/dr_nd.cc"],
     [("precision choice, model search, Frobenius matrix and lifting", "wrapper/zeta_function.cc"), ("expansion of Frobenius and reduction loops", "hypersurface/frob_J_ZZ.cc, hypersurface_nd/hypersurface_nd.cc:frob_ND_flint"), ("working precision tables", "tools/default_args.cc")],
     ["zeta_function(zeta, Frob, f, p, ...)"])

prop("C02", "Both reduction methods compute the same Frobenius matrix",
     "For every hypersurface that is smooth together with its intersections with the coordinate planes, the general method and the method for nondegenerate hypersurfaces give the same p-adic approximation of the Frobenius matrix, on the same basis and for the same numbers of terms. This holds for every column and every lift of the equation to the p-adic integers.",
     ["inputs"], "all nondegenerate forms in each dimension and degree, all primes, all numbers of terms and working precisions, naive and non-naive lifts",
     "One test compares the two methods on a few random quartics and merely prints a mismatch.",
     ["hypersurface/frob_matrix_J.cc", "hypersurface/frob_J_ZZ.cc", "hypersurface_nd/hypersurface_nd.cc", "dr/compute_reduction_matrix_J.cc", "dr_nd/dr_nd.cc"],
     [("general method", "hypersurface/frob_J_ZZ.cc, dr/"), ("nondegenerate method", "hypersurface_nd/hypersurface_nd.cc, dr_nd/dr_nd.cc")],
     ["hypersurface::frob_matrix_J", "hypersurface_non_degenerate::frob_matrix_ND"])

prop("C03", "All arithmetic variants of a Frobenius column agree",
     "For each of the two methods, every way the library offers to compute a column of the Frobenius matrix (modular or integer arithmetic, matrix by matrix, vector by vector or polynomial reduction loops, machine-word or multiprecision moduli) returns the same vector. This includes primes not larger than the dimension and moduli on both sides of the machine-word limit.",
     ["inputs", "configurations"], "all forms, primes (small ones included), term counts, precisions and loop variants",
     "The tests only ever use the default variant; TODO.md records that a variant failed for p = 3 without any test noticing.",
     ["hypersurface/frob_J_ZZ.cc", "hypersurface/frob_J_ZZ_p.cc", "hypersurface_nd/hypersurface_nd.cc", "dr/reduce_vector_J_poly_ZZ.cc", "dr/reduce_vector_J_poly.cc", "dr_nd/dr_nd.cc"],
     [("loop variants 0/1/2", "hypersurface/frob_J_ZZ.cc, hypersurface/frob_J_ZZ_p.cc, hypersurface_nd/hypersurface_nd.cc"), ("machine-word and multiprecision evaluation", "dr_nd/dr_nd.cc:reduce_vector_ND_poly_flint")],
     ["frob_J_ZZ, frob_J_ZZ_p, frob_ND_ZZ, frob_ND_ZZ_p, frob_ND_flint"])

prop("C04", "Reduction of pole order does not depend on the path taken",
     "Reducing a differential form from one exponent to another gives the same cohomology class along every sequence of reduction directions, one step at a time or many steps at once, with modular or integer matrices. This holds for every starting exponent, every direction whose support allows the step and every starting form, for both methods.",
     ["inputs", "histories"], "all starting exponents up to a bound, all admissible sequences of directions, all basis vectors of the starting space",
     "The tests walk a few random paths on one random hypersurface per prime.",
     ["dr/compute_reduction_matrix_J.cc", "dr/reduce_vector_J.cc", "dr/reduce_vector_J_poly.cc", "dr/compute_inclusion_matrix_J.cc", "dr/compute_final_reduction_matrix_J.cc", "dr_nd/dr_nd.cc"],
     [("reduction matrices as polynomials in the exponent", "dr/compute_reduction_matrix_J.cc, dr_nd/dr_nd.cc:compute_reduction_matrix_ND"), ("inclusion and final reduction", "dr/compute_inclusion_matrix_J.cc, dr/compute_final_reduction_matrix_J.cc, dr_nd/dr_nd.cc:compute_coKernels_ND_to_basis")],
     ["get_reduction_matrix_*, reduce_vector_*, *_to_basis"])

prop("C05", "Cohomology coordinates respect the relations of the de Rham complex",
     "The coordinates assigned to monomial differential forms are those of their class: basis elements get unit vectors, exact forms get zero, and multiplying numerator and denominator by the equation changes nothing. This holds for every monomial of every pole order and for both methods.",
     ["inputs"], "all monomials and all exact forms up to a bounded pole order, for all forms of a family, all primes and precisions",
     "One test multiplies basis elements by the equation on a single random hypersurface, which cannot see an error shared by both sides and never touches exact forms or pole orders divisible by p.",
     ["dr/monomial_to_basis_J.cc", "dr/compute_final_reduction_matrix_J.cc", "dr/get_solve_J.cc", "dr_nd/dr_nd.cc"],
     [("Griffiths-Dwork reduction and inclusion", "dr/monomial_to_basis_J.cc, dr/compute_final_reduction_matrix_J.cc"), ("nondegenerate variant", "dr_nd/dr_nd.cc:monomial_to_basis_ND")],
     ["monomial_to_basis_J, monomial_to_basis_ND, get_final_reduction_matrix_J"])

prop("C06", "The linear solver returns a complement and an exact right inverse",
     "For every matrix T over F_p the solver returns, in increasing order, the indices of coordinate vectors that descend to a basis of the cokernel of T, and a matrix U with (T + J) U = identity, where J includes those coordinates. For matrices over Z/p^N whose cokernel is free the same equation holds modulo p^N, the index set is that of the reduction mod p, and both back ends obey this contract.",
     ["inputs"], "all matrices of all shapes, all primes, all precisions (machine-word and multiprecision moduli), both back ends",
     "There is no test of the solver at all; the other tests only use the default back end on full-rank Jacobian matrices.",
     ["solve_system/solve_system.cc", "solve_system.h"],
     [("pivot search and right inverse over F_p", "solve_system/solve_system.cc:solve_system_zz_p_*"), ("lifting to Z/p^N", "solve_system/solve_system.cc:solve_system_padic_*")],
     ["solve_system_zz_p, solve_system_padic and their back ends"])

prop("C07", "Results do not depend on what was computed before",
     "Every query on a reduction or hypersurface object returns what a freshly built object returns, whatever queries were made before and in whatever order, whether intermediate data is cached or discarded, and whether everything was precomputed up front. Repeating a query never changes its answer.",
     ["histories"], "all sequences of queries on one object up to a depth, in both memory modes",
     "The tests make one query per object, in one order.",
     ["dr/get_reduction_matrix_J.cc", "dr/compute_everything_J.cc", "dr/get_final_reduction_matrix_J.cc", "dr/reduce_vector_J_poly_ZZ.cc", "dr_nd/dr_nd.cc", "hypersurface/compute_fpow.cc"],
     [("lazily filled dictionaries", "dr/get_*.cc, dr/compute_*.cc, dr_nd/dr_nd.cc"), ("powers of Frobenius of f", "hypersurface/compute_fpow.cc")],
     ["every get_*, reduce_*, *_to_basis, frob_* call"],
     [("save_memory", "whether per-direction matrices are kept", "dr.h"), ("*_dict", "caches keyed by direction or pole order", "dr.h, dr_nd.h"), ("fpow", "powers of the Frobenius lift of f", "hypersurface.h")])

prop("C08", "A saved object loads back as the same object",
     "After a successful save, loading the file yields an object that gives exactly the same answer as the original to every query, for both methods, for every file name, and for every equation over the p-adic integers, whether or not its coefficients are the smallest representatives of their residues.",
     ["inputs", "histories"], "all equations (naive and non-naive lifts, vanishing coefficients), all file names, all query histories before the save, both memory modes",
     "No test saves or loads anything.",
     ["dr/save.cc", "dr/constructors.cc", "dr_nd/dr_nd.cc", "hypersurface/save.cc", "hypersurface/constructors.cc", "hypersurface_nd/hypersurface_nd.cc"],
     [("text serialisation", "dr/save.cc, dr_nd/dr_nd.cc:save"), ("loading constructors", "dr/constructors.cc, dr_nd/dr_nd.cc")],
     ["save(filename), constructors from a file name"])

prop("C09", "An interrupted or failing save is never mistaken for a good one",
     "If the process dies at any point during a save, then either the file is complete or the marker file next to it is still there. If any write of a save fails, the save does not report success; and loading an incomplete file is refused rather than yielding an object with missing data.",
     ["crash_points", "fault_sequences"], "all crash points between and inside the file operations of a save, all single I/O failures, all truncation points of a saved file",
     "No test interrupts or fails a save.",
     ["dr/save.cc", "dr/constructors.cc", "dr_nd/dr_nd.cc"],
     [("marker file written first and removed last", "dr/save.cc, dr_nd/dr_nd.cc:save"), ("stream state checks", "dr/save.cc, dr/constructors.cc, dr_nd/dr_nd.cc")],
     ["save(filename), constructors from a file name"])

prop("C10", "The number of threads and their schedule never change a result",
     "Frobenius matrices and zeta functions are the same for every number of threads and every interleaving of the parallel loop iterations, for both methods and for machine-word and multiprecision moduli. No two iterations access the same memory without synchronisation when one of them writes, and no schedule deadlocks or crashes.",
     ["schedules", "configurations"], "all interleavings of the parallel regions at iteration and library-call granularity up to a preemption bound, all thread counts",
     "The tests run one schedule of two threads, and never a parallel run with a large modulus.",
     ["hypersurface/frob_matrix_J.cc", "hypersurface_nd/hypersurface_nd.cc", "dr/compute_everything_J.cc", "dr_nd/dr_nd.cc", "wrapper/zeta_function.cc"],
     [("precomputation before the parallel loop", "hypersurface/frob_matrix_J.cc, hypersurface_nd/hypersurface_nd.cc:frob_matrix_ND"), ("parallel reduction of all terms of one pole order", "hypersurface_nd/hypersurface_nd.cc:frob_ND_flint"), ("per-thread modulus context", "hypersurface/frob_matrix_J.cc")],
     ["frob_matrix_J, frob_matrix_ND, zeta_function(..., threads)"])

prop("C11", "Lifting recovers every characteristic polynomial from its approximation",
     "Given any matrix that agrees, to the stated precision of each coefficient, with a matrix whose characteristic polynomial is a Weil polynomial of the stated weight, the lifting step returns exactly that polynomial with the right sign in the functional equation, provided the precisions suffice for Newton's identities. The result does not depend on which representatives modulo powers of p the input uses.",
     ["inputs"], "all Weil polynomials of each degree and weight for a prime, all admissible precision vectors, all representatives",
     "The lifting step has no test of its own; the one known-value test covers a single polynomial.",
     ["matrix/charpoly_frob.cc", "matrix/charpoly.cc"],
     [("sign detection, functional equation, Newton identities with bounded power sums", "matrix/charpoly_frob.cc")],
     ["charpoly_frob(M, prec, p, dimension)"])

prop("C12", "Requested and built-in precisions deliver what they promise",
     "A Frobenius matrix requested modulo p^a agrees modulo p^a with the matrix computed to any higher precision, whether or not the precision is raised to recover the zeta function; when it is raised the exact polynomial is returned, otherwise the polynomial is returned exactly or modulo p^a. The built-in precision choice always suffices to determine the zeta function.",
     ["inputs", "configurations"], "all requested precisions, both precision modes, all supported dimensions, degrees and primes, all hypersurfaces",
     "The precision options are never exercised by the tests, and one row of the built-in table is.",
     ["wrapper/zeta_function.cc", "tools/default_args.cc"],
     [("derivation of series length and working precision", "wrapper/zeta_function.cc"), ("built-in table", "tools/default_args.cc")],
     ["zeta_function(..., abs_precision, increase_precision_to_deduce_zeta)", "default_args"])

prop("C13", "Smoothness and nondegeneracy are decided exactly",
     "The smoothness test accepts a form exactly when its partial derivatives have no common zero over the algebraic closure, and the nondegeneracy test exactly when the same holds on every coordinate plane. A singular form is always refused, never answered, and a nondegenerate form never is.",
     ["inputs"], "all forms over F_p of every degree and number of variables",
     "The tests only ever see random (hence almost always smooth) forms.",
     ["dr/isSmooth.cc", "dr_nd/dr_nd.cc", "dr/init.cc", "wrapper/zeta_function.cc"],
     [("cokernel of the Jacobian map in the socle degree + 1", "dr/isSmooth.cc, dr/init.cc"), ("rank of the toric Jacobian map", "dr_nd/dr_nd.cc:isND, init_ND")],
     ["isSmooth, isND, constructors, zeta_function"])

prop("C14", "Changing variables, scaling or relifting leaves the zeta function alone",
     "Substituting an invertible linear change of variables is exact polynomial substitution and composes like matrix multiplication; the zeta function is unchanged under it, under scaling of the equation by a unit and under adding multiples of p to coefficients. A change of variables proposed to improve the model is always invertible and leads to a nondegenerate form, for every outcome of the random choices, and failure to find one is reported as the zero matrix.",
     ["inputs", "histories"], "all invertible matrices over F_p, all scalars, all lifts, all seeds of the random search",
     "The invariance tests build both objects from the same equation, so a wrong substitution passes.",
     ["tools.h", "matrix/random_SL_matric.cc", "dr_nd/dr_nd.cc", "wrapper/zeta_function.cc"],
     [("substitution", "tools.h:change_of_variables"), ("random search", "dr_nd/dr_nd.cc:find_change_of_variables, matrix/random_SL_matric.cc")],
     ["change_of_variables, find_change_of_variables, random_SL_matrix, zeta_function"])

prop("C15", "Conversions between number types lose nothing",
     "Converting an integer, vector or matrix between the library's number representations and back returns the original value, for every sign and size and every matrix shape including non-square ones. Converting to a modular type yields the representative in [0, modulus).",
     ["inputs"], "all integers around every limb boundary, both signs, all matrix shapes up to a bound, all moduli",
     "Conversions have no test; all matrices the other tests convert are square.",
     ["conv/conv.cc", "conv.h"],
     [("byte import and export with sign", "conv/conv.cc"), ("entrywise matrix conversions", "conv.h, conv/conv.cc")],
     ["conv(...)"])

prop("C16", "Combinatorial building blocks are exact",
     "Exponent lists contain every monomial of a degree exactly once in increasing lexicographic order; binomials, factorials with the powers of p removed and valuations of factorials are exact whenever the result fits the return type, and a result that does not fit is refused; exponent shifting lowers the leftmost positive entries one at a time and stays inside the original exponent; the integer substitution expansion and vector operations equal their definitions.",
     ["inputs"], "all arguments up to a bound, including the largest representable values",
     "These helpers are only tested through the random end-to-end runs, with a handful of argument values.",
     ["tools/tuple_list_generator.cc", "tools/binomial.cc", "tools/binomial_ZZ.cc", "tools/factorial_p_adic.cc", "tools/valuation_of_factorial.cc", "tools/change_of_variables_monomial.cc", "tools.h", "vec_int64/", "vec_int64.h"],
     [("generators and arithmetic helpers", "tools/, vec_int64/")],
     ["tuple_list_generator, binomial, binomial_ZZ, factorial, factorial_p_adic, valuation_of_factorial, change_of_variables_monomial, diff, tweak, tweak_step, vector operators"])

prop("C17", "Matrix helpers equal their definitions for every shape",
     "Products, transposed products, matrix-vector products, scalings, sums, inner products, traces, submatrix differences and characteristic polynomials equal the textbook definition for all operands of compatible shape, square or not, with entries of any size, and operands are never modified. The random unimodular matrix generator only ever returns matrices of determinant one.",
     ["inputs"], "all shapes up to a bound, all small entries and large boundary entries, all moduli, all seeds",
     "Only square products are exercised, and only through end-to-end runs.",
     ["matrix/", "matrix.h"],
     [("products over mpz, fmpz, nmod and NTL types", "matrix/mul.cc, matrix/mul_tranpose.cc, matrix/transpose_mul_tranpose.cc, matrix.h"), ("Newton identities", "matrix/charpoly.cc")],
     ["mul, mul_transpose, transpose_mul_transpose, nmod_mat_sub, trace, charpoly, random_SL_matrix"])

prop("C18", "The geometric Picard number counts eigenvalues that are roots of unity times p",
     "For every characteristic polynomial of Frobenius of a surface, the reported number is one plus the number of roots, counted with multiplicity, of the form p times a root of unity, however the cyclotomic and transcendental factors are mixed and repeated.",
     ["inputs"], "all products of cyclotomic factors scaled by p and of other Weil factors, all multiplicities, all primes",
     "Two examples print the number; no test checks it.",
     ["tools/geometric_picard.cc"],
     [("factorisation, scaling by p, comparison with cyclotomic polynomials", "tools/geometric_picard.cc")],
     ["geometric_picard"])

prop("C19", "Evaluating a product of matrix polynomials many steps at once is exact",
     "Multiplying a vector by M(k-1), then M(k-2), ..., then M(0), where M is a polynomial with matrix coefficients, gives the same result by finite differences, by modular evaluation and by multiprecision evaluation, for every coefficient support including vanishing ones, every number of steps and every modulus. The input vector may be the output vector.",
     ["inputs"], "all coefficient matrices with small support patterns, all step counts, all moduli on both sides of the machine-word limit",
     "The fast evaluations are only reached through random end-to-end runs whose coefficients have full support.",
     ["dr_nd/dr_nd.cc"],
     [("finite differences restricted to the support of the differences", "dr_nd/dr_nd.cc:finitediff_flint_nmod"), ("choice of evaluation by modulus size and step count", "dr_nd/dr_nd.cc:reduce_vector_ND_poly_flint")],
     ["reduce_vector_ND_poly_flint, reduce_vector_ND_poly, reduce_vector_ND_poly_ZZ, reduce_vector_J_poly, reduce_vector_J_poly_ZZ"])

prop("C20", "All ways of giving the input mean the same, and text round-trips",
     "The same hypersurface given as a map, as lists of monomials with machine or big integer coefficients, or as text, with monomials in any order, with explicit zero coefficients or with coefficients of either sign and any size, gives the same result; all constructors taking the same equation in different forms build equivalent objects. Printing a polynomial map and reading it back yields the same map.",
     ["inputs", "configurations"], "all orders of the monomials, all representatives of the coefficients, all input forms and constructors, verbose or not",
     "The wrapper tests use one form of input per surface and compare nothing between forms.",
     ["wrapper/zeta_function.cc", "tools.h", "dr/constructors.cc", "dr_nd/dr_nd.cc", "hypersurface/constructors.cc", "hypersurface_nd/hypersurface_nd.cc"],
     [("overloads", "wrapper/zeta_function.cc"), ("stream operators for maps", "tools.h"), ("constructors", "dr/constructors.cc, hypersurface/constructors.cc")],
     ["zeta_function overloads, operator<<, operator>>, constructors"])

prop("C21", "Frobenius columns are divisible by the power of p their Hodge level demands",
     "In every Frobenius matrix the column of a basis element of pole order m is divisible by p to the number of variables minus one minus m, and the matrix reduced modulo p has rank at most the number of basis elements of maximal pole order. Columns for which no terms are requested are zero.",
     ["inputs"], "all hypersurfaces, primes, term counts and precisions sufficient for the column, both methods",
     "No test looks at single columns of the matrix.",
     ["hypersurface/frob_J_ZZ.cc", "hypersurface/frob_matrix_J.cc", "hypersurface_nd/hypersurface_nd.cc"],
     [("final division by the factorial and scaling by p^(n-1)", "hypersurface/frob_J_ZZ.cc, hypersurface_nd/hypersurface_nd.cc:frob_ND_flint")],
     ["frob_matrix_J, frob_matrix_ND, zeta_function"])

prop("C22", "A call depends on its arguments alone and changes nothing but its results",
     "Every call returns the same whatever moduli its caller had installed (when the call does not need them itself), whatever its output variables held before, whatever fresh memory happens to contain, and whether or not it is verbose. It leaves its other arguments, the caller's installed moduli and the format of the standard output as they were.",
     ["inputs", "configurations"], "all calls of the public interface, all previously installed pairs of moduli (none included), all previous contents of output variables, all contents of newly allocated memory, both verbosities",
     "Tests call with empty outputs, one fixed modulus and zeroed pages. A variable that is read before it is written, an output that is added to instead of set, or a modulus left installed shows only in other surroundings.",
     ["wrapper/zeta_function.cc", "tools/default_args.cc", "tools/tuple_list_generator.cc", "matrix/mul.cc", "dr/init.cc", "dr_nd/dr_nd.cc", "hypersurface/frob_J_ZZ.cc", "hypersurface_nd/hypersurface_nd.cc", "solve_system/solve_system.cc", "conv.h"],
     [("moduli pushed and popped", "wrapper/zeta_function.cc"), ("results returned through references", "tools/default_args.cc, dr/reduce_vector_J_poly_ZZ.cc, dr_nd/dr_nd.cc, matrix/, conv.h"), ("verbose output between computations", "hypersurface_nd/hypersurface_nd.cc, dr_nd/dr_nd.cc")],
     ["every public function: its results, its arguments, zz_p::modulus(), ZZ_p::modulus()"])

prop("C23", "Objects can be copied, assigned and destroyed freely, and nothing leaks",
     "A copied or assigned object answers every query like the original, whatever happens to the original afterwards; a query on a copy of a reduction object leaves the original unchanged; objects over different primes and precisions live side by side and can be destroyed in any order. Repeating any call, including saves that fail, takes no further memory and leaves no file open.",
     ["histories"], "all sequences of building, default construction, copying, assignment, destruction and queries on several variables of each class; any number of repetitions of every call",
     "The tests build one object per program and let it die with the process, so sharing, dangling references and leaks cannot show.",
     ["dr.h", "dr_nd.h", "hypersurface.h", "hypersurface_nd.h", "hypersurface/constructors.cc", "hypersurface_nd/hypersurface_nd.cc", "dr_nd/dr_nd.cc", "matrix/mul.cc"],
     [("ownership of the reduction object by the hypersurface", "hypersurface.h:dR, hypersurface_nd.h:dR_ND"), ("FLINT and GMP temporaries", "hypersurface_nd/hypersurface_nd.cc:frob_ND_flint, dr_nd/dr_nd.cc:reduce_vector_ND_poly_flint, matrix/, solve_system/")],
     ["all public classes: copy, assignment, destructor, queries", "blocks of memory in use, open file descriptors"])
