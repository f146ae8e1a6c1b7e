P = {
"C01": ("c01_zeta",
 "Every member of the families goes through `zeta_function`.  Oracle: brute-force point counts over F_p, .., F_{p^K} (own field arithmetic; Jacobi-sum style counting for diagonal forms of any dimension), degree, leading coefficient and functional equation.  The counts over the fields used determine the polynomial for the genus 1 and 3 families.",
 "The tests run a handful of equations; here all 1023 supports of plane cubics per prime, all small quartics, diagonal forms up to K3 and quintic surfaces.  p = 2 is run for refusal-or-right."),
"C02": ("c02_methods",
 "`frob_matrix_J` against `frob_matrix_ND`, entry by entry modulo p^N and column by column for every vector of term counts, for every nondegenerate member, every listed lift and precision; curves, surfaces up to degree 6 and threefolds; every vector of different term counts on the plane curves.",
 "The two methods share the basis, the powers of f and the last division only, so each is an oracle for the reduction of the other."),
"C03": ("c03_variants",
 "Every column by every variant (modular, integer, FLINT, matrix-by-matrix, vector, polynomial loops 0 and 1): all must agree.  Primes not larger than n, surfaces of degree 5 and 6, moduli p^N immediately below and above 2^62, 2^63, 2^64 and 2^128.",
 "Variants differ in arithmetic and loop structure; the tests use one precision each."),
"C04": ("c04_paths",
 "Explicit state graph: states are exponents u up to a pole order, transitions the allowed reduction directions.  At each state the map to cohomology is computed through every outgoing transition and must be one and the same; by induction this covers every path of any length within the box.  Also every multi-step shortcut (polynomial evaluation along a direction), modular, integer and FLINT, and the library's own walk.  Exponents from 1 to beyond 2^60 (families `far-*`): a step may depend on the exponent modulo p^N alone, and 1 to 101 steps at once are the single ones.",
 "A wrong matrix at one exponent/direction pair is invisible to tests that only walk the default path."),
"C05": ("c05_relations",
 "All monomials of every pole order up to the bound: basis elements to unit vectors, `x_i d_i f`-type exact forms to zero (with the factor of the pole order), multiplication of numerator and denominator by f.  These relations determine the coordinate map, so agreement is a complete specification.",
 "Unit tests compare a few matrices with stored output."),
"C06": ("c06_solve",
 "Every matrix of the shapes listed over F_2, F_3, F_5, F_7 and lifts of them to Z/p^N; checks index order, complement property (own Gaussian elimination) and (T+J)U = 1 by direct multiplication; output arguments enter with old contents; both back ends; ASan.",
 "Rank-deficient, empty, wide and tall shapes and all precisions including non powers of two."),
"C07": ("c07_history",
 "Explicit-state exploration of objects: all query sequences up to depth 2-4 on each of the four classes x memory mode, closure of the set of reachable object contents under sub-alphabets (covers sequences of any length), interleavings of two objects over different moduli, sequences of 23 free-function calls.  Oracle: the answer of a fresh object in a process that has done nothing else.",
 "Caches are filled lazily in an order that depends on the queries; tests always query in one order."),
"C08": ("c08_saveload",
 "Every single query before the save, every query (pairs on tiny objects) after the load, on original and loaded object; complete contents compared; second generation save must be byte-identical.  Every file-name length 1..255 (under ASan), all equations of tiny shapes with all their lifts.",
 "History before the save x lift x class x memory mode x file name."),
"C09": ("c09_crash",
 "The save runs in a traced child (seccomp user notification, unprivileged to the rest of the system, inside a scratch directory); every file operation is, in turn, the last one of the process, fails with each plausible errno, or is torn at every byte (small files) or every record; all pairs of faults (triples thorough) and two interrupted saves in a row for tiny objects, five states of the directory beforehand.  Then every prefix of every saved file is loaded in a child: refused, or complete.",
 "No test injects a fault.  Process death is modelled, power loss is not: what write() accepted stays."),
"C10": ("c10_threads, c10_real",
 "Stateless model checking on a controlled OpenMP runtime.  `sched_rt.cc` implements the libgomp entry points; virtual threads are real threads passing one baton.  Choice points: thread start, every request for loop iterations, critical sections and locks, barriers and ends.  Every schedule with up to d deviations from two default schedulers (round-robin, run-to-block) is executed, for 2 and 3 threads and one thread per iteration.  On every schedule: (a) result equals the one-thread result, (b) the object left behind answers later queries like a fresh one, (c) a vector-clock happens-before detector sees no two unordered conflicting accesses, over every load and store of the library (compiler instrumentation) and the integer operations of NTL and FLINT (link-time wrapping), (d) no deadlock, no crash.",
 "When no schedule has a race, preemption inside a block between synchronisation operations cannot matter, which is what makes the coarse choice points sufficient; the detector decides exactly that.  Limits: nested teams have one thread; reference-count atomics are no choice points; quick explores deviations in the first two and the last parallel region only.  `c10_real` runs the same tasks on libgomp."),
"C11": ("c11_lift",
 "All Weil polynomials of bounded degree, weight, prime x every precision vector from the minimum upwards x all offsets of the representatives; the input matrix is companion-like with that characteristic polynomial plus the perturbation.  Oracle: the polynomial by construction; a separate predicate decides when the stated precisions determine it (Newton identities, sign).",
 "The extremal polynomials (all eigenvalues aligned, vanishing middle coefficients, both signs) are members, not luck."),
"C12": ("c12_precision",
 "Every request `abs_precision` up to a bound x increase or not x model search or not x equations x lifts, against class-level matrices computed with more terms and digits; requests that need many terms (62 and more, where binomial coefficients leave 64 bits); returned polynomial exact or modulo p^a as documented.  Requests outside the documented domain must be refused or right.  Every row of the built-in table x every prime up to 2000 (20000): Newton bound and Hodge polygon arithmetic; and a real computation per affordable row.",
 "A digit lost for one row/prime range shows up for no typical input."),
"C13": ("c13_smooth",
 "All forms of the listed small shapes: `isSmooth`, `isND` against Macaulay ranks and against a search for common zeros over extension fields; every singular form of the lists to every entry point in a child process: must end with an error, never an answer; nondegenerate forms must be accepted.",
 "Singular points at infinity, over extensions, on coordinate planes."),
"C14": ("c14_substitution",
 "All matrices over small fields x forms: exact substitution and composition; zeta functions along whole subgroups and generators of GL_n(F_p), all units, all lifts listed; the model search under *every* sequence of random draws up to a length (generator replaced), including exhaustion of the attempts.",
 "Random choices are enumerated, so the one-in-a-thousand failure branch is executed."),
"C15": ("c15_conv",
 "All values +-2^k + {-2..2} and multi-byte patterns up to 260 bits, all previous contents of the target, all shapes to 4x4 (6x6) including empty and non-square, under ASan; read back through an independent decimal route.",
 "Word boundaries and strides."),
"C16": ("c16_combinatorics",
 "All arguments up to the bounds against definitions: exponent lists, binomials (refusal of what does not fit observed in a child), factorials without p, valuations, tweak, substitution expansion, vector operators.",
 "Every argument up to beyond the point of overflow."),
"C17": ("c17_matrix",
 "All shapes up to 4 (6), entries of any size and sign, zero patterns; textbook oracle; operands unchanged; characteristic polynomials of all small matrices; the unimodular generator under every sequence of draws; ASan with leak detection.",
 "Non-square shapes, zero entries, all draws."),
"C18": ("c18_picard",
 "All products of cyclotomic polynomials up to total degree x irreducible transcendental Weil factors with multiplicity, in K3 shape up to degree 21 with all orders of Euler phi up to 22; oracle: the count by construction.",
 "Large orders, repeated and mixed factors."),
"C19": ("c19_matpoly",
 "All coefficient supports of small shapes, all matrix polynomials over tiny rings, all step counts across the switch of algorithm, 14 moduli from 2 past 2^64; oracle: step-by-step product; in place and out of place.",
 "26 million products; the corner cases (vanishing differences, few steps, small moduli) are members."),
"C20": ("c20_inputs",
 "All orders of up to 5 terms, all choices of representatives, explicit zeros, all overloads and constructors, random constructors under every sequence of draws; all combinations of the options of the entry point and their defaults; printing and reading back for four coefficient types.",
 "Each overload is otherwise tested with one spelling."),
"C21": ("c21_hodge",
 "Every vector of term counts 0..2 x columns x families: divisibility by p^(n-m), rank modulo p, zero columns for zero terms.",
 "Independent of the two methods agreeing."),
"C22": ("c22_environment",
 "The product of environments (modulus installed for machine-word and for multiprecision residues: none, other, same; previous contents of the output variables; byte pattern in fresh heap memory and in the stack below; verbose level) x every public call (12 overloads and classes with every kind of query, and all helper functions) on a list of inputs.  Oracle: the plain environment; arguments, installed moduli and format flags of cout compared before and after.",
 "Uninitialised memory and leftover contents are made to matter deterministically."),
"C23": ("c23_lifecycle",
 "Every sequence of construct / assign / copy / self-assign / destroy / query up to length 5 (6) over three variables of each class, two equations over different moduli: every living object must answer like a fresh one; also under ASan.  Every call is repeated and must become stationary in the number of blocks in use and of open files, saves that fail included.",
 "Copies share nothing or share correctly, whatever the order of destruction."),
}
