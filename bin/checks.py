"""The registered checks: harness runs, what counts as an execution, and the manifest texts."""
CHECKS = {}


def check(pid, level, runs, rule, technique, note, **kw):
    CHECKS[pid] = dict(level=level, runs=[tuple(r) + ([],) if len(r) == 2 else r for r in runs], rule=rule, technique=technique, note=note, **kw)


check("C01", "exploration", [("c01_zeta", "std")],
      rule="an execution counts when the form is smooth by an independent Jacobian-criterion test and the returned polynomial was compared with point counts; distinct = different (p, polynomial) outcomes",
      technique="bounded exhaustive exploration of the input families on the real code, against brute-force point counts",
      note="Every member of the listed families is run through the public entry point and compared with point counts over F_p..F_{p^K} and the functional equation. Trusts the 150-line point counter; says nothing about forms, degrees and primes outside the families.")

check("C16", "exploration", [("c16_combinatorics", "asan")],
      rule="an execution counts when the function was called on a fresh argument tuple and its value compared with the definition; distinct = different values",
      technique="bounded exhaustive exploration of all argument tuples of the real functions, against definition-level oracles",
      note="All arguments within the stated bounds, under ASan and UBSan; refusal of results that do not fit is observed in a child process. Says nothing about arguments beyond the bounds.")

check("C15", "exploration", [("c15_conv", "asan")],
      rule="an execution counts when a value or matrix was converted in both directions and compared through an independent decimal reading; distinct = different operands",
      technique="bounded exhaustive exploration of all boundary values and all shapes on the real conversions, under ASan",
      note="All listed values (every power of two boundary up to 260 bits, some up to 2^100003, both signs) and all shapes up to 4x4 (6x6 thorough) including empty ones.")

check("C19", "exploration", [("c19_matpoly", "std")],
      rule="an execution counts when a product over k steps was computed by the library, out of place and in place, and compared coordinate by coordinate with the step-by-step product; distinct = different result vectors",
      technique="bounded exhaustive exploration of all coefficient supports, values, step counts and moduli on the real evaluation routine",
      note="All supports of the listed small shapes, all matrix polynomials over tiny rings, step counts across the switch of algorithm and moduli across the machine-word switch. The top coefficient has only a first row, as the routine's callers guarantee.")

check("C17", "exploration", [("c17_matrix", "asan")],
      rule="an execution counts when the library's result was compared with the textbook definition, or a random generator run drew a complete sequence of choices; distinct = different results",
      technique="bounded exhaustive exploration of shapes, entries and random choice sequences on the real helpers, under ASan",
      note="All shapes up to 4 (6 thorough), all small matrices for charpoly, and every sequence of random draws (NTL's generator is replaced by enumerated choices) up to a length for the unimodular generator; longer sequences of rejections are cut off and counted as skipped.")

check("C10", "exploration", [("c10_threads", "sched"), ("c10_real", "std")],
      rule="an execution (trace) is one complete schedule of a call; it counts when at least one parallel region had several threads and its result, later queries and race verdict were judged; states are schedules, transitions scheduling decisions; distinct = different final object contents",
      technique="stateless model checking of the real code on a controlled OpenMP runtime: every schedule with a bounded number of deviations from two default schedulers, happens-before race detection on every access, results against one thread; conformance runs on libgomp",
      note="Choice points are synchronisation operations, which is enough when no execution has a data race, and that is what the detector decides on every schedule, including one thread per loop iteration. Accesses inside NTL and FLINT are seen at their integer operations only.")
check("C11", "exploration", [("c11_lift", "std")],
      rule="an execution counts when a perturbed matrix was lifted and the result compared with the Weil polynomial it approximates; distinct = different Weil polynomials",
      technique="bounded exhaustive exploration of Weil polynomials, precision vectors and residue representatives on the real lifting step",
      note="All Weil polynomials of the listed degrees, weights and primes with every precision vector near the minimum that makes them recoverable and all small offsets; cases in which the stated precision cannot determine the sign are skipped and counted.")
check("C18", "exploration", [("c18_picard", "std")],
      rule="an execution counts when the reported number was compared with the number of cyclotomic eigenvalues known by construction; distinct = different polynomials",
      technique="bounded exhaustive exploration of products of cyclotomic and transcendental factors on the real function",
      note="All products of cyclotomic factors up to a total degree times transcendental factors whose irreducibility is verified; orders up to 120 in K3 shape.")
check("C06", "exploration", [("c06_solve", "asan")],
      rule="an execution counts when the solver ran on one matrix with one back end and the complement property and the identity (T + J) U = 1 were verified by direct multiplication; distinct = different (modulus, U)",
      technique="bounded exhaustive exploration of all small matrices and lifts on the real solvers, by direct multiplication",
      note="Every matrix of the listed shapes over F_2, F_3, F_5, F_7 (31 thorough) and every one with three lifts to Z/p^N, for N small and for N around 2^63, 2^64, 2^128, both back ends, under ASan.")
check("C04", "exploration", [("c04_paths", "std")],
      rule="states are exponents, transitions the allowed reduction directions; an execution (trace) counts when the map from a state to cohomology was computed through every direction and compared; distinct = different maps",
      technique="explicit-state exploration of the reduction graph on the real reduction matrices, comparing every transition at every state",
      note="By induction over pole order, agreement of all transitions at every state covers every path. Also every multi-step shortcut along each direction, modular, integer and FLINT forms, and the library's own walk.")
check("C05", "exploration", [("c05_relations", "std")],
      rule="an execution counts when one relation (an exact form, a multiplication by f, a basis element, a table entry) was evaluated on the real coordinates; distinct = different coordinate vectors",
      technique="bounded exhaustive exploration of all monomials up to a pole order on the real reduction, against the defining relations",
      note="Every monomial and every exact form with pole order up to the bound, which determines the coordinate map; both methods, every lift and precision listed.")
check("C03", "exploration", [("c03_variants", "std")],
      rule="an execution counts when one column was computed by two variants and compared; distinct = different columns",
      technique="bounded exhaustive exploration of equations, lifts, precisions, term counts and columns on the real code, all variants against each other",
      note="Every member of the listed families, every column, twelve ways of computing it; precisions on both sides of 2^62, 2^63, 2^64 and primes not larger than n.")
check("C02", "exploration", [("c02_methods", "std")],
      rule="an execution counts when one column (or one whole matrix) was computed by both methods and compared exactly; distinct = different columns",
      technique="bounded exhaustive exploration of nondegenerate equations, lifts, precisions, term counts and columns on the real code, both methods against each other",
      note="Every member of the listed families, every column and every vector of term counts up to the bound; the two methods share only the basis, the powers of f and the final division.")
check("C21", "exploration", [("c21_hodge", "std")],
      rule="an execution counts when a Frobenius matrix was computed and the divisibility of every column and its rank mod p were checked; non-trivial = the column had to be divisible by p; distinct = different matrices",
      technique="bounded exhaustive exploration of equations, lifts, precisions and term vectors on the real code, against the Hodge bound",
      note="Every member of the listed families, both methods, every vector of term counts 0..2 on the plane curves; digits lost to the factorial are excluded.")
check("C13", "exploration", [("c13_smooth", "std")],
      rule="an execution counts when one form was decided by the library and by the independent criteria, or one singular form was offered to one entry point in a child process; distinct = different forms with their verdict",
      technique="bounded exhaustive exploration of all forms of small degree and field on the real tests, against an independent Jacobian criterion and a search for singular points over extension fields",
      note="All binary forms, conics and cubics over the smallest fields completely, larger shapes in boxes, singular members of the Hesse pencil at large primes. The Jacobian criterion is itself checked against explicit singular points where those are bounded.")
check("C20", "exploration", [("c20_inputs", "std")],
      rule="an execution counts when one way of giving the input was compared with the plain map (polynomial and Frobenius matrix), one constructor with another (equation, bases, classes, matrix) or one printed map with what is read back; distinct = different results",
      technique="bounded exhaustive exploration of orders, representatives, zero patterns, overloads, constructors and random draws on the real entry points, against one canonical form of input",
      note="All permutations of up to 5 terms, all subsets of explicit zeros and all choices of representatives of the listed forms; random constructors over every sequence of draws for tiny shapes.")
check("C07", "exploration", [("c07_history", "std")],
      rule="states are complete object contents, transitions queries; an execution (trace) counts when a whole sequence of queries was answered like on a fresh object, or a sub-alphabet was closed; distinct = different object contents",
      technique="explicit-state exploration of the real objects: every query sequence up to a depth, and the closure of all reachable object states under sub-alphabets of queries",
      note="Reference answers come from fresh objects in fresh processes. States are compared by their complete public contents, so the closure covers sequences of any length over its sub-alphabet; hidden state outside the objects is only covered up to the sequence depth and by the interleavings of two objects.")
check("C08", "exploration", [("c08_saveload", "std"), ("c08_saveload", "asan")],
      rule="an execution counts when an object was saved and loaded and every listed query was asked of both; distinct = different files written",
      technique="bounded exhaustive exploration of histories before the save, queries after the load, file names and equations on the real objects, file names under ASan",
      note="Both methods, both wrappers, both memory modes; every single query before the save and every query (pairs for tiny objects) after it; every length of file name; all equations of small shapes over Z/p^N including every lift.")
check("C09", "exploration", [("c09_crash", "std")],
      rule="an execution counts when a save ran under one plan of faults, or one prefix was loaded in a child process, and the files left behind were judged; distinct = different states of the directory with their reported result",
      technique="systematic enumeration of all faults and all crash points of the real save at the system call boundary (seccomp), and of all prefixes of saved files",
      note="Every operation on files of every save (open, write, close, remove, rename), every byte offset of a torn write or a full disk for small files, all pairs of faults (triples thorough) and all sequences of two interrupted saves for tiny objects. Process death, not power loss: what write() accepted stays.")
check("C12", "exploration", [("c12_precision", "std")],
      rule="an execution counts when one request was answered and its matrix compared modulo p^a with every reference and its polynomial with the exact one, or one table row was judged for one prime; distinct = different answers",
      technique="bounded exhaustive exploration of requests, modes, equations and lifts on the real entry point, and of all table rows against Newton's identities",
      note="Every request up to the bound in both modes, with and without model search, against class-level matrices with more terms and digits; requests outside the documented range must be refused or right. The table is judged for every prime up to 2000 (20000 thorough) by the bound that makes lifting unique; that the digits are really there is observed on one or more equations per row that is affordable.")
check("C14", "exploration", [("c14_substitution", "std")],
      rule="an execution counts when one substitution (or two and their product) was compared with the expanded form, one transformed, scaled or relifted equation gave its polynomial, or one complete sequence of random draws of the search was judged; distinct = different forms or proposals",
      technique="bounded exhaustive exploration of all matrices, groups of substitutions, units, lifts and random draws on the real code",
      note="All matrices over the small fields for the substitution itself; for the zeta function whole subgroups (monomial, triangular, unipotent) whose products are all invertible matrices, and in the thorough tier every matrix up to scalars over F_5 and F_3. The search runs under every sequence of draws up to a length, and the whole computation under every listed first proposal.")
check("C22", "exploration", [("c22_environment", "std")],
      rule="an execution counts when one call was made in one environment and its results, its arguments and the installed moduli were compared with those of the plain environment; distinct = different results",
      technique="bounded exhaustive exploration of all listed environments (moduli, output variables, contents of memory, verbosity) of every public call on the real code",
      note="The full product of the environments for every call on a list of inputs. New and freed heap memory and the stack below the call are filled with chosen bytes, so reads of uninitialised memory change results; a read that happens not to influence any result is not seen.")
check("C23", "exploration", [("c23_lifecycle", "std"), ("c23_lifecycle", "asan")],
      rule="an execution (trace) counts when a complete sequence of lifecycle operations ended with every living object answering every query like a fresh one, or a call was repeated until its memory was stationary; states are prefixes of sequences",
      technique="explicit exploration of every sequence of lifecycle operations up to a depth on the real classes, also under ASan, and repetition of every call with counted memory and files",
      note="Sequences up to length 5 (6 thorough) on three variables of each of the four classes with two equations; leaks are decided by the number of blocks in use growing at every one of five repetitions, with one thread and with two.")
