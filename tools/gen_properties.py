#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to rewrite the file)."""
import json, os
Q = "qosy/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    anchors = {"files": [Q + f for f in files], "mechanism": [{"name": mech, "where": ", ".join(Q + f for f in files)}]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

p("C01", "Calls never modify the objects passed to them",
  "No public function, method or arithmetic operator changes any operator, basis, operator string, lattice, transformation, list, dictionary or array that it was given as an argument. The only exceptions are the documented in-place operations: += and -= on a basis or operator, normalising an operator, adding an atom to a unit cell, adding symmetries to and running a symmetric-operator generator, and the exploration caches that a caller hands to the selected-CI routines.",
  ["inputs", "histories"],
  "every argument object of every public entry point, on every path through the library code that the call can take",
  "A mutation shows only when a test keeps and re-checks the argument afterwards; the tests almost never do, and each samples one path.",
  ["basis.py", "algebra.py", "conversion.py", "transformation.py", "core.py", "tools.py", "diagonalization.py", "lattice.py", "symmetrization.py", "algorithms.py", "visualization.py"],
  "defensive copies (deepcopy, np.array, list()) before every in-place update")

p("C02", "New operators and bases share no mutable state with their inputs",
  "An operator or basis produced by operator or basis arithmetic, zero removal, conversion, an algebraic product, a transformation, a basis generator or basis truncation has its own coefficient storage and its own string list, never those of an argument. Later in-place use of the result therefore cannot change the operands, nor the reverse. An operator built directly on a given basis object, which is documented to keep that basis, is the only exception.",
  ["inputs", "histories"],
  "every result of the listed operations and every later in-place operation on the result or on an operand",
  "Aliasing is invisible until somebody mutates one side after the call; no test interleaves the two.",
  ["basis.py", "algebra.py", "conversion.py", "transformation.py", "symmetrization.py", "algorithms.py"],
  "fresh containers built for each result; list() and deepcopy in the operator constructor and addition",
  [("Operator.coeffs / Operator._basis", "coefficient storage and string list owned by one operator"), ("Basis.op_strings", "the basis's own ordered list")])

p("C03", "Operator strings never change after construction",
  "Once an operator string has been constructed, no library operation alters its letters, labels, type, prefactor or name, and it keeps its own copies of the letters and labels it was given, so that changing those lists or arrays later does not change the string. Strings can therefore be shared between bases and used as dictionary keys for their whole lifetime.",
  ["inputs", "histories"],
  "every operator string and every sequence of library calls that can reach it",
  "Strings are shared by reference across bases, operators and caches; corrupting one is visible only in another object later.",
  ["operatorstring.py", "algebra.py", "basis.py", "conversion.py", "transformation.py"],
  "attributes of a string are written only while it is being constructed")

p("C04", "Equality and hashing of operator strings agree",
  "Two operator strings compare equal only when their letters, labels, type and prefactor all agree, and equal strings always have equal hashes. Looking a string up in a basis or dictionary therefore finds it exactly when an equal string was stored.",
  ["inputs"],
  "every pair of operator strings of every type, including strings that differ only in their prefactor or in how the prefactor was written",
  "Hash containers consult equality only on hash collision or identity, so a disagreement hides in the pairs a test does not build.",
  ["operatorstring.py", "basis.py"],
  "comparison and hash computed from the same construction-time fields")

p("C05", "A basis lists each string once and reports its true position",
  "After any sequence of constructions and additions, a basis contains each operator string exactly once, reports as its index the position at which it is listed, and reports membership for exactly the listed strings. Building a basis from a list with repeated strings is rejected.",
  ["inputs", "histories"],
  "every history of basis constructions, unions and in-place additions, with overlapping or disjoint operands",
  "The tests add at most a couple of strings; a stale or shifted index appears only for particular overlaps and orders of addition.",
  ["basis.py"],
  "list and index dictionary are updated together, each index being the length of the list before the append",
  [("Basis.op_strings", "ordered strings"), ("Basis._indices", "string to position")])

p("C06", "Each coefficient stays with its own operator string",
  "In every operator the library builds, the i-th coefficient belongs to the i-th string: sums, products, conversions, truncation, zero removal and vector forms place each coefficient at the position of its own string and accumulate coefficients of strings that occur repeatedly. A vector or eigenvector turned into an operator is paired with the strings of the basis in which it was computed.",
  ["inputs", "histories"],
  "all operators with any overlap and ordering of their strings, and all bases produced on the way (including re-ordered, truncated ones)",
  "Misplaced coefficients need operands whose strings overlap in a different order, or a basis that was re-ordered between computation and use.",
  ["basis.py", "algebra.py", "conversion.py", "algorithms.py", "core.py", "visualization.py"],
  "coefficients and strings appended or selected in lock-step and indexed through the same basis")

p("C07", "Matrices are indexed and sized by the bases they are written in",
  "Every structure-constant, Liouvillian, commutant, symmetry and conversion matrix has the input basis along its columns and the output basis along its rows: entries sit at the column of their source string and the row of their result string, and the shape is the sizes of those two bases. An index obtained from one basis is never used to address data laid out in another.",
  ["inputs"],
  "all bases, including ones where input and output bases differ in size, content or order, and empty results",
  "With equal-sized or equally ordered bases, as in the tests, swapped or mis-sized axes give the same numbers.",
  ["algebra.py", "conversion.py", "transformation.py", "algorithms.py", "core.py", "basis.py"],
  "row and column index lists built from basis lookups; explicit shape arguments")

p("C08", "Results do not depend on chance, time or hash order",
  "Repeating a call with the same inputs in a new process gives the same result in the same order: nothing returned depends on random numbers, clocks, object identities or the iteration order of sets of strings or operator strings. The plotting jitter and the randomised multi-operator search are the only exceptions.",
  ["inputs", "schedules"],
  "all inputs, processes and hash seeds",
  "The tests run under one fixed hash seed and compare a single run with itself.",
  ["algebra.py", "basis.py", "tools.py", "core.py", "algorithms.py", "symmetrization.py", "lattice.py"],
  "ordered containers for everything that reaches a result; sets only for membership or sorted afterwards")

p("C09", "Library calls are silent and leave global state alone",
  "A function with a verbosity switch writes nothing to standard output when the switch is off, and functions of the algebra, basis, operator, conversion, transformation, lattice, symmetrisation, diagonalisation and utility parts never print. No library call reads or changes process-wide state such as random seeds, numpy error or print settings, warning filters, environment variables or files, nor does it modify the library's module-level tables.",
  ["inputs", "configurations"],
  "every public call on every path, for every value of the verbosity switch",
  "Tests capture output and never assert that it is empty, and global settings are not inspected after calls.",
  ["core.py", "algorithms.py", "algebra.py", "basis.py", "tools.py", "diagonalization.py", "config.py"],
  "prints guarded by the verbosity flag; no writes to module globals")

p("C10", "Invalid requests are rejected with an exception and valid ones are not",
  "An unknown value for a named option (operation, type of operator, output format, algorithm or mode name), an argument of an unsupported class, or operands of mismatched operator types makes the call raise an exception instead of returning a result. The letters and labels given for an operator string must agree in number, and a mismatch is rejected as well. Requests with listed option values and supported argument classes are not turned away.",
  ["inputs"],
  "every unlisted option value and every unsupported argument class or mixture of operator types",
  "The tests exercise valid values; the set of invalid values is unbounded and a silent default returns plausible numbers.",
  ["operatorstring.py", "basis.py", "algebra.py", "conversion.py", "transformation.py", "core.py", "tools.py", "diagonalization.py", "algorithms.py"],
  "if/elif dispatch closed by raise; type comparisons before combining operands")

p("C11", "Every documented option takes effect where it is accepted",
  "Each parameter of a public function influences its result, its effects or its error behaviour as documented, on the path that uses it. A function that delegates passes the caller's value of an option on to the helper that implements it instead of letting the helper fall back to its default.",
  ["inputs", "configurations"],
  "every public function, each of its parameters, and every internal call that implements an option",
  "Tests mostly leave options at their defaults, where a dropped option is indistinguishable from an honoured one.",
  ["core.py", "algebra.py", "basis.py", "conversion.py", "transformation.py", "tools.py", "algorithms.py", "diagonalization.py", "lattice.py", "symmetrization.py", "visualization.py"],
  "keyword arguments forwarded through the call chain")

p("C12", "Cut-offs compare magnitudes, and keep the large side",
  "Whenever a coefficient, eigenvalue or overlap is compared with a tolerance or threshold, it is its magnitude that is compared, so the decision does not depend on sign or complex phase. Terms are discarded only when their magnitude is small, and null vectors are selected only when the magnitude of their eigenvalue (or of its distance from the target eigenvalue) is small.",
  ["inputs"],
  "all real, negative, imaginary and complex values on either side of the cut-off",
  "Tests mostly involve positive real coefficients, for which a missing absolute value changes nothing.",
  ["basis.py", "algebra.py", "core.py", "transformation.py", "conversion.py", "tools.py", "algorithms.py", "diagonalization.py"],
  "np.abs or norm around every value compared with a tolerance, with the keep or drop direction")

p("C13", "Hermitian eigensolvers only receive Hermitian matrices",
  "Every matrix handed to a Hermitian eigensolver is Hermitian by construction for all inputs: a product of a matrix with its own conjugate transpose, a Hermitian part, the identity, or a real combination or congruence of such matrices, or a matrix assembled entry by entry together with its conjugate partner. Otherwise the solver would silently ignore half of the matrix. Likewise the real matrix handed to the Schur decomposition of a quadratic Majorana operator is antisymmetric by construction.",
  ["inputs"],
  "all complex operators, symmetries and bases",
  "Hermitian solvers read one triangle only and never complain; on the real symmetric matrices of the tests the omission of a conjugate is invisible.",
  ["core.py", "tools.py", "algorithms.py", "diagonalization.py"],
  "M = L^H L, (S + S^H)/2, projections V^H M V, conjugate pair assembly")

p("C14", "Eigenvalues and eigenvectors stay paired",
  "Whenever eigenvalues or singular values are sorted, selected or truncated, the corresponding eigenvectors are re-ordered by the same indices along their column axis, so that the i-th value returned always belongs to the i-th vector. A selection of vectors by a property of their eigenvalues uses indices computed from the eigenvalues in the same order as the vectors. Columns that are ordered by any quantity computed from each column are re-ordered as columns.",
  ["inputs"],
  "all spectra, including unsorted output of iterative solvers, degenerate values and both dense and iterative paths",
  "The dense solver already returns sorted values, so on test-sized problems a missing or one-sided re-ordering has no effect.",
  ["core.py", "tools.py", "algorithms.py", "diagonalization.py"],
  "one index array applied to values and to vector columns")

p("C15", "The single-site product table is a Pauli algebra",
  "For spin and for Majorana letters, the stored product of two different letters on one site is plus or minus i times the third letter of the same family, reversing the factors flips the sign, and the cyclic products all carry the factor plus i: X Y = i Z, Y Z = i X, Z X = i Y and A B = i D, B D = i A, D A = i B. Every ordered pair of different letters of a family has an entry and no entry mixes families.",
  ["inputs"],
  "all ordered pairs of letters of both families",
  "The tests multiply a few pairs; a wrong entry for one ordered pair of one family passes them.",
  ["config.py", "algebra.py"],
  "table of products built from the letter families")

p("C16", "Products carry every phase, prefactor and reordering sign",
  "The coefficient of the product, commutator or anticommutator of two strings contains every single-site phase, the sign of every reordering of fermionic labels, the prefactors of both operands and the inverse prefactor of the result string, each exactly once. Commutators and anticommutators are twice the corresponding ordered product and vanish exactly when the two orders agree or disagree in sign, respectively. The prefactor of a Majorana string is i exactly when reversing its fermionic letters costs a sign, so that every string is Hermitian.",
  ["inputs"],
  "all pairs of strings of any length, overlap and type",
  "Dropping a phase or sign is visible only for strings with particular overlaps, lengths and parities; tests use short ones.",
  ["algebra.py", "operatorstring.py"],
  "multiplicative accumulation of phases, signs and prefactors along one pass over the labels")

p("C17", "Conversions carry every letter factor, sign and prefactor",
  "Converting between spin, Majorana and fermion representations multiplies each resulting term by the source string's prefactor, by the factor of each replaced letter, by the sign of every reordering, and by the inverse prefactor of the string it is stored on. The per-letter replacement rules of the two directions are inverse to each other. A string that is already of the requested type is returned unchanged with coefficient one.",
  ["inputs"],
  "all operator strings of the three types, of any length and prefactor",
  "Tests convert a handful of strings, mostly with unit prefactor and sorted labels, where omitted factors equal one.",
  ["conversion.py"],
  "per-letter tables, sort sign and prefactor multiplied into each coefficient")

p("C18", "Symmetry transformations apply the correct sign for every string",
  "Time reversal, particle-hole and spin-parity transformations map every string to plus or minus itself, with the sign given by the parity of the letters that change sign, together with the reversal sign of fermionic reorderings; label permutations relabel every letter and multiply by the sign of restoring the label order and by the ratio of string prefactors. Applying a composed transformation applies both factors in order and multiplies their coefficients.",
  ["inputs"],
  "all strings of any length and letter content, and all permutations and compositions",
  "The sign depends on letter counts modulo four; the tests cover few counts.",
  ["transformation.py"],
  "letter counting and parity tests in each rule; sort sign in the permutation rule")

p("C19", "Operator types are consistent everywhere",
  "The type carried by an operator or operator string always matches the letters it contains and the operation that produced it: algebra and transformations preserve the operand type, and conversions return the requested type. Zero and empty operators carry the correct type too, so combining them never fails or mixes types.",
  ["inputs"],
  "all operations on all types, including results that are empty or the identity",
  "Empty and identity results are corner cases that the tests leave out.",
  ["operatorstring.py", "basis.py", "algebra.py", "conversion.py", "transformation.py", "core.py", "symmetrization.py"],
  "type passed explicitly at each construction")

p("C20", "No public call fails on an internal reference or call mistake",
  "No path through a public function refers to a name that is not defined or not yet assigned, calls a library function with arguments it does not accept, unpacks a wrong number of results, or uses a method or attribute that the object does not have; constructors set every attribute of the object whichever arguments they are given. Such paths would crash for valid input instead of producing the documented result.",
  ["inputs", "programs"],
  "every path of every public function, including rarely used options",
  "The tests execute only part of the code; Python resolves names and calls only when the line is reached.",
  ["core.py", "algorithms.py", "diagonalization.py", "tools.py", "conversion.py", "symmetrization.py", "visualization.py", "lattice.py", "basis.py", "algebra.py", "transformation.py"],
  "names, signatures and result shapes resolved across modules")

p("C21", "Loops that run until a condition is met always make progress",
  "Every loop that runs until a condition is met (closing an algebra or group, walking a work-list, sorting, scanning degenerate levels, iterative search) changes the quantity it waits for on every pass, on every path through its body. No input can make such a loop repeat the same state for ever, and a loop that closes a group or algebra keeps what it has found and stops only when nothing new was added.",
  ["inputs"],
  "all inputs and every path through the loop bodies, including early continues",
  "A path without progress hangs only for the inputs that take it repeatedly; a test that hits it would time out, and none does.",
  ["algebra.py", "tools.py", "core.py", "symmetrization.py", "algorithms.py"],
  "index increments and work-list removals on each path to the loop head")

p("C22", "Complex amplitudes are kept and inner products conjugate one factor",
  "Results that hold coefficients, matrix elements or state amplitudes are stored as complex numbers and are not reduced to their real part, except where the value is real by construction or its imaginary part was checked. Every overlap, norm and projector conjugates exactly one of its two factors.",
  ["inputs"],
  "all operators, bases, states and matrices with complex entries",
  "Most test data are real, where a missing conjugate or a real-typed array gives the same result.",
  ["basis.py", "algebra.py", "conversion.py", "transformation.py", "tools.py", "core.py", "diagonalization.py", "algorithms.py"],
  "dtype=complex allocations; .H, np.conj and getH in products")

p("C23", "Reusing exploration caches does not change results",
  "The incremental exploration used by the selected-CI routines returns, for any history of earlier explorations held in the caches, the same Liouvillian matrix and extended basis entries as a fresh computation: cached strings, extended strings and structure constants are extended together, and an entry is reused only for the operator string and basis string it was computed for.",
  ["histories"],
  "all sequences of bases and operators explored with the same caches",
  "Tests use a fresh cache and one operator.",
  ["algorithms.py"],
  "three caches updated in lock-step; index lists remapped into the cache's numbering")

p("C24", "Computed results are used, not dropped",
  "A value returned by an operation that leaves its operand unchanged (such as zero removal, copying or conversion) is always used by its caller, and an exception that is constructed is always raised. No failure is swallowed by a handler that continues as if nothing had happened.",
  ["inputs", "programs"],
  "every call of a side-effect-free operation and every constructed exception in the library",
  "Dropping the result of a clean-up step changes only unclean inputs; tests use clean ones.",
  ["basis.py", "algebra.py", "core.py", "operatorstring.py"],
  "results assigned; raise statements")

p("C25", "Spin configurations use one bit layout and strings act by their letters",
  "A configuration of n orbitals stores the bit of orbital l at place n-1-l, in every routine that reads, flips or moves bits. Applying a string to a configuration flips and multiplies the bit of each orbital as the Pauli matrices say; matrices hold the element that leads from an old configuration to a new one at row new, column old, weighted with the coefficient of the string; a permutation of orbitals moves each bit to the place of the new label. Reduced states keep the orbitals asked for, in their order, and sum over exactly the others; entropies and overlaps follow their formulas.",
  ["inputs"],
  "all strings, configurations, orbital subsets, permutations and system sizes",
  "Tests use one or two orbitals or states symmetric under reversal of the bits, where a wrong place or a transposed matrix gives the same numbers.",
  ["diagonalization.py"],
  "masks 1 << (n-1-label); coo triples; reshaping of state vectors")

p("C26", "Lattice positions, indices, periodic images and distances belong together",
  "The orbitals of a lattice sit at the translation of their cell (the sum over all directions of the cell coordinate times the lattice vector of that direction) plus the position of their own atom. The index found for a position and name is the place where that orbital is listed, positions being written with the same rounding when stored and when looked up. For exactly the periodic directions a position is also sought, and distances are measured, after translation by plus and minus the whole length of the lattice in that direction, in combination with all translations in the other directions; a distance is the smallest over these images; a position outside the lattice is answered with -1. The built-in cubic, square, chain and kagome lattices have the geometry and the numbers of cells asked for.",
  ["inputs"],
  "all unit cells, numbers of cells, boundary conditions, positions and dimensions",
  "Tests use square shapes with the same number of cells and the same boundary condition in all directions, where mixed-up directions go unnoticed.",
  ["lattice.py", "transformation.py"],
  "list and dictionary of orbitals filled together; list of boundary vectors")

p("C27", "Symmetrisation uses the whole group, each element once",
  "Symmetrising a basis closes the given permutations to a group in which every element counts once, and sums the images of each operator string under all of its elements with equal weight, so that the result is invariant under every generator; each orbit gives one operator, and the operators are normalised. Symmetrising a lattice lists the image of every atom under every element of the closed point group, with the orbitals of that atom; a cell that is expanded keeps the atoms of all directions and their copies moved by the growth; atoms are merged only when they lie at the same place of the cell and carry the same orbitals, and a list is freed of duplicates by comparing every member with all that were kept. Repeated generators and the identity among the generators make no difference.",
  ["inputs"],
  "all lists of generators, bases, unit cells and numbers of expansions",
  "Tests use single generators and small lattices, where elements counted twice and dropped atoms do not show.",
  ["symmetrization.py", "tools.py"],
  "closing loops over the products with the generators; sums over the group; unit cells rebuilt per direction")

p("C28", "Every string, pair, letter, orbital and column is processed",
  "Functions that go over the strings of an operator or basis, the letters of a string, the orbitals, atoms and directions of a lattice, the pairs of indices of a matrix or the columns of a matrix process every member: none is skipped because of its position, none because an earlier member met a condition, and no collection shrinks while it is walked; a matrix filled from half of the index pairs gets both halves. A generated cluster basis lists the strings with every allowed number of labels, every choice of labels and letters and, for fermions, every number of annihilated orbitals with both prefactors; a distance basis joins all orbitals at most the radius apart, those exactly at it included.",
  ["inputs"],
  "all operators, bases, clusters, lattices and matrices of any size",
  "Tests use collections of a few members, where a member left out beyond the first few, at the end or after a rare condition does not show.",
  ["basis.py", "conversion.py", "transformation.py", "algebra.py", "core.py", "lattice.py", "tools.py", "diagonalization.py", "symmetrization.py"],
  "for loops, comprehensions and index loops over all entry points; enumeration of strings in cluster_basis; neighbour lists of distance_basis")

p("C29", "Single-particle matrices hold the entries of the quadratic operator",
  "Diagonalising a quadratic operator builds the single-particle matrix that represents it: a hopping term t of c_i^dag c_j stands at (i,j) with its conjugate at (j,i), a superconducting Hamiltonian also has minus the conjugate in the hole block and the antisymmetric pairing blocks, a Majorana term the antisymmetric entries of its modes (a_j at 2j, b_j at 2j+1, d_j = -i a_j b_j), each with coefficient and prefactor and once. Terms that are not quadratic are rejected. Particle and hole components belong to the same eigenvectors as the energies, negative modes are exchanged completely, the modes written in fermionic operators (c first, then c^dagger) are those the real mode vectors give, and the ground state energy is minus half the sum of the energies.",
  ["inputs"],
  "all quadratic operators: complex coefficients and prefactors, any labels, all kinds of terms",
  "Tests use real hoppings on small chains; complex hoppings, pairing terms and Majorana terms within one species are hardly sampled.",
  ["diagonalization.py"],
  "coordinate lists of diagonalize_quadratic, diagonalize_quadratic_tightbinding and diagonalize_bdg; blocks taken from eigenvectors; Schur blocks")

p("C30", "Symmetry searches solve the eigenproblem of the relation asked for",
  "The search for commuting operators returns the null vectors of C^H C, C being the Liouvillian matrix of the given basis, operator and operation; the search for invariant operators returns the vectors of the Hermitian part of the symmetry matrix with eigenvalue +1 for commuting and -1 for anticommuting, with the full and the iterative solver alike, and both report the superoperator whose null space this is together with its own eigenvalues and eigenvectors. The generator treats every symmetry by its own kind, mode and solver setting, starts each cumulative step from the operators of the previous one, and projects non-cumulative results on the operators of the previous steps. Commutant and symmetry matrices of lists of operators, subspace intersections and the penalties of the selected-CI searches have their documented form. A bounded number of vectors can be asked for with every symmetry, also the later ones of a non-cumulative search. A symmetry that is added enters with its mode and its number of vectors together; none is skipped while operators are left, and post-processing reaches the results of all of them.",
  ["inputs", "histories"],
  "all bases, operators, transformations, modes and sequences of symmetries",
  "Tests search real, orthonormal examples with one or two commuting symmetries; complex coefficients, anticommuting symmetries with the iterative solver and third symmetries are not sampled.",
  ["core.py", "algebra.py", "transformation.py", "tools.py", "algorithms.py"],
  "commuting_operators, invariant_operators, SymmetricOperatorGenerator, commutant_matrix, symmetry_matrix of operator lists, intersection, eigsh settings")

p("C31", "Functions give and take values of the documented kind",
  "Whatever the inputs, the result of a function is of the kind its documentation names (an operator, a pair of coefficient and operator string, a tuple of arrays, a matrix), and where one function of the library calls another or builds an object, each argument is of the kind documented for that parameter; a basis is not passed for an operator, coefficients not for operator strings, text not for numbers. Routines for dense arrays are not given sparse matrices or objects of the library.",
  ["inputs", "configurations"],
  "all functions, parameters, internal call sites and returned alternatives",
  "Python checks nothing at calls; tests cover only some branches, options and long-running algorithms, so exchanged arguments or results on the others go unnoticed.",
  ["algorithms.py", "core.py", "basis.py", "algebra.py", "conversion.py", "diagonalization.py", "symmetrization.py", "transformation.py", "tools.py", "lattice.py"],
  "arguments of all internal calls, returned values, attributes stored by the classes")

# properties this family cannot decide here
p("N01", "Conversions are algebra homomorphisms and invert each other",
  "Converting a product of operators gives the product of the converted operators, and converting an operator to another representation and back gives the same operator.",
  ["inputs"], "all pairs of operators and all string lengths",
  "Tests sample a few small operators.", ["conversion.py", "algebra.py"], "Jordan-Wigner strings and Majorana-fermion expansion")
p("N02", "The commutant and symmetry searches find the complete solution space",
  "The vectors returned span exactly the operators in the basis that commute with the given operator or are invariant under the given transformation, no more and no fewer.",
  ["inputs"], "all bases and operators",
  "Tests compare dimensions on a few models.", ["core.py"], "numerical null space")
p("N03", "The generated Lie algebra is closed and minimal",
  "The list of operators returned contains the generators, is closed under commutation up to linear combination, and is linearly independent.",
  ["inputs"], "all generator sets", "Tests check dimensions of a few known algebras.", ["algebra.py"], "projection of each commutator on the span found so far")
p("N05", "Clique and component searches are exact",
  "The clique search returns every maximal clique exactly once and the component search partitions the nodes into connected components.",
  ["inputs"], "all graphs", "Tests use a few small graphs.", ["tools.py"], "Bron-Kerbosch with pivoting; worklist search")
p("N06", "Spectra agree across representations",
  "Diagonalising a quadratic operator by the single-particle routines gives the energies obtained from the full many-body matrix.",
  ["inputs"], "all quadratic operators", "Tests cover a few chains.", ["diagonalization.py"], "Schur form and Bogoliubov-de Gennes matrix")
p("N07", "The selected-CI search converges to approximate integrals of motion",
  "The operator returned has the smallest commutator norm among those visited and improves with the number of steps.",
  ["inputs", "histories"], "all Hamiltonians and starting operators", "No test checks quality.", ["algorithms.py"], "greedy expansion and truncation")
p("N08", "Orthonormalisation and subspace intersection are numerically correct",
  "The orthonormalised columns are orthonormal and span the input's column space, and the intersection returned spans the common subspace.",
  ["inputs"], "all matrices", "Tests use random samples.", ["tools.py"], "modified Gram-Schmidt; null space of stacked matrices")
p("N09", "Symmetrised bases and lattices are invariant under the group",
  "Every operator of a symmetrised basis, and every symmetrised lattice, is mapped to itself by each generator of the symmetry group.",
  ["inputs"], "all generator sets", "Tests use a few groups.", ["symmetrization.py"], "closure of the generators, sum over the group")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
