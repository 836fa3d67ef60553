G = ' Sound only with respect to the abstract interpreter and library model named in the evidence; values the analysis cannot type are left undecided and counted, never reported.'
TECH = {
    'C01': 'interprocedural alias and mutation-effect analysis',
    'C02': 'interprocedural escape/alias analysis of result fields',
    'C03': 'who-may-write (effect) analysis of string fields',
    'C04': 'field-dependency slice of __eq__ and __hash__',
    'C05': 'paired-update and index-provenance analysis of Basis',
    'C06': 'index-space type inference (coefficient/string pairing)',
    'C07': 'index-space type inference (matrix rows/columns/shape)',
    'C08': 'taint analysis from nondeterminism sources',
    'C09': 'effect analysis (output and global state) with guard conditions',
    'C10': 'abstract interpretation with unlisted option values, foreign classes and invalid constants',
    'C11': 'program slicing: dependence of results and effects on each option',
    'C12': 'sign/phase taint analysis of cut-off comparisons',
    'C13': 'Hermiticity qualifier inference at eigensolver arguments',
    'C14': 'permutation-consistency dataflow of eigenpairs',
    'C15': 'abstract evaluation of the product table',
    'C16': 'multiplicative-factor dataflow (normal form of coefficients)',
    'C17': 'multiplicative-factor dataflow and abstract evaluation of letter rules',
    'C18': 'abstract evaluation of sign rules and composition dataflow',
    'C19': 'tag-consistency dataflow of op_type',
    'C20': 'name resolution, call-signature and attribute checking',
    'C21': 'loop progress (ranking-change) analysis',
    'C22': 'numeric-kind (real/complex) and conjugation dataflow',
    'C23': 'cache-key and lock-step-extension dataflow',
    'C24': 'discarded-result and swallowed-exception analysis',
    'C25': 'abstract evaluation of bit operations over linear forms of positions',
    'C26': 'linear-form dataflow over lattice directions and key normal forms',
    'C28': 'loop coverage: range bounds, slices, early exits, positional guards and collections changed while walked, over the symbolic trace',
    'C31': 'path-wise inference of kinds of values compared with documented parameter, result and attribute kinds at each call, return and store',
    'C30': 'rewriting of matrix expressions to normal forms per mode, solver and step, compared with the documented forms',
    'C29': 'path-sensitive evaluation of matrix entries to normal form for each kind of term',
    'C27': 'typestate and dataflow of group closure: membership guards, loop coverage and equal weights',
}
NOTE = {k: 'Reports definite violations on any analysed path of every entry point; an UNDECIDED line says when fewer instances than expected could be analysed.' + G for k in TECH}
NA = {
    'N01': 'equality of algebra elements produced by runtime loops over unbounded string lengths; no static rule in reach decides it (C16-C18 decide the sign/factor part).',
    'N02': 'completeness of a numerically computed null space depends on floating-point rank decisions on runtime matrices.',
    'N03': 'closure and minimality are facts about the fixpoint reached on runtime data and floating-point projections.',
    'N05': 'functional correctness of recursive graph search over all graphs; needs proof or testing, not dataflow.',
    'N06': 'numerical equality of spectra of two different constructions.',
    'N07': 'optimality/convergence of a heuristic search over runtime data.',
    'N08': 'floating-point accuracy of linear algebra.',
    'N09': 'invariance under the group is a fact about the closure computed on runtime data.',
}
