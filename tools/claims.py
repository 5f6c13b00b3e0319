ABSM = 'abstract interpretation over a term-partition domain (finite classes of symbolic factors, free matrix letters)'
MC = COMMON + 'The mapping of terms is abstracted by a finite partition of its keys; storage formats are enumerated. '
t('C04', ABSM, MC)
t('C06', ABSM, MC + 'sympy expression methods are modelled on normal forms of free symbols; simplify/nsimplify are taken as the identity on values.')
t('C07', ABSM, MC)
t('C08', ABSM, MC + 'Decomposition of expressions into monomials (kwant_continuum.monomials) is checked separately as far as listed in the evidence.')
t('C09', ABSM, MC)
t('C05', ABS, COMMON + 'np.allclose-style closeness is one predicate per pair of arguments; prop_to_id is an opaque predicate of its argument.')
t('C20', ABS, COMMON + 'Angles with sine and cosine in Q(sqrt2, sqrt3) and exponentials of explicit antisymmetric matrices are folded exactly; permutation symmetries are analysed for three sites with symbolic orbital numbers.')
ABSN = 'abstract interpretation with constant propagation over arrays of constant extents (symbolic entries, normal forms over Q(i, sqrt2, sqrt3))'
ND_ = COMMON + 'Extents and options are enumerated, entries are symbolic. '
t('C25', ABSN, ND_ + 'Dimensions 1 to 8, all combinations of the options.')
t('C27', ABSN, ND_ + 'The random source is a stream of free letters; the QR factorisation is modelled by its defining equations.')
t('C28', 'abstract interpretation with constant propagation (group elements as named constants multiplied by a given table)', COMMON + 'Groups of the evidence: fifteen tables up to order 24 with all one- and two-element generating sets (sampled above 30) and the full set; subgroups of all but the largest. Products, inverses and identities of elements are the table.')
t('C15', 'abstract interpretation with constant propagation (group elements as named constants multiplied by a given table)', COMMON + 'Groups of the evidence up to order 12, all their subgroups as true symmetries, the full group and four partial candidate sets, both iteration orders of sets. The test of a single candidate is a given fact (C12-C14, C26 look inside).')
t('C19', ABSN, ND_ + 'Spins up to 9/2; sympy and numpy constructors of constant matrices have their documented meaning; the d-orbital basis functions are fixed up to signs.')
t('C29', ABSN, ND_ + 'Sites with 1 or 2 orbitals, up to 3 dimensions; the steps that keep the span (removal of duplicates, prettifying) are taken as such.')
t('C17', ABSN, ND_ + 'Dimensions 0 to 3, total powers up to 5, 1 to 3 bands; the constraint and prettifying steps are taken to keep the span (C16 covers the former).')
t('C18', ABSN, ND_ + '1 to 3 bands, up to three symmetries of both kinds.')
EFF = 'interprocedural may-alias and modification (effect) analysis by abstract inlining from every public entry point'
EFN = COMMON + 'Library calls have their documented effects (fresh result, view, in-place); calls of unknown functions are taken to be free of effects; parameters have the documented types and distinct parameters do not alias. '
t('C10', EFF, EFN)
t('C11', EFF, EFN + 'Constructors that wrap an existing mapping share its matrices by design and are only checked for the kept symbols.')
t('C12', EFF + '; typestate analysis of the list converter over all normal and exceptional exits', EFN + 'Any call may raise; kwant_rmt without a generator uses the global one as documented.')
t('C13', EFF + '; taint of cache keys into symbolic conversion', EFN + 'Equality of cache keys of other types than numbers (tuples of arrays) is not judged.')
t('C14', ABSN, ND_ + 'The unitary part found by the search, the models and the lattice basis are symbolic letters; one and two candidate operators; solver results are letters. Decided: every path that returns an operator is guarded by the test of that operator. ')
t('C21', ABS, COMMON + 'Symbolic rotation parts; cells of determinant, angle and sign pattern are represented by rational rotations, angles by a few fractions of pi; the text is parsed, and inserted matrices are compared by origin only.')
t('C22', ABSN, COMMON + 'Invalid combinations are enumerated (249 cases over the public constructors, generators and Model operations); the numeric values inside valid arguments are symbolic. A case whose error condition is not decided by the analysis does not raise an alarm. ')
t('C16', ABSN, ND_ + 'Families of one to three members, one and two constraints, matrices of size 1 and 2; the null space is a matrix of letters. The steps that keep the span (subtract_family, prettifying) are taken as such.')
t('C26', ABSN, ND_ + 'Equations: one and two pairs of 1x1 and 2x2 matrices with symbolic complex entries, all options; search: the projector shapes named in the evidence, two- and fourfold candidates with all flags; the null space and the solved blocks are letters, closeness tests of letters succeed.')
t('C24', ABSN, ND_ + 'The options of the evidence: tolerances, digits, sparse algebra, prettifying, generators, verbosity, kept symbols, simplification and names for parsing; the steps they are handed to are recorded summaries with the documented parameters. Other options are covered by the property they belong to (momenta, symmetrize, bloch_model: C17, C29; flags of groups: C28).')
t('C30', ABS, COMMON + 'The external parser and compiler are recorded calls; tables of names with up to eleven entries of text, arrays and symbols, parameters in several orders.')
t('C31', ABS, COMMON + 'Symbolic bases of up to three vectors; Gram-Schmidt coefficients, norms and rounded numbers are letters; the outcomes of the first four size comparisons are enumerated; the closest-vector search and the minimality test of voronoi are recorded calls with given outcomes.')
t('C23', ABSN + ' and a domain of storage formats with the operations each of them has', ND_ + 'Model algebra: one scenario per operation, partition of the terms and format; tolerance tests: 16 pairs of formats and numbers; null spaces up to size 14, singular vectors and eigenvectors are letters and the eigenvalues returned by the sparse solver are those selected by its documented arguments (its convergence is not judged). ')
t('C32', ABSM, MC + 'Closeness of two coefficients is decided by their letters: different letters are neither close to each other nor to zero.')
t('C33', ABSN, ND_ + 'Families of one to three members with 2x2 coefficients and one to three symbolic factors; null spaces and row reductions are matrices of letters; the consistency test of subtract_family succeeds.')
