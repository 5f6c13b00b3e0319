#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

G, M, L, S, H, K, R, LLL = ("qsymm/groups.py", "qsymm/model.py", "qsymm/linalg.py",
    "qsymm/symmetry_finder.py", "qsymm/hamiltonian_generator.py",
    "qsymm/kwant_continuum.py", "qsymm/kwant_rmt.py", "qsymm/kwant_linalg_lll.py")

p("C01", "Composition law of symmetry operations",
  "The product g1*g2 of two point-group elements has real-space part R1·R2 (in this order, for integer, floating-point and exact rotations and their allowed mixtures), antiunitary and antisymmetry flags that are the exclusive-or of the factors' flags, and unitary part U1·U2, with U2 complex-conjugated exactly when g1 is antiunitary. The unitary part is absent exactly when at least one factor has none, and the product compares unitary parts if either factor does.",
  ["inputs"], "all pairs of elements: every combination of the two antiunitary flags, two antisymmetry flags, presence or absence of either U, strictness of either, and representation of R",
  "tests multiply a handful of groups with U=None or real U; the conjugation rule and the flag/representation combinations are never enumerated",
  [G], [("PointGroupElement.__mul__", G), ("cached multiplication of spatial parts", G)], ["PointGroupElement.__mul__"])

p("C02", "Inverse, identity and integer powers of symmetry operations",
  "For every point-group element g, both g*g.inv() and g.inv()*g have the real-space part, flags and unitary part of the identity, and g.inv() keeps g's flags and has no unitary part exactly when g has none. g.identity() has unit R of the same dimension, no flags, and a unit U of the same size exactly when g has a U. g**n is the product of |n| copies of g (of its inverse for negative n) starting from the identity.",
  ["inputs"], "all elements (unitary and antiunitary, with and without U, each representation of R) and all integers n, including 0 and negative ones",
  "tests never invert antiunitary elements with complex U nor take negative powers; the law quantifies over every element",
  [G], [("PointGroupElement.inv / identity / __pow__", G), ("module-level identity(dim, shape)", G)], ["PointGroupElement.inv", "PointGroupElement.__pow__", "identity"])

p("C03", "Symmetry action on a Hamiltonian follows the documented formula",
  "Applying a point-group element to a model yields (+/-) U H(R^-1 k) U^dagger for unitary and (+/-) U H(-R^-1 k)^* U^dagger for antiunitary elements, the minus sign exactly for antisymmetries, and U is taken as the identity when absent. Applying a continuous generator yields i(H U - U H) + i sum_ij (dH/dk_i) R_ij k_j, each part being omitted exactly when the generator's corresponding matrix is absent or zero.",
  ["inputs"], "all elements (flag combinations, with/without U), all generators (R, U or both given or absent), all Models and BlochModels",
  "tests apply a few elements to a few 2x2 models; the formula must hold for every flag combination and complex U",
  [G, M], [("PointGroupElement.apply", G), ("ContinuousGroupGenerator.apply", G)], ["PointGroupElement.apply", "ContinuousGroupGenerator.apply"])

p("C04", "Momentum rotation and conjugation mean the same for both model kinds",
  "Rotating the momenta of a model by R replaces, simultaneously, momentum component i by sum_j R_ij k_j in every term, so on Bloch form each hopping vector d becomes R^T d with its coefficient unchanged. Complex conjugation conjugates every coefficient matrix and replaces i by -i in every symbolic factor, so on Bloch form each hopping vector d becomes -d. Neither operation drops, merges or rescales a term.",
  ["inputs"], "all models, all rotation matrices (non-symmetric and mixing ones included), both representations",
  "tests use symmetric or permutation matrices, for which R and its transpose, or sequential and simultaneous substitution, agree",
  [M], [("Model.rotate_momenta / conj", M), ("BlochModel.rotate_momenta / conj", M)], ["Model.rotate_momenta", "BlochModel.rotate_momenta", "Model.conj", "BlochModel.conj"])

p("C05", "Equality, hashing and ordering of symmetry operations are coherent",
  "Two point-group elements that compare equal have equal hashes whatever the representation (integer, float, exact) of their rotations, and equality requires both flags to agree and ignores the unitary parts unless at least one side asks for a strict comparison, in which case they must agree up to a phase. Ordering depends only on the flags and the rotation: elements are ordered by their flags first, then the identity before everything else, then by rotation. Comparing Bloch coefficients for equality or inequality never raises and is coherent with their hash.",
  ["inputs", "histories"], "all pairs of elements/coefficients in any representation, any use as members of sets and keys of dicts",
  "tests put a few homogeneous elements in sets; representation mixtures are not sampled, and a hash mismatch shows only by chance of bucket layout",
  [G, M], [("PointGroupElement.__eq__/__hash__/__lt__", G), ("BlochCoeff.__eq__/__hash__", M)], ["set/dict membership of PointGroupElement and BlochCoeff"])

p("C06", "Bloch coefficient algebra is a homomorphism",
  "Multiplying two Bloch coefficients adds their hopping vectors and multiplies their symbolic prefactors, multiplying one by a symbolic expression from either side leaves the hopping unchanged and multiplies the prefactor, and converting a Bloch coefficient to a symbolic expression gives prefactor times e^(i sum_j k_j d_j). Copying preserves the value. Converting a Bloch model to a plain model preserves every coefficient matrix, the momenta, the kept symbols, the shape and the format.",
  ["inputs"], "all hopping vectors and prefactors, all Bloch models",
  "tests cover a few products of small integer hoppings",
  [M], [("BlochCoeff.__mul__/__rmul__/copy/tosympy", M), ("BlochModel.tomodel", M)], ["BlochCoeff", "BlochModel.tomodel"])

p("C07", "Model arithmetic is the algebra of matrix-valued functions",
  "Sum, difference, negation, elementwise and matrix product, division by a number, transposition and trace of models act term by term exactly as on matrix-valued functions: in a product every term of the left factor meets every term of the right factor once, with the symbolic factors multiplied and the coefficient matrices multiplied in operand order; a sum contains the terms of both operands, added where they share a symbolic factor. Constants enter a sum as the coefficient of the symbolic factor 1. Left and right multiplication by a constant array keep their sides.",
  ["inputs"], "all operand pairs: model/model, model/number, model/symbol, model/array, either side, any number of terms in common or not",
  "tests compare a few random 2-term models; operand order, missing keys and one-sided terms are sampled only sparsely",
  [M], [("Model.__add__/__radd__/__sub__/__neg__/__mul__/__rmul__/__matmul__/__rmatmul__/__truediv__/T/trace", M)], ["Model operators"])

p("C08", "No term of a Hamiltonian is lost when symbolic factors coincide",
  "Whenever terms are collected under their symbolic factor - when a model is built from a mapping or an expression, when its symbolic factors are transformed, normalised, split or substituted, and when an expression is decomposed into monomials - terms whose factors become equal are added, never overwritten. Numerical factors extracted from a symbolic factor multiply the coefficient of that same term.",
  ["inputs"], "all models and expressions, in particular those where two distinct input terms normalise to the same symbolic factor",
  "collisions only occur for special inputs (e.g. 'x*y' and 'y*x', or an entry reached by two summands); tests contain few of them",
  [M, K], [("Model.__init__ (mapping branch and normalize loop)", M), ("Model.transform_symbolic / subs", M), ("monomials / _expression_monomials", K)], ["Model(...)", "Model.subs", "kwant_continuum.monomials"])

p("C09", "Derived models keep momenta, kept symbols, shape and format",
  "A model obtained from another by copying, negating, scaling, multiplying, conjugating, transposing, taking the trace, reshaping, rounding, removing small terms or converting between storage formats has the same momenta (in the same order) and the same set of kept symbols (the union of both for products). Its recorded shape and format describe its actual coefficient matrices: transposed for the transpose, scalar for the trace, the target class for conversions.",
  ["inputs"], "all models (non-default momenta and kept symbols included) and all operations deriving one model from one or two",
  "tests use almost only the default momenta and an empty set of kept symbols, for which losing them is invisible",
  [M], [("Model.zeros_like and every method building a result from it", M), ("Model.__mul__/__matmul__ constructor arguments", M)], ["Model methods"])

p("C10", "Public operations never modify objects owned by the caller",
  "No public function, method or constructor modifies its arguments in place - models, arrays, lists, dicts, sets, symmetry elements and generators passed in are left as they were, including the strictness flag and unitary part of symmetry elements and the structure of sparse matrices. Methods other than item assignment and deletion do not modify the object they are called on.",
  ["inputs", "histories"], "all calls of the public API, all argument types the documentation allows",
  "tests check return values and almost never compare the arguments before and after; aliasing shows only in later calls",
  [G, M, L, S, H, K, LLL, R], [("copies made before in-place updates (deepcopy, .copy, np.array, new result objects)", "all modules")], ["every public entry point"])

p("C11", "Models returned by operations own their coefficient storage",
  "Models returned by copying, adding, rotating momenta, removing small terms, multiplying by a symbolic factor, transforming symbolic factors, and converting between Bloch and plain form share no mutable array with the models they were made from: changing a coefficient matrix of the result in place leaves the operands unchanged, and the set of kept symbols is never shared either.",
  ["inputs", "histories"], "all models, then any later in-place modification of the result's coefficient matrices",
  "tests never mutate a result and look back at the operand",
  [M], [("copy(val) when building results; keep.copy() in zeros_like", M)], ["Model.copy", "Model.__add__", "BlochModel.rotate_momenta", "BlochModel.tomodel"])

p("C12", "Process-wide state is left as it was found",
  "Parsing an expression temporarily changes how the symbolic library converts lists; on every exit, including when parsing fails, that conversion is what it was before the call. No public operation changes module-level tables or defaults of the package, default argument objects, global numerical or warning settings, or draws from the global random generator except the random-matrix functions called without a generator.",
  ["inputs", "histories", "fault_sequences"], "all calls, all exits of a call (normal return and any exception raised while parsing), all subsequent calls",
  "tests do not examine global state after failures, and leakage shows only in unrelated later code",
  [K, R, G, M, H, L], [("try/finally restoring the list converter", K), ("ensure_rng", R)], ["kwant_continuum.sympify", "sympy converter registry"],
  [("sympy converter[list]", "process-global conversion hook", K)])

p("C13", "Memoisation is invisible",
  "Every memoised function computes a result that depends only on its arguments, never modifies anything, and returns objects that no code modifies afterwards. Arguments that the cache treats as the same key lead to results indistinguishable to callers, so no result depends on which calls were made before.",
  ["histories", "inputs"], "all call histories of the process, all argument pairs that compare equal while being different objects or types",
  "tests run short histories; a cache returning another call's result needs two related calls in a particular order",
  [G, M], [("lru_cache'd helpers for spatial parts", G), ("lru_cache'd key and momenta normalisers", M)], ["Model.__getitem__", "PointGroupElement products"])

p("C14", "Every reported symmetry has been verified against the full Hamiltonian",
  "A discrete symmetry is reported only after the operator including its unitary part was applied to the complete model and the outcome compared equal to the model; a continuous rotation symmetry only after its application to the complete model was found to vanish; a Bravais-lattice point group only after all its generators were checked against the lattice; a reduced lattice basis only after its reducedness and its integer relation to the original basis were checked. On a failed check the call raises rather than returning the unverified result.",
  ["inputs"], "all models, candidate sets and lattices; every path to a normal return",
  "a missing check is invisible unless the numerical search goes wrong, which tests do not provoke",
  [S, LLL], [("assert gr.apply(model) == model", S), ("assert trf.allclose(0)", S), ("assert check_bravais_symmetry", S), ("lll post-checks", LLL)], ["discrete_symmetries", "continuous_symmetries", "bravais_point_group", "lll"])

p("C15", "The discrete search finds every symmetry among the candidates",
  "For a given set of true symmetries (a group), the discrete search reports exactly the group generated by the candidates that are symmetries, whatever the candidate set and the order of successes and failures: no candidate is discarded as implied by failed ones unless it is surely not a symmetry, the identity is always included, every reported element carries its unitary part, and on request a set of generators of that group is returned instead. The given candidates are left as they are, candidates are tested in an order that does not depend on the iteration order of sets, and without candidates all onsite time reversal, particle-hole and chiral symmetries are searched.",
  ["inputs", "histories"], "all candidate sets and all interleavings of successes and failures during the search",
  "tests use candidate groups where wrong pruning rarely removes the last representative",
  [S], [("not_symmetries / symset bookkeeping in discrete_symmetries", S), ("symmetries", S)], ["discrete_symmetries", "symmetries"])

p("C16", "Family constraints use every symmetry and every term",
  "Constraining a family imposes, for every given symmetry and every symbolic factor occurring in any member before or after transformation, that the combination is invariant: g(H) - H = 0 for point-group elements and g(H) = 0 for continuous generators; the solution coefficients are applied to the same members in the same order that produced the equations. Checking a family tests every member against every symmetry and raises on the first failure; symmetrising averages over all given operations.",
  ["inputs"], "all families, all sets of symmetries of either kind, including incomplete families whose images leave their span of symbolic factors",
  "tests use complete families with few symmetries; a skipped symmetry or key leaves most results unchanged",
  [H, L], [("constrain_family", H), ("check_symmetry", H), ("symmetrize_monomial", H), ("family_to_vectors", L)], ["constrain_family", "check_symmetry", "symmetrize_monomial"])

p("C17", "Continuum families contain exactly the requested powers of momenta",
  "With an integer total power n every total degree 0..n is generated (with a list, exactly the listed degrees), and for each degree exactly the monomials of the first `dim` momenta whose exponents lie in the allowed range of each direction (0..p for an integer p, the listed values for a list) and add up to that degree, each one once with a complete Hermitian matrix basis. The generated models carry the requested momenta.",
  ["inputs"], "all dimensions, total powers, per-direction powers and momentum names",
  "tests use dim <= 3 and powers <= 2, mostly with default limits",
  [H], [("continuum_variables", H), ("continuum_hamiltonian / continuum_pairing degree loops", H)], ["continuum_variables", "continuum_hamiltonian", "continuum_pairing"])

p("C18", "Pairing families use the Bogoliubov-de Gennes extension of each symmetry",
  "For pairing functions every point-group element with unitary part U acts in particle-hole space as diag(U, phase*U^*), every continuous generator as diag(U, -U^* + phase*1), with the phase at the symmetry's own position in the list (1 by default); a particle-hole operator squaring to the requested sign is added; the pairing returned is the upper-right block of off-diagonal Hermitian terms m and i*m for a complete basis of m. A requested square other than +1 or -1 is rejected.",
  ["inputs"], "all symmetry lists, phases, both signs of the square, any matrix size",
  "tests use few phases and real unitary parts",
  [H], [("continuum_pairing", H)], ["continuum_pairing"])

p("C19", "Constant representation tables are correct",
  "The real-space rotation generators in two and three dimensions and the d-orbital generators are imaginary antisymmetric matrices with [L_i, L_j] = i eps_ijk L_k and L.L = l(l+1); the spin-s matrices have S_z = diag(s..-s), Hermitian S_x, S_y in the standard basis and the identity first when requested. Named Pauli matrices and the kron/eye/identity names map to the right objects, and the random-matrix symmetry tables agree with the Altland-Zirnbauer classification.",
  ["inputs"], "every entry of every table; every half-integer spin for the construction rule",
  "tests exercise only low spins and a few entries indirectly; a wrong sign in one entry of the d-orbital tables passes them",
  [G, K, R], [("L_matrices", G), ("spin_matrices", G), ("extra_ns", K), ("t/p/c and h_t/h_p tables", R)], ["L_matrices", "spin_matrices"])

p("C20", "Predefined operators rotate real space and spin space consistently",
  "Each predefined operator's R and U represent the same operation: rotations by angle (in units of 2 pi) about an axis act as exp(-i n.L) on positions and exp(-i n.S) on spin with the same n, mirrors as 1 - 2nn^T and exp(-i pi n.S), inversion as -1, time reversal as exp(-i pi S_y) with conjugation, particle-hole and chiral with their flags; a rotoinversion changes only the sign of R. The named point groups are generated from such consistent operators in either representation of R, adding time reversal and particle-hole exactly when asked, and a symmetry built from a site permutation places each site's action in its own block.",
  ["inputs"], "all angles, axes, spins, dimensions, and option combinations of the factories and named groups",
  "tests check a few group orders with spin=None; spin-space handedness is never compared to real space",
  [G], [("rotation / mirror / inversion / time_reversal / particle_hole / chiral / spin_rotation", G), ("square / cubic / hexagonal", G), ("symmetry_from_permutation", G)], ["factory functions of qsymm.groups"])

p("C21", "Every symmetry and generator can be displayed, with the right name",
  "Producing the plain-text or LaTeX description of any valid symmetry element or generator (1, 2 or 3 dimensions, with or without U or R, full or short) never raises and always uses values computed for that object. The label T, P or C appears exactly for antiunitary symmetries, antiunitary antisymmetries and unitary antisymmetries respectively, the displayed action carries '*' and -R exactly for antiunitary and the minus sign exactly for antisymmetries, and a rotation is called trivial only if its angle is zero, also for axes whose components add up to zero.",
  ["inputs"], "all valid elements and generators and both output modes",
  "tests print almost nothing; failures need a generator without U or a special axis",
  [G], [("pretty_print_pge / pretty_print_cgg / rotation_to_angle", G)], ["str() and _repr_latex_ of elements and generators"])

p("C22", "Documented invalid input is rejected before any result is produced",
  "Combinations the documentation forbids raise ValueError (or TypeError/NotImplementedError where documented) on every path that would otherwise return: both U and spin given, particle-hole together with spin, generators that are not Hermitian (and antisymmetric in real space), mixing exact and floating-point rotations, unsupported storage formats in the symmetry finders, candidates carrying a unitary part, adding or multiplying models with different momenta, formats or shapes, adding onsite and hopping arguments together, malformed permutations, invalid parameter names, unknown random-matrix classes and odd sizes for classes needing even ones.",
  ["inputs"], "all invalid argument combinations and all paths",
  "tests check only one or two of the rejections",
  [G, M, S, H, L, K, R, LLL], [("guards raising ValueError", "all modules")], ["public entry points"])

p("C23", "Storage format does not change results",
  "Operations documented for scalar, dense, sparse and linear-operator coefficients give the same result for each: model algebra, conversions, construction, pruning (eliminate_zeros), rounding (around) and tolerance tests (linalg.allclose, for every pair of formats, numbers, matrices without stored entries and without any entries) never use an operation whose meaning differs between formats or that a format lacks (size, elementwise power or product, truth value, removed attributes, sums that change the sparse format). Null spaces and matrix equations found by sparse algebra are those of dense algebra: the whole null space (up to the requested number of vectors, and up to the documented dimension), and nothing else, whatever the step size.",
  ["inputs", "configurations"], "all models in every documented storage format",
  "tests run a few sparse additions and products; comparing, pruning and converting sparse or operator models is hardly covered",
  [L, M, S], [("linalg.allclose / nullspace / solve_mat_eqn", L), ("Model.toarray / tocsr / eliminate_zeros / __missing__ / _shape_and_format", M)], ["Model methods", "linalg functions"])

p("C24", "Documented options take effect",
  "Every documented option of the public functions reaches the step it describes: tolerances, digits, sparse-algebra, prettify, generators, checks, verbosity, momenta, kept symbols, simplification and locals given by the caller are the values used (or passed on under the right name) by the called steps; none is silently ignored, swapped with another or replaced by a default on some path.",
  ["inputs", "configurations"], "all public functions and all their documented options, on every path on which the option is relevant",
  "most options are never varied in tests, and a dropped option usually still yields a plausible result",
  [S, H, M, L, G, K, LLL], [("keyword forwarding at call sites", "all modules")], ["public entry points with options"])

p("C25", "Matrix bases span exactly the advertised space, once",
  "The generated matrix basis consists, for each option combination, of exactly the independent matrices of the advertised space: all diagonal units (all but one traceless difference if traceless; none for real antisymmetric), for each index pair i<j the symmetric real unit unless only antisymmetric real ones are wanted and the imaginary antisymmetric one unless only symmetric real ones are wanted, all multiplied by i when anti-Hermitian matrices are requested. Dense and sparse requests yield the same matrices.",
  ["inputs", "configurations"], "all dimensions and all 16 option combinations",
  "tests use two option combinations",
  [L], [("matrix_basis", L)], ["linalg.matrix_basis"])

p("C26", "The unitary search solves the documented equations",
  "Solving the matrix equation sets up X HL - HR X = 0 (with X^* on the right where conjugation is requested) for every given pair and every basis matrix, so that exactly the matrices of the requested kind (Hermitian, traceless, or arbitrary complex) that satisfy all equations are returned; with conjugation and no Hermiticity the solution space is real. The search for a symmetry's unitary part uses the transformed Hamiltonian on the left and the original on the right for every symbolic factor, uses conjugated projectors on one side exactly for antiunitary candidates, and the result carries the candidate's rotation and flags together with the found unitary.",
  ["inputs"], "all models, candidates and block structures",
  "tests compare final answers for a few groups; swapped sides or a missing conjugation cancel for Hermitian real examples",
  [L, S], [("solve_mat_eqn", L), ("_find_unitary / _construct_unitary / _nice_square", S)], ["solve_mat_eqn", "discrete_symmetries"])

p("C27", "Random matrices satisfy the documented symmetry of their class",
  "A matrix drawn from the Gaussian ensemble is Hermitian and, for each of the ten classes, satisfies exactly the documented time-reversal, particle-hole and chiral relations for that class, whatever the random numbers are, and nothing more (the whole allowed space is reached, scaled by v). A matrix drawn from a circular ensemble is unitary and satisfies the documented relations of its class for every allowed charge. Given a seed or generator, all randomness comes from it; without one the global generator of numpy is used.",
  ["inputs"], "all ten symmetry classes, all sizes, all random draws",
  "statistical tests sample a few draws; the package has no test for it at all beyond indirect use",
  [R], [("gaussian / ensure_rng", R)], ["kwant_rmt.gaussian"])

p("C28", "Generated groups are the closure of their generators",
  "The group generated from a set of elements contains the generators, is extended with products until a round adds nothing new, and contains nothing but products of generators; the result is a new set. The table of subgroups contains for every entry a generating set, starts from all cyclic subgroups, and is extended until nothing new appears or the full group was reached.",
  ["inputs"], "all generator sets and groups",
  "tests compare a few group orders",
  [G], [("generate_group / generate_subgroups / set_multiply", G)], ["generate_group", "generate_subgroups"])

p("C29", "Bloch family terms are Hermitian and sit in the right block",
  "For every requested hopping (a, b, vec) the generated terms place a complete (real and imaginary) basis of matrices in the rows of site a and the columns of site b, with phase e^(i k.vec), and always add the Hermitian conjugate; onsite terms for every site are included exactly when requested; rows and columns of a site are the consecutive ranges given by the orbital numbers in order. Dense and Bloch representations use the same hopping vector and the requested momenta.",
  ["inputs"], "all hopping lists, site structures, and option combinations",
  "tests generate few lattices with equal orbital numbers",
  [H], [("bloch_family", H)], ["bloch_family"])

p("C30", "Parsing and compiling expressions use the documented names and order",
  "Parsing gives user-supplied names precedence over the predefined ones, never modifies the caller's table of names, and treats already symbolic input as documented. Compiled functions take their parameters in sorted name order, preceded by the site argument(s) exactly when requested, and making symbols commutative replaces every requested symbol by the commuting symbol of the same name.",
  ["inputs"], "all expressions, name tables and option combinations",
  "tests never compile models with several parameters or override predefined names",
  [K, M], [("sympify / lambdify / make_commutative", K), ("Model.lambdify", M)], ["sympify", "Model.lambdify"])

p("C31", "Lattice neighbours come in opposite pairs and reductions keep the lattice",
  "The Voronoi neighbours of a lattice are returned as a list whose second half is minus the first half in the same order. Basis reduction modifies basis vectors only by adding integer multiples of other basis vectors or exchanging two of them, and applies the same operations to its bookkeeping, so the reduced basis spans the same lattice.",
  ["inputs"], "all bases",
  "tests run a few lattices",
  [LLL], [("voronoi / lll", LLL)], ["kwant_linalg_lll.lll", "kwant_linalg_lll.voronoi"])

p("C32", "Models are equal exactly if all their terms are",
  "Model.__eq__ and Model.allclose return True if and only if the coefficients of every symbolic factor of either model are close to each other, a factor that one of the models does not have counting as zero; this holds in both directions, for models without terms, and a comparison with 0 or {} is True exactly if all coefficients are close to zero. Same for BlochModel.",
  ["inputs"], "all pairs of models, any partition of their symbolic factors, all storage formats",
  "tests compare a few models with the same terms",
  [M], [("Model.allclose / Model.__eq__", M)], ["Model.allclose", "Model.__eq__"])
p("C33", "Families are recombined with the coefficients computed for their members",
  "family_to_vectors writes real and imaginary part of every coefficient of every member into one row per member, with the same column for the same entry of the same symbolic factor in all rows (factors that a member lacks give zeros; the columns follow all_keys if it is given). make_basis_pretty, remove_duplicates and subtract_family hand these equations to the row reduction or null space and return the combinations of the members with the resulting coefficients, subtract_family those of the projection of family1 onto the complement of family2. hamiltonian_from_family returns the sum of coeffs[i] times family[i], and round_family rounds every member to the given digits. rref with return_S returns the reduced matrix together with the matrix S whose product with the input it is, also for matrices of zeros.",
  ["inputs"], "all families, including members with different symbolic factors",
  "tests use families whose members share the same factors",
  [H, L], [("family_to_vectors", L), ("make_basis_pretty / remove_duplicates / subtract_family / hamiltonian_from_family / round_family", H)],
  ["linalg.family_to_vectors", "hamiltonian_generator.make_basis_pretty", "hamiltonian_generator.remove_duplicates", "hamiltonian_generator.subtract_family", "hamiltonian_generator.hamiltonian_from_family", "linalg.rref"])

# --- properties this family cannot decide
p("C40", "A unitary part is found for every candidate that has one",
  "Every candidate that leaves the Hamiltonian family invariant for some unitary part is reported.",
  ["inputs"], "all models and candidate sets", "tests compare a few known groups",
  [S], [("_find_unitary_blocks", S)], ["discrete_symmetries"])
p("C41", "Conserved quantities and continuous symmetries are complete and independent",
  "The onsite conserved quantities and rotation generators returned are linearly independent and span all continuous symmetries of the family, excluding the identity.",
  ["inputs"], "all models", "tests compare dimensions for a few families",
  [S], [("_reduce_hamiltonian / conserved_quantities / continuous_symmetries", S)], ["conserved_quantities", "continuous_symmetries"])
p("C42", "Null spaces, row reduction and diagonalisation are numerically accurate",
  "Computed null-space bases are orthonormal and span the null space within the tolerance; simultaneous diagonalisation yields common eigenspaces.",
  ["inputs"], "all matrices", "tests sample random matrices",
  [L], [("nullspace / rref / sparse_basis / simult_diag", L)], ["linalg"])
p("C43", "Bravais lattices are classified correctly",
  "The point group returned for a lattice is the complete holohedry of that lattice.",
  ["inputs"], "all lattices in 1-3 dimensions", "tests check one representative per type",
  [S, LLL], [("bravais_group_2d/3d, equals", S)], ["bravais_point_group"])
p("C44", "Generated Hamiltonian families are complete and linearly independent",
  "The family returned spans the whole space of Hamiltonians of the requested form with the given symmetries, without redundant members.",
  ["inputs"], "all symmetry sets", "tests compare a few known families",
  [H], [("constrain_family / remove_duplicates", H)], ["continuum_hamiltonian", "bloch_family"])
p("C45", "Conversions and substitution preserve the value of the Hamiltonian function",
  "For every numerical value of momenta and parameters a model, its symbolic form, its compiled function, its Bloch form and the result of substituting values evaluate to the same matrix.",
  ["inputs"], "all models and parameter values", "tests evaluate few points",
  [M], [("tosympy / lambdify / subs / _to_bloch_coeff", M)], ["Model.tosympy", "Model.lambdify", "Model.subs"])
p("C46", "Closest-vector search returns the true n closest lattice vectors",
  "The returned lattice vectors are exactly the n closest (or n distance shells) to the given point.",
  ["inputs"], "all bases and points", "tests sample few points",
  [LLL], [("cvp", LLL)], ["cvp"])
p("C47", "Prettifying preserves the span of a family",
  "The prettified family or generator set spans the same space as before up to the requested digits.",
  ["inputs"], "all families", "tests compare few families",
  [H, L], [("make_basis_pretty / sparse_basis / rref", H)], ["make_basis_pretty"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P))
