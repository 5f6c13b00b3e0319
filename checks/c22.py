"""C22: documented invalid input is rejected before any result is produced."""
import ast, json, os
from .ndcommon import *
from .mcommon import Sc, M, KX, KY
from .mscen import Fmt, a, b
from .modelval import lst, KS
from sa import build as B

ERR = {'ValueError', 'TypeError', 'NotImplementedError', 'AssertionError', 'KeyError', 'IndexError', 'LinAlgError', 'AttributeError', 'Exception', 'RuntimeError', 'SymbolicError'}
DOC = {'ValueError', 'TypeError', 'NotImplementedError'}


def judge(v, docs=DOC, it=None, ignore=()):
    """Every outcome of the call is an exception of a documented kind."""
    lv = [(c, x) for c, x in leaves(v) if not (isinstance(x, Exc) and x.name in ignore)]
    bad = Verdict('eq')
    for cube, x in lv:
        if any(str(p) == 'eq(m, n)' and t for p, t in cube):
            continue    # n and m stand for different dimensions
        if isinstance(x, Exc):
            if x.name.split('.')[-1] in docs or x.name.split('.')[-1] not in ERR:
                continue
            bad = worst([bad, Verdict('ne', 'raises %s instead of %s' % (x.name, '/'.join(sorted(docs))), cube)])
            continue
        if any(isinstance(y, Exc) for _, y in lv) and any(str(p) != 'eq(m, n)' for p, _ in cube):
            bad = worst([bad, Verdict('unk', 'the condition of the error is not decided', cube, x)])
        elif isinstance(x, Opq) and x.tag == 'taint' or isinstance(x, Undef):
            if it is not None and not cube and not any(n.split('.')[-1] in docs | {'Exception'} and not inner(n, g) for g, n, _, _ in it.raises):
                return Verdict('ne', 'invalid input is accepted: no rejection is reachable from the call', cube)
            bad = worst([bad, Verdict('unk', 'result not determined: %s; rejections in reach: %s' % (str(x)[:200], sorted({'%s:%d' % (q, nd.lineno) for g, n, nd, q in it.raises} if it else ())), cube)])
        else:
            return Verdict('ne', 'invalid input is accepted, the call returns %s' % str(x)[:200], cube)
    return bad


def inner(n, g):
    return g == FALSE


def run(ck):
    ck.rule('abstract interpretation of every documented invalid combination: each outcome is an exception of a documented kind, none is a result')
    groups(ck)
    models(ck)
    finders(ck)
    generators(ck)
    rmt(ck)
    algebra(ck)


def raises(pkg):
    """Number of raise statements of every function of the package."""
    out = {}

    def visit(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                visit(c, q + '.' + c.name)
            else:
                if isinstance(c, ast.Raise):
                    out[q] = out.get(q, 0) + 1
                visit(c, q)
    for m, mod in pkg.modules.items():
        visit(mod.tree, m)
    return out


def stubs(ck, it, names, entry):
    """Skip workers that run after the validation. Only while no other function
    has more raise statements than when the list was made: a validation may have
    moved into any of them."""
    base = json.load(open(os.path.join(os.path.dirname(__file__), 'c22_raises.json')))
    if any(n > base.get(q, 0) for q, n in raises(ck.pkg).items() if q != entry):
        return
    for n in names:
        it.summaries[n] = lambda it, a, kw, st, node, n=n: Opq('stub', (Const(n),))


def case(ck, what, mod, name, build, docs=DOC, mk=mkn, stub=(), ignore=()):
    it0 = mk(ck)
    try:
        w = where(ck, it0, mod, *name.split('.'))
    except Exception as e:
        raise

    def go():
        it = mk(ck)
        stubs(ck, it, stub, mod + '.' + name)
        st = state()
        f, args, kws = build(it, st)
        v, s = absrun(it, f, args, st, kws)
        return judge(v, docs, it, ignore)
    ck.ob('%s: %s' % (name, what), w, go)


def call(mod, name, *args, **kw):
    def b(it, st):
        f = it.func(mod, name)
        return f, [x(it, st) if callable(x) and not isinstance(x, V) else x for x in args], {k: x(it, st) if callable(x) and not isinstance(x, V) else x for k, x in kw.items()}
    return b


def table_(rows):
    return ND.back(const(rows), 'np.ndarray')


HALF = rat(1, 2)
U2 = table_([[0, 1], [1, 0]])
SPINS = lambda it, st: lst(it, st, [ND.back(scale(HALF, p), 'np.ndarray') for p in PAULI])


def groups(ck):
    for spin, sn in ((HALF, 'number'), (Const(0), 'spin 0'), (SPINS, 'matrices')):
        case(ck, 'U and spin (%s)' % sn, 'groups', 'time_reversal', call('groups', 'time_reversal', Const(2), U2, spin))
        case(ck, 'U and spin (%s)' % sn, 'groups', 'time_reversal', call('groups', 'time_reversal', Const(3), U=U2, spin=spin))
        case(ck, 'U and spin, 2d (%s)' % sn, 'groups', 'rotation', call('groups', 'rotation', rat(1, 4), U=U2, spin=spin))
        case(ck, 'U and spin, 3d (%s)' % sn, 'groups', 'rotation', call('groups', 'rotation', rat(1, 4), Tup([Const(0), Const(0), Const(1)]), U=U2, spin=spin))
        case(ck, 'U and spin, 2d (%s)' % sn, 'groups', 'mirror', call('groups', 'mirror', Tup([Const(1), Const(0)]), U=U2, spin=spin))
        case(ck, 'U and spin, 3d (%s)' % sn, 'groups', 'mirror', call('groups', 'mirror', Tup([Const(1), Const(0), Const(0)]), U2, spin))
        for f in ('square', 'cubic', 'hexagonal'):
            for gen in (FALSE, TRUE):
                case(ck, 'ph and spin (%s)%s' % (sn, ', generators' if gen == TRUE else ''), 'groups', f, call('groups', f, ph=TRUE, spin=spin, generators=gen))
            case(ck, 'default ph and spin (%s)' % sn, 'groups', f, call('groups', f, tr=FALSE, spin=spin))
        for kw in ({'dim': Const(3)}, {'sympy_R': FALSE}, {'dim': Const(3), 'sympy_R': FALSE}):
            case(ck, 'ph and spin (%s), %s' % (sn, ', '.join(kw)), 'groups', 'hexagonal', call('groups', 'hexagonal', ph=TRUE, spin=spin, **kw))
    for ax in ([1, 0], [0, 1]):
        case(ck, 'axis with %d components' % len(ax), 'groups', 'rotation', call('groups', 'rotation', rat(1, 4), Tup([Const(x) for x in ax])))
    for d in (1, 4):
        case(ck, '%d dimensions' % d, 'groups', 'hexagonal', call('groups', 'hexagonal', Const(d), ph=FALSE))
    C = 'ContinuousGroupGenerator'
    bad = {'U not Hermitian': (None, [[0, 1], [2, 0]]), 'U antihermitian': (None, [[0, 1], [-1, 0]]), 'U with complex diagonal': (None, [[1j, 0], [0, 1]]),
           'U off-diagonal phase': (None, [[0, 1j], [1j, 0]]), 'R symmetric': ([[0, 1], [1, 0]], None), 'R real antisymmetric': ([[0, 1], [-1, 0]], None),
           'R Hermitian, not antisymmetric': ([[1, -1j], [1j, 0]], None), 'R imaginary symmetric': ([[0, 1j], [1j, 0]], None),
           'R valid, U not Hermitian': ([[0, -1j], [1j, 0]], [[0, 1], [2, 0]]), 'R not antisymmetric, U valid': ([[0, 1], [1, 0]], [[0, 1], [1, 0]]),
           'R upper triangle': ([[0, 1, 0], [0, 0, 0], [0, 0, 0]], None), 'R identity': ([[1, 0], [0, 1]], None), 'complex Hermitian R': ([[0, 1 - 1j], [1 + 1j, 0]], None)}
    for n, (R, U) in bad.items():
        case(ck, n, 'groups', C, call('groups', C, R=NONE if R is None else table_(R), U=NONE if U is None else table_(U)))
    for n, R, t in (('number', Const(1), None), ('none', NONE, None), ('text', Const('x'), None)):
        case(ck, 'rotation part: ' + n, 'groups', 'PointGroupElement', call('groups', 'PointGroupElement', R), mk=make, docs=DOC)

    def mix(R1, R2):
        def b(it, st):
            f = it.func('groups', 'PointGroupElement').lookup('__mul__')
            return f, [pge(it, st, '1', R=R1), pge(it, st, '2', R=R2)], {}
        return b
    case(ck, 'exact times floating point', 'groups', 'PointGroupElement.__mul__', mix('exact', 'float'), mk=make, stub=['groups.PointGroupElement'])
    case(ck, 'floating point times exact', 'groups', 'PointGroupElement.__mul__', mix('float', 'exact'), mk=make, stub=['groups.PointGroupElement'])
    for s in (rat(1, 4), rat(1, 3), rat(3, 4), rat(5, 4), rat(7, 3), rat(-1, 4)):
        case(ck, 'spin %s' % s, 'groups', 'spin_matrices', call('groups', 'spin_matrices', s), docs=DOC | {'AssertionError'})

    for d, l in ((1, 1), (4, 1), (2, 2), (3, 3), (3, 0)):
        case(ck, 'd=%d, l=%d' % (d, l), 'groups', 'L_matrices', call('groups', 'L_matrices', Const(d), Const(l)))

    def perm(p, n, act=None):
        def b(it, st):
            d = it.alloc(st, HSeq('dict', [Seg((), TRUE, Tup([Const(x), Const(y)])) for x, y in p]))
            no = it.alloc(st, HSeq('dict', [Seg((), TRUE, Tup([Const(x), Const(y)])) for x, y in n]))
            return it.func('groups', 'symmetry_from_permutation'), [table_([[1]]), d, no], {}
        return b
    P = 'symmetry_from_permutation'
    docs = DOC
    case(ck, 'values miss a site', 'groups', P, perm([('A', 'A'), ('B', 'A')], [('A', 1), ('B', 1)]), docs)
    case(ck, 'keys miss a site', 'groups', P, perm([('A', 'B')], [('A', 1), ('B', 1)]), docs)
    case(ck, 'unknown site in the permutation', 'groups', P, perm([('A', 'B'), ('B', 'A'), ('C', 'C')], [('A', 1), ('B', 1)]), docs)
    case(ck, 'site without permutation', 'groups', P, perm([('A', 'B'), ('B', 'A')], [('A', 1), ('B', 1), ('C', 1)]), docs)
    case(ck, 'unequal orbitals', 'groups', P, perm([('A', 'B'), ('B', 'A')], [('A', 1), ('B', 2)]), docs)
    case(ck, 'unequal orbitals in a cycle', 'groups', P, perm([('A', 'B'), ('B', 'C'), ('C', 'A')], [('A', 2), ('B', 2), ('C', 1)]), docs)


def plain(s, name):
    """Analyse the function itself, not its summary."""
    s.it.summaries.pop(name, None)
    return s


def cjudge(s, build, docs):
    v = build(s)
    return judge(v, docs, s.it)


def models(ck):
    def mcase(what, cls, meth, build, docs=DOC):
        s0 = Sc(ck, cls)
        w = where(ck, s0.it, 'model', cls, meth) if '.' not in meth else where(ck, s0.it, 'model', meth)

        def go():
            return judge(build(Sc(ck, cls)), docs)
        ck.ob('%s.%s: %s' % (cls, meth, what), w, go)
    K1, K2 = (KX, KY), (KY, KX)
    one = (KX,)
    for fmt in ('np.ndarray', 'np.complex128', 'sparse.csr_matrix'):
        if fmt not in M.FORMATS:
            fmt = [x for x in M.FORMATS if fmt.split('.')[-1] in x][0]
        f = Fmt(fmt)
        for m1, m2, n in ((K1, K2, 'order of momenta'), (K1, one, 'number of momenta')):
            mcase('different %s [%s]' % (n, fmt), 'Model', '__add__', lambda s, f=f, m1=m1, m2=m2: s.call(f.m(s, [(a, f.v('A'))], momenta=m1), '__add__', f.m(s, [(a, f.v('B'))], momenta=m2)))
            mcase('different %s, other factors [%s]' % (n, fmt), 'Model', '__add__', lambda s, f=f, m1=m1, m2=m2: s.call(f.m(s, [(a, f.v('A'))], momenta=m1), '__add__', f.m(s, [(b, f.v('B'))], momenta=m2)))
            mcase('different %s [%s]' % (n, fmt), 'Model', '__sub__', lambda s, f=f, m1=m1, m2=m2: s.call(f.m(s, [(a, f.v('A'))], momenta=m1), '__sub__', f.m(s, [(a, f.v('B'))], momenta=m2)))
            if not f.scalar:
                mcase('different %s [%s]' % (n, fmt), 'Model', '__matmul__', lambda s, f=f, m1=m1, m2=m2: s.call(f.m(s, [(a, f.v('A'))], momenta=m1), '__matmul__', f.m(s, [(a, f.v('B'))], momenta=m2)))
            if f.dense:
                mcase('different %s [%s]' % (n, fmt), 'Model', '__mul__', lambda s, f=f, m1=m1, m2=m2: s.call(f.m(s, [(a, f.v('A'))], momenta=m1), '__mul__', f.m(s, [(a, f.v('B'))], momenta=m2)))
        if not f.scalar:
            mcase('different shapes [%s]' % fmt, 'Model', '__add__', lambda s, f=f: s.call(f.m(s, [(a, f.v('A'))]), '__add__', f.m(s, [(b, f.v('B', 'm', 'm'))], sh=('m', 'm'))))
            mcase('array of another shape [%s]' % fmt, 'Model', '__add__', lambda s, f=f: s.call(f.m(s, [(a, f.v('A'))]), '__add__', f.v('B', 'm', 'm')))
            mcase('array of another shape, from the right [%s]' % fmt, 'Model', '__radd__', lambda s, f=f: s.call(f.m(s, [(a, f.v('A'))]), '__radd__', f.v('B', 'm', 'm')))
            mcase('array of another shape [%s]' % fmt, 'Model', '__setitem__', lambda s, f=f: s.call(f.m(s, [(a, f.v('A'))]), '__setitem__', b, f.v('B', 'm', 'm')))
            mcase('number added to matrices [%s]' % fmt, 'Model', '__add__', lambda s, f=f: s.call(f.m(s, [(a, f.v('A'))]), '__add__', Const(2)))
            mcase('number added to matrices, from the right [%s]' % fmt, 'Model', '__radd__', lambda s, f=f: s.call(f.m(s, [(a, f.v('A'))]), '__radd__', Const(2)))
        mcase('division by a symbol [%s]' % fmt, 'Model', '__truediv__', lambda s, f=f: s.call(f.m(s, [(a, f.v('A'))]), '__truediv__', b))
        mcase('division by a Model [%s]' % fmt, 'Model', '__truediv__', lambda s, f=f: s.call(f.m(s, [(a, f.v('A'))]), '__truediv__', f.m(s, [(b, f.v('B'))])))
    D_, S_ = Fmt('np.ndarray'), Fmt([x for x in M.FORMATS if 'csr' in x][0])
    mcase('dense and sparse', 'Model', '__add__', lambda s: s.call(D_.m(s, [(a, D_.v('A'))]), '__add__', S_.m(s, [(b, S_.v('B'))])))
    mcase('sparse and dense', 'Model', '__add__', lambda s: s.call(S_.m(s, [(a, S_.v('A'))]), '__add__', D_.m(s, [(b, D_.v('B'))])))
    mcase('entrywise product of sparse Models', 'Model', '__mul__', lambda s: s.call(S_.m(s, [(a, S_.v('A'))]), '__mul__', S_.m(s, [(b, S_.v('B'))])))
    mcase('matrix of another format', 'Model', '__setitem__', lambda s: s.call(D_.m(s, [(a, D_.v('A'))]), '__setitem__', b, S_.v('B')))
    mcase('onsite and hopping', 'Model', 'lambdify', lambda s: s.call(D_.m(s, [(a, D_.v('A'))]), 'lambdify', onsite=TRUE, hopping=TRUE))
    mcase('matrices of different shapes', 'Model', '__init__', lambda s: s.new('Model', s.dict([(a, D_.v('A')), (b, D_.v('B', 'm', 'm'))])))
    mcase('matrices of different formats', 'Model', '__init__', lambda s: s.new('Model', s.dict([(a, D_.v('A')), (b, S_.v('B'))])))
    mcase('dictionary with factors of both kinds', 'BlochModel', '__init__', lambda s: s.new('BlochModel', s.dict([(a, D_.v('A')), (M.bloch(mat('h', 'np.ndarray', ('real',)), b), D_.v('B'))])))
    mcase('symbolic transformation', 'BlochModel', 'transform_symbolic', lambda s: s.call(s.model([(M.bloch(mat('h', 'np.ndarray', ('real',)), b), D_.v('A'))]), 'transform_symbolic', s.user(lambda x: x)))
    mcase('numbers as momenta', 'Model', '__init__', lambda s: s.new('Model', s.dict([(a, D_.v('A'))]), momenta=s.list([Const(0), Const(1)])))

    for fmt in ('LinearOperator',):
        L_ = Fmt([x for x in M.FORMATS if fmt in x][0])
        mcase('values of format LinearOperator', 'Model', 'eliminate_zeros', lambda s, L_=L_: s.call(L_.m(s, [(a, L_.v('A'))]), 'eliminate_zeros'))
    for n, v in (('text', Const('A')), ('tuple', Tup([Const(1), Const(2)]))):
        mcase('matrix given as ' + n, 'Model', '__init__', lambda s, v=v: s.new('Model', s.dict([(a, v)])))
    mcase('matrix given as a list', 'Model', '__init__', lambda s: s.new('Model', s.dict([(a, s.list([Const(1), Const(2)]))])))
    h1 = mat('h', 'np.ndarray', ('real',))
    for n, hv, cv in (('hopping as tuple', Tup([Const(1), Const(0)]), b), ('number as coefficient', h1, Const(2)), ('text as coefficient', h1, Const('b')), ('sum as coefficient', h1, add(a, b)),
                      ('sum with a number as coefficient', h1, add(Const(1), b))):
        def bc(s, hv=hv, cv=cv):
            s.it.summaries.pop('model.BlochCoeff', None)
            return s.func('model', 'BlochCoeff', hv, cv)
        mcase(n, 'BlochCoeff', '__new__', bc)

    def cont(what, name, build, docs=DOC):
        s0 = Sc(ck)
        ck.ob('%s: %s' % (name, what), where(ck, s0.it, 'kwant_continuum', name), lambda: cjudge(plain(Sc(ck), 'kwant_continuum.' + name), build, docs))
    for k in ('1a', 'a b', 'lambda', 'if', '', 'a-b'):
        cont('name %r' % k, 'sympify', lambda s, k=k: s.func('kwant_continuum', 'sympify', Const('x + y'), s.dict([(Const(k), Const('c'))])))
    cont('a symbol as name', 'sympify', lambda s: s.func('kwant_continuum', 'sympify', Const('x + y'), s.dict([(a, Const('c'))])))
    cont('a bad name among good ones', 'sympify', lambda s: s.func('kwant_continuum', 'sympify', Const('x + y'), s.dict([(Const('c'), Const('d')), (Const('2d'), Const('c'))])))
    cont('onsite and hopping', 'lambdify', lambda s: s.func('kwant_continuum', 'lambdify', Const('x'), onsite=TRUE, hopping=TRUE))


def finders(ck):
    from .modelval import install

    def mk(ck):
        it = make(ck)
        return it
    fm = {k: v for k, v in M.FORMATS.items() if 'complex' in k or 'Linear' in k or 'linop' in k.lower()}
    for n in fm:
        for f in ('symmetries', 'discrete_symmetries', 'continuous_symmetries', '_find_unitary'):
            def b(it, st, f=f, n=n):
                m = M.model(it, st, [(a, M_val(n))], fmt=n, shape=() if 'complex' in n else ('n', 'n'))
                args = {'symmetries': [m, lst(it, st, [pge(it, st, '1', U=False)])], 'discrete_symmetries': [m, it.alloc(st, HSeq('set', [Seg((), TRUE, pge(it, st, '1', U=False))]))],
                        'continuous_symmetries': [m],
                        '_find_unitary': [m, lst(it, st, [mat('P')]), pge(it, st, '1', U=False)]}[f]
                fn_ = it.pkg.modules['symmetry_finder'].defs.get(f)
                return it.func('symmetry_finder', f), args, {}
            if f in ck.pkg.modules['symmetry_finder'].defs:
                case(ck, 'values of format %s' % n, 'symmetry_finder', f, b, mk=make)

    def bu(it, st):
        m = M.model(it, st, [(a, mat('A'))])
        return it.func('symmetry_finder', '_find_unitary'), [m, lst(it, st, [mat('P')]), pge(it, st, '1')], {}
    if '_find_unitary' in ck.pkg.modules['symmetry_finder'].defs:
        case(ck, 'candidate with a unitary part', 'symmetry_finder', '_find_unitary', bu, mk=make)


def M_val(n):
    return val_(n)


def val_(fmt):
    f = Fmt(fmt)
    return f.v('A')


def generators(ck):
    N2 = lambda it, st: it.alloc(st, HSeq('dict', [Seg((), TRUE, Tup([Const('A'), Const(1)]))]))
    hop = lambda it, st: lst(it, st, [Tup([Const('A'), Const('A'), Tup([Const(1), Const(0)])])])

    def bf(syms, norbs, hv=hop, **kw):
        def b(it, st):
            return it.func('hamiltonian_generator', 'bloch_family'), [hv(it, st), lst(it, st, syms(it, st)), norbs(it, st)], dict({'momenta': KS}, **kw)
        return b
    none = lambda it, st: []
    G_ = 'bloch_family'
    H = 'hamiltonian_generator.'
    LATE = [H + x for x in ('constrain_family', 'remove_duplicates', 'make_basis_pretty', 'symmetrize_monomial')] + ['groups.generate_group', 'model.Model', 'model.BlochModel', 'model.BlochCoeff']
    tupn = lambda it, st: lst(it, st, [Tup([Const('A'), Const(1)])])
    case(ck, 'number as norbs', 'hamiltonian_generator', G_, bf(none, lambda it, st: Const(2)), stub=LATE)
    case(ck, 'plain Model with floating-point rotations', 'hamiltonian_generator', G_, bf(lambda it, st: [pge(it, st, '1', R='float')], tupn), mk=make, stub=LATE)
    case(ck, 'plain Model with a floating-point rotation among exact ones', 'hamiltonian_generator', G_,
         bf(lambda it, st: [pge(it, st, '1', R='exact'), pge(it, st, '2', R='float')], tupn), mk=make, stub=LATE)

    def rot(it, st):
        c = it.alloc(st, HInst(it.func('groups', 'ContinuousGroupGenerator'), {'R': table_([[0, -1j], [1j, 0]]), 'U': table_([[1]])}))
        return [c]

    def rot2(it, st):
        c = it.alloc(st, HInst(it.func('groups', 'ContinuousGroupGenerator'), {'R': NONE, 'U': table_([[1]])}))
        return [c] + rot(it, st)
    for bl in (FALSE, TRUE):
        case(ck, 'continuous rotation%s' % (', Bloch' if bl == TRUE else ''), 'hamiltonian_generator', G_, bf(rot, tupn, bloch_model=bl), stub=LATE)
        case(ck, 'continuous rotation after a conserved quantity%s' % (', Bloch' if bl == TRUE else ''), 'hamiltonian_generator', G_, bf(rot2, tupn, bloch_model=bl), stub=LATE)
    case(ck, 'hopping vectors of different dimensions', 'hamiltonian_generator', G_, bf(none, tupn, hv=lambda it, st: lst(it, st, [
        Tup([Const('A'), Const('A'), Tup([Const(1), Const(0)])]), Tup([Const('A'), Const('A'), Tup([Const(1)])])])), docs=DOC | {'AssertionError'}, stub=LATE)
    for q in (0, 2, -2):
        case(ck, 'ph_square=%d' % q, 'hamiltonian_generator', 'continuum_pairing', call('hamiltonian_generator', 'continuum_pairing', lambda it, st: lst(it, st, [pge(it, st, '1')]),
             Const(2), Const(1), ph_square=Const(q)), mk=make, stub=LATE + ['groups.PointGroupElement', H + 'continuum_variables', 'linalg.matrix_basis', 'hamiltonian_generator.matrix_basis'])
    case(ck, 'fewer powers than dimensions', 'hamiltonian_generator', 'continuum_variables', call(
        'hamiltonian_generator', 'continuum_variables', Const(2), Const(2), all_powers=lambda it, st: lst(it, st, [lst(it, st, [Const(1)])])))


def rmt(ck):
    for f in ('gaussian', 'circular'):
        case(ck, 'unknown class', 'kwant_rmt', f, call('kwant_rmt', f, Const(4), Const('E')))
        case(ck, 'unknown class', 'kwant_rmt', f, call('kwant_rmt', f, Const(4), Const('a')))
        case(ck, 'no class', 'kwant_rmt', f, call('kwant_rmt', f, Const(4), Const('')))
        even = ('AII', 'CII', 'DIII', 'C', 'CI') + (('AIII', 'BDI') if f == 'gaussian' else ())
        for s in even:
            for n in (1, 3, 5):
                case(ck, 'odd size %d, class %s' % (n, s), 'kwant_rmt', f, call('kwant_rmt', f, Const(n), Const(s)))
    for n in (2, 6):
        case(ck, 'size %d, class CII' % n, 'kwant_rmt', 'gaussian', call('kwant_rmt', 'gaussian', Const(n), Const('CII')))
    for v in (Const('seed'), rat(1, 2), Tup([Const(1)])):
        case(ck, 'rng=%s' % v, 'kwant_rmt', 'ensure_rng', call('kwant_rmt', 'ensure_rng', v))
    for c, q in (('D', 0), ('D', 2), ('DIII', 0), ('DIII', -2), ('AIII', -1), ('AIII', 5), ('BDI', -1), ('BDI', 5), ('CII', -1), ('CII', 3)):
        case(ck, 'charge %d, size 4, class %s' % (q, c), 'kwant_rmt', 'circular', call('kwant_rmt', 'circular', Const(4), Const(c), Const(q)), ignore={'RuntimeError'})
    for f in ('t', 'p'):
        case(ck, 'unknown class', 'kwant_rmt', f, call('kwant_rmt', f, Const('B')))


def algebra(ck):
    eqn = lambda *m: (lambda it, st: lst(it, st, [table_(x) for x in m]))
    I2, I3 = [[1, 0], [0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    S = 'solve_mat_eqn'
    case(ck, 'shapes', 'linalg', S, call('linalg', S, eqn(I2), eqn(I3)))
    case(ck, 'second shapes', 'linalg', S, call('linalg', S, eqn(I2, I2), eqn(I2)))
    case(ck, 'not square', 'linalg', S, call('linalg', S, eqn([[1, 0]]), eqn([[1, 0]])))
    case(ck, 'number of conjugations', 'linalg', S, call('linalg', S, eqn(I2, I2), eqn(I2, I2), conjugate=lambda it, st: lst(it, st, [TRUE])))
    case(ck, 'matrices that do not commute', 'linalg', 'simult_diag', call('linalg', 'simult_diag', eqn([[0, 1], [1, 0]], [[1, 0], [0, -1]])))
    case(ck, 'one-dimensional basis', 'kwant_linalg_lll', 'lll', call('kwant_linalg_lll', 'lll', table_([1, 2])))
    case(ck, 'more vectors than dimensions', 'kwant_linalg_lll', 'lll', call('kwant_linalg_lll', 'lll', table_([[1], [2]])))
    case(ck, 'one-dimensional basis', 'kwant_linalg_lll', 'cvp', call('kwant_linalg_lll', 'cvp', table_([1, 2]), table_([1, 2])))
    case(ck, 'one-dimensional basis', 'kwant_linalg_lll', 'voronoi', call('kwant_linalg_lll', 'voronoi', table_([1, 2])))
