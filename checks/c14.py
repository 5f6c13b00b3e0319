"""C14: every reported symmetry has been verified against the full Hamiltonian."""
from .modelval import *
from sa.interp import Ref
from sa.interp import AnchorMissing

SF, KL = 'symmetry_finder', 'kwant_linalg_lll'
MODEL = atom('H', (), 'x', (), 'Model')
S_ = mat('S', 'np.ndarray')


KEYS = ('key0', 'key1')     # symbolic factors of the model, and of what is obtained from it


def mentions(v, what):
    return any(x == what for x in walk(v))


def models(it, momenta=KS.items[:2]):
    """Letters stand for models; applying an operator gives a letter recording operator and model."""
    def applied(it, args, kw, st, node):
        a = list(args) + list(kw.values())
        if len(a) != 2:
            return NotImplemented
        return atom('applied', (it.snap(a[0], st), it.snap(a[1], st)), 'x', (), 'Model')
    for c in ('PointGroupElement', 'ContinuousGroupGenerator'):
        it.summaries['groups.%s.apply' % c] = applied

    def attr(it, o, name, st, node=None):
        a = B.single_atom(o) if isinstance(o, Poly) else None
        if a is not None and a.name in ('H', 'applied', 'reduced'):
            if name == 'format':
                return Ext('numpy.ndarray')
            if name == 'momenta':
                return Tup(momenta)
            if name == 'shape':
                return Tup([Const(2), Const(2)])
        return None
    it.attr_hook = attr

    def vanish(it, o, args, kw, st, node):
        a = B.single_atom(o) if isinstance(o, Poly) else None
        if a is None or a.name not in ('applied', 'H'):
            return NotImplemented
        d = it.bind_args(it.method('model', 'Model', 'allclose'), [o] + list(args), dict(kw), st)
        if d is None:
            return NotImplemented
        return pred(P('allclose', it.snap(o, st), *[it.snap(d[k], st) for k in ('other', 'rtol', 'atol')]))
    it.method_over['allclose'] = vanish

    def content(n):
        def h(it, o, args, kw, st, node):
            a = B.single_atom(o) if isinstance(o, Poly) else None
            if a is None or a.name not in ('applied', 'H', 'reduced'):
                return NotImplemented
            if n in ('values', 'keys', 'items'):
                ks = [atom(k, (), 's', ('sym',), 'sympy.Symbol') for k in (KEYS if a.name == 'applied' else KEYS[:1])]
                if n == 'keys':
                    return it.alloc(st, HSeq('set', [Seg((), TRUE, k) for k in ks]))
                vs = [it.lib.coef(o, k) if a.name == 'applied' else mat('V', 'np.ndarray') for k in ks]
                return lst(it, st, vs if n == 'values' else [Tup([k, x]) for k, x in zip(ks, vs)])
            return o
        return h
    for n in ('values', 'keys', 'items', 'eliminate_zeros', 'copy'):
        it.method_over[n] = content(n)


def small(x, top):
    c = poly(x).const() if poly(x) is not None else None
    return c is not None and c[1] == 0 and 0 <= c[0] <= top


def judge(v, it, checked, what):
    """checked(literal) -> True / None (mentions the operator in an unknown form) / False"""
    inner = v.args[0] if isinstance(v, Opq) and v.tag == 'taint' else v
    bad, n = Verdict('eq'), 0
    for cube, x in leaves(inner):
        if isinstance(x, Exc):
            continue
        n += 1
        for name, test in checked(x):
            r = [test(p, b) for p, b in cube]
            parts = {k for k in r if isinstance(k, str)}
            if parts >= set(KEYS):
                continue
            if parts:
                r = [k for k in r if not isinstance(k, str) and k is not None]
            if any(k is True for k in r):
                continue
            if any(k is None for k in r):
                bad = worst([bad, Verdict('unk', '%s: form of the test of %s' % (what, name), cube, x)])
            elif inner is not v and not any(isinstance(k, P) for k, _ in cube) and isinstance(x, Opq):
                bad = worst([bad, Verdict('unk', '%s: not determined' % what, cube, x)])
            else:
                return Verdict('ne', '%s: %s is reported without a test against the full data' % (what, name), cube, x)
    if not n:
        return Verdict('unk', what + ': no result')
    return bad


def discrete(ck):
    f = 'discrete_symmetries'
    w = where(ck, mkn(ck), SF, f)
    for conj in (FALSE, TRUE):
        for anti in (FALSE, TRUE):
            for kw in ({'generators': TRUE}, {}, {'verbose': TRUE}, {'Ps': True}, {'sparse_linalg': TRUE}, {'generators': TRUE, 'Ps': True}):
                def go(conj=conj, anti=anti, kw=kw):
                    it = mkn(ck)
                    models(it)
                    st = state()

                    def el(U):
                        return it.alloc(st, HInst(it.func('groups', 'PointGroupElement'), {
                            'R': ND.back(const([[-1, 0], [0, -1]]), 'ta.ndarray_int'), 'conjugate': conj, 'antisymmetry': anti, 'U': U, '_strict_eq': FALSE}))

                    def find(it, a, k, st, n):
                        b = it.bind_args(it.func(SF, '_find_unitary'), a, dict(k), st)
                        if b is None or not isinstance(b['g'], Ref):
                            return NotImplemented
                        fl = dict(it.get(st, b['g']).fields)
                        fl['U'] = S_
                        return it.alloc(st, HInst(it.func('groups', 'PointGroupElement'), fl))
                    it.summaries[SF + '._find_unitary'] = find
                    it.summaries[SF + '._reduce_hamiltonian'] = lambda it, a, k, st, n: lst(it, st, [mat('P')])
                    it.summaries['groups.generate_group'] = lambda it, a, k, st, n: it.lib.copy_value(it, a[0], st, n)
                    k2 = dict(kw)
                    if k2.get('Ps'):
                        k2['Ps'] = lst(it, st, [mat('P')])
                    c = it.alloc(st, HSeq('set', [Seg((), TRUE, el(NONE))]))
                    v, s = absrun(it, it.func(SF, f), [MODEL, c], st, k2)

                    def checked(x):
                        # elements of the answer that carry the unitary part found
                        ops = {y for y in walk(x) if isinstance(y, Rec) and y.cls.endswith('PointGroupElement') and mentions(y, poly(S_))}
                        return [(str(o)[:80], lambda p, b, o=o: verified(p, b, o)) for o in sorted(ops, key=lambda y: y.key())]

                    def verified(p, b, o):
                        ap = [y for y in walk(p) if isinstance(y, Atom) and y.name == 'applied']
                        if not ap:
                            return False
                        good = [y for y in ap if y.args[0] == o and poly(y.args[1]) == poly(MODEL)]
                        if not good:
                            return False
                        if p.name == 'eq' and b and {poly(p.args[0]), poly(p.args[1])} == {poly(MODEL), poly(letter(good[0]))}:
                            return True
                        if p.name == 'allclose' and b and {poly(p.args[0]), poly(p.args[1])} == {poly(MODEL), poly(letter(good[0]))}:
                            return small(p.args[2], Fraction(1, 10**4)) and small(p.args[3], Fraction(1, 10**5))
                        return None
                    return judge(v, it, checked, f)
                ck.ob('%s: conjugate=%s antisymmetry=%s %s' % (f, conj, anti, ', '.join(kw)), w, go)


def continuous(ck):
    f = 'continuous_symmetries'
    w = where(ck, mkn(ck), SF, f)
    for kw in ({'prettify': FALSE}, {'prettify': TRUE}, {'sparse_linalg': TRUE}, {'Ps': True}):
        for n in (1, 2):
            def go(kw=kw, n=n):
                it = mkn(ck)
                models(it)
                st = state()
                it.summaries[SF + '._reduce_hamiltonian'] = lambda it, a, k, st, nd: lst(it, st, [PS])
                it.summaries[SF + '._reduced_model'] = lambda it, a, k, st, nd: lst(it, st, [atom('reduced', (), 'x', (), 'Model')])
                it.summaries['model.Model'] = lambda it, a, k, st, nd: NotImplemented
                NV = ND.back(const([[1, 2, 0, 0], [0, 1, 1, 0]][:n]), 'np.ndarray')
                fam = lambda it, a, k, st, nd: mat('F', 'np.ndarray')
                for m in it.pkg.modules:
                    it.summaries[m + '.family_to_vectors'] = fam
                    it.summaries[m + '.nullspace'] = it.summaries[m + '.sparse_basis'] = lambda it, a, k, st, nd: NV

                def gen(it, a, k, st, nd):
                    d = it.bind_args(it.method('groups', 'ContinuousGroupGenerator', '__init__'), [NONE] + list(a), dict(k), st)
                    if d is None:
                        return NotImplemented
                    return it.alloc(st, HInst(it.func('groups', 'ContinuousGroupGenerator'), {'R': d['R'], 'U': d['U']}))
                it.summaries['groups.ContinuousGroupGenerator'] = gen
                k2 = dict(kw)
                if k2.get('Ps'):
                    k2['Ps'] = lst(it, st, [PS])
                v, s = absrun(it, it.func(SF, f), [MODEL], st, k2)

                def verified(p, b, o):
                    ap = [y for y in walk(p) if isinstance(y, Atom) and y.name == 'applied']
                    good = [y for y in ap if y.args[0] == o and poly(y.args[1]) == poly(MODEL)]
                    if not good:
                        return False
                    t = poly(letter(good[0]))
                    if p.name == 'allclose' and b and poly(p.args[0]) == t and p.args[1] == Const(0):
                        return small(p.args[3], Fraction(1, 10**5))
                    if p.name == 'eq' and b:
                        return True
                    if p.name == 'close' and b and poly(p.args[1]) == poly(Const(0)):
                        for k in KEYS:
                            if poly(p.args[0]) == poly(it.lib.coef(letter(good[0]), atom(k, (), 's', ('sym',), 'sympy.Symbol'))):
                                return k
                    return None

                def checked(x):
                    ops = {y for y in walk(x) if isinstance(y, Rec) and y.cls.endswith('ContinuousGroupGenerator')}
                    return [(str(o)[:80], lambda p, b, o=o: verified(p, b, o)) for o in sorted(ops, key=lambda y: y.key())]
                return judge(v, it, checked, f)
            ck.ob('%s: %d solutions, %s' % (f, n, ', '.join(kw)), w, go)


PS = ND.back(const([[[1, 0], [0, 1]]]), 'np.ndarray')


def element(it, st, R, conj=FALSE, anti=FALSE, U=NONE):
    return it.alloc(st, HInst(it.func('groups', 'PointGroupElement'), {
        'R': R, 'conjugate': conj, 'antisymmetry': anti, 'U': U, '_strict_eq': FALSE}))


def strip(v):
    return v.args[0] if isinstance(v, Opq) and v.tag == 'taint' else v


def has(it, mod, name):
    try:
        return bool(it.func(mod, name))
    except AnchorMissing:
        return False


def summary(it, mod, name, h):
    """Summary of a function for which the positional and keyword spellings are the same call."""
    if not has(it, mod, name):
        return

    def g(it, a, k, st, n):
        d = it.bind_args(it.func(mod, name), a, dict(k), st)
        return NotImplemented if d is None else h(d, st)
    it.summaries[mod + '.' + name] = g


def bravais(ck):
    f = 'bravais_point_group'
    w = where(ck, mkn(ck), SF, f)
    for dim in (1, 2, 3):
        for kw in ({}, {'generators': TRUE}, {'tr': TRUE, 'generators': TRUE}, {'ph': TRUE}, {'tr': TRUE, 'ph': TRUE}, {'verbose': TRUE, 'generators': TRUE}):
            def go(dim=dim, kw=kw):
                it = mkn(ck)
                st = state()
                eye = [[int(i == j) for j in range(dim)] for i in range(dim)]
                half = ND.back(const(eye), 'np.ndarray')
                both = ND.back(const([[-x for x in r] for r in eye] + eye), 'np.ndarray')
                summary(it, KL, 'voronoi', lambda d, st: ND.back(const(eye + [[-x for x in r] for r in eye]), 'np.ndarray'))
                summary(it, KL, 'lll', lambda d, st: Tup([d['basis'], mat('coefs', 'np.ndarray')]))
                summary(it, SF, 'equals', lambda d, st: Tup([mat('num'), mat('sets')]))

                def found(d, st):
                    return it.alloc(st, HSeq('set', [Seg((), TRUE, element(it, st, mat('F', 'np.ndarray')))]))
                for n in ('bravais_group_2d', 'bravais_group_3d'):
                    summary(it, SF, n, found)
                summary(it, SF, 'check_bravais_symmetry', lambda d, st: pred(P('lattice', it.snap(d['neighbors'], st), it.snap(d['group'], st))))
                summary(it, 'groups', 'generate_group', lambda d, st: atom('closure', (it.snap(d['gens'], st),), 'x', (), 'set'))
                v, s = absrun(it, it.func(SF, f), [half], st, dict(kw))

                def checked(x):
                    ops = {y for y in walk(x) if isinstance(y, Rec) and y.cls.endswith('PointGroupElement')}
                    if not ops or dim > 1 and not any(mentions(o, poly(mat('F', 'np.ndarray'))) for o in ops):
                        return [('the generators', lambda p, b: None)]
                    return [(str(o)[:80], lambda p, b, o=o: verified(p, b, o)) for o in sorted(ops, key=lambda y: y.key())]

                def verified(p, b, o):
                    if p.name == 'lattice':
                        if b and mentions(p.args[1], o):
                            return True if p.args[0] in (half, both) else None
                        return None if mentions(p.args[1], o) and not b else False
                    return None if mentions(p, o) else False
                return judge(v, it, checked, f)
            ck.ob('%s: %dD %s' % (f, dim, ', '.join(kw)), w, go)


def lattice(ck):
    """check_bravais_symmetry answers yes only after comparing the transformed lattice for every element."""
    f = 'check_bravais_symmetry'
    it0 = mkn(ck)
    if not has(it0, SF, f):
        return
    w = where(ck, it0, SF, f)
    for n in (1, 2, 3):
        def go(n=n):
            it = mkn(ck)
            st = state()
            it.summaries['model.BlochCoeff'] = lambda it, a, k, st, nd: Tup([it.snap(x, st) for x in a])
            Rs = [mat('R%d' % i, 'np.ndarray') for i in range(n)]
            g = lst(it, st, [element(it, st, R) for R in Rs])
            v, s = absrun(it, it.func(SF, f), [ND.back(const([[1, 0], [0, 1]]), 'np.ndarray'), g], st, {})
            bad, hits = Verdict('eq'), 0
            for cube, x in leaves(strip(v)):
                if isinstance(x, P):
                    cube, x = tuple(cube) + ((x, True),), TRUE
                if x == FALSE or isinstance(x, Exc):
                    continue
                hits += 1
                if x != TRUE:
                    bad = worst([bad, Verdict('unk', 'form of the answer', cube, x)])
                    continue
                for R in Rs:
                    about = [(p, b) for p, b in cube if isinstance(p, P) and mentions(p, poly(R)) or not isinstance(p, P)]
                    if any(isinstance(p, P) and p.name == 'eq' and b for p, b in about):
                        continue
                    if about:
                        bad = worst([bad, Verdict('unk', 'form of the comparison', cube, x)])
                    else:
                        return Verdict('ne', 'an element is accepted without comparing the lattice it maps to', cube, R)
            return bad if hits else Verdict('unk', 'no accepting path')
        ck.ob('%s: %d elements' % (f, n), w, go)


def about(p, v):
    return mentions(p, v) or str(v) in str(p)


def reduction(ck):
    f = 'lll'
    w = where(ck, mkn(ck), KL, f)
    for kw in ({}, {'c': rat(3, 2)}):
        def go(kw=kw):
            it = mkn(ck)
            st = state()
            Bas = mat('B', 'np.ndarray')
            summary(it, KL, 'is_c_reduced', lambda d, st: pred(P('reduced', it.snap(d['vecs'], st), d['c'])))

            def close_(it, a, k, st, n):
                t = dict(zip(('rtol', 'atol'), list(a[2:])))
                t.update({x: y for x, y in k.items() if x in ('rtol', 'atol')})
                return pred(P('allclose', it.snap(a[0], st), it.snap(a[1], st), t.get('rtol', rat(1, 10**5)), t.get('atol', rat(1, 10**8))))
            it.ext_over['numpy.allclose'] = it.ext_over['numpy.isclose'] = close_
            v, s = absrun(it, it.func(KL, f), [Bas], st, dict(kw))
            c = kw.get('c', rat(67, 50))
            bad, hits = Verdict('eq'), 0
            for cube, x in leaves(strip(v)):
                if isinstance(x, Exc):
                    continue
                hits += 1
                if not isinstance(x, Tup) or len(x.items) != 2:
                    bad = worst([bad, Verdict('unk', 'form of the result', cube, x)])
                    continue
                vec, coef = x.items
                if vec == Bas:
                    continue
                red = [(p, b) for p, b in cube if not isinstance(p, P) or mentions(p, vec) and p.name not in ('close', 'allclose') or p.name == 'reduced']
                if not any(isinstance(p, P) and p.name == 'reduced' and b and p.args[0] == vec and str(p.args[1]) == str(c) for p, b in red):
                    if all(isinstance(p, P) and p.name == 'reduced' for p, b in red):
                        return Verdict('ne', 'the basis is returned without having been found reduced', cube, vec)
                    bad = worst([bad, Verdict('unk', 'form of the reducedness test', cube, x)])
                rel = [(p, b) for p, b in cube if not isinstance(p, P) or p.name in ('close', 'allclose') or about(p, vec) and about(p, Bas)]
                good = [p for p, b in rel if isinstance(p, P) and p.name in ('close', 'allclose') and b and any('round' in str(q) for q in p.args[:2])
                        and about(p, vec)]
                if not good:
                    if not rel:
                        return Verdict('ne', 'the coefficients are returned without having been found integer', cube, coef)
                    bad = worst([bad, Verdict('unk', 'form of the integrality test', cube, x)])
                elif any(len(p.args) > 3 and not (small(p.args[2], Fraction(1, 1000)) and small(p.args[3], Fraction(1, 1000))) for p in good):
                    return Verdict('ne', 'tolerance of the integrality test', cube, coef)
            return bad if hits else Verdict('unk', 'no result')
        ck.ob('%s %s' % (f, ', '.join(kw)), w, go)


def through(ck):
    """symmetries() returns what the verifying searches returned."""
    f = 'symmetries'
    w = where(ck, mkn(ck), SF, f)
    for cont in (FALSE, TRUE):
        for gen in (FALSE, TRUE):
            def go(cont=cont, gen=gen):
                it = mkn(ck)
                models(it)
                st = state()
                tested = atom('verified', (), 'x', (), 'PointGroupElement')
                given = atom('given', (), 'x', (), 'PointGroupElement')
                summary(it, SF, '_reduce_hamiltonian', lambda d, st: lst(it, st, [mat('P')]))
                summary(it, SF, 'conserved_quantities', lambda d, st: lst(it, st, [atom('conserved', (), 'x', (), 'ContinuousGroupGenerator')]))
                summary(it, SF, 'continuous_symmetries', lambda d, st: lst(it, st, [atom('rotation', (), 'x', (), 'ContinuousGroupGenerator')]))
                summary(it, SF, 'discrete_symmetries', lambda d, st: Tup([it.alloc(st, HSeq('set', [Seg((), TRUE, tested)])), lst(it, st, [mat('P')])]))
                v, s = absrun(it, it.func(SF, f), [MODEL, lst(it, st, [given])], st, {'continuous_rotations': cont, 'generators': gen})
                bad, hits = Verdict('eq'), 0
                for cube, x in leaves(strip(v)):
                    if isinstance(x, Exc):
                        continue
                    if not isinstance(x, Tup) or len(x.items) != 2:
                        bad = worst([bad, Verdict('unk', 'form of the result', cube, x)])
                        continue
                    hits += 1
                    if mentions(x.items[0], poly(given)):
                        return Verdict('ne', 'an untested candidate is reported', cube, x)
                    if not mentions(x.items[0], poly(tested)):
                        bad = worst([bad, Verdict('unk', 'form of the result', cube, x)])
                return bad if hits else Verdict('unk', 'no result')
            ck.ob('%s: continuous_rotations=%s generators=%s' % (f, cont, gen), w, go)


def run(ck):
    ck.rule('every reported operator is guarded, on every normally returning path, by a comparison of its action on the full model')
    ck.rule('point groups are returned only where the lattice check of all returned generators succeeded; reduced bases only where integrality and reducedness succeeded')
    discrete(ck)
    continuous(ck)
    bravais(ck)
    lattice(ck)
    reduction(ck)
    through(ck)
