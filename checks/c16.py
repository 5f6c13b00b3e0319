"""C16: constraints on a family use every symmetry, every member and every term."""
from .modelval import *
from .c14 import summary, strip, lst, mentions
from sa import nd as NN

HGEN, LIN = 'hamiltonian_generator', 'linalg'
DIM = 2


def setup(ck):
    """Members and their images are letters; the keys of each are a letter of their own."""
    it = mkn(ck)

    def applied(it, args, kw, st, node):
        a = list(args) + list(kw.values())
        if len(a) != 2:
            return NotImplemented
        return atom('applied', (it.snap(a[0], st), it.snap(a[1], st)), 'x', (), 'Model')
    for c in ('PointGroupElement', 'ContinuousGroupGenerator'):
        it.summaries['groups.%s.apply' % c] = applied

    def ours(o):
        a = B.single_atom(o) if isinstance(o, Poly) else None
        return a if a is not None and a.name in ('member', 'applied') else None

    def attr(it, o, name, st, node=None):
        if ours(o) is None:
            return None
        return {'format': Ext('numpy.ndarray'), 'momenta': Tup(KS.items[:DIM]), 'shape': Tup([Const(2), Const(2)])}.get(name)
    it.attr_hook = attr

    def keys(it, o, a, k, st, node):
        at = B.single_atom(o) if isinstance(o, Poly) else None
        if at is None or at.name not in ('member', 'applied', 'around') or a or k:
            return NotImplemented
        return it.alloc(st, HSeq('set', [Seg((), TRUE, key_of(o))]))
    it.method_over['keys'] = keys

    def around(it, o, a, k, st, node):
        if ours(o) is None:
            return NotImplemented
        return atom('around', (it.snap(o, st),) + tuple(it.snap(x, st) for x in a) + tuple(it.snap(x, st) for x in k.values()), 'x', (), 'Model')
    it.method_over['around'] = around
    return it


def key_of(o):
    return atom('key', (o,), 's', ('sym',), 'sympy.Symbol')


def coef(m, k):
    return atom('coef', (m, k), 's', ('real',), 'float')


def member(i):
    return atom('member', (Const(i),), 'x', (), 'Model')


def pg(it, st, n):
    return it.alloc(st, HInst(it.func('groups', 'PointGroupElement'), {
        'R': mat('R%d' % n, 'np.ndarray'), 'conjugate': FALSE, 'antisymmetry': FALSE, 'U': mat('U%d' % n, 'np.ndarray'), '_strict_eq': FALSE}))


def cg(it, st, n, R=True):
    return it.alloc(st, HInst(it.func('groups', 'ContinuousGroupGenerator'), {
        'R': mat('R%d' % n, 'np.ndarray') if R else NONE, 'U': mat('U%d' % n, 'np.ndarray')}))


MIX = {'P': lambda it, st, n: pg(it, st, n), 'C': lambda it, st, n: cg(it, st, n), 'c': lambda it, st, n: cg(it, st, n, False)}
MIXES = ['P', 'C', 'c', 'PP', 'PC', 'CP', 'cC', 'PCP']


def matrix_attrs(it):
    """Sizes of the symbolic matrices of the elements."""
    old = it.attr_hook

    def attr(it, o, name, st, node=None):
        a = B.single_atom(o) if isinstance(o, Poly) else None
        if a is not None and name == 'shape' and a.name[:1] in 'RU' and a.name[1:].isdigit():
            n = Const(DIM if a.name[0] == 'R' else 2)
            return Tup([n, n])
        return old(it, o, name, st, node)
    it.attr_hook = attr


def check(ck):
    f = 'check_symmetry'
    w = where(ck, setup(ck), HGEN, f)
    for mix in MIXES:
        for nm in (1, 2):
            for digits in (False, True):
                def go(mix=mix, nm=nm, digits=digits):
                    it = setup(ck)
                    st = state()
                    gs = [MIX[c](it, st, i) for i, c in enumerate(mix)]
                    snaps = [it.snap(g, st) for g in gs]
                    ms = [member(i) for i in range(nm)]
                    kw = {'num_digits': atom('nd', (), 's', ('real', 'int'), 'int')} if digits else {}
                    v, s = absrun(it, it.func(HGEN, f), [lst(it, st, ms), lst(it, st, gs)], st, kw)
                    bad, hits = Verdict('eq'), 0
                    if v is None:
                        return Verdict('unk', 'not determined')
                    for cube, x in leaves(strip(v)):
                        if isinstance(x, Exc):
                            continue
                        hits += 1
                        for g, c in zip(snaps, mix):
                            for m in ms:
                                bad = worst([bad, tested(cube, g, c, m, kw.get('num_digits'))])
                    return bad if hits else Verdict('unk', 'no normal return')
                ck.ob('%s: symmetries %s, %d members%s' % (f, mix, nm, ', digits' if digits else ''), w, go)


def only_keys(y):
    return 'set{key(' == str(y)[:8] and {z.name for z in walk(y) if isinstance(z, Atom)} <= {'key', 'member', 'applied', 'around', 'nd', 'R0', 'U0', 'R1', 'U1', 'R2', 'U2'}


def tested(cube, g, c, m, nd):
    img = poly(atom('applied', (g, m), 'x', (), 'Model'))
    about = [(p, b) for p, b in cube if not isinstance(p, P) or mentions(p, img)]
    rounded = [poly(atom('around', (z, nd), 'x', (), 'Model')) for z in (img, poly(m))] if nd is not None else []
    for p, b in about:
        if isinstance(p, P) and not b and c != 'P' and p.name == 'nonempty' and poly(p.args[0]) in [img] + rounded[:1]:
            return Verdict('eq')
        if not isinstance(p, P) or not b:
            continue
        if p.name == 'eq':
            sides = [poly(y) for y in p.args]
            if c == 'P':
                want = {img, poly(m)}
                if set(sides) == want or nd is not None and set(sides) == set(rounded):
                    return Verdict('eq')
            elif img in sides or rounded and rounded[0] in sides:
                return Verdict('eq')
    # equalities between members and images that are not the required one
    if all(isinstance(p, P) and p.name == 'eq' and all(poly(y) is not None and names(poly(y)) <= {'member', 'applied', 'around'} or only_keys(y) for y in p.args)
           for p, b in about):
        return Verdict('ne', 'the check succeeds without testing this member against this symmetry', cube, Tup([g, m]))
    return Verdict('unk', 'form of the test', cube, Tup([g, m]))


def constrain(ck):
    f = 'constrain_family'
    w = where(ck, setup(ck), HGEN, f)
    for mix in MIXES:
        for nm in (1, 2, 3):
            def go(mix=mix, nm=nm):
                it = setup(ck)
                matrix_attrs(it)
                st = state()
                gs = [MIX[c](it, st, i) for i, c in enumerate(mix)]
                snaps = [it.snap(g, st) for g in gs]
                ms = [member(i) for i in range(nm)]
                got = []

                def vectors(d, st):
                    fam, ks = it.snap(d['family'], st), it.snap(d['all_keys'], st)
                    fam = items(fam)
                    if fam is None:
                        raise ValueError('family')
                    if ks == NONE:
                        ks = []
                        for x in fam:
                            for k in [key_of(x)]:
                                if k not in ks:
                                    ks.append(k)
                    else:
                        ks = items(ks)
                    return ND.back(from_rows([[coef(x, k) for k in ks] for x in fam]), 'np.ndarray')

                def null(d, st):
                    got.append(it.snap(d['A'], st))
                    return ND.back(from_rows([[real('v', i, j) for j in range(nm)] for i in range(2)]), 'np.ndarray')
                summary(it, LIN, 'family_to_vectors', vectors)
                summary(it, LIN, 'nullspace', null)
                v, s = absrun(it, it.func(HGEN, f), [lst(it, st, gs), lst(it, st, ms)], st, {})
                res = [Verdict('unk', 'equations not found')]
                if len(got) == 1:
                    rows = rows_of(got[0])
                    if rows is not None:
                        res = [equations(rows, snaps, mix, ms)]
                res.append(answer(strip(v), ms))
                return worst(res)
            ck.ob('%s: symmetries %s, %d members' % (f, mix, nm), w, go)


def from_rows(rows):
    return NN.from_nested(Tup([Tup(r) for r in rows]))


def items(x):
    if isinstance(x, Tup):
        return list(x.items)
    if isinstance(x, Seq):
        if all(not sg.binders and sg.guard == TRUE for sg in x.segs):
            return [sg.payload for sg in x.segs]
    return None


def names(q):
    """Names of the letters of a polynomial."""
    return {l[0].name for s, w in q.terms for l in [y[0] for y in s] + list(w)}


def rows_of(x):
    a = NN.of(x)
    if len(a.shape) != 2:
        return None
    return [[poly(a.at((i, j))) for j in range(a.shape[1])] for i in range(a.shape[0])]


def canon(row):
    """Equation up to sign."""
    if any(x is None for x in row):
        return None
    m = [poly(neg(x)) for x in row]
    return min(tuple(row), tuple(m), key=lambda r: [x.key() for x in r])


def equations(rows, snaps, mix, ms):
    """Every equation that has to hold is among the equations set up."""
    have = {canon(r) for r in rows}
    if None in have or any(n != 'coef' for r in rows for x in r for n in names(x)):
        return Verdict('unk', 'form of the equations')
    keys = [key_of(m) for m in ms]
    img = {(i, j): atom('applied', (g, m), 'x', (), 'Model') for i, g in enumerate(snaps) for j, m in enumerate(ms)}
    for i, c in enumerate(mix):
        # keys of the members and of their images under this symmetry
        for k in keys + [key_of(img[i, j]) for j in range(len(ms))]:
            # an infinitesimal image contains only its own keys
            if c != 'P' and k in keys:
                continue
            row = [poly(sub(coef(img[i, j], k), coef(m, k)) if c == 'P' else coef(img[i, j], k)) for j, m in enumerate(ms)]
            if canon(row) not in have:
                return Verdict('ne', 'the equation of this symmetry for this factor is missing', (), Tup([snaps[i], k]), Tup(rows[0]))
    return Verdict('eq')


def answer(v, ms):
    """Combinations with the solution coefficients, in the order of the members."""
    want = []
    for i in range(2):
        t = Const(0)
        for j, m in enumerate(ms):
            t = add(t, mul(real('v', i, j), m))
        want.append(poly(t))
    bad, full = Verdict('eq'), set()
    for cube, x in leaves(v):
        if isinstance(x, Exc):
            continue
        l = seqs(x)
        if l is None:
            bad = worst([bad, Verdict('unk', 'form of the result', cube, x)])
            continue
        if l and [poly(p) for p in l] == [poly(m) for m in ms]:
            if not any(not isinstance(p, P) or any(isinstance(a, Atom) and a.name == 'coef' for a in walk(p)) for p, b in cube):
                return Verdict('ne', 'the family is returned unconstrained without the equations being empty', cube, x)
            continue
        for p in l:
            q = poly(p)
            if q in want:
                full.add(q)
            elif q is None or names(q) - {'member', 'v'}:
                bad = worst([bad, Verdict('unk', 'form of a member', cube, p)])
            else:
                return Verdict('ne', 'a member of the result is not the combination solved for', cube, p, Tup(want))
    if bad.kind == 'eq' and full and full != set(want):
        return Verdict('ne', 'a solution is missing from the result', (), Tup(list(full)), Tup(want))
    return bad if full else worst([bad, Verdict('unk', 'no combination in the result')])


def seqs(x):
    if isinstance(x, Tup):
        return list(x.items)
    if isinstance(x, Seq):
        return [sg.payload for sg in x.segs] if all(not sg.binders for sg in x.segs) else None
    return None


def total(v, want):
    bad = Verdict('eq')
    for cube, x in leaves(v):
        q = poly(x)
        if q is None or names(q) - {'member', 'applied'}:
            bad = worst([bad, Verdict('unk', 'form of the result', cube, x)])
        elif q != poly(want):
            return Verdict('ne', 'not the average', cube, x, want)
    return bad


def average(ck):
    f = 'symmetrize_monomial'
    w = where(ck, setup(ck), HGEN, f)
    for n in (1, 2, 3, 4):
        def go(n=n):
            it = setup(ck)
            st = state()
            gs = [pg(it, st, i) for i in range(n)]
            v, s = absrun(it, it.func(HGEN, f), [member(0), lst(it, st, gs)], st, {})
            t = Const(0)
            for g in gs:
                t = add(t, atom('applied', (it.snap(g, st), member(0)), 'x', (), 'Model'))
            return total(strip(v), mul(rat(1, n), t))
        ck.ob('%s: %d operations' % (f, n), w, go)


def run(ck):
    ck.rule('check_symmetry returns normally only where every member was compared with its image under every symmetry')
    ck.rule('the linear system handed to the null space contains, for every symmetry and every key of members and images, the row g(H)-H (point group) or g(H) (continuous); its solutions are applied to the same members in the same order')
    ck.rule('symmetrising returns the average over all given operations')
    check(ck)
    constrain(ck)
    average(ck)
