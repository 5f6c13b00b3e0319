"""C26: the search for the unitary part solves the documented equations."""
from .modelval import *
from .c14 import summary, strip, lst, mentions
from .c16 import names, from_rows, rows_of, items
import itertools
from sa import nd as NN
from sa import lib as L

LIN, SF = 'linalg', 'symmetry_finder'


def cplx(n, *ix):
    """Complex number in terms of its real and imaginary part."""
    return add(real(n + 'r', *ix), mul(T.I if hasattr(T, 'I') else imag_unit(), real(n + 'i', *ix)))


def imag_unit():
    return Poly({((), ()): (Fraction(0), Fraction(1))}, 's', 'complex')


def cmat(name, n, m=None):
    return NN.build((n, m or n), lambda ix: cplx(name, *ix))


def is_real(p):
    return poly(T.conj(p)) == poly(p)


def parts(p):
    """Real and imaginary part of a polynomial in real letters."""
    half = Fraction(1, 2)
    c = T.conj(p)
    re = mul(rat(1, 2), add(p, c))
    im = mul(Poly({((), ()): (Fraction(0), -half)}, 's', 'complex'), sub(p, c))
    return [poly(re), poly(im)]


def upto_sign(p):
    m = poly(neg(p))
    return min(p, m, key=lambda x: x.key())


def equations(ck):
    f = 'solve_mat_eqn'
    w = where(ck, mkn(ck), LIN, f)
    for n in (1, 2):
        for m in (1, 2):
            for her in (FALSE, TRUE):
                for tl in (FALSE, TRUE):
                    for conj in (FALSE, TRUE, 'mixed'):
                        for same in (False, True):
                            if n == 1 and tl == TRUE or conj == 'mixed' and m == 1:
                                continue
                            ck.ob('%s: %d matrices of size %d, hermitian=%s traceless=%s conjugate=%s%s' % (
                                f, m, n, her, tl, conj, ', HR=None' if same else ''), w,
                                lambda n=n, m=m, her=her, tl=tl, conj=conj, same=same: solve(ck, n, m, her, tl, conj, same))


def solve(ck, n, m, her, tl, conj, same, sparse=None, kind='np.ndarray'):
    it = mkn(ck)
    st = state()
    got = []
    cj = [conj == TRUE or conj == 'mixed' and i == 0 for i in range(m)]

    def null(d, st):
        A_ = NN.of(it.snap(d['A'], st))
        if len(A_.shape) != 2:
            raise ValueError('shape')
        re = all(is_real(x) for x in A_.data) and (her == TRUE or any(cj))
        got.append((A_, re))
        c = A_.shape[1]
        return ND.back(NN.build((1, c), lambda ix: real('v', *ix) if re else cplx('v', *ix)), 'np.ndarray')
    summary(it, LIN, 'nullspace', null)
    L = [cmat('l%d' % i, n) for i in range(m)]
    R = L if same else [cmat('r%d' % i, n) for i in range(m)]
    stack = lambda l: ND.back(NN.stack(l), 'np.ndarray')
    kw = {'hermitian': her, 'traceless': tl}
    if sparse is not None:
        kw['sparse'] = sparse
    if kind != 'np.ndarray':
        stack = lambda l: lst(it, st, [ND.back(x, kind) for x in l])
    if conj == 'mixed':
        kw['conjugate'] = lst(it, st, [TRUE if c else FALSE for c in cj])
    elif conj == TRUE:
        kw['conjugate'] = TRUE
    a = [stack(L)] + ([] if same else [stack(R)])
    v, s = absrun(it, it.func(LIN, 'solve_mat_eqn'), a, st, kw)
    if len(got) != 1:
        for cube, x in leaves(strip(v)):
            try:
                if not got and not isinstance(x, Exc) and NN.of(x).shape[:1] == (0,):
                    return Verdict('ne', 'no solutions are searched for', cube, x)
            except Exception:
                pass
        return Verdict('unk', 'equations not found')
    A_, re = got[0]
    c = A_.shape[1]
    vec = [real('v', 0, j) if re else cplx('v', 0, j) for j in range(c)]
    bad = Verdict('eq')
    n_ok = 0
    for cube, x in leaves(strip(v)):
        if isinstance(x, Exc):
            continue
        X = NN.of(x)
        if X.shape != (1, n, n):
            bad = worst([bad, Verdict('unk', 'form of the result', cube, x)])
            continue
        n_ok += 1
        X = [[X.at((0, i, j)) for j in range(n)] for i in range(n)]
        # solutions of the required kind
        if her == TRUE and any(poly(sub(X[i][j], T.conj(X[j][i]))).terms for i in range(n) for j in range(n)):
            return Verdict('ne', 'solutions are not Hermitian', cube, x)
        if tl == TRUE:
            t = Const(0)
            for i in range(n):
                t = add(t, X[i][i])
            if poly(t).terms:
                return Verdict('ne', 'solutions are not traceless', cube, x)
        # all matrices of that kind are covered
        want = (n * n - (1 if tl == TRUE else 0)) * (1 if her == TRUE or not re else 2)
        r = rank(X, c, re, vec)
        if r is None:
            bad = worst([bad, Verdict('unk', 'form of the basis', cube, x)])
        elif r != want:
            return Verdict('ne', 'the matrices tried do not span the space of the unknown (%d of %d)' % (r, want), cube, x)
        elif c != r:
            return Verdict('ne', 'the matrices tried are linearly dependent', cube, x)
        # the equations
        need = set()
        for i in range(m):
            Y = [[T.conj(y) for y in row] for row in X] if cj[i] else X
            for p in range(n):
                for q in range(n):
                    e = Const(0)
                    for k in range(n):
                        e = add(e, sub(mul(X[p][k], L[i].at((k, q))), mul(R[i].at((p, k)), Y[k][q])))
                    for y in (parts(e) if re else [poly(e)]):
                        if y.terms:
                            need.add(upto_sign(y))
        have = set()
        for i in range(A_.shape[0]):
            e = Const(0)
            for j in range(c):
                e = add(e, mul(A_.at((i, j)), vec[j]))
            if poly(e) is None:
                return Verdict('unk', 'form of the equations')
            if poly(e).terms:
                have.add(upto_sign(poly(e)))
        if any(k[:1] not in 'lrv' for y in have for k in names(y)):
            return Verdict('unk', 'form of the equations')
        if not need <= have:
            return Verdict('ne', 'an equation is missing', cube, Tup(sorted(have, key=lambda y: y.key())), sorted(need - have, key=lambda y: y.key())[0])
        if have - need:
            bad = worst([bad, Verdict('unk', 'additional equations', cube, x)])
    return bad if n_ok else Verdict('unk', 'no result')


def rank(X, c, re, vec):
    """Dimension of the space of X over the reals (re) or complex numbers."""
    cols = []
    for j in range(c):
        col = []
        for row in X:
            for x in row:
                p = poly(x)
                k = {}
                for (s, w), co in p.terms.items():
                    if w or len(s) != 1 or s[0][1] != 1:
                        return None
                    k[s[0][0][0]] = co
                a = poly(real('v', 0, j) if re else real('vr', 0, j))
                co = k.get(B.single_atom(a), (Fraction(0), Fraction(0)))
                if any(not isinstance(z, Fraction) for z in co):
                    return None
                col += list(co) if re else [co]
        cols.append(col)
    return gauss(cols, re)


def gauss(rows, re):
    if not re:
        rows = [[(x[0], x[1]) for x in r] for r in rows]
        mulc = lambda a, b: (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
        inv = lambda a: (a[0] / (a[0]**2 + a[1]**2), -a[1] / (a[0]**2 + a[1]**2))
        subc = lambda a, b: (a[0] - b[0], a[1] - b[1])
        nz = lambda a: a != (0, 0)
    else:
        mulc, inv, subc, nz = (lambda a, b: a * b), (lambda a: 1 / a), (lambda a, b: a - b), (lambda a: a != 0)
    rows, r = [list(x) for x in rows], 0
    for col in range(len(rows[0]) if rows else 0):
        p = next((i for i in range(r, len(rows)) if nz(rows[i][col])), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        k = inv(rows[r][col])
        rows[r] = [mulc(k, x) for x in rows[r]]
        for i in range(len(rows)):
            if i != r and nz(rows[i][col]):
                f = rows[i][col]
                rows[i] = [subc(x, mulc(f, y)) for x, y in zip(rows[i], rows[r])]
        r += 1
    return r


# --- the search for the unitary part -----------------------------------------------

ROT = {'twofold': [[-1, 0], [0, -1]], 'fourfold': [[0, -1], [1, 0]]}
# shapes (d, N, n) of the projectors
SHAPES = {'one block': [(1, 2, 2)], 'one doubled block': [(2, 2, 1)], 'two blocks': [(1, 2, 1), (1, 2, 1)],
          'two unequal blocks': [(1, 3, 2), (1, 3, 1)]}


def search(ck):
    f = 'discrete_symmetries'
    w = where(ck, mkn(ck), SF, f)
    for rn in ROT:
        for conj in (FALSE, TRUE):
            for anti in (FALSE, TRUE):
                for sn in SHAPES:
                    for off in ((False, True) if sn == 'two blocks' else (False,)):
                        ck.ob('%s: %s, conjugate=%s antisymmetry=%s, %s%s' % (f, rn, conj, anti, sn, ', exchanged' if off else ''), w,
                              lambda rn=rn, conj=conj, anti=anti, sn=sn, off=off: unitary(ck, rn, conj, anti, sn, off))


def mul_(*l):
    r = l[0]
    for x in l[1:]:
        r = NN.matmul(r, x)
    return r


def cj_(a):
    return a.map(T.conj)


def unitary(ck, rn, conj, anti, sn, off):
    it = mkn(ck)
    st = state()
    shapes = SHAPES[sn]
    Ps = [NN.build(sh, lambda ix, i=i: cplx('p%d' % i, *ix)) for i, sh in enumerate(shapes)]
    N = shapes[0][1]
    keys = [atom('sym:u%d' % i, (), 's', ('sym', 'real'), 'sympy.Symbol') for i in range(2)]
    mats = {'H': [cmat('h%d' % i, N) for i in range(2)], 'RH': [cmat('r%d' % i, N) for i in range(2)]}
    H, RH = (atom(n, (), 'x', (), 'Model') for n in ('H', 'RH'))

    def sub0(P):
        return NN.build(P.shape[1:], lambda ix: P.at((0,) + ix))
    p0 = [sub0(P) for P in Ps]
    left = [cj_(p) if conj == TRUE else p for p in p0]
    red = lambda p, m: mul_(NN.transpose(cj_(p)), m, p)
    wantL = [[red(p, m) for m in mats['RH']] for p in left]
    wantR = [[red(p, m) for m in mats['H']] for p in p0]
    calls, wrong = [], []

    def family(v, st):
        v = it.snap(v, st)
        l = [NN.of(x) for x in v.items] if isinstance(v, Tup) else None
        if l is None and isinstance(v, T.Seq):
            l = [NN.of(sg.payload) for sg in v.segs]
        if l is None:
            a = NN.of(v)
            l = [NN.build(a.shape[1:], lambda ix, k=k: a.at((k,) + ix)) for k in range(a.shape[0])]
        return [[poly(x) for x in a.data] for a in l]

    def find(l, table):
        return [i for i, ref in enumerate(table) if [[poly(x) for x in a.data] for a in ref] == l]

    def solve(d, st):
        hl = family(d['HL'], st)
        hr = family(d['HR'] if d['HR'] != NONE else d['HL'], st)
        j, i = find(hl, wantL), find(hr, wantR)
        if not i or not j or d['conjugate'] != FALSE or d['traceless'] != FALSE or d['hermitian'] != FALSE:
            voc = {n for l in hl + hr for x in l for n in names(x)}
            if all(n[:1] in 'phr' for n in voc):
                wrong.append(Verdict('ne', 'equations of the wrong matrices are solved (%s)' % ('left side' if not j else 'right side' if not i else 'kind of the unknown'),
                                     (), Tup([y for l in (hl if not j else hr) for y in l][:2])))
            else:
                wrong.append(Verdict('unk', 'form of the equations'))
            i, j = i or [0], j or [0]
        i, j = i[0], j[0]
        n = p0[i].shape[1]
        calls.append((i, j))
        if off and i == j:
            return ND.back(NN.build((0, n, n), lambda ix: Const(0)), 'np.ndarray')
        return ND.back(NN.build((1, n, n), lambda ix: cplx('s%d%d' % (i, j), *ix[1:])), 'np.ndarray')
    summary(it, LIN, 'solve_mat_eqn', solve)
    # generic data: the consistency tests of the solution succeed
    summary(it, LIN, 'prop_to_id', lambda d, st: Tup([TRUE, Const(1)]))
    plain = lambda l: not any(isinstance(y, Atom) and y.name[:2] in ('ei', 'de') + tuple(a + b for a in 'phrs' for b in '01') for x in l for y in walk(x))
    summary(it, LIN, 'allclose', lambda d, st: NotImplemented if plain([it.snap(x, st) for x in d.values()]) else TRUE)
    det = atom('det', (), 's', ('real',), 'float')
    for n in ('numpy.allclose', 'numpy.isclose'):
        it.ext_over[n] = lambda it, a, k, st, nd: NotImplemented if plain([it.snap(x, st) for x in a]) else FALSE if mentions(it.snap(a[0], st), det) else TRUE
    for n in ('scipy.linalg.det', 'numpy.linalg.det'):
        it.ext_over[n] = lambda it, a, k, st, nd: det
    for n in ('scipy.linalg.eigvalsh', 'numpy.linalg.eigvalsh'):
        it.ext_over[n] = lambda it, a, k, st, nd: mat('eig', 'np.ndarray')

    def applied(it, a, k, st, n):
        a = list(a) + list(k.values())
        g = it.get(st, a[0]).fields
        return RH if g['U'] == NONE else atom('applied', (it.snap(a[0], st), it.snap(a[1], st)), 'x', (), 'Model')
    it.summaries['groups.PointGroupElement.apply'] = applied

    def ours(o):
        a = B.single_atom(o) if isinstance(o, Poly) else None
        return a.name if a is not None and a.name in mats else None

    def hook(nm):
        def h(it, o, a, k, st, n):
            w = ours(o)
            if w is None:
                return NotImplemented
            if nm in ('eliminate_zeros', 'copy'):
                return o
            vs = [ND.back(x, 'np.ndarray') for x in mats[w]]
            if nm == 'keys':
                return it.alloc(st, HSeq('set', [Seg((), TRUE, x) for x in keys]))
            if nm == 'values':
                return lst(it, st, vs)
            if nm == 'items':
                return lst(it, st, [Tup([x, y]) for x, y in zip(keys, vs)])
            for x, y in zip(keys, vs):
                if a and poly(a[0]) == poly(x):
                    return y
            return NotImplemented
        return h
    for nm in ('eliminate_zeros', 'copy', 'keys', 'values', 'items', '__getitem__'):
        it.method_over[nm] = hook(nm)

    def attr(it, o, name, st, node=None):
        if ours(o) is None:
            return None
        return {'format': Ext('numpy.ndarray'), 'momenta': Tup(KS.items[:2]), 'shape': Tup([Const(N), Const(N)])}.get(name)
    it.attr_hook = attr
    summary(it, 'groups', 'generate_group', lambda d, st: d['gens'])
    g = it.alloc(st, HInst(it.func('groups', 'PointGroupElement'), {
        'R': ND.back(const(ROT[rn]), 'ta.ndarray_int'), 'conjugate': conj, 'antisymmetry': anti, 'U': NONE, '_strict_eq': FALSE}))
    v, s = absrun(it, it.func(SF, 'discrete_symmetries'), [H, it.alloc(st, HSeq('set', [Seg((), TRUE, g)]))], st,
                  {'Ps': lst(it, st, [ND.back(P, 'np.ndarray') for P in Ps]), 'generators': TRUE})
    bad = worst(wrong) if wrong else Verdict('eq')
    if bad.kind == 'ne':
        return bad
    if not calls:
        return Verdict('unk', 'no equations solved')
    # every pair of equal blocks (one of the two orders where the operator squares to one)
    for i, j in itertools.product(range(len(Ps)), repeat=2):
        if shapes[i] == shapes[j] and (i, j) not in calls and not (rn == 'twofold' and (j, i) in calls):
            return Verdict('ne', 'blocks %d and %d are not tried' % (i, j), (), Tup([Const(str(c)) for c in calls]))
    hits = 0
    for cube, x in leaves(strip(v)):
        if isinstance(x, Exc):
            continue
        gens = {y for y in walk(x) if isinstance(y, Rec) and y.cls.endswith('PointGroupElement')}
        for gr in sorted(gens, key=lambda y: y.key()):
            fl = {t.items[0].v: t.items[1] for t in gr.items}
            for n, y in (('conjugate', conj), ('antisymmetry', anti)):
                if fl[n] != y:
                    if isinstance(fl[n], Const):
                        return Verdict('ne', 'flag %s of the result' % n, cube, fl[n], y)
                    bad = worst([bad, Verdict('unk', 'flag', cube, fl[n])])
            R = NN.of(fl['R'])
            if [poly(y) for y in R.data] != [poly(Const(y)) for r in ROT[rn] for y in r]:
                return Verdict('ne', 'rotation of the result', cube, fl['R'])
            r = operator(fl['U'], Ps, conj, off, rn)
            if r.kind == 'ne':
                return r
            bad = worst([bad, r])
            hits += 1
    return bad if hits else worst([bad, Verdict('unk', 'no operator')])


def block(P, s, Q, conj):
    """sum over a of P_a s Q_a^+ (Q_a^T for antiunitary operators)"""
    tot = None
    for a in range(P.shape[0]):
        x = NN.build(P.shape[1:], lambda ix: P.at((a,) + ix))
        y = NN.build(Q.shape[1:], lambda ix: Q.at((a,) + ix))
        t = mul_(x, s, NN.transpose(y if conj == TRUE else cj_(y)))
        tot = t if tot is None else NN.ew(add, tot, t)
    return tot


def operator(U, Ps, conj, off, rn):
    """U is assembled from the solutions with the projectors of their equations."""
    U = NN.of(U)
    n = len(Ps)
    cands = []
    s = lambda i, j: NN.build((Ps[i].shape[2],) * 2, lambda ix: cplx('s%d%d' % (i, j), *ix))
    pairs = [[(0, 1), (1, 0)]] if off else [[(i, i) for i in range(n)]] + ([[(0, 1), (1, 0)]] if n == 2 and Ps[0].shape == Ps[1].shape else [])
    for perm in pairs:
        opts = []
        for i, j in perm:
            o = [s(i, j)]
            if rn == 'twofold' and i != j:
                # the solution of the opposite pair
                t = NN.transpose(s(j, i))
                o.append(t if conj == TRUE else cj_(t))
            # the normalisation of a block is a convention
            k = L.sqrt_(Const(Ps[i].shape[2]))
            opts.append([x for y in o for x in ((y, y.map(lambda e: mul(k, e))) if Ps[i].shape[2] > 1 else (y,))])
        for pick in itertools.product(*opts):
            tot = None
            for (i, j), b in zip(perm, pick):
                t = block(Ps[i], b, Ps[j], conj)
                tot = t if tot is None else NN.ew(add, tot, t)
            cands.append(tot)
    for c in cands:
        if c.shape == U.shape and [poly(y) for y in c.data] == [poly(y) for y in U.data]:
            return Verdict('eq')
    if any(poly(y) is None or any(m[:1] not in 'ps' for m in names(poly(y))) for y in U.data):
        return Verdict('unk', 'form of the unitary part')
    return Verdict('ne', 'the unitary part is not assembled from the solutions', (), U.data[0], cands[0].data[0])


def run(ck):
    ck.rule('the matrix handed to the null space, times the coefficients, is X HL - HR X (X* where requested) of the matrix X returned for these coefficients; X ranges over all matrices of the requested kind')
    ck.rule('the search solves X (P+ R(H) P) = (P+ H P) X for every pair of equal blocks (P* on the left for antiunitary operators); the result has the rotation and flags of the candidate and the unitary part assembled from the solutions')
    equations(ck)
    search(ck)
