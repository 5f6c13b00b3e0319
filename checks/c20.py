"""C20: predefined operators act consistently on real space and on spin."""
import math
from .common import *
from sa.compare import compare, Verdict
from sa import arrays as AR
from sa import terms as T
from sa import ndlib as ND

VOC = set()     # letters of the spin matrices
PI = atom('pi', (), 's', ('real',), 'float')


def num(a, b=1):
    return simplify(Poly({((), ()): (Fraction(a, b), Fraction(0))}, 's', 'float'))


def ext(it, name, *args):
    """Value of a library function on analysed values (the same vocabulary as for the code)."""
    return L.EXT[name](it, list(args), {}, state(), None)


def dotted(vec, mats):
    r = None
    for v, m in zip(vec, mats):
        t = mul(v, m)
        r = t if r is None else add(r, t)
    return r


def expi(it, vec, mats):
    """exp(-i sum_k vec_k mats_k)"""
    return ext(it, 'scipy.linalg.expm', AR.norm(mul(Const(-1j), dotted(vec, mats))))


def lspace():
    """Reference generators of rotations of space: (L_k)_ij = -i eps_kij."""
    eps = lambda i, j, k: (i - j) * (j - k) * (k - i) // 2
    return [AR.mk([[Const(-1j * eps(k, i, j)) if eps(k, i, j) else Const(0) for j in range(3)] for i in range(3)]) for k in range(3)]


def canon(v):
    return lift(lambda x: AR.norm(x) if isinstance(x, Poly) else x, v)


def cmpv(a, b, vocab=()):
    a, b = canon(a), canon(b)
    names = lambda v: {x.name for x in walk(v) if isinstance(x, Atom)}
    r = compare(a, b, set(vocab) | VOC, 'strict')
    if r.kind == 'ne' and any(('expm' in names(a)) != ('expm' in names(b)) for _ in (0,)) and \
            {'expm', 'array', 'eye'} & names(a) and a != NONE and b != NONE and not any(isinstance(x, Exc) for _, x in leaves(a)):
        na, nb = names(a), names(b)
        if not (na & {'expm'} and not nb & {'expm', 'array', 'eye', 'outer'}) and not (nb & {'expm'} and not na & {'expm', 'array', 'eye', 'outer'}):
            r = Verdict('unk', 'matrix exponential in one form only', r.cube, a, b)
    return r


def cmp_el(v, want):
    fs = fields(v)
    if not fs:
        for _, x in leaves(v):
            if isinstance(x, Exc):
                return Verdict('ne', 'raises %s' % x.name, (), v, None)
        return Verdict('unk', 'no record', (), v, None)
    worst = Verdict('eq')
    for n, w in want.items():
        r = cmpv(fs[n], w) if n in fs else Verdict('unk', 'no field %s' % n)
        if r.kind != 'eq':
            r.why = 'field %s: %s' % (n, r.why)
        if r.kind == 'ne':
            return r
        if r.kind == 'unk' and worst.kind == 'eq':
            worst = r
    return worst


def gens_summary(it, args, kw, st, node):
    return atom('group', (it.snap(args[0], st),), 's', (), 'set')


def mkit(ck):
    return make(ck, **{'groups.generate_group': gens_summary})


def spins(ck):
    """[(name, argument, matrices of x, y, z or None)]"""
    out = [('none', NONE, None)]
    abc = [mat('S' + c, 'np.ndarray', ('hermitian',)) for c in 'xyz']
    out.append(('three matrices', Tup(abc), abc))
    it = mkit(ck)
    s = B.mul(num(1, 2), atom('s2', (), 's', ('real',), 'int'))
    v, st = absrun(it, it.func('groups', 'spin_matrices'), [s], state())
    l = L.layers(it.snap(v, st)) if not isinstance(v, Ite) else None
    if l is None:
        # rounding assertion of the spin: take the regular outcome
        for _, x in leaves(it.snap(v, st)):
            l = l or (L.layers(x) if isinstance(x, Poly) else None)
    if l is not None and len(l) == 3:
        out.append(('number', s, l))
    return out


AXES = [(1, 0), (0, 1), (-1, 0), (1, 1), (1, -1), (2, 0), (0, 0, 1), (1, 0, 0), (0, -1, 0), (1, 1, 0), (1, 0, -1), (1, 1, 1), (-1, 1, 1)]


def run(ck):
    ck.rule('R, U and the flags of every predefined operator equal the reference expressions for symbolic angle, axis, spin and '
            'dimension; explicit generator sets of the named groups are matched element by element with consistent operators; '
            'block positions of permutation symmetries are compared for symbolic block sizes')
    SP = spins(ck)
    for _, sv, sm in SP:
        for m in sm or ():
            VOC.update(x.name for x in walk(m) if isinstance(x, Atom))
    LS = lspace()
    th = atom('th', (), 's', ('real',), 'float')
    ax = [atom(c, (), 's', ('real',), 'float') for c in ('nx', 'ny', 'nz')]
    Ug = mat('U0', 'np.ndarray', ('unitary',))
    d = atom('d', (), 's', ('real',), 'int')
    F = FALSE

    def scen(fname, label, args, kw, want):
        it = mkit(ck)
        w = where(ck, it, 'groups', fname)

        def go():
            it = mkit(ck)
            v, s = absrun(it, it.func('groups', fname), args, state(), kw)
            wv = want(it)
            if isinstance(wv, dict):
                return cmp_el(it.snap(v, s), wv)
            return cmpv(it.snap(v, s), wv)
        ck.ob('%s: %s' % (fname, label), w, go)

    el = lambda R, U, c=F, a=F: {'R': R, 'U': U, 'conjugate': c, 'antisymmetry': a}
    tang = mul(mul(num(2), PI), th)
    for sn, sv, sm in SP:
        # rotations in the plane
        def w2(it, sm=sm):
            c, s = ext(it, 'numpy.cos', tang), ext(it, 'numpy.sin', tang)
            return el(AR.mk([[c, neg(s)], [s, c]]), expi(it, [Const(0), Const(0), tang], sm) if sm else NONE)
        scen('rotation', 'plane, spin %s' % sn, [th], {'spin': sv}, w2)
        for inv in (FALSE, TRUE):
            def w3(it, sm=sm, inv=inv):
                n = ext(it, 'numpy.linalg.norm', Tup(ax))
                v = [mul(mul(tang, x), B.power(n, Const(-1))) for x in ax]
                R = expi(it, v, LS)
                return el(neg(R) if inv == TRUE else R, expi(it, v, sm) if sm else NONE)
            scen('rotation', 'space%s, spin %s' % (', with inversion' if inv == TRUE else '', sn), [th, Tup(ax)],
                 {'inversion': inv, 'spin': sv}, w3)
        for dim in (2, 3):
            def wm(it, sm=sm, dim=dim):
                n = ext(it, 'numpy.linalg.norm', Tup(ax[:dim]))
                m1, m2 = B.power(n, Const(-1)), B.power(n, Const(-2))
                R = AR.mk([[sub(Const(int(i == j)), mul(mul(num(2), m2), mul(ax[i], ax[j]))) for j in range(dim)] for i in range(dim)])
                return el(R, expi(it, [mul(mul(PI, m1), x) for x in ax[:dim]] + [Const(0)] * (3 - dim), sm) if sm else NONE)
            scen('mirror', '%dD, spin %s' % (dim, sn), [Tup(ax[:dim])], {'spin': sv}, wm)
        scen('time_reversal', 'spin %s' % sn, [d], {'spin': sv},
             lambda it, sm=sm: el(fn('eye', [d], 'm'), expi(it, [Const(0), PI, Const(0)], sm) if sm else NONE, TRUE))
        if sm:
            scen('spin_rotation', 'spin %s' % sn, [Tup(ax), sv], {}, lambda it, sm=sm: expi(it, ax, sm))
    # particular directions and angles
    abc = SP[1][2]
    for vec in AXES:
        k = [Const(x) for x in vec]
        q = sum(x * x for x in vec)
        inv_n = B.power(L.sqrt_(Const(q)), Const(-1))

        def wm(it, k=k, q=q, i=inv_n):
            m = len(k)
            R = AR.mk([[sub(Const(int(r == c)), mul(num(2, q), mul(k[r], k[c]))) for c in range(m)] for r in range(m)])
            return el(R, expi(it, [mul(mul(PI, i), x) for x in k] + [Const(0)] * (3 - m), abc))
        scen('mirror', 'axis %s' % (vec,), [Tup(k)], {'spin': Tup(abc)}, wm)
        if len(vec) == 3:
            for a, (p_, q_) in (('1/2', (1, 2)), ('1/3', (1, 3)), ('-1/4', (-1, 4))):
                def wr(it, k=k, i=inv_n, p_=p_, q_=q_):
                    v = [mul(mul(mul(num(2 * p_, q_), PI), i), x) for x in k]
                    return el(expi(it, v, LS), expi(it, v, abc))
                scen('rotation', 'axis %s, angle %s' % (vec, a), [num(p_, q_), Tup(k)], {'spin': Tup(abc)}, wr)
    eye = fn('eye', [d], 'm')
    for un, uv in (('None', NONE), ('given', Ug)):
        scen('inversion', 'U %s' % un, [d], {'U': uv}, lambda it, u=uv: el(neg(eye), u))
        scen('time_reversal', 'U %s' % un, [d], {'U': uv}, lambda it, u=uv: el(eye, u, TRUE))
        scen('particle_hole', 'U %s' % un, [d], {'U': uv}, lambda it, u=uv: el(eye, u, TRUE, TRUE))
        scen('chiral', 'U %s' % un, [d], {'U': uv}, lambda it, u=uv: el(eye, u, F, TRUE))
    n = atom('n', (), 's', ('real',), 'int')
    scen('identity', 'without U', [d], {}, lambda it: el(eye, NONE))
    scen('identity', 'with U', [d, n], {}, lambda it: el(eye, fn('eye', [n], 'm')))
    scen('rotation', 'plane, U given', [th], {'U': Ug}, lambda it: {'U': Ug, 'conjugate': F, 'antisymmetry': F})
    scen('rotation', 'space, U given', [th, Tup(ax)], {'U': Ug}, lambda it: {'U': Ug, 'conjugate': F, 'antisymmetry': F})
    scen('mirror', 'U given', [Tup(ax)], {'U': Ug}, lambda it: {'U': Ug, 'conjugate': F, 'antisymmetry': F})
    groups(ck, SP, LS)
    perms(ck)
    directions(ck)


def nexp(m):
    """Exponential of a table of numbers."""
    n = len(m)
    mm = lambda a, b: [[sum(a[i][k] * b[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    q = max(0, math.ceil(math.log2(max(1e-9, sum(abs(x) for r in m for x in r)))) + 4)
    m = [[x / 2 ** q for x in r] for r in m]
    r = t = [[complex(i == j) for j in range(n)] for i in range(n)]
    for k in range(1, 20):
        t = [[x / k for x in row] for row in mm(t, m)]
        r = [[x + y for x, y in zip(a, b)] for a, b in zip(r, t)]
    for _ in range(q):
        r = mm(r, r)
    return [[x.real if abs(x.imag) < 1e-13 else x for x in row] for row in r]


def directions(ck):
    """Particular axes and angles, arrays by entries: the exponentials taken are recorded as symbols with their argument."""
    from . import ndcommon as NC
    S = [NC.nd.build((2, 2), lambda ix, c=c: NC.real('S' + c, *ix)) for c in 'xyz']

    def turn(v, a):
        """Rodrigues formula."""
        n = math.sqrt(sum(x * x for x in v))
        u, c, s = [x / n for x in v], math.cos(a), math.sin(a)
        K = [[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]]
        return NC.nd.build((3, 3), lambda ix: Const(c * (ix[0] == ix[1]) + s * K[ix[0]][ix[1]] + (1 - c) * u[ix[0]] * u[ix[1]]))
    vocab = {'Sx', 'Sy', 'Sz'}

    def ask(fname, args, kw, R, Uarg):
        it = NC.mkn(ck)
        cap = []

        def expm(it, a, k, st, node):
            x = NC.table(a[0])
            if x is None or x.ndim != 2:
                return NotImplemented
            c = [NC.nd.num(v) for v in x.data]
            if all(v is not None for v in c):
                m = nexp([c[i * x.shape[1]:(i + 1) * x.shape[1]] for i in range(x.shape[0])])
                return NC.nd.back(NC.nd.build(x.shape, lambda ix: Const(m[ix[0]][ix[1]])), 'np.ndarray')
            cap.append(x)
            n = len(cap)
            return NC.nd.back(NC.nd.build(x.shape, lambda ix: atom('exp%d' % n, tuple(Const(i) for i in ix), 's', (), 'float')),
                           'np.ndarray')
        it.ext_over['scipy.linalg.expm'] = it.ext_over['scipy.sparse.linalg.expm'] = expm
        v, s = absrun(it, it.func('groups', fname), args, state(), kw)
        if isinstance(v, Exc):
            return Verdict('ne', 'raises %s' % v.name)
        f = fields(it.snap(v, s))
        if not f or 'U' not in f or 'R' not in f:
            return Verdict('unk', 'no element')

        def expof(v, want, what):
            x = NC.table(v)
            if x is None:
                return Verdict('unk', 'no table for ' + what)
            names = {y.name for p in x.data for y in walk(p) if isinstance(y, Atom)}
            hit = [k for k in range(len(cap)) if 'exp%d' % (k + 1) in names]
            if len(hit) != 1:
                return Verdict('unk', '%s is not one exponential' % what)
            k = hit[0]
            y = NC.nd.build(cap[k].shape, lambda ix: atom('exp%d' % (k + 1), tuple(Const(i) for i in ix), 's', (), 'float'))
            if y.shape != x.shape or [str(p) for p in y.data] != [str(p) for p in x.data]:
                return Verdict('unk', '%s is derived from an exponential' % what)
            return NC.same(cap[k], want, vocab, why='exponent of %s' % what)
        l = [expof(f['U'], Uarg, 'U')]
        x = NC.table(f['R'])
        l.append(NC.same(x, R, set(), why='R') if x is not None else Verdict('unk', 'no table for R'))
        return NC.worst(l)

    def dot(v, mats):
        return NC.nd.build(mats[0].shape, lambda ix: mul(Const(-1j), add(add(mul(v[0], mats[0].at(ix)), mul(v[1], mats[1].at(ix))), mul(v[2], mats[2].at(ix)))))
    spin = lambda: NC.nd.back(NC.nd.stack(S), 'np.ndarray')
    it0 = NC.mkn(ck)
    for vec in AXES:
        q = sum(x * x for x in vec)
        inv_n = B.power(L.sqrt_(Const(q)), Const(-1))
        u = [mul(mul(PI, inv_n), Const(x)) for x in vec] + [Const(0)] * (3 - len(vec))
        n = len(vec)
        R = NC.nd.build((n, n), lambda ix, v=vec, q=q: num(q * (ix[0] == ix[1]) - 2 * v[ix[0]] * v[ix[1]], q))
        ck.ob('mirror: axis %s, entry by entry' % (vec,), where(ck, it0, 'groups', 'mirror'),
              lambda vec=vec, R=R, u=u: ask('mirror', [Tup([Const(x) for x in vec])], {'spin': spin()}, R, dot(u, S)))
        if len(vec) == 3:
            for p_, q_ in ((1, 2), (1, 3), (-1, 4), (1, 6), (5, 6), (1, 5), (1, 1)):
                u = [mul(mul(mul(num(2 * p_, q_), PI), inv_n), Const(x)) for x in vec]
                ck.ob('rotation: axis %s, angle %d/%d, entry by entry' % (vec, p_, q_), where(ck, it0, 'groups', 'rotation'),
                      lambda vec=vec, u=u, p_=p_, q_=q_: ask('rotation', [num(p_, q_), Tup([Const(x) for x in vec])], {'spin': spin()},
                                                             turn(vec, 2 * math.pi * p_ / q_), dot(u, S)))
                ck.ob('rotation: axis %s, angle %d/%d with inversion, entry by entry' % (vec, p_, q_), where(ck, it0, 'groups', 'rotation'),
                      lambda vec=vec, u=u, p_=p_, q_=q_: ask('rotation', [num(p_, q_), Tup([Const(x) for x in vec])],
                                                             {'spin': spin(), 'inversion': TRUE},
                                                             turn(vec, 2 * math.pi * p_ / q_).map(T.neg), dot(u, S)))
    for p_, q_ in ((1, 2), (1, 3), (-1, 4), (1, 6), (5, 6), (1, 1), (7, 6), (-1, 8)):
        a = 2 * math.pi * p_ / q_
        u = [Const(0), Const(0), mul(num(2 * p_, q_), PI)]
        ck.ob('rotation: plane, angle %d/%d, entry by entry' % (p_, q_), where(ck, it0, 'groups', 'rotation'),
              lambda u=u, a=a, p_=p_, q_=q_: ask('rotation', [num(p_, q_)], {'spin': spin()},
                                                 NC.const([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]), dot(u, S)))


def reference(it, name, sm, LS, tr, ph):
    """Generators: [(R, conjugate, antisymmetry, U or None)]"""
    z = Const(0)

    def rot(vec, dim, inv=False):
        v = [mul(x, PI) if x != z else z for x in vec]
        R = expi(it, v, LS)
        if dim == 2:
            e = AR.expl(R)
            R = AR.mk([r[:2] for r in e[:2]])
        return (neg(R) if inv else R, FALSE, FALSE, expi(it, v, sm) if sm else NONE)
    dim = 2 if name in ('square', 'hexagonal2') else 3
    third = mul(num(2, 9), L.sqrt_(Const(3)))
    mx = (AR.mk([[Const(-1), z], [z, Const(1)]]), FALSE, FALSE, expi(it, [PI, z, z], sm) if sm else NONE)
    I = (neg(fn('eye', [Const(3)], 'm')), FALSE, FALSE, expi(it, [z, z, z], sm) if sm else NONE)
    g = {'square': lambda: [mx, rot([z, z, num(1, 2)], 2)],
         'cubic': lambda: [I, rot([num(1, 2), z, z], 3), rot([third, third, third], 3)],
         'hexagonal2': lambda: [mx, rot([z, z, num(1, 3)], 2)],
         'hexagonal3': lambda: [I, rot([num(1), z, z], 3), rot([z, z, num(1, 3)], 3)]}[name]()
    one = AR.mk([[Const(int(i == j)) for j in range(dim)] for i in range(dim)])
    if tr:
        g.append((one, TRUE, FALSE, expi(it, [z, PI, z], sm) if sm else NONE))
    if ph:
        g.append((one, TRUE, TRUE, NONE))
    out = []
    for R, c, a, U in g:
        e = AR.expl(R)
        out.append((AR.mk(e) if e is not None else R, c, a, U))
    return out


def elements(v):
    """Explicit set of records -> [(R, conj, anti, U)] or None."""
    if not isinstance(v, SetV):
        return None
    out = []
    for s in v.segs:
        if not isinstance(s, Seg) or s.binders or s.guard != TRUE or not isinstance(s.payload, Rec):
            return None
        f = fields(s.payload)
        if not {'R', 'U', 'conjugate', 'antisymmetry'} <= set(f):
            return None
        e = AR.expl(f['R'])
        if e is None:
            return None
        out.append((AR.mk(e), f['conjugate'], f['antisymmetry'], f['U']))
    return out


def emulx(a, b):
    return [[AR.dot(r, [y[k] for y in b]) for k in range(len(b[0]))] for r in a]


def rkey(e):
    return tuple(tuple(poly(x).key() for x in r) for r in e)


def closure(els, limit=64):
    """Explicit finite group generated by explicit matrices (entries in Q(sqrt2, sqrt3))."""
    todo, seen = list(els), {rkey(e): e for e in els}
    while todo:
        x = todo.pop()
        for g in els:
            y = emulx(x, g)
            if rkey(y) not in seen:
                if len(seen) >= limit:
                    return None
                seen[rkey(y)] = y
                todo.append(y)
    return seen


def orthogonal(e):
    t = emulx(e, [list(r) for r in zip(*e)])
    return all(poly(t[i][j]).const() == (Fraction(int(i == j)), Fraction(0)) for i in range(len(e)) for j in range(len(e)))


def catalogue(it, dim, sm, LS):
    """{R: [U, ...]} of rotations, rotoinversions and mirrors with documented spin action."""
    out = {}

    def put(e, U):
        out.setdefault(rkey(e), []).append(U)
    z = Const(0)
    axes = [(0, 0, 1)] if dim == 2 else [(a, b, c) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if (a, b, c) != (0, 0, 0)]
    for ax in axes:
        nrm = L.sqrt_(Const(sum(x * x for x in ax)))
        inv = B.power(nrm, Const(-1))
        for t in (Fraction(0), Fraction(1, 6), Fraction(1, 4), Fraction(1, 3), Fraction(1, 2), Fraction(2, 3), Fraction(3, 4), Fraction(5, 6)):
            for sg in (1, -1):
                v = [mul(mul(num(2 * sg * t.numerator * x, t.denominator), PI), inv) if x and t else z for x in ax]
                e = AR.expl(expi(it, v, LS)) if t else [[Const(int(i == j)) for j in range(3)] for i in range(3)]
                if e is None:
                    continue
                U = expi(it, v, sm)
                if dim == 2:
                    put([r[:2] for r in e[:2]], U)
                else:
                    put(e, U)
                    put([[neg(x) for x in r] for r in e], U)
    if dim == 2:
        for k in range(24):
            c, s_ = L.cos_const(Fraction(k, 24)), L.cos_const(Fraction(k, 24) - Fraction(1, 4))
            if c is None or s_ is None:
                continue
            n = [c, s_]
            e = [[sub(Const(int(i == j)), mul(Const(2), mul(n[i], n[j]))) for j in range(2)] for i in range(2)]
            put(e, expi(it, [mul(PI, c), mul(PI, s_), z], sm))
    return out


def match(it, v, ref, tr, ph, sm, LS):
    """Every reference generator present with its unitary part; other generators
    must be consistent operators that generate the same group."""
    v = v if not isinstance(v, Poly) or B.single_atom(v) is None or B.single_atom(v).name != 'group' else B.single_atom(v).args[0]
    els = elements(v)
    if els is None:
        for _, x in leaves(v):
            if isinstance(x, Exc):
                return Verdict('ne', 'raises %s' % x.name, (), v, None)
        return Verdict('unk', 'generators not explicit', (), v, None)
    other, miss = [], list(range(len(ref)))
    for R, c, a, U in els:
        if c not in (TRUE, FALSE) or a not in (TRUE, FALSE):
            return Verdict('unk', 'flags of a generator', (), Tup([c, a]), None)
        if (c, a) == (TRUE, FALSE) and not tr and not ph:
            return Verdict('ne', 'antiunitary generator without tr', (), U, None)
        if a == TRUE and not ph:
            return Verdict('ne', 'antisymmetric generator without ph', (), U, None)
        for i, (R2, c2, a2, U2) in enumerate(ref):
            if R == R2 and (c, a) == (c2, a2):
                r = cmpv(U, U2)
                if r.kind == 'ne' and U != NONE and U2 != NONE and ident(U) and ident(U2):
                    r = Verdict('eq')
                if r.kind != 'eq' and (sm is None or U == NONE or c == TRUE):
                    r.why = 'unitary part of the generator with R = %r: %s' % (R, r.why)
                    return r
                if r.kind != 'eq':
                    other.append((R, c, a, U))
                if i in miss:
                    miss.remove(i)
                break
        else:
            other.append((R, c, a, U))
    if not other and miss:
        return Verdict('ne', 'missing generator %r' % (ref[miss[0]],), (), v, None)
    if not other:
        return Verdict('eq')
    dim = len(AR.expl(ref[0][0]))
    es = []
    for R, c, a, U in els:
        e = AR.expl(R)
        if len(e) != dim or len(e[0]) != dim:
            return Verdict('ne', 'generator %r has the wrong dimension' % (R,), (), R, None)
        if any(not plain(x) for r in e for x in r):
            return Verdict('unk', 'generator %r' % (R,), (), R, None)
        if not orthogonal(e):
            return Verdict('ne', 'R of a generator is not orthogonal: %r' % (R,), (), R, None)
        es.append(e)
    full = closure([AR.expl(r[0]) for r in ref])
    got = closure(es)
    if full is None:
        return Verdict('unk', 'closure')
    if got is None or set(got) - set(full):
        return Verdict('ne', 'the rotations of the generators are outside the documented group', (), v, None)
    if set(full) - set(got):
        return Verdict('ne', 'the generators generate %d of the %d rotations of the group' % (len(got), len(full)), (), v, None)
    flags = {(c == TRUE, a == TRUE) for _, c, a, _ in els}
    if len(spanflags(flags)) != len(spanflags({(r[1] == TRUE, r[2] == TRUE) for r in ref})):
        return Verdict('ne', 'flags of the generators', (), v, None)
    cat = catalogue(it, dim, sm, LS) if sm is not None else None
    for R, c, a, U in other:
        if sm is None:
            if U != NONE:
                return Verdict('unk', 'unitary part without spin', (), U, None)
            continue
        if U == NONE:
            return Verdict('ne', 'generator with R = %r has no unitary part although spin is given' % (R,), (), U, None)
        us = cat.get(rkey(AR.expl(R)))
        if us is None or (c, a) != (FALSE, FALSE):
            return Verdict('unk', 'no reference for R = %r' % (R,), (), U, None)
        rs = [cmpv(U, u) for u in us]
        if any(r.kind == 'eq' for r in rs) or ident(U) and any(ident(u) for u in us):
            continue
        k = [r for r in rs if r.kind == 'unk']
        if k:
            return k[0]
        return Verdict('ne', 'unitary part of the generator with R = %r belongs to another rotation' % (R,), (), U, us[0])
    if len(other) and any(True for i in miss):
        # other consistent operators generating the same rotations and flags
        return Verdict('eq')
    return Verdict('eq')


def plain(x):
    p = poly(x)
    return p is not None and all(not w and c[1] == 0 and all(a.name == 'sqrt' for (a, _), _e in s) for (s, w), c in p.terms.items())


def spanflags(f):
    s = {(False, False)} | set(f)
    while True:
        n = s | {(a[0] ^ b[0], a[1] ^ b[1]) for a in s for b in s}
        if n == s:
            return s
        s = n


def ident(U):
    a = B.single_atom(U) if isinstance(U, Poly) else None
    return a is not None and (a.name == 'eye' or a.name == 'expm' and poly(a.args[0]) is not None and B.is_zero(poly(a.args[0])))


def groups(ck, SP, LS):
    for name in ('square', 'cubic', 'hexagonal2', 'hexagonal3'):
        for sn, sv, sm in SP:
            for tr in (True, False):
                for ph in ((True, False) if sm is None else (False,)):
                    for g in (True, False):
                        for ex in ((True, False) if name.startswith('hex') else (None,)):
                            fname = name.rstrip('23')
                            it = mkit(ck)
                            w = where(ck, it, 'groups', fname)
                            kw = {'tr': truth(Const(tr)), 'ph': truth(Const(ph)), 'generators': truth(Const(g)), 'spin': sv}
                            if name[-1] in '23':
                                kw['dim'] = Const(int(name[-1]))
                            if ex is not None:
                                kw['sympy_R'] = truth(Const(ex))

                            def go():
                                it = mkit(ck)
                                v, s = absrun(it, it.func('groups', fname), [], state(), kw)
                                v = it.snap(v, s)
                                a = B.single_atom(v) if isinstance(v, Poly) else None
                                if (a is not None and a.name == 'group') == g:
                                    return Verdict('ne', 'the `generators` option has the opposite effect', (), v, None) \
                                        if elements(v) is not None or a is not None else Verdict('unk', '', (), v, None)
                                return match(it, v, reference(it, name, sm, LS, tr, ph), tr, ph, sm, LS)
                            ck.ob('%s(spin %s, tr=%s, ph=%s, generators=%s%s)' % (name, sn, tr, ph, g, '' if ex is None else ', sympy_R=%s' % ex), w, go)


def perms(ck):
    R = mat('R', 'ta.ndarray_int', ('real',))
    sites = [Const(c) for c in 'abc']
    n, m = atom('n', (), 's', ('real',), 'int'), atom('m', (), 's', ('real',), 'int')
    it = mkit(ck)
    w = where(ck, it, 'groups', 'symmetry_from_permutation')
    c1, a1 = flag('c1'), flag('a1')
    for label, sizes, perm in (('cyclic', [n, n, n], [1, 2, 0]), ('inverse cyclic', [n, n, n], [2, 0, 1]),
                               ('exchange across a site of another size', [n, m, n], [2, 1, 0])):
        for act in ('none', 'array', 'dict'):
            if act == 'array' and m in sizes:
                continue

            def go():
                it = mkit(ck)
                st = state()
                D = lambda pairs: it.alloc(st, HSeq('dict', [Seg((), TRUE, Tup([k, v])) for k, v in pairs]))
                A = {'none': [fn('eye', [x], 'm', (), 'np.ndarray') for x in sizes], 'array': [mat('A')] * 3,
                     'dict': [mat('A' + s.v) for s in sites]}[act]
                arg = {'none': NONE, 'array': mat('A'), 'dict': D(list(zip(sites, A)))}[act]
                v, s = absrun(it, it.func('groups', 'symmetry_from_permutation'),
                              [R, D([(sites[i], sites[p]) for i, p in enumerate(perm)]), D(list(zip(sites, sizes)))], st,
                              {'onsite_action': arg, 'antiunitary': c1, 'antisymmetry': a1})
                v = it.snap(v, s)
                fs = fields(v)
                r = cmp_el(v, {'R': R, 'conjugate': c1, 'antisymmetry': a1})
                if r.kind != 'eq':
                    return r
                at = B.single_atom(fs['U']) if isinstance(fs['U'], Poly) else None
                if at is None or at.name != 'store' or not isinstance(at.args[1], Tup):
                    return Verdict('unk', 'U not in block form', (), fs['U'], None)
                base = B.single_atom(at.args[0]) if isinstance(at.args[0], Poly) else None
                off = [Const(0)]
                for x in sizes:
                    off.append(add(off[-1], x))
                if base is None or base.name != 'zeros':
                    return Verdict('unk', 'U not started from zeros', (), fs['U'], None)
                sl = lambda i: (off[i], off[i + 1])
                want = {(sl(i), sl(p)): A[i] for i, p in enumerate(perm)}
                got = {}
                for e in at.args[1].items:
                    k, x = e.items
                    ix = []
                    for q in (k.items if isinstance(k, Tup) else ()):
                        if not isinstance(q, Rec) or len(q.items) != 3 or q.items[2] != NONE:
                            return Verdict('unk', 'index form', (), k, None)
                        ix.append((q.items[0] if q.items[0] != NONE else Const(0), q.items[1]))
                    got[tuple(ix)] = x
                if set(got) != set(want):
                    bad = sorted(map(repr, set(got) - set(want)))
                    return Verdict('ne', 'blocks at %s' % ', '.join(bad), (), fs['U'], Tup(A))
                for k in want:
                    r = cmpv(got[k], want[k], {'A', 'Aa', 'Ab', 'Ac', 'eye', 'n', 'm'})
                    if r.kind != 'eq':
                        return r
                return Verdict('eq')
            ck.ob('symmetry_from_permutation(%s, onsite action %s)' % (label, act), w, go)
