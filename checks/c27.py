"""C27: random matrices fulfil the relations documented for their symmetry class."""
from .ndcommon import *

CLASSES = ('A', 'AI', 'AII', 'AIII', 'BDI', 'CII', 'D', 'DIII', 'C', 'CI')
RNG = atom('rng', (Const('given'),), 's', (), 'RandomState')
# documented relations, orbital (x) sigma (x) tau
T2 = {'AI': 1, 'BDI': 1, 'CI': 1, 'AII': -1, 'CII': -1, 'DIII': -1}
P2 = {'D': 1, 'BDI': 1, 'DIII': 1, 'C': -1, 'CI': -1, 'CII': -1}
CHIRAL = ('AIII', 'BDI', 'CII', 'DIII', 'CI')


def tau(s, n):
    return kr(eye(n // 2), s)


def sigma(s, n):
    return kr(eye(n // 4), s, eye(2))


def relations(cls, n, h):
    """[(name, sign, operator, transformed matrix)]: h = sign * op f(h) op"""
    one, out = eye(n), [('Hermitian', 1, None, dag(h))]
    hc = h.map(T.conj)
    if cls in CHIRAL:
        out.append(('chiral', -1, tau(SZ, n), h))
    tr = {'AI': lambda: one, 'BDI': lambda: tau(SZ, n), 'CI': lambda: tau(SX, n),
          # without a separate tau index the inner index is sigma
          'AII': lambda: tau(SY, n), 'CII': lambda: sigma(SY, n), 'DIII': lambda: tau(SY, n)}
    ph = {'C': lambda: tau(SY, n), 'CI': lambda: tau(SY, n), 'CII': lambda: mm(tau(SZ, n), sigma(SY, n)),
          'D': lambda: one, 'BDI': lambda: one, 'DIII': lambda: tau(SX, n)}
    if cls in tr:
        out.append(('time reversal', 1, tr[cls](), hc))
    if cls in ph:
        out.append(('particle-hole', -1, ph[cls](), hc))
    return out


def image(r):
    name, s, op, x = r
    y = x if op is None else mm(op, x, op)
    return scale(Const(s), y) if s != 1 else y


def sizes(cls):
    if cls == 'CII':
        return (4, 8)
    if cls in ('A', 'AI', 'D'):
        return (1, 2, 3, 5)
    return (2, 4, 6)


def letters(a):
    return {x for y in a.data for x in walk(y) if isinstance(x, Atom) and x.name.startswith('rnd')}


def dims(a):
    """Real dimension of the set of values a table takes over all random numbers."""
    ls = sorted(letters(a), key=lambda x: x.key())
    pos_ = {x: i for i, x in enumerate(ls)}
    cols = [[0j] * len(a.data) for _ in ls]
    for k, y in enumerate(a.data):
        p = poly(y)
        for (s, w), c in p.terms.items():
            l = [x for (x, cj), e in s if x in pos_]
            if len(l) != 1:
                return None
            f = Poly({(tuple(t for t in s if t[0][0] not in pos_), w): c}, 's')
            v = nd.num(simplify(f))
            if v is None:
                return None
            cols[pos_[l[0]]][k] += v
    return rank([[z.real for z in r] + [z.imag for z in r] for r in cols]) if cols else 0


def full_dim(cls, n):
    """Real dimension of the space of matrices allowed by the relations."""
    rows = []
    for i in range(n):
        for j in range(n):
            for u in (1, 1j):
                h = nd.build((n, n), lambda ix: Const(u if ix == (i, j) else 0))
                col = []
                for r in relations(cls, n, h):
                    d = nd.ew(T.sub, h, image(r))
                    col += [nd.num(x) for x in d.data]
                rows.append([z.real for z in col] + [z.imag for z in col])
    return 2 * n * n - rank(rows)


VOC = {'rnd', 'rng', 'v'}


def run(ck):
    ck.rule('matrices drawn from the ensembles, with independent letters for the random numbers and constant extents, equal their '
            'documented transforms entry by entry; the Gaussian ensemble spans the whole allowed space; every random number '
            'is drawn from the generator given')
    it = mkn(ck)
    w = where(ck, it, 'kwant_rmt', 'gaussian')
    for cls in CLASSES:
        for n in sizes(cls):
            memo = {}

            def val(n=n, cls=cls, memo=memo):
                if 'v' not in memo:
                    it = mkn(ck)
                    v, st = absrun(it, it.func('kwant_rmt', 'gaussian'), [Const(n)], state(),
                                   {'sym': Const(cls), 'v': real('v'), 'rng': RNG})
                    memo['v'] = v
                v = memo['v']
                if isinstance(v, Exc):
                    return Verdict('ne', 'class %s, size %d: raises %s' % (cls, n, v.name))
                a = table(v)
                return a if a is not None else Verdict('unk', 'no table: %s' % str(v)[:200])
            rel = ['Hermitian', 'chiral', 'time reversal', 'particle-hole']
            names = ['Hermitian'] + (['chiral'] if cls in CHIRAL else []) + (['time reversal'] if cls in T2 else []) + \
                    (['particle-hole'] if cls in P2 else [])
            for name in names:
                def go(name=name, n=n, cls=cls, val=val):
                    a = val()
                    if isinstance(a, Verdict):
                        return a
                    if a.shape != (n, n):
                        return Verdict('ne', 'extents %s instead of (%d, %d)' % (a.shape, n, n))
                    r = [x for x in relations(cls, n, a) if x[0] == name][0]
                    return same(a, image(r), VOC, why='class %s, size %d, %s' % (cls, n, name))
                ck.ob('gaussian %s n=%d: %s' % (cls, n, name), w, go)

            def rngs(n=n, cls=cls, val=val):
                a = val()
                if isinstance(a, Verdict):
                    return a
                return sources(a, RNG)
            ck.ob('gaussian %s n=%d: random numbers from the given generator' % (cls, n), w, rngs)

            def span(n=n, cls=cls, val=val):
                a = val()
                if isinstance(a, Verdict):
                    return a
                a = a.map(lambda x: T.subst(x, {single_atom(real('v')): Const(1)}))
                if not all(settled(x, VOC) for x in a.data):
                    return Verdict('unk', 'unknown entries')
                d = dims(a)
                if d is None:
                    return Verdict('unk', 'not linear in the random numbers')
                f = full_dim(cls, n)
                return Verdict('eq') if d == f else Verdict('ne', 'class %s, size %d: %d independent parameters instead of %d' % (cls, n, d, f))
            if n <= 4:
                ck.ob('gaussian %s n=%d: all allowed matrices occur' % (cls, n), w, span)

            def lin(n=n, cls=cls, val=val):
                a = val()
                if isinstance(a, Verdict):
                    return a
                v = single_atom(real('v'))
                one = a.map(lambda x: T.mul(real('v'), T.subst(x, {v: Const(1)})))
                return same(a, one, VOC, why='proportional to v')
            ck.ob('gaussian %s n=%d: proportional to v' % (cls, n), w, lin)
    seeds(ck, 'gaussian', w)
    circ(ck)


def sources(a, want):
    bad = [x for x in letters(a) if x.args[0] != want]
    if bad:
        return Verdict('ne', 'random numbers drawn from %s instead of %s' % (bad[0].args[0], want))
    if any(isinstance(x, Opq) or isinstance(x, Atom) and x.name.startswith('?') for y in a.data for x in walk(y)):
        return Verdict('unk', 'unknown entries')
    return Verdict('eq') if letters(a) or all(nd.zero(x) for x in a.data) else Verdict('unk', 'no random numbers')


def seeds(ck, fname, w):
    def go(arg, want):
        def f():
            it = mkn(ck)
            over(it)
            v, st = absrun(it, it.func('kwant_rmt', fname), [Const(2)], state(), {'rng': arg})
            if getattr(it, 'globalseed', False):
                return Verdict('ne', 'the global generator is seeded')
            a = table(v)
            return sources(a, want) if a is not None else Verdict('unk', 'no table: %s' % str(v)[:200])
        return f
    ck.ob('%s: a generator' % fname, w, go(RNG, RNG))
    ck.ob('%s: a seed' % fname, w, go(Const(5), ND.rng(Tup([Const(5)]))))
    s = atom('seed', (), 's', ('real',), 'int')
    ck.ob('%s: a symbolic seed' % fname, w, go(s, ND.rng(Tup([s]))))
    ck.ob('%s: none' % fname, w, go(NONE, ND.GLOBAL))


# --- circular ensembles -----------------------------------------------------------------------
# QR factorisation keeps real and quaternionic structure (documented); its unitary factor is
# represented by U = (U1 + U2) K (U3 + U4) with independent 2 x 2 rotations Uk and a fixed
# rotation K of the same structure, its triangular factor by letters.

def su2(k, kind):
    if kind == 'real':
        c, s = real('uc', k), real('us', k)
        return const([[c, T.neg(s)], [s, c]])
    a, b = (atom(x, (Const(k),), 's', (), 'complex') for x in ('ua', 'ub'))
    return const([[a, T.neg(T.conj(b))], [b, T.conj(a)]])


def dsum(x, y):
    n, m = x.shape[0], y.shape[0]
    return nd.build((n + m, n + m), lambda ix: x.at(ix) if max(ix) < n else y.at((ix[0] - n, ix[1] - n)) if min(ix) >= n else Const(0))


def unitary(n, kind):
    if n == 2:
        return su2(0, kind)
    k = kr(const([[rat(3, 5), rat(-4, 5)], [rat(4, 5), rat(3, 5)]]), eye(2))
    return mm(dsum(su2(0, kind), su2(1, kind)), k, dsum(su2(2, kind), const([[1, 0], [0, 1]])))


def reduce(d):
    """Normal form modulo |a|^2 + |b|^2 = 1, c^2 + s^2 = 1, sgn^2 = 1."""
    p = poly(d)
    for _ in range(60):
        out, changed = Poly({}, 's'), False
        for (s, w), c in p.terms.items():
            e = {k: x for k, x in s}
            rep = None
            for (at, cj), x in s:
                if at.name == 'us' and x >= 2:
                    e[(at, cj)] -= 2
                    cc = atom('uc', at.args, 's', ('real',), 'float')
                    rep = T.sub(Const(1), T.mul(cc, cc))
                elif at.name == 'ub' and not cj and x >= 1 and e.get((at, True), 0) >= 1:
                    e[(at, False)] -= 1
                    e[(at, True)] -= 1
                    aa = atom('ua', at.args, 's', (), 'complex')
                    rep = T.sub(Const(1), T.mul(aa, T.conj(aa)))
                elif at.name == 'sgn' and (x >= 2 or x < 0):
                    e[(at, cj)] = x % 2
                    rep = Const(1)
                if rep is not None:
                    break
            base = Poly({(tuple(sorted(((k, x) for k, x in e.items() if x), key=lambda t: (t[0][0].key(), t[0][1]))), w): c}, 's')
            if rep is not None:
                changed = True
                base = poly(T.mul(simplify(base), rep))
            out = poly(T.add(out, simplify(base) if base.terms else Const(0))) or out
        p = out
        if not changed:
            return p
    raise Budget('reduce')


def phase(k, kind):
    """(unit, magnitude) of diagonal entry k of the triangular factor"""
    if kind == 'quat':
        u = B.epow(poly(T.mul(Const(1j if k % 2 == 0 else -1j), real('phi', k // 2))))
        return u, real('mag', k // 2)
    if kind == 'real':
        return real('sgn', k), real('mag', k)
    return B.epow(poly(T.mul(Const(1j), real('phi', k)))), real('mag', k)


def over(it):
    """The factorisation used by the circular ensembles."""
    def qr(it, args, kw, st, node):
        a = table(it.snap(args[0], st))
        if a is None or a.ndim != 2:
            return NotImplemented
        n = a.shape[0]
        if any(letters(a)):
            src = sorted({x.args[0].key() for x in letters(a)})
            it.__dict__.setdefault('qrsrc', []).extend(x.args[0] for x in letters(a))
        it.qrin = a
        if n not in (2, 4) or not all(settled(x, VOC) for x in a.data):
            return NotImplemented
        kind = 'complex'
        if same(a, a.map(T.conj), VOC).kind == 'eq':
            kind = 'real'
        elif same(a, mm(tau(SY, n), a.map(T.conj), tau(SY, n)), VOC).kind == 'eq':
            kind = 'quat'
        it.qrkind = kind
        q = unitary(n, kind)

        def tri(ix):
            i, j = ix
            if i > j or kind == 'quat' and i // 2 == j // 2 and i != j:
                return Const(0)
            if i == j:
                u, m = phase(i, kind)
                return T.mul(u, m)
            return atom('rr', (Const(i), Const(j)), 's', ('real',) if kind == 'real' else (), 'complex')
        return Tup([ND.back(q), ND.back(nd.build((n, n), tri))])

    def absv(it, args, kw, st, node):
        x = it.snap(args[0], st)
        a = table(x)
        if a is None:
            return NotImplemented

        def one(y):
            p = poly(y)
            if p is not None and len(p.terms) == 1:
                (s, w), c = next(iter(p.terms.items()))
                m = [k for k in s if k[0][0].name not in ('sgn', 'epow', 'mag')]
                if not m and not w:
                    r = Const(1)
                    for (at, cj), e in s:
                        if at.name == 'mag':
                            r = T.mul(r, T.ppow(letter_s(at), e)) if e != 1 else T.mul(r, letter_s(at))
                    if c in ((1, 0), (-1, 0)):
                        return r
            return ND.s_abs(y)
        return ND.back(a.map(one))

    def det(it, args, kw, st, node):
        return real('det')
    for n in ('numpy.linalg.qr', 'scipy.linalg.qr'):
        it.ext_over[n] = qr
    for n in ('numpy.abs', 'numpy.absolute', 'builtins.abs'):
        it.ext_over[n] = absv
    it.ext_over['numpy.linalg.det'] = det


def letter_s(a):
    return poly(atom(a.name, a.args, a.kind, a.attrs, a.typ))


CVOC = {'rnd', 'rng', 'ua', 'ub', 'uc', 'us', 'sgn', 'mag', 'phi', 'epow', 'rr', 'det'}


def crelations(cls, n, r):
    """Documented relations of the circular ensembles."""
    rt, rc = nd.transpose(r), r.map(T.conj)
    sy = tau(SY, n)
    out = [('unitary', None, None)]
    if cls in ('AIII', 'BDI', 'CII'):
        out.append(('chiral', dag(r), 1))
    if cls in ('AI', 'BDI'):
        out.append(('time reversal', rt, 1))
    if cls == 'CI':
        out.append(('time reversal', mm(sy, rt, sy), -1))
    if cls in ('AII', 'DIII'):
        out.append(('time reversal', rt, -1))
    if cls == 'CII':
        out.append(('time reversal', mm(sy, rt, sy), 1))
    if cls == 'CI':
        out.append(('particle-hole', mm(sy, rc, sy), -1))
    if cls in ('C', 'CII'):
        out.append(('particle-hole', mm(sy, rc, sy), 1))
    if cls in ('D', 'BDI'):
        out.append(('particle-hole', rc, 1))
    if cls == 'DIII':
        out.append(('particle-hole', rc, -1))
    return out


def charges(cls, n):
    if cls in ('D', 'DIII'):
        return (None, 1, -1)
    if cls in ('AIII', 'BDI'):
        return (None,) + tuple(range(n + 1))
    if cls == 'CII':
        return (None,) + tuple(range(n // 2 + 1))
    return (None,)


def circ(ck):
    it = mkn(ck)
    w = where(ck, it, 'kwant_rmt', 'circular')
    for cls in CLASSES:
        for n in (2, 4):
            for ch in charges(cls, n):
                memo = {}

                def val(n=n, cls=cls, ch=ch, memo=memo):
                    if 'v' not in memo:
                        it = mkn(ck)
                        over(it)
                        memo['v'], st = absrun(it, it.func('kwant_rmt', 'circular'), [Const(n)], state(),
                                               {'sym': Const(cls), 'charge': NONE if ch is None else Const(ch), 'rng': RNG})
                        memo['it'] = it
                    return memo['v']
                names = [x[0] for x in crelations(cls, n, eye(n))]
                for name in names:
                    def go(name=name, n=n, cls=cls, val=val, ch=ch):
                        res = []
                        for cube, v in outcomes(val()):
                            why = 'class %s, size %d, charge %s, %s' % (cls, n, ch, name)
                            if isinstance(v, Exc):
                                res.append(Verdict('ne', why + ': raises %s' % v.name))
                                continue
                            a = table(v)
                            if a is None:
                                res.append(Verdict('unk', 'no table: %s' % str(v)[:200]))
                                continue
                            if a.shape != (n, n):
                                res.append(Verdict('ne', why + ': extents %s' % (a.shape,)))
                                continue
                            a = signs(a)
                            if name == 'unitary':
                                res.append(same(mm(dag(a), a), eye(n), CVOC, reduce, why))
                                continue
                            x = [r for r in crelations(cls, n, a) if r[0] == name][0]
                            res.append(same(a, scale(Const(x[2]), x[1]), CVOC, reduce, why))
                        return worst(res)
                    ck.ob('circular %s n=%d charge=%s: %s' % (cls, n, ch, name), w, go)

                def varies(n=n, val=val):
                    res = []
                    for cube, v in outcomes(val()):
                        a = table(v)
                        if a is None or not all(settled(x, CVOC) for x in a.data):
                            res.append(Verdict('unk', 'no table'))
                        elif all(nd.num(reduce(x)) is not None for x in a.data):
                            res.append(Verdict('ne', 'class %s, size %d: the matrix is constant' % (cls, n)))
                    return worst(res)
                if cls not in ('AIII', 'BDI', 'CII'):
                    ck.ob('circular %s n=%d charge=%s: not constant' % (cls, n, ch), w, varies)

                def src(val=val, memo=memo):
                    bad = []
                    val()
                    it = memo['it']
                    for x in it.__dict__.get('qrsrc', []):
                        if x != RNG:
                            bad.append(x)
                    for _, v in outcomes(memo['v']):
                        a = table(v)
                        for l in letters(a) if a is not None else ():
                            if l.args[0] != RNG:
                                bad.append(l.args[0])
                    if bad:
                        return Verdict('ne', 'random numbers drawn from %s' % bad[0])
                    return Verdict('eq') if it.__dict__.get('qrsrc') else Verdict('unk', 'no random numbers')
                ck.ob('circular %s n=%d charge=%s: random numbers from the given generator' % (cls, n, ch), w, src)


def signs(a):
    """2 * randint(2) - 1 is a sign."""
    def f(x):
        m = {}
        for y in walk(x):
            if isinstance(y, Atom) and y.name in ('rndbit', 'rndsign'):
                s = real('sgn', *[z.v for z in y.args[1:]], 9)
                m[y] = s if y.name == 'rndsign' else T.mul(rat(1, 2), T.add(Const(1), s))
        return T.subst(x, m) if m else x
    return a.map(f)
