"""C33: recombined families have the coefficients computed for their members."""
from .explicit import *
from .c14 import summary, strip
from sa import nd as NN

HGEN, LIN = 'hamiltonian_generator', 'linalg'
a, b, c = (sym(x) for x in 'abc')
N = 2
LET = {'A', 'B', 'C', 'D', 'E', 'F', 'v', 'w', 'u', 'x'}
VOC |= LET | {'re', 'im', 'real', 'imag', 'round'}


class Fam(Ex):
    """Families of models with symbolic 2x2 coefficients."""
    def __init__(self, ck, layout):
        Ex.__init__(self, ck)
        names = iter('ABCDEF')
        self.terms = [[(k, tab(next(names), (N, N))) for k in ks] for ks in layout]
        self.members = [self.model(t, (N, N)) for t in self.terms]
        self.rounded = []

        def around(it, args, kw, st, node):
            self.rounded.append(it.snap((list(args[1:]) + list(kw.values()) or [Const(3)])[0], st))
            return args[0]
        self.it.summaries['model.Model.around'] = around

    def list(self, xs):
        return self.it.alloc(self.st, HSeq('list', [Seg((), TRUE, x) for x in xs]))

    def func(self, mod, name, args, kw=None):
        v, s = absrun(self.it, self.it.func(mod, name), args, self.st, kw or {})
        return self.it.snap(v, s) if not isinstance(v, Exc) else v

    def keys(self):
        out = []
        for t in self.terms:
            for k, _ in t:
                if k not in out:
                    out.append(k)
        return out

    def row(self, i, keys):
        out = []
        for k in keys:
            t = dict(self.terms[i]).get(k)
            es = [t.at(ix) for ix in product(range(N), repeat=2)] if t is not None else [Const(0)] * (N * N)
            out += [re(x) for x in es] + [im(x) for x in es]
        return out

    def combo(self, coeffs, terms=None):
        d = {}
        for cf, ts in zip(coeffs, terms or self.terms):
            for k, t in ts:
                t = t.map(lambda x: mul(cf, x))
                d[k] = nd.ew(T.add, d[k], t) if k in d else t
        return list(d.items())


from itertools import product
re = lambda x: T.mul(Const(0.5), add(x, T.conj(x))) if not isinstance(x, Const) else x
im = lambda x: T.mul(Const(-0.5j), T.sub(x, T.conj(x))) if not isinstance(x, Const) else Const(0)

LAYOUTS = [((a,),), ((a,), (a,)), ((a, b), (a, b)), ((a, b), (b, a)), ((a,), (b,)), ((a, b), (b, c)), ((a,), (a, b), (c,))]


def label(l):
    return ' '.join('{%s}' % ','.join(str(k)[:9] for k in m) for m in l)


def mats(rows):
    return ND.back(NN.from_nested(Tup([Tup(r) for r in rows])), 'np.ndarray')


def pyrows(x):
    t = table(x)
    if t is None or len(t.shape) != 2:
        return None
    return [[t.at((i, j)) for j in range(t.shape[1])] for i in range(t.shape[0])]


def letters(n, m, name):
    return [[real(name, i, j) for j in range(m)] for i in range(n)]


def families(v):
    v = strip(v)
    if isinstance(v, (Seq, Tup)):
        l = [s.payload for s in v.segs] if isinstance(v, Seq) else list(v.items)
        if isinstance(v, Seq) and any(s.binders or s.guard != TRUE for s in v.segs):
            return None
        return l
    return None


def compare_family(v, want):
    if isinstance(v, Exc):
        return Verdict('ne', 'raises %s' % v.name)
    l = families(v)
    if l is None:
        return Verdict('unk', 'members not enumerated')
    if len(l) != len(want):
        return Verdict('ne' if all(M.read(x) is not None for x in l) else 'unk', '%d members instead of %d' % (len(l), len(want)))
    return worst([judge(x, w, (N, N), ('terms',)) for x, w in zip(l, want)])


def same_columns(rows, want):
    """Equal up to the order of the columns, the same for all rows, and their signs."""
    if rows is None:
        return Verdict('unk', 'no table')
    if len(rows) != len(want):
        return Verdict('ne', '%d rows instead of %d' % (len(rows), len(want)))
    left = list(zip(*want))
    if not rows or not rows[0]:
        return Verdict('eq') if not left else Verdict('ne', 'no columns')
    for col in zip(*rows):
        if any(poly(x) is None for x in col):
            return Verdict('unk', 'entry')
        for w in left:
            if all(poly(x) == poly(y) for x, y in zip(col, w)):
                left.remove(w)
                break
        else:
            if all(poly(x).const() == 0 for x in col if poly(x).const() is not None) and all(poly(x).const() is not None for x in col):
                continue
            ok = all(z.name in LET | {'re', 'im'} for x in col for z in walk(x) if isinstance(z, Atom))
            return Verdict('ne' if ok else 'unk', 'column %s' % str(col)[:160], (), Tup(list(col)), Tup(list(left[0])) if left else None)
    if left:
        return Verdict('ne', 'missing equation %s' % str(left[0])[:120])
    return Verdict('eq')


def vectors(ck):
    f = 'family_to_vectors'
    w = where(ck, mkn(ck), LIN, f)
    for lay in LAYOUTS:
        for given in (None, 'same', 'reversed', 'more'):
            def go(lay=lay, given=given):
                e = Fam(ck, lay)
                ks = e.keys()
                kw = {}
                if given:
                    gk = ks if given == 'same' else ks[::-1] if given == 'reversed' else ks + [sym('z')]
                    kw = {'all_keys': e.list(gk)}
                v = e.func(LIN, f, [e.list(e.members)], kw)
                if isinstance(v, Exc):
                    return Verdict('ne', 'raises %s' % v.name)
                rows = pyrows(strip(v))
                want = [e.row(i, gk if given else ks) for i in range(len(lay))]
                if given:
                    if rows is None:
                        return Verdict('unk', 'no table')
                    # in the order of the given factors
                    n = len(want[0]) // len(gk)
                    if len(rows[0]) != len(want[0]):
                        return Verdict('ne', '%d columns instead of %d' % (len(rows[0]), len(want[0])))
                    return worst([same_columns([r[j * n:(j + 1) * n] for r in rows], [r[j * n:(j + 1) * n] for r in want]) for j in range(len(gk))])
                return same_columns(rows, want)
            ck.ob('%s: members %s%s' % (f, label(lay), ', factors %s' % given if given else ''), w, go)


def hamiltonian(ck):
    f = 'hamiltonian_from_family'
    w = where(ck, mkn(ck), HGEN, f)
    for lay in LAYOUTS:
        for given in (True, False):
            def go(lay=lay, given=given):
                e = Fam(ck, lay)
                n = len(lay)
                cs = [sym('u%d' % (n - i)) for i in range(n)] if given else [sym('c%d' % i) for i in range(n)]
                e.it.ext_over['sympy.symbols'] = symbols
                kw = {'tosympy': FALSE}
                if given:
                    kw['coeffs'] = e.list(cs)
                v = strip(e.func(HGEN, f, [e.list(e.members)], kw))
                want = [(mul(k, cf), t) for cf, ts in zip(cs, e.terms) for k, t in ts]
                return judge(v, want, (N, N), ('terms',))
            ck.ob('%s: members %s, %s' % (f, label(lay), 'given coefficients' if given else 'default coefficients'), w, go)


def symbols(it, args, kw, st, node):
    s = it.snap(args[0], st)
    if isinstance(s, Const) and isinstance(s.v, str) and s.v.startswith('c0:') and s.v[3:].isdigit():
        return Tup([sym('c%d' % i) for i in range(int(s.v[3:]))])
    return NotImplemented


def pretty(ck):
    f = 'make_basis_pretty'
    w = where(ck, mkn(ck), HGEN, f)
    for lay in LAYOUTS:
        for digits in (None, 4):
            def go(lay=lay, digits=digits):
                e = Fam(ck, lay)
                n = len(lay)
                got = []

                def red(d, st):
                    got.append((e.it.snap(d['m'], st), e.it.snap(d['return_S'], st)))
                    R, S_ = mats(letters(n, n, 'w')), mats(letters(n, n, 'v'))
                    return Tup([R, S_]) if e.it.snap(d['return_S'], st) == TRUE else R
                summary(e.it, LIN, 'rref', red)
                v = e.func(HGEN, f, [e.list(e.members)], {} if digits is None else {'num_digits': Const(digits)})
                want = [e.combo(r) for r in letters(n, n, 'v')]
                res = [compare_family(v, want)]
                if len(got) == 1:
                    res.append(same_columns(pyrows(got[0][0]), [e.row(i, e.keys()) for i in range(n)]))
                else:
                    res.append(Verdict('unk', 'reduction'))
                if res[0].kind == 'eq':
                    dg = set(x.key() for x in e.rounded)
                    if dg != {Const(digits or 2).key()} or len(e.rounded) != n:
                        res.append(Verdict('ne' if all(isinstance(x, Const) for x in e.rounded) else 'unk', 'rounded to %s' % e.rounded))
                return worst(res)
            ck.ob('%s: members %s%s' % (f, label(lay), '' if digits is None else ', 4 digits'), w, go)


def duplicates(ck):
    f = 'remove_duplicates'
    w = where(ck, mkn(ck), HGEN, f)
    for lay in LAYOUTS:
        for nv in sorted({1, len(lay)}):
            def go(lay=lay, nv=nv):
                e = Fam(ck, lay)
                n = len(lay)
                got = []

                def null(d, st):
                    got.append(e.it.snap(d['A'], st))
                    ns, co = mats(letters(1, n, 'w')), mats(letters(nv, n, 'v'))
                    return Tup([ns, co]) if e.it.snap(d['return_complement'], st) == TRUE else ns
                summary(e.it, LIN, 'nullspace', null)
                v = e.func(HGEN, f, [e.list(e.members)])
                res = [compare_family(v, [e.combo(r) for r in letters(nv, n, 'v')])]
                rows = pyrows(got[0]) if len(got) == 1 else None
                res.append(same_columns([list(r) for r in zip(*rows)] if rows else None, [e.row(i, e.keys()) for i in range(n)]))
                return worst(res)
            ck.ob('%s: members %s, %d independent' % (f, label(lay), nv), w, go)


def subtract(ck):
    f = 'subtract_family'
    w = where(ck, mkn(ck), HGEN, f)
    cases = [(((a,),), ((a,),)), (((a,), (b,)), ((a,),)), (((a,),), ((a,), (b,))), (((a, b), (b,)), ((a,),)), (((a,), (a, b)), ((b, a),)), (((a,), (b,)), ((c,),)), (((a,), (b,), (c,)), ((b,),))]
    for l1, l2 in cases:
        def go(l1=l1, l2=l2):
            e = Fam(ck, l1 + l2)
            n1, n2 = len(l1), len(l2)
            ks = e.keys()
            ncol = len(ks) * N * N * 2
            got = []

            def null(d, st):
                A = e.it.snap(d['A'], st)
                got.append(A)
                t = table(A)
                if t is None:
                    raise ValueError('A')
                k = len(got)
                co = mats(letters(1, t.shape[1], {1: 'u', 2: 'w', 3: 'v'}.get(k, 'x')))
                ns = mats(letters(1, t.shape[1], 'x'))
                return Tup([ns, co]) if e.it.snap(d['return_complement'], st) == TRUE else ns
            summary(e.it, LIN, 'nullspace', null)
            e.it.summaries['linalg.allclose'] = lambda it, a, k, st, n: TRUE
            e.it.ext_over['numpy.allclose'] = lambda it, a, k, st, n: TRUE
            v = e.func(HGEN, f, [e.list(e.members[:n1]), e.list(e.members[n1:])])
            if isinstance(v, Exc):
                return Verdict('ne', 'raises %s' % v.name)
            m1 = [e.row(i, ks) for i in range(n1)]
            m2 = [e.row(n1 + i, ks) for i in range(n2)]
            tabs = [pyrows(x) for x in got]
            if any(t is None for t in tabs) or len(tabs) < 2:
                return Verdict('unk', 'steps')
            # the last null space is taken of the projected members
            first = [i for i, t in enumerate(tabs) if same_columns(t, m2).kind == 'eq']
            if not first:
                r = same_columns(tabs[0], m2)
                return Verdict('unk', 'the second family is not reduced: ' + str(r.why)[:100]) if len(tabs) != 3 else r
            nm = {0: 'u', 1: 'w', 2: 'v'}.get(first[0], 'x')
            last = tabs[-1]
            cols = list(zip(*last))
            if len(cols) != n1:
                return Verdict('ne' if len(tabs) == 3 else 'unk', 'projection of %d members instead of %d' % (len(cols), n1))
            # order of the factors used by the code: recover from the second family and the first
            perm = recover(tabs, m1, m2, ncol)
            if perm is None:
                return Verdict('unk', 'order of the equations')
            if perm is False:
                return Verdict('ne', 'the equations of the two families are in different orders')
            u = [real(nm, 0, j) for j in range(ncol)]
            out = []
            for i in range(n1):
                row = [m1[i][perm[j]] for j in range(ncol)]
                dot = Const(0)
                for x, y in zip(row, u):
                    dot = add(dot, mul(x, y))
                want = [T.sub(x, mul(dot, y)) for x, y in zip(row, u)]
                for x, y in zip(cols[i], want):
                    if poly(x) is None:
                        return Verdict('unk', 'entry')
                    if poly(x) != poly(y):
                        ok = all(z.name in LET | {'re', 'im'} for z in walk(x) if isinstance(z, Atom))
                        out.append(Verdict('ne' if ok else 'unk', 'member %d is not projected onto the complement of the second family' % i, (), x, y))
                        break
            out.append(compare_family(v, [e.combo(r, e.terms[:n1]) for r in letters(1, n1, {0: 'u', 1: 'w', 2: 'v'}.get(len(tabs) - 1, 'x'))]))
            return worst(out)
        ck.ob('%s: members %s without %s' % (f, label(l1), label(l2)), w, go)
    for l1, l2 in ((((a,),), ()), ((), ((a,),))):
        def go(l1=l1, l2=l2):
            e = Fam(ck, l1 + l2)
            v = e.func(HGEN, f, [e.list(e.members[:len(l1)]), e.list(e.members[len(l1):])])
            return compare_family(v, [e.combo([Const(1)], [t]) for t in e.terms[:len(l1)]])
        ck.ob('%s: members %s without %s' % (f, label(l1) or 'none', label(l2) or 'none'), w, go)


def recover(tabs, m1, m2, ncol):
    """Position of every column of the code's tables in the reference ones."""
    both = list(zip(*(m1 + m2)))
    mats_ = [t for t in tabs if len(t) and len(t[0]) == ncol]
    t2 = next((t for t in mats_ if same_columns(t, m2).kind == 'eq'), None)
    t1 = next((t for t in mats_ if same_columns(t, m1).kind == 'eq' and t is not t2), None)
    if t1 is None or t2 is None:
        return None
    perm, used = [], set()
    for j in range(ncol):
        col = [r[j] for r in t1] + [r[j] for r in t2]
        for p, wcol in enumerate(both):
            if p not in used and all(poly(x) == poly(y) for x, y in zip(col, wcol)):
                used.add(p)
                perm.append(p)
                break
        else:
            return False
    return perm


def empty(ck):
    for mod, f in ((HGEN, 'make_basis_pretty'), (HGEN, 'remove_duplicates'), (HGEN, 'round_family')):
        w = where(ck, mkn(ck), mod, f)

        def go(mod=mod, f=f):
            e = Fam(ck, ())
            return compare_family(e.func(mod, f, [e.list([])]), [])
        ck.ob('%s of an empty family' % f, w, go)


def rounding(ck):
    f = 'round_family'
    w = where(ck, mkn(ck), HGEN, f)
    for lay in LAYOUTS:
        for digits in (None, 5):
            def go(lay=lay, digits=digits):
                e = Fam(ck, lay)
                v = e.func(HGEN, f, [e.list(e.members)], {} if digits is None else {'num_digits': Const(digits)})
                r = compare_family(v, e.terms)
                if r.kind == 'eq' and (len(e.rounded) != len(lay) or {x.key() for x in e.rounded} != {Const(digits or 3).key()}):
                    return Verdict('ne' if all(isinstance(x, Const) for x in e.rounded) else 'unk', 'rounded to %s' % e.rounded)
                return r
            ck.ob('%s: members %s%s' % (f, label(lay), '' if digits is None else ', 5 digits'), w, go)


def run(ck):
    ck.rule('abstract interpretation with explicit tables: families whose members have different sets of symbolic factors '
            'and symbolic coefficients, the null space and row reduction are matrices of letters; the matrices handed to them '
            'contain real and imaginary part of every coefficient of every member, columns of all members in the same '
            'order, and the result is the combination of the members with the letters of the row of the solution')
    vectors(ck)
    hamiltonian(ck)
    pretty(ck)
    duplicates(ck)
    subtract(ck)
    rounding(ck)
    empty(ck)


# --- row reduction

class Reduce:
    """rref of a symbolic matrix; pivot positions and size tests have given outcomes."""
    def __init__(self, ck, m, n, pivots, small):
        self.it = it = mkn(ck)
        self.pivots, self.small = list(pivots), list(small)
        it.ext_over['numpy.argmax'] = lambda it, a, k, st, node: Const(self.pivots.pop(0) if self.pivots else 0)
        for f in ('numpy.abs', 'numpy.absolute', 'builtins.abs'):
            it.ext_over[f] = self.size
        for f in ('numpy.max', 'numpy.amax', 'builtins.max'):
            it.ext_over[f] = lambda it, a, k, st, node: real('largest')
        it.ext_over['numpy.allclose'] = lambda it, a, k, st, node: FALSE
        it.summaries['linalg.allclose'] = lambda it, a, k, st, node: FALSE
        orig = it.truthy

        def truthy(v, st):
            return self.resolve(orig(v, st))
        it.truthy = truthy
        self.m = nd.build((m, n), lambda ix: real('m', *ix))

    def size(self, it, a, k, st, node):
        t = table(it.snap(a[0], st))
        if t is None or not t.shape:
            return real('size', it.snap(a[0], st))
        return ND.back(t.map(lambda x: real('size', x)), 'np.ndarray')

    def resolve(self, v):
        while isinstance(v, Ite) and v not in (TRUE, FALSE):
            if isinstance(v.p, P) and v.p.name in ('lt', 'le') and any(isinstance(x, Atom) and x.name == 'size' for x in walk(v.p)):
                r = self.small.pop(0) if self.small else False
                first = any(isinstance(x, Atom) and x.name == 'size' for x in walk(v.p.args[0]))
                v = v.hi if r == first else v.lo
                continue
            return v
        return v


def reduction(ck):
    f = 'rref'
    w = where(ck, mkn(ck), LIN, f)
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        for pivots in product((0, 1), repeat=m - 1) if m < 3 else ((0, 0), (1, 0), (2, 1)):
            for small in ((), (True,), (False, True)) if n > 1 else ((),):
                def go(m=m, n=n, pivots=pivots, small=small):
                    r = Reduce(ck, m, n, pivots, small)
                    v, s = absrun(r.it, r.it.func(LIN, f), [ND.back(r.m, 'np.ndarray')], state(), {'return_S': TRUE})
                    v = strip(r.it.snap(v, s))
                    if isinstance(v, Exc):
                        return Verdict('ne', 'raises %s' % v.name)
                    if not isinstance(v, Tup) or len(v.items) != 2:
                        return Verdict('unk', 'not a pair')
                    R, S_ = table(v.items[0]), table(v.items[1])
                    if R is None or S_ is None:
                        return Verdict('unk', 'no tables')
                    if S_.shape != (m, m) or R.shape != (m, n):
                        return Verdict('ne', 'tables of shapes %s and %s' % (R.shape, S_.shape))
                    return same(nd.matmul(S_, r.m), R, {'m'}, why='S m = R')
                ck.ob('%s of a %dx%d matrix, rows exchanged with %s, vanishing %s' % (f, m, n, list(pivots), list(small)), w, go)
    for m, n in ((1, 1), (1, 3), (2, 2), (3, 2)):
        for s_ in (True, False):
            def go(m=m, n=n, s_=s_):
                it = mkn(ck)
                v, s = absrun(it, it.func(LIN, f), [ND.back(const([[0] * n] * m), 'np.ndarray')], state(), {'return_S': TRUE} if s_ else {})
                v = strip(it.snap(v, s))
                if isinstance(v, Exc):
                    return Verdict('ne', 'raises %s' % v.name)
                if s_:
                    if table(v) is not None and not isinstance(v, Tup):
                        return Verdict('ne', 'the transformation is not returned')
                    if not isinstance(v, Tup) or len(v.items) != 2:
                        return Verdict('unk', 'not a pair')
                    S_ = table(v.items[1])
                    if S_ is None:
                        return Verdict('unk', 'no tables')
                    if S_.shape != (m, m):
                        return Verdict('ne', 'transformation of shape %s' % (S_.shape,))
                    v = v.items[0]
                R = table(v)
                return Verdict('unk', 'no tables') if R is None else same(R, const([[0] * n] * m), {'m'}, why='zero')
            ck.ob('%s of a %dx%d matrix of zeros%s' % (f, m, n, ', with transformation' if s_ else ''), w, go)


_run = run


def run(ck):
    _run(ck)
    reduction(ck)
