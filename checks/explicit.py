"""Model operations on models whose coefficients are tables with given extents."""
from .ndcommon import *
from sa import modelrep as M
from sa.modelrep import sym, KX, KY

MOM = (KY, KX)
VOC = {'A', 'B', 'C', 'v'}


def tab(n, shape):
    return nd.build(shape, lambda ix: atom(n, tuple(Const(i) for i in ix), 's', (), 'complex'))


class Ex:
    def __init__(self, ck):
        self.it = mkn(ck)
        M.install(self.it)
        self.st = state()

    def model(self, terms, shape, keep=(), cls='Model'):
        it, st = self.it, self.st
        data = it.alloc(st, HSeq('dict', [Seg((), TRUE, Tup([k, nd.back(t, 'np.ndarray')])) for k, t in terms]))
        kp = it.alloc(st, HSeq('set', [Seg((), TRUE, k) for k in keep]))
        return it.alloc(st, HInst(it.func('model', cls), {'data': data, 'momenta': Tup(list(MOM)), 'keep': kp,
                                                        'shape': Tup([Const(n) for n in shape]), 'format': Ext('numpy.ndarray')}))

    def call(self, m, name, args, kw=None):
        f = self.it.get(self.st, m).cls.lookup(name)
        if f is None:
            raise AnchorMissing('Model.%s' % name)
        v, s = absrun(self.it, f, [m] + args, self.st, kw or {})
        return self.it.snap(v, s) if not isinstance(v, Exc) else v


def judge(v, terms, shape, what):
    if isinstance(v, Exc):
        return Verdict('ne', 'raises %s' % v.name)
    d = M.read(v)
    if d is None:
        return Verdict('unk', 'not one model')
    if 'shape' in what:
        sh = d.get('shape')
        n = [x.v if isinstance(x, Const) else None for x in sh.items] if isinstance(sh, Tup) else None
        if n is None or None in n:
            return Verdict('unk', 'shape %s' % str(sh)[:80])
        if tuple(n) != tuple(shape):
            return Verdict('ne', 'recorded shape %s instead of %s' % (tuple(n), tuple(shape)))
    if 'terms' in what:
        dv = d.get('data')
        if not isinstance(dv, DictV) or any(s.binders or s.guard != TRUE for s in dv.segs):
            return Verdict('unk', 'terms not enumerated')
        got = {s.payload.items[0].key(): s.payload.items[1] for s in dv.segs}
        out = []
        for k, t in terms:
            if k.key() not in got:
                if all(isinstance(x, Const) and x.v == 0 for x in t.data):
                    continue
                return Verdict('ne' if all(settled_key(k2) for k2 in got) else 'unk', 'term %s is missing' % k.key())
            x = got.pop(k.key())
            if not shape:
                x = nd.A((), [x])
            else:
                x = table(x)
            if x is None:
                out.append(Verdict('unk', 'no table'))
                continue
            out.append(same(x, t, VOC, why='term %s' % k.key()))
        for k in list(got):
            x = table(got[k])
            if x is not None and all(isinstance(y, Const) and y.v == 0 for y in x.data):
                del got[k]
        if got:
            out.append(Verdict('ne', 'additional terms %s' % list(got)[:3]))
        return worst(out)
    return Verdict('eq')


def settled_key(k):
    return '?' not in str(k)


def obligations(ck, what):
    a, b, one = sym('a'), sym('b'), T.SConst(1)
    it0 = make(ck)
    SH = [(2, 3), (3, 2), (4, 4), (2, 2), (1, 6)]

    def ob(name, meth, go):
        f = it0.func('model', 'Model').lookup(meth)
        if f is None:
            raise AnchorMissing('Model.' + meth)
        ck.ob(name, '%s:%d Model.%s' % (ck.pkg.modules['model'].path, f.node.lineno, meth), go)

    def unary(meth, label, args, kw, shape, f):
        for keys in ((a, b), (a, one), (a,)):
            def go(keys=keys):
                e = Ex(ck)
                l = [(k, tab(n, shape)) for k, n in zip(keys, 'AB')]
                v = e.call(e.model(l, shape), meth, args(e), kw)
                w = [(k, f(t)) for k, t in l]
                sh = w[0][1].shape
                return judge(v, w, sh, what)
            ob('%s of %s tables %s, %d terms%s' % (meth, 'x'.join(map(str, shape)), label, len(keys), ' with a constant' if one in keys else ''), meth, go)

    for shape in SH:
        n = shape[0] * shape[1]
        targets = [((n,), [Const(-1)]), ((n,), [Const(n)]), ((n, 1), [Tup([Const(-1), Const(1)])]), ((1, n), [Const(1), Const(-1)])]
        if n % 4 == 0:
            targets.append(((2, 2, n // 4), [Const(2), Const(2), Const(-1)]))
        if shape[0] != shape[1]:
            targets.append((shape[::-1], [Tup([Const(x) for x in shape[::-1]])]))
        for sh, args in targets:
            unary('reshape', 'to %s%s' % (args if len(args) > 1 else args[0], ''), lambda e, x=args: list(x), {}, shape, lambda t, sh=sh: nd.reshape(t, sh))
        unary('T', '', lambda e: [], {}, shape, nd.transpose)
        unary('conj', '', lambda e: [], {}, shape, lambda t: t.map(T.conj))
        unary('__neg__', '', lambda e: [], {}, shape, lambda t: t.map(T.neg))
        unary('__mul__', 'by a number', lambda e: [Const(2.5)], {}, shape, lambda t: t.map(lambda x: T.mul(Const(2.5), x)))
        unary('__rmul__', 'by a number', lambda e: [Const(1e-9)], {}, shape, lambda t: t.map(lambda x: T.mul(Const(1e-9), x)))
        if shape[0] == shape[1]:
            unary('trace', '', lambda e: [], {}, shape, lambda t: nd.A((), [T_sum([t.at((i, i)) for i in range(t.shape[0])])]))

        def mult(meth, other_shape, left):
            V = tab('v', other_shape)
            f = (lambda t: nd.matmul(t, V)) if left else (lambda t: nd.matmul(V, t))
            unary(meth, 'and a %s array' % 'x'.join(map(str, other_shape)), lambda e: [nd.back(V, 'np.ndarray')], {}, shape, f)
        for k in (1, shape[1], 5):
            mult('__matmul__', (shape[1], k), True)
        mult('__matmul__', (shape[1],), True)
        for k in (1, shape[0], 5):
            mult('__rmatmul__', (k, shape[0]), False)
        mult('__rmatmul__', (shape[0],), False)

    def binary(meth, s1, s2, f, k1, k2, join):
        def go():
            e = Ex(ck)
            l = [(k, tab(n, s1)) for k, n in zip(k1, 'AB')]
            r = [(k, tab(n, s2)) for k, n in zip(k2, 'CD')]
            v = e.call(e.model(l, s1), meth, [e.model(r, s2)])
            return judge(v, *join(l, r), what)
        ob('%s of %s and %s tables, terms %s and %s' % (meth, 'x'.join(map(str, s1)), 'x'.join(map(str, s2)), [str(x)[:5] for x in k1], [str(x)[:5] for x in k2]), meth, go)

    def product(l, r):
        d = {}
        for k1, x in l:
            for k2, y in r:
                k, z = mul(k1, k2), nd.matmul(x, y)
                d[k] = nd.ew(T.add, d[k], z) if k in d else z
        return list(d.items()), (l[0][1].shape[0], r[0][1].shape[1])

    def total(sg):
        def f(l, r):
            d = dict(l)
            for k, y in r:
                y = y.map(T.neg) if sg < 0 else y
                d[k] = nd.ew(T.add, d[k], y) if k in d else y
            return list(d.items()), l[0][1].shape
        return f
    VOC.add('D')
    for k1, k2 in (((a, b), (a, b)), ((a, b), (b,)), ((a,), (b,)), ((a, one), (one, b))):
        for s in ((2, 3), (3, 3)):
            binary('__add__', s, s, None, k1, k2, total(1))
            binary('__sub__', s, s, None, k1, k2, total(-1))
        for s1, s2 in (((2, 3), (3, 2)), ((2, 3), (3, 4)), ((1, 3), (3, 1)), ((2, 2), (2, 2))):
            binary('__matmul__', s1, s2, None, k1, k2, product)

    # magnitudes do not matter
    big, small = const([[1e9, 2e9], [3e9j, -4e9]]), const([[1e-6, 2e-6], [3e-6, -4e-6]])
    one1, off = const([[1, 2], [3j, -4]]), const([[0, 1e-7], [0, 0]])
    for lab, l in (('small, large', [(a, small), (b, big)]), ('small', [(a, small)]), ('ordinary, small', [(one, one1), (a, small), (b, off)])):
        for meth, args, f in (('__mul__', lambda e: [Const(1e-5)], lambda x: T.mul(Const(1e-5), x)),
                              ('__rmul__', lambda e: [Const(1e9)], lambda x: T.mul(Const(1e9), x)),
                              ('__truediv__', lambda e: [Const(2)], lambda x: T.mul(Const(0.5), x)),
                              ('__neg__', lambda e: [], T.neg), ('conj', lambda e: [], T.conj), ('copy', lambda e: [], lambda x: x)):
            def go(l=l, meth=meth, args=args, f=f):
                e = Ex(ck)
                return judge(e.call(e.model(l, (2, 2)), meth, args(e)), [(k, t.map(f)) for k, t in l], (2, 2), what)
            ob('%s of tables of %s numbers' % (meth, lab), meth, go)
        for meth in ('__add__', '__sub__', '__matmul__'):
            def go(l=l, meth=meth):
                e = Ex(ck)
                r = [(a, small), (b, off)]
                w = product(l, r) if meth == '__matmul__' else total(1 if meth == '__add__' else -1)(l, r)
                return judge(e.call(e.model(l, (2, 2)), meth, [e.model(r, (2, 2))]), w[0], w[1], what)
            ob('%s of tables of %s numbers' % (meth, lab), meth, go)


def T_sum(l):
    r = Const(0)
    for x in l:
        r = T.add(r, x)
    return r
