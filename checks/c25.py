"""C25: matrix bases span exactly the advertised space, once."""
from .ndcommon import *


def expected(d, traceless, antiherm, rl):
    """Reference basis, as the set of its matrices."""
    co = 1j if antiherm else 1
    E = lambda *l: {(i, j): co * v for i, j, v in l}
    out = []
    if not (rl and antiherm):
        if traceless:
            out += [E((i, i, 1), (d - 1, d - 1, -1)) for i in range(d - 1)]
        else:
            out += [E((i, i, 1)) for i in range(d)]
    for i in range(d):
        for j in range(i + 1, d):
            if not (rl and antiherm):
                out.append(E((i, j, 1), (j, i, 1)))
            if not (rl and not antiherm):
                out.append(E((i, j, 1j), (j, i, -1j)))
    return [nd.build((d, d), lambda ix, m=m: Const(m.get(ix, 0))) for m in out]


def vec(a):
    return [nd.num(x) for x in a.data]


def realrows(l):
    return [[z.real for z in r] + [z.imag for z in r] for r in l]


def members(it, v, st):
    v = it.snap(v, st)
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Seq) and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in v.segs):
        return [s.payload for s in v.segs]
    if isinstance(v, Poly) and ND.tryof(v) is not None:
        return [ND.back(x) for x in nd.of(v).rows()]
    return None


NAMES = ('traceless', 'antihermitian', 'real', 'sparse')


def run(ck):
    ck.rule('for constant dimensions and every combination of options the matrices yielded, as constant tables, have the '
            'advertised symmetry, are linearly independent over the real numbers and span a space of the advertised '
            'dimension; dense and sparse requests yield the same sequence, of the requested type')
    it = mkn(ck)
    w = where(ck, it, 'linalg', 'matrix_basis')
    for d in (1, 2, 3, 4, 5, 6, 7, 8):
        for bits in range(8):
            opt = dict(zip(NAMES, ((bits >> k) & 1 == 1 for k in range(3))))
            memo = {}

            def val(sp, pos, d=d, opt=opt, memo=memo):
                if (sp, pos) not in memo:
                    it = mkn(ck)
                    o = dict(opt, sparse=sp)
                    if pos:
                        args, kw = [Const(d)] + [Const(o[n]) for n in NAMES], {}
                    else:
                        args, kw = [Const(d)], {n: Const(x) for n, x in o.items() if x}
                    v, st = absrun(it, it.func('linalg', 'matrix_basis'), args, state(), kw)
                    memo[sp, pos] = v if isinstance(v, Exc) else members(it, v, st)
                v = memo[sp, pos]
                label = 'dim %d, %s' % (d, ', '.join(n for n in NAMES[:3] if opt[n]) or 'no options')
                if isinstance(v, Exc):
                    return Verdict('ne', '%s: raises %s' % (label, v.name)), label
                if v is None:
                    return Verdict('unk', 'no list of matrices'), label
                l = [table(x) for x in v]
                if any(x is None for x in l) or any(nd.num(y) is None for x in l for y in x.data):
                    return Verdict('unk', 'not constant'), label
                return l, label

            def space(sp=False, d=d, opt=opt, val=val):
                l, label = val(sp, False)
                if isinstance(l, Verdict):
                    return l
                for k, a in enumerate(l):
                    if a.shape != (d, d):
                        return Verdict('ne', '%s: matrix %d has extents %s' % (label, k, a.shape))
                    s = -1 if opt['antihermitian'] else 1
                    if same(dag(a), scale(Const(s), a), ()).kind != 'eq':
                        return Verdict('ne', '%s: matrix %d is not %s: %s' % (label, k, 'anti-Hermitian' if s < 0 else 'Hermitian', nd.nest(a)))
                    if opt['real'] and any(abs(z.imag) > 1e-12 for z in vec(a)):
                        return Verdict('ne', '%s: matrix %d is not real: %s' % (label, k, nd.nest(a)))
                    if opt['traceless'] and abs(sum(vec(a)[i * d + i] for i in range(d))) > 1e-12:
                        return Verdict('ne', '%s: matrix %d has a trace: %s' % (label, k, nd.nest(a)))
                want = len(expected(d, **{'traceless': opt['traceless'], 'antiherm': opt['antihermitian'], 'rl': opt['real']}))
                r = rank(realrows([vec(a) for a in l])) if l else 0
                if r != len(l):
                    return Verdict('ne', '%s: %d matrices, only %d independent' % (label, len(l), r))
                if r != want:
                    return Verdict('ne', '%s: %d matrices instead of %d' % (label, r, want))
                # documented members
                rest = list(l)
                for m in expected(d, opt['traceless'], opt['antihermitian'], opt['real']):
                    hit = [x for x in rest if same(x, m, ()).kind == 'eq']
                    if not hit:
                        return Verdict('ne', '%s: the documented matrix %s is missing' % (label, nd.nest(m)))
                    rest.remove(hit[0])
                return Verdict('eq')

            def agree(d=d, val=val):
                (a, label), (b, _) = val(False, False), val(True, False)
                if isinstance(a, Verdict) or isinstance(b, Verdict):
                    return a if isinstance(a, Verdict) else b
                if len(a) != len(b):
                    return Verdict('ne', '%s: %d dense but %d sparse matrices' % (label, len(a), len(b)))
                return worst([same(x, y, (), why='%s: sparse matrix %d' % (label, k)) for k, (x, y) in enumerate(zip(b, a))])

            def order(d=d, val=val):
                (a, label), (b, _) = val(False, False), val(False, True)
                if isinstance(a, Verdict) or isinstance(b, Verdict):
                    return a if isinstance(a, Verdict) else b
                if len(a) != len(b):
                    return Verdict('ne', '%s: options by position and by name differ' % label)
                return worst([same(x, y, (), why='%s: options by position' % label) for x, y in zip(b, a)])

            def kinds(d=d, val=val, memo=memo):
                for sp in (False, True):
                    l, label = val(sp, False)
                    if isinstance(l, Verdict):
                        return l
                    for x in memo[sp, False]:
                        t = x.typ if isinstance(x, Poly) else None
                        if not t:
                            return Verdict('unk', 'no type')
                        if bool(t & ND.SPARSE) != sp:
                            return Verdict('ne', '%s: %s matrix on a %s request' % (label, sorted(t)[0], 'sparse' if sp else 'dense'))
                return Verdict('eq')
            o = ', '.join(n for n in NAMES[:3] if opt[n]) or 'no options'
            ck.ob('dim %d (%s): dense basis' % (d, o), w, space)
            ck.ob('dim %d (%s): sparse basis is the same' % (d, o), w, agree)
            ck.ob('dim %d (%s): options by position' % (d, o), w, order)
            ck.ob('dim %d (%s): matrix types' % (d, o), w, kinds)
