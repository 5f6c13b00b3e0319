"""C08: no term is lost when symbolic factors coincide."""
from .mrun import *

x, y, A_, B_, C_ = (M.sym(n) for n in 'xyABC')


def sm(*l):
    r = Const(0)
    for t in l:
        r = add(r, t)
    return r


def pr(*l):
    r = Const(1)
    for t in l:
        r = mul(r, t)
    return r


EXPRS = {
    'distinct monomials': (sm(pr(A_, x), pr(B_, y), C_), {x: A_, y: B_, Const(1): C_}),
    'several summands of one monomial': (sm(pr(A_, x), pr(Const(3), B_, x), pr(Const(2), x)), {x: sm(A_, pr(Const(3), B_), Const(2))}),
    'constant summands': (sm(A_, pr(B_, C_), Const(2)), {Const(1): sm(A_, pr(B_, C_), Const(2))}),
    'mixed products': (sm(pr(A_, x, y), pr(Const(5), x, y), pr(B_, x), pr(Const(-1), x)), {pr(x, y): sm(A_, Const(5)), x: sm(B_, Const(-1))}),
    'several parameters': (sm(pr(Const(2), A_, B_, C_, x), pr(A_, B_, y)), {x: pr(Const(2), A_, B_, C_), y: pr(A_, B_)}),
    'powers': (sm(pr(A_, x, x), pr(B_, x, x), pr(C_, x)), {pr(x, x): sm(A_, B_), x: C_}),
    'parameters only': (pr(A_, B_), {Const(1): pr(A_, B_)}),
    'generators only': (sm(pr(x, y), x), {pr(x, y): Const(1), x: Const(1)}),
}


def monomials(ck, expr, want):
    s = Sc(ck)
    s.it.summaries['kwant_continuum.sympify'] = lambda it, a, k, st, n: a[0] if a and isinstance(a[0], (Poly, Const)) else NotImplemented
    for n in ('sympy.Integer', 'sympy.Number', 'sympy.sympify', 'sympy.S'):
        s.it.ext_over[n] = lambda it, a, k, st, n: a[0] if len(a) == 1 and isinstance(a[0], Const) and isinstance(a[0].v, (int, float)) else NotImplemented
    v = s.func('kwant_continuum', 'monomials', expr, gens=s.list([x, y]))
    bad = None
    n = 0
    for cube, r in leaves(v.args[0] if isinstance(v, Opq) and v.tag == 'taint' else v):
        if isinstance(r, Exc):
            continue
        if not isinstance(r, DictV) or not all(isinstance(g, Seg) and not g.binders and g.guard == TRUE and isinstance(g.payload, Tup) for g in r.segs):
            bad = Verdict('unk', 'form of the result', cube, r)
            continue
        n += 1
        got = {}
        for g in r.segs:
            k, w = (poly(z) for z in g.payload.items)
            if k is None or w is None or any(isinstance(z, Opq) for z in walk(w)) or any(isinstance(z, Opq) for z in walk(k)):
                return Verdict('unk', 'form of a term', cube, g.payload)
            got[k.key()] = w
        for k, w in want.items():
            if poly(k).key() not in got:
                return Verdict('ne', 'monomial %s is missing' % (k,), cube, r)
            if got.pop(poly(k).key()) != poly(w):
                return Verdict('ne', 'coefficient of %s' % (k,), cube, r, w)
        if any(w.terms for w in got.values()):
            return Verdict('ne', 'additional monomials', cube, r)
    return bad or (Verdict('eq') if n else Verdict('unk', 'no result'))


def run(ck):
    ck.rule(RULE + '; classes of keys whose images coincide, split or carry numerical factors')
    ck.rule('the decomposition of an expression is, for each product of generators, the sum of the cofactors of that product')
    run_scen(ck, 'C08', ('terms',))
    run_scen(ck, 'C08v', ('terms',))
    it = make(ck)
    f = it.func('kwant_continuum', 'monomials')
    w = '%s:%d kwant_continuum.monomials' % (ck.pkg.modules['kwant_continuum'].path, f.node.lineno)
    for n, (e, want) in EXPRS.items():
        ck.ob('monomials: %s' % n, w, lambda e=e, want=want: monomials(ck, e, want))
