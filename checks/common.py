"""Helpers shared by the abstract-interpretation checks."""
from sa.terms import *
from sa import build as B
from sa.build import *
from sa.interp import *
from sa.compare import compare, Verdict, leaf_cmp
from sa import lib as L
from fractions import Fraction

T0 = TRUE


def std_summaries():
    """Assumed meanings of numerical helpers (each has its own checks)."""
    def allclose(it, args, kw, st, node):
        if len(args) < 2:
            return NotImplemented
        return close(it.snap(args[0], st), it.snap(args[1], st))

    def inv_int(it, args, kw, st, node):
        return lift(lambda x: retype(inverse(x), 'ta.ndarray_int'), args[0])

    def prop(it, args, kw, st, node):
        a = it.snap(args[0], st)
        return lift(lambda x: Tup([pred(P('prop', x)), atom('propcoef', (x,), 's')]), a)
    return {'linalg.allclose': allclose, 'linalg._inv_int': inv_int, 'linalg.prop_to_id': prop}


def retype(v, typ):
    return Poly(v.terms, v.kind, typ) if isinstance(v, Poly) else v


def make(ck, **kw):
    it = Interp(ck.pkg, std_summaries())
    it.ext_summaries = {}
    it.summaries.update(kw)
    it.functions = ck.functions
    return it


def where(ck, it, mod, *names):
    """file:line function of a public entry point (for the report)."""
    c = it.func(mod, names[0])
    f = it.method(mod, names[0], names[1]) if len(names) > 1 else c
    return '%s:%d %s.%s' % (ck.pkg.modules[f.mod].path, f.node.lineno, mod, '.'.join(names))


def state():
    return State({0: {}})


def mat(name, typ='np.ndarray', attrs=()):
    return atom(name, (), 'm', attrs, typ)


def flag(name):
    return truth(atom(name, (), 's', (), 'bool'))


RT = {'int': 'ta.ndarray_int', 'float': 'ta.ndarray_float', 'exact': 'sympy.ImmutableMatrix'}


def pge_fields(n, U=True, R='int'):
    return {'R': mat('R' + n, RT[R], ('real',)), 'conjugate': flag('c' + n), 'antisymmetry': flag('a' + n),
            'U': mat('U' + n, 'np.ndarray', ('unitary',)) if U else NONE, '_strict_eq': flag('s' + n)}


def pge(it, st, n, U=True, R='int', **over):
    f = pge_fields(n, U, R)
    f.update(over)
    return it.alloc(st, HInst(it.func('groups', 'PointGroupElement'), f))


def H(name='H'):
    return atom(name, (), 'x', (), 'Model')


def absrun(it, f, args, st, kw=None):
    v, s = it.run(f, args, kw, st)
    if it.taint:
        v = Opq('taint', (v,))
    return v, s


def fields(v):
    """Gated record -> {field: gated value}; leaves that are not records
    (exceptions, unknown) are kept for every field."""
    names = []
    for _, x in leaves(v):
        if isinstance(x, Rec):
            for t in x.items:
                if isinstance(t, Tup) and isinstance(t.items[0], Const) and t.items[0].v not in names:
                    names.append(t.items[0].v)
    out = {}
    for n in names:
        def get(x, n=n):
            if isinstance(x, Rec):
                for t in x.items:
                    if t.items[0].v == n:
                        return t.items[1]
                return UNDEF
            return x
        out[n] = lift(get, v)
    return out


def cmp_fields(v, spec, exc='strict', vocab=()):
    """Compare the fields of a result record with {name: required value}."""
    fs = fields(v)
    if not fs:
        # exceptions / unknown only
        for _, x in leaves(v):
            if isinstance(x, Exc):
                return Verdict('ne' if exc == 'strict' else 'unk', 'raises %s' % x.name, (), v, None)
        return Verdict('unk', 'no record', (), v, None)
    worst = Verdict('eq')
    for n, want in spec.items():
        if n not in fs:
            r = Verdict('unk', 'no field %s' % n, (), v, want)
        else:
            r = compare(fs[n], want, set(vocab), exc)
            r.why = ('field %s: ' % n + r.why) if r.kind != 'eq' else ''
        if r.kind == 'ne':
            return r
        if r.kind == 'unk' and worst.kind == 'eq':
            worst = r
    return worst
