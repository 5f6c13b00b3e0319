"""Models as values: linear combinations of explicitly constructed models."""
from .ndcommon import *

KS = Tup([atom('sym:k_' + c, (), 's', ('real',), 'sympy.Symbol') for c in 'xyz'])
CLASSES = ('Model', 'BlochModel')


def is_model(x):
    return isinstance(x, Poly) and bool(x.terms) and all(len(w) == 1 and w[0][0].name == 'mdl' for s, w in x.terms)


def bound(it, cls, args, kw, st):
    """Constructor arguments by name."""
    c = it.func('model', cls)
    f = c.lookup('__init__') if cls in CLASSES else (c.lookup('__new__') or c.lookup('__init__'))
    if not isinstance(f, Fun):
        return None
    d = it.bind_args(f, [NONE] + list(args), dict(kw), st)
    if d is None:
        return None
    names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs][1:]
    return [(n, d[n]) for n in names if n in d]


def install(it, momenta=KS):
    """Constructing a model yields a letter that remembers the arguments."""
    for mod in it.pkg.modules:
        if '_commutative_momenta' in it.pkg.modules[mod].defs:
            it.globals_over[mod + '._commutative_momenta'] = momenta
    it.globals_over['kwant_continuum.e'] = it.globals_over['model.e'] = it.lib.GLOBALS['model.e']
    for mod in it.pkg.modules:
        if mod not in ('model', 'kwant_continuum') and 'e' in it.pkg.modules[mod].defs:
            it.globals_over[mod + '.e'] = it.lib.GLOBALS['model.e']

    # generic models have terms
    T.ASSUME_NONEMPTY[0] = is_model

    def make(cls):
        def h(it, args, kw, st, node):
            b = bound(it, cls, args, kw, st)
            if b is None:
                return NotImplemented
            return atom('mdl', (Const(cls),) + tuple(Tup([Const(n), it.snap(v, st)]) for n, v in b), 'x', (), 'Model')
        return h
    for cls in CLASSES:
        it.summaries['model.' + cls] = make(cls)

    def length(it, args, kw, st, node):
        v = values(args[0]) if args and is_model(args[0]) else None
        return Const(len(v.data)) if v is not None else NotImplemented
    it.ext_over['builtins.len'] = length

    def items(what):
        def h(it, o, args, kw, st, node):
            if not is_model(o):
                return NotImplemented
            v = values(o)
            if v is None:
                return NotImplemented
            l = [(k, ND.back(t, 'np.ndarray')) for k, t in v.data.items()]
            return Seq([Seg((), TRUE, Tup(x) if what == 'items' else x[what == 'values']) for x in l])
        return h
    for n in ('items', 'keys', 'values'):
        it.method_over[n] = items(n)

    def coeff(it, args, kw, st, node):
        b = dict(bound(it, 'BlochCoeff', args, kw, st) or ())
        if not b or len(b) != 2:
            return NotImplemented
        return atom('bloch', tuple(it.snap(v, st) for v in b.values()), 's', (), 'BlochCoeff')
    it.summaries['model.BlochCoeff'] = coeff


def phase(hop, momenta):
    """exp(i k.d)"""
    s = Const(0)
    for d, k in zip(hop, momenta):
        s = T.add(s, T.mul(d, k))
    return expi(s)


def expi(x):
    return lift(B.epow, poly(T.mul(Const(1j), x)))


class Val:
    """{symbolic factor: table}, with the arguments of the constructors."""
    def __init__(self, data, args):
        self.data, self.args = data, args


def data_of(arg):
    if isinstance(arg, DictV) and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in arg.segs):
        return [s.payload.items for s in arg.segs]
    return None


def values(v):
    """Evaluate a linear combination of constructed models; None if unknown."""
    p = poly(v)
    if p is None:
        return None
    out, params = [], []
    for (s, w), c in p.terms.items():
        if len(w) == 1 and not any(x.name == 'mdl' for (x, cj), e in s):
            (l, cj, tr, inv), f = w[0], Poly({(s, ()): c}, 's')
        else:
            return None
        if l.name != 'mdl' or inv:
            return None
        cls, arg = l.args[0].v, {t.items[0].v: t.items[1] for t in l.args[1:]}
        items = data_of(arg.get('hamiltonian'))
        if items is None:
            return None
        params.append((cls, arg))
        for k, m in items:
            t = table(m)
            if t is None:
                return None
            k = key_of(k, as_symbols(arg.get('momenta')))
            if k is None:
                return None
            if cj:
                k, t = T.conj(k), t.map(T.conj)
            if tr:
                t = nd.transpose(t)
            out.append((k, t.map(lambda x: T.mul(simplify(f), x))))
    data = {}
    for k, t in out:
        if k in data:
            a = data[k]
            if a.shape != t.shape:
                return None
            t = nd.ew(T.add, a, t)
        data[k] = t
    return Val(data, params)


def as_symbols(m):
    """Momenta given by name are the symbols of that name."""
    if isinstance(m, Tup):
        return Tup([atom('sym:' + x.v, (), 's', ('real',), 'sympy.Symbol') if isinstance(x, Const) and isinstance(x.v, str) and x.v.isidentifier() else x
                    for x in m.items])
    return m


def key_of(k, momenta):
    a = single(k)
    if a is not None and a.name == 'bloch':
        hop, c = a.args
        t = table(hop)
        if t is None or t.ndim != 1:
            return None
        m = momenta.items if isinstance(momenta, Tup) else None
        if m is None or len(m) < t.shape[0]:
            return None
        return T.mul(poly(c), phase(t.data, m))
    return poly(k) if isinstance(k, (Poly, Const)) else None


def single(v):
    p = poly(v) if isinstance(v, (Poly, Const)) else None
    if p is None or len(p.terms) != 1:
        return None
    (s, w), c = next(iter(p.terms.items()))
    if c != (1, 0) or w or len(s) != 1 or s[0][1] != 1 or s[0][0][1]:
        return None
    return s[0][0][0]


def sym_ext(it):
    """Vocabulary of expressions in momenta."""
    from sa import modelrep as MR

    def atoms_of(it, args, kw, st, node):
        return it.snap(args[0], st)
    def named(it, a, kw, st, n):
        x = it.snap(a[0], st)
        if isinstance(x, Const) and isinstance(x.v, str):
            return atom('sym:' + x.v, (), 's', ('real',), 'sympy.Symbol') if x.v.isidentifier() else Opq('sympify', (x,))
        return MR.to_sym(it, x, st)
    it.ext_over.update({'sympy.Mul': MR.f_symMul, 'sympy.Add': MR.f_symAdd,
                        'sympy.Pow': lambda it, a, kw, st, n: it.binop('Pow', a[0], a[1], st, n),
                        'sympy.prod': prod_of, 'numpy.prod': prod_of, 'math.prod': prod_of})
    for m in it.pkg.modules:
        it.summaries[m + '.make_commutative'] = atoms_of
        it.summaries[m + '.sympify'] = named


def prod_of(it, args, kw, st, node):
    l = it.iter(args[0], st)
    if l is None or any(s.binders or s.guard != TRUE for s in l):
        return NotImplemented
    r = Const(1)
    for s in l:
        x = it.snap(s.payload, st)
        if not isinstance(x, (Poly, Const)) or ND.arr(x):
            return NotImplemented
        r = T.mul(r, x)
    return r


def lst(it, st, items, kind='list'):
    return it.alloc(st, HSeq(kind, [Seg((), TRUE, x) for x in items]))


def members(v):
    """[payload] of a list without conditions."""
    if isinstance(v, Tup):
        return list(v.items)
    if not isinstance(v, (Seq, SetV)):
        return None
    out = []
    for s in v.segs:
        if not isinstance(s, Seg) or s.binders:
            return None
        if s.guard == FALSE:
            continue
        if s.guard != TRUE:
            return None
        out.append(s.payload)
    return out


def flat(val):
    """{(key, row, column): number}; None when not constant."""
    d = {}
    for k, t in val.data.items():
        if t.ndim != 2:
            return None
        for i in range(t.shape[0]):
            for j in range(t.shape[1]):
                z = nd.num(t.at((i, j)))
                if z is None:
                    return None
                if abs(z) > 1e-12:
                    d[k, i, j] = z
    return d


def span(l, cols):
    rows = []
    for d in l:
        z = [d.get(c, 0) for c in cols]
        rows.append([complex(x).real for x in z] + [complex(x).imag for x in z])
    return rows


def settled_key(k, names=()):
    return not any(isinstance(x, (Opq, Undef)) or isinstance(x, Atom) and x.name not in ('epow', 'v', 'w', 'sqrt') and
                   x.name not in names and not x.name.startswith('sym:') for x in walk(k))


def compare_span(fl, exp, what):
    """Real spans of lists of {(factor, row, column): number}."""
    cols = sorted({c for d in fl + exp for c in d}, key=repr)
    known = {c[0] for d in exp for c in d}
    for d in fl:
        for k, i, j in d:
            if k not in known:
                if not settled_key(k):
                    return Verdict('unk', '%s: unknown factor %s' % (what, str(k)[:200]))
                return Verdict('ne', '%s: a term has the factor %s' % (what, str(k)[:300]))
    a, b = span(fl, cols), span(exp, cols)
    ra, rb, rc = rank(a) if a else 0, rank(b) if b else 0, rank(a + b) if a + b else 0
    if rc > rb:
        bad = [d for d in fl if rank(b + span([d], cols)) > rb][0]
        return Verdict('ne', '%s: a term lies outside the requested space: %s' % (what, sorted((i, j, str(z)) for (k, i, j), z in bad.items())))
    if ra < rb:
        bad = [d for d in exp if rank(a + span([d], cols)) > ra][0]
        return Verdict('ne', '%s: %d of %d dimensions, missing %s' % (
            what, ra, rb, sorted((str(k), i, j, str(z)) for (k, i, j), z in bad.items())))
    return Verdict('eq')


def valued(r, members=members):
    """Values of the members of a family, or a verdict."""
    if isinstance(r, Exc):
        return Verdict('ne', 'raises %s' % r.name)
    m = members(r)
    if m is None:
        return Verdict('unk', 'no list of terms: %s' % str(r)[:200])
    vals = [values(x) for x in m]
    if any(x is None for x in vals):
        return Verdict('unk', 'a term is not determined: %s' % str(m[[x is None for x in vals].index(True)])[:300])
    return vals


def momenta_ok(vals, want, cls):
    for v in vals:
        for c, arg in v.args:
            if c != cls:
                return Verdict('ne', '%s is constructed instead of %s' % (c, cls))
            m = as_symbols(arg.get('momenta'))
            if not isinstance(m, (Tup, Seq)):
                return Verdict('unk', 'momenta unknown')
            l = m.items if isinstance(m, Tup) else [s.payload for s in m.segs]
            l = [atom('sym:' + x.v, (), 's', ('real',), 'sympy.Symbol') if isinstance(x, Const) and isinstance(x.v, str) else x for x in l]
            if list(l) != list(want):
                return Verdict('ne', 'momenta %s instead of %s' % (list(l), list(want)))
    return Verdict('eq')
