"""C17: continuum families contain exactly the requested powers of momenta."""
import itertools

from .modelval import *

MOD = 'hamiltonian_generator'
Q = [atom('sym:q_' + c, (), 's', ('real',), 'sympy.Symbol') for c in 'xyz']


def setup(ck):
    it = mkn(ck)
    install(it)
    sym_ext(it)
    return it


def powers(dim, degree, allp):
    """Exponents allowed for one degree."""
    if allp is None:
        ranges = [range(degree + 1)] * dim
    else:
        ranges = [range(p + 1) if isinstance(p, int) else p for p in allp[:dim]]
    return [p for p in itertools.product(*ranges) if sum(p) == degree] if dim else ([()] if degree == 0 else None)


def mono(p, momenta):
    r = Const(1)
    for n, k in zip(p, momenta):
        for _ in range(n):
            r = T.mul(r, k)
    return poly(r)


def allp_value(it, st, allp):
    if allp is None:
        return NONE
    return lst(it, st, [Const(p) if isinstance(p, int) else lst(it, st, [Const(x) for x in p]) for p in allp])


def variables(ck, dim, degree, allp, momenta, pos):
    what = 'dim %d, power %d%s' % (dim, degree, '' if allp is None else ', powers %s' % (allp,))

    def ob():
        it = setup(ck)
        st = state()
        kw = {}
        args = [Const(dim), Const(degree)]
        if allp is not None:
            kw['all_powers'] = allp_value(it, st, allp)
        if momenta == 'list':
            kw['momenta'] = lst(it, st, Q)
        elif momenta == 'tuple':
            kw['momenta'] = Tup(Q)
        elif momenta == 'index':
            kw['momenta'] = lst(it, st, [Const(2), Const(0), Const(1)])
        elif momenta == 'names':
            kw['momenta'] = lst(it, st, [Const('q_' + c) for c in 'xyz'])
        ks = {'list': Q, 'names': Q, 'tuple': Q, 'index': [KS.items[2], KS.items[0], KS.items[1]]}.get(momenta, KS.items)
        if pos:
            args += [kw.pop('all_powers', NONE)] + ([kw.pop('momenta')] if 'momenta' in kw else [])
        v, s = absrun(it, it.func(MOD, 'continuum_variables'), args, st, kw)
        for _, x in leaves(v):
            if isinstance(x, Exc):
                return Verdict('ne', '%s: raises %s' % (what, x.name))
        got = members(it.snap(v, s))
        if got is None:
            return Verdict('unk', 'no list of monomials: %s' % str(it.snap(v, s))[:300])
        got = [poly(x) for x in got]
        if any(x is None for x in got):
            return Verdict('unk', 'not an expression')
        want = [mono(p, ks) for p in powers(dim, degree, allp)]
        for x in got:
            if x not in want:
                return Verdict('ne' if settled_key(x) else 'unk', '%s: unexpected %s' % (what, x))
        for x in want:
            n = got.count(x)
            if n != 1:
                return Verdict('ne', '%s: %s occurs %d times' % (what, x, n))
        return Verdict('eq')
    return ob


def hermitian(n):
    """Basis of Hermitian matrices as {(row, column): number}."""
    out = [{(i, i): 1} for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            out += [{(i, j): 1, (j, i): 1}, {(i, j): 1j, (j, i): -1j}]
    return out


def symmetry(it, st, n, name='S'):
    c = it.func('groups', 'PointGroupElement')
    u = nd.build((n, n), lambda ix: atom('u' + name, tuple(Const(i) for i in ix), 's', (), 'complex'))
    return it.alloc(st, HInst(c, {'R': ND.back(nd.build((2, 2), lambda ix: atom('r' + name, tuple(Const(i) for i in ix), 's', ('real',), 'float')), 'ta.ndarray_float'),
                                  'conjugate': flag('c' + name), 'antisymmetry': flag('a' + name),
                                  'U': ND.back(u, 'np.ndarray'), '_strict_eq': FALSE}))


def constraints(it):
    """The constraint and prettifying steps keep the whole family; their
    arguments are recorded."""
    calls = []

    def constrain(it, args, kw, st, node):
        b = it.bind_args(it.func(MOD, 'constrain_family'), args, dict(kw), st)
        if b is None:
            return NotImplemented
        calls.append(({k: it.snap(v, st) for k, v in b.items()}))
        return b['family']
    it.summaries[MOD + '.constrain_family'] = constrain

    def pretty(it, args, kw, st, node):
        return args[0] if args else kw.get('family', NotImplemented)
    it.summaries[MOD + '.make_basis_pretty'] = pretty
    return calls


def family(ck, n, dim, total, allp, momenta, kw):
    it = setup(ck)
    calls = constraints(it)
    st = state()
    sy = [symmetry(it, st, n)]
    tp = Const(total) if isinstance(total, int) else lst(it, st, [Const(x) for x in total])
    k = dict(kw)
    if allp is not None:
        k['all_powers'] = allp_value(it, st, allp)
    if momenta is not None:
        k['momenta'] = lst(it, st, [Const('q_' + c) for c in 'xyz'] if momenta == 'names' else momenta)
    v, s = absrun(it, it.func(MOD, 'continuum_hamiltonian'), [lst(it, st, sy), Const(dim), tp], st, k)
    return it, v if isinstance(v, Exc) else it.snap(v, s), calls, [it.snap(x, st) for x in sy]


def expected(n, dim, total, allp, momenta):
    momenta = Q if momenta == 'names' else momenta
    out = []
    for deg in (range(total + 1) if isinstance(total, int) else total):
        for p in powers(dim, deg, allp) or []:
            k = mono(p, momenta)
            out += [{(k, i, j): z for (i, j), z in m.items()} for m in hermitian(n)]
    return out


def flats(vals, n):
    fl = []
    for v in vals:
        for t in v.data.values():
            if t.shape != (n, n):
                return Verdict('ne', 'a term has extents %s' % (t.shape,))
        d = flat(v)
        if d is None:
            return Verdict('unk', 'a term is not constant')
        fl.append(d)
    return fl


def run(ck):
    ck.rule('for constant dimensions and powers the list of monomials is exactly the set of products allowed by the ranges; '
            'the families before the constraint step span these monomials times all Hermitian matrices, and all of them are constrained')
    it = setup(ck)
    w = where(ck, it, MOD, 'continuum_variables')
    for dim in range(0, 4):
        for deg in range(0, 5 if dim < 3 else 4):
            if dim == 0 and deg:
                continue
            for pos in (False, True):
                ck.ob('variables: dim %d, power %d%s' % (dim, deg, ', by position' if pos else ''), w,
                      variables(ck, dim, deg, None, 'list' if pos else None, pos))
    for dim, deg, allp in ((2, 2, [1, 2]), (2, 3, [2, 1]), (2, 2, [[0, 2], 2]), (2, 4, [[0, 2, 4], [0, 1, 2]]), (2, 5, [2, 2]), (3, 2, [0, 2, 1]),
                           (3, 3, [[1], [0, 2], 3]), (3, 4, [2, [1, 2], [0, 3]]), (1, 3, [[1, 3, 5]]), (1, 2, [[1, 3]]), (2, 1, [1, 1, 5]),
                           (1, 2, [3, 0, 0]), (3, 0, [2, 2, 2]), (3, 2, [1, 1, 1])):
        for m in (None, 'tuple', 'index', 'list', 'names'):
            ck.ob('variables: dim %d, power %d, powers %s, momenta %s' % (dim, deg, allp, m or 'default'), w,
                  variables(ck, dim, deg, allp, m, m == 'list'))
    w = where(ck, it, MOD, 'continuum_hamiltonian')
    for n, dim, total, allp, momenta, kw, label in (
            (2, 2, 2, None, None, {}, 'power up to 2'), (1, 1, 3, None, None, {}, 'one dimension, up to 3'),
            (1, 3, 2, None, None, {}, 'three dimensions'), (2, 1, 0, None, None, {}, 'power 0'), (3, 1, 1, None, None, {}, 'three bands'),
            (1, 2, [0, 2], None, None, {}, 'powers 0 and 2'), (2, 1, [3], None, None, {}, 'power 3 only'), (1, 2, [1, 3], [2, 3], None, {}, 'powers 1, 3 with limits'),
            (1, 3, 3, [1, 2, [0, 3]], None, {}, 'three dimensions with limits'), (2, 2, 1, None, Q, {}, 'own momenta'),
            (1, 2, 2, [[0, 2], 1], Q[:2], {}, 'own momenta with limits'), (2, 2, 1, None, 'names', {}, 'names of momenta'), (1, 1, 2, [2], 'names', {}, 'names of momenta, one dimension'), (1, 0, 0, None, None, {}, 'no dimension'),
            (1, 2, 2, None, None, {'prettify': TRUE}, 'prettified'), (1, 2, 2, None, None, {'sparse_linalg': TRUE}, 'sparse'),
            (1, 2, [2, 0], None, Q, {'prettify': TRUE, 'num_digits': Const(6)}, 'prettified, powers 2 and 0')):
        memo = []

        def go(a=(n, dim, total, allp, momenta, kw), memo=memo):
            if not memo:
                memo.append(family(ck, *a))
            return memo[0]

        def terms(go=go, n=n, dim=dim, total=total, allp=allp, momenta=momenta, label=label):
            it, r, calls, sy = go()
            vals = valued(r)
            fl = vals if isinstance(vals, Verdict) else flats(vals, n)
            if isinstance(fl, Verdict):
                return fl
            return compare_span(fl, expected(n, dim, total, allp, momenta or KS.items), label)

        def constrained(go=go, n=n, dim=dim, total=total, allp=allp, momenta=momenta, label=label):
            it, r, calls, sy = go()
            if not calls:
                return Verdict('unk', 'constraint step not recognised')
            fl = []
            for c in calls:
                s = members(c['symmetries'])
                if s is None:
                    return Verdict('unk', 'symmetries not determined')
                if any(x not in s for x in sy):
                    return Verdict('unk' if any(isinstance(x, Opq) for x in walk(c['symmetries'])) else 'ne',
                                   '%s: family constrained without the given symmetry' % label)
                vals = valued(c['family'])
                f = vals if isinstance(vals, Verdict) else flats(vals, n)
                if isinstance(f, Verdict):
                    return f
                fl += f
            return compare_span(fl, expected(n, dim, total, allp, momenta or KS.items), label + ', constrained terms')

        def mom(go=go, dim=dim, momenta=momenta):
            vals = valued(go()[1])
            return vals if isinstance(vals, Verdict) else momenta_ok(vals, (Q if momenta == 'names' else momenta or KS.items)[:dim], 'Model')
        ck.ob('family: ' + label, w, terms)
        ck.ob('constrained family: ' + label, w, constrained)
        ck.ob('momenta: ' + label, w, mom)
    from .c18 import pairing
    w = where(ck, it, MOD, 'continuum_pairing')
    for n, dim, momenta, label in ((1, 2, None, 'default momenta'), (2, 1, Q, 'own momenta'), (1, 3, Q, 'own momenta, three dimensions')):
        def pm(n=n, dim=dim, momenta=momenta):
            vals = valued(pairing(ck, n, dim, 1, momenta=momenta)[1])
            return vals if isinstance(vals, Verdict) else momenta_ok(vals, (momenta or KS.items)[:dim], 'Model')
        def other(n=n, dim=dim, momenta=momenta):
            # anything but the recorded finding (the default momenta)
            vals = valued(pairing(ck, n, dim, 1, momenta=momenta)[1])
            if isinstance(vals, Verdict):
                return vals
            v = momenta_ok(vals, (momenta or KS.items)[:dim], 'Model')
            return Verdict('eq') if v.kind == 'ne' and momenta_ok(vals, KS.items, 'Model').kind == 'eq' else v
        ck.ob('momenta of pairing functions: ' + label, w, pm, finding='continuum_pairing.momenta')
        ck.ob('momenta of pairing functions, requested or default: ' + label, w, other)
