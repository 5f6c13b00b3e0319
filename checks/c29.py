"""C29: terms of Bloch families."""
from .modelval import *

A_, B_, C_ = Const('a'), Const('b'), Const('c')
IDENT = ('remove_duplicates', 'make_basis_pretty')


def scenario(ck, hops, norbs, dim, bloch=False, form='list', symmetrize=False, conserved=False, kw=None):
    """Run the generator; (members, calls of the constraint step, arguments)."""
    it = mkn(ck)
    install(it)
    sym_ext(it)
    calls = []
    mod = 'hamiltonian_generator'

    def first(it, args, kw, st, node):
        b = it.bind_args(it.func(mod, 'remove_duplicates'), args, dict(kw), st)
        return list(b.values())[0] if b else NotImplemented
    it.summaries[mod + '.remove_duplicates'] = it.summaries[mod + '.make_basis_pretty'] = \
        lambda it, args, kw, st, node: args[0] if args else kw.get('family', NotImplemented)

    def constrain(it, args, kw, st, node):
        b = it.bind_args(it.func(mod, 'constrain_family'), args, dict(kw), st)
        if b is None:
            return NotImplemented
        calls.append((it.snap(b['symmetries'], st), it.snap(b['family'], st)))
        return b['family']
    it.summaries[mod + '.constrain_family'] = constrain
    it.summaries[mod + '.symmetrize_monomial'] = lambda it, args, kw, st, node: args[0] if args else NotImplemented
    it.summaries['groups.generate_group'] = lambda it, args, kw, st, node: atom('group', (it.snap(args[0], st),), 'x')
    it.method_over['around'] = lambda it, o, args, kw, st, node: o
    st = state()
    hv = lst(it, st, [Tup([a, b, lst(it, st, v) if k % 2 else Tup(v)]) for k, (a, b, v) in enumerate(hops)])
    pairs = [Tup([a, Const(n)]) for a, n in norbs]
    nb = lst(it, st, pairs, 'dict') if form == 'dict' else Tup(pairs) if form == 'tuple' else lst(it, st, pairs)
    sy = []
    if conserved:
        sy.append(it.alloc(st, HInst(it.func('groups', 'ContinuousGroupGenerator'), {'R': NONE, 'U': atom('Q', (), 'm', ('hermitian',), 'np.ndarray')})))
    k = {'symmetrize': TRUE if symmetrize else FALSE, 'prettify': FALSE, 'bloch_model': TRUE if bloch else FALSE}
    k.update(kw or {})
    v, s = absrun(it, it.func(mod, 'bloch_family'), [hv, lst(it, st, sy), nb], st, k)
    if isinstance(v, Exc):
        return it, v, calls
    v = it.snap(v, s)
    if form == 'dict':
        for x in list(walk(v)):
            if isinstance(x, P) and x.name == 'isinst' and x.args[1] == Ext('collections.OrderedDict'):
                v = restrict(v, pred(x))
    return it, v, calls


def expected(hops, norbs, momenta, onsites, dim):
    """[(key, row, column, value)...]: reference basis."""
    off, n = {}, 0
    size = {}
    for a, k in norbs:
        off[a], size[a] = n, k
        n += k
    l = [(a, b, v) for a, b, v in hops]
    if onsites:
        l += [(a, a, [Const(0)] * dim) for a, _ in norbs]
    out = []
    for a, b, v in l:
        k = phase([poly(x) for x in v], momenta)
        for i in range(size[a]):
            for j in range(size[b]):
                for u in (1, 1j):
                    d = {}
                    for key, r, c, z in ((k, off[a] + i, off[b] + j, u), (T.conj(k), off[b] + j, off[a] + i, complex(u).conjugate())):
                        d[key, r, c] = d.get((key, r, c), 0) + z
                    out.append(d)
    return out, n


def unknown(k):
    return any(isinstance(x, Opq) for x in walk(k))


def check_terms(vals, exp, n, what):
    fl = []
    for v in vals:
        for t in v.data.values():
            if t.shape != (n, n):
                return Verdict('ne', '%s: a term has extents %s instead of (%d, %d)' % (what, t.shape, n, n))
        d = flat(v)
        if d is None:
            return Verdict('unk', '%s: a term is not constant' % what)
        if any(unknown(k) for k, i, j in d):
            return Verdict('unk', '%s: the prefactor of a term is not determined' % what)
        for (k, i, j), z in d.items():
            w = d.get((T.conj(k), j, i))
            if w is None or abs(complex(w).conjugate() - z) > 1e-9:
                return Verdict('ne', '%s: a term is not Hermitian at (%d, %d) of %s' % (what, i, j, str(k)[:200]))
        fl.append(d)
    return compare_span(fl, exp, what)


def run(ck):
    ck.rule('for constant sizes of sites and symbolic hopping vectors the generated terms, as tables keyed by their phase, '
            'are Hermitian and span exactly the blocks of the requested hoppings; the steps applied afterwards receive all of them')
    it = mkn(ck)
    install(it)
    w = where(ck, it, 'hamiltonian_generator', 'bloch_family')
    v = [real('v', 0), real('v', 1), real('v', 2)]
    u = [real('w', 0), real('w', 1), real('w', 2)]
    q = [atom('sym:q_' + c, (), 's', ('real',), 'sympy.Symbol') for c in 'xyz']
    scen = [
        ('a->b', [(A_, B_)], [(A_, 1), (B_, 2)]),
        ('b->a', [(B_, A_)], [(A_, 2), (B_, 1)]),
        ('a->a', [(A_, A_)], [(B_, 1), (A_, 2)]),
        ('c->b, a->c', [(C_, B_), (A_, C_)], [(B_, 1), (C_, 2), (A_, 1)]),
    ]
    for label, hops, norbs in scen:
        for dim in (1, 2, 3):
            hv = [(a, b, (v, u)[i % 2][:dim]) for i, (a, b) in enumerate(hops)]
            for bloch in (False, True):
                for ons in (True, False):
                    memo = []

                    def go(hv=hv, norbs=norbs, dim=dim, bloch=bloch, ons=ons, memo=memo, **o):
                        if not memo:
                            memo.append(scenario(ck, hv, norbs, dim, bloch, kw={'onsites': TRUE if ons else FALSE}))
                        return memo[0]
                    name = '%s, %dd, %s, %s' % (label, dim, 'Bloch' if bloch else 'plain', 'onsite' if ons else 'no onsite')

                    def terms(go=go, hv=hv, norbs=norbs, dim=dim, ons=ons, name=name):
                        return judge(go(), hv, norbs, KS.items, ons, dim, name)

                    def mom(go=go, dim=dim, bloch=bloch):
                        it, r, calls = go()
                        vals = valued(r)
                        return vals if isinstance(vals, Verdict) else momenta_ok(vals, KS.items[:dim], 'BlochModel' if bloch else 'Model')
                    ck.ob('terms: ' + name, w, terms)
                    ck.ob('momenta: ' + name, w, mom)
    hops2 = [(A_, B_, v[:2]), (B_, B_, u[:2])]
    nb = [(B_, 2), (A_, 1)]
    for bloch in (False, True):
        k = 'Bloch' if bloch else 'plain'
        for form in ('tuple', 'dict'):
            ck.ob('sites as %s, %s' % (form, k), w, lambda form=form, bloch=bloch: judge(
                scenario(ck, hops2, nb, 2, bloch, form), hops2, nb, KS.items, True, 2, 'sites as ' + form))
        ck.ob('own momenta, %s' % k, w, lambda bloch=bloch: worst([judge(
            scenario(ck, hops2, nb, 2, bloch, kw={'momenta': Tup(q)}), hops2, nb, q, True, 2, 'own momenta'),
            (lambda x: x if isinstance(x, Verdict) else momenta_ok(x, q[:2], 'BlochModel' if bloch else 'Model'))(
                valued(scenario(ck, hops2, nb, 2, bloch, kw={'momenta': Tup(q)})[1]))]))
        def names(bloch=bloch):
            res = scenario(ck, hops2, nb, 2, bloch, kw={'momenta': Tup([Const('q_' + c) for c in 'xyz'])})
            vals = valued(res[1])
            if isinstance(vals, Verdict):
                return vals
            return worst([judge(res, hops2, nb, q, True, 2, 'names of momenta'), momenta_ok(vals, q[:2], 'BlochModel' if bloch else 'Model')])
        ck.ob('names of momenta, %s' % k, w, names)
        ck.ob('symmetrized, %s' % k, w, lambda bloch=bloch: judge(
            scenario(ck, hops2, nb, 2, bloch, symmetrize=True), hops2, nb, KS.items, True, 2, 'symmetrized'))
        ck.ob('numbers as vectors, %s' % k, w, lambda bloch=bloch: (lambda h: judge(
            scenario(ck, h, nb, 2, bloch), h, nb, KS.items, True, 2, 'integer vectors'))(
                [(A_, B_, [Const(1), Const(-2)]), (B_, B_, [Const(0), rat(1, 3)])]))
        ck.ob('prettified, %s' % k, w, lambda bloch=bloch: judge(
            scenario(ck, hops2, nb, 2, bloch, kw={'prettify': TRUE}), hops2, nb, KS.items, True, 2, 'prettified'))

        def cons(bloch=bloch):
            it, r, calls = scenario(ck, hops2, nb, 2, bloch, conserved=True)
            if not isinstance(r, Exc) and not calls:
                return Verdict('unk', 'constraint step not recognised')
            got = []
            for sy, fam in calls:
                if isinstance(sy, Seq) and sy.segs:
                    m = members(fam)
                    if m is None:
                        return Verdict('unk', 'family not determined')
                    got += m
            j = judge((it, r, calls), hops2, nb, KS.items, True, 2, 'with conserved quantity')
            if j.kind != 'eq':
                return j
            return judge((it, Seq([Seg((), TRUE, x) for x in got]), calls), hops2, nb, KS.items, True, 2, 'terms constrained by the conserved quantity')
        ck.ob('conserved quantities constrain every term, %s' % k, w, cons)


def judge(res, hops, norbs, momenta, onsites, dim, what):
    vals = valued(res[1])
    if isinstance(vals, Verdict):
        return vals
    exp, n = expected(hops, norbs, momenta, onsites, dim)
    return check_terms(vals, exp, n, what)
