"""C18: pairing families."""
from .c17 import *

PH = [atom('phi', (Const(i),), 's', (), 'complex') for i in range(3)]


def generator(it, st, n, name='G'):
    c = it.func('groups', 'ContinuousGroupGenerator')
    u = nd.build((n, n), lambda ix: atom('u' + name, tuple(Const(i) for i in ix), 's', (), 'complex'))
    return it.alloc(st, HInst(c, {'R': NONE, 'U': ND.back(u, 'np.ndarray')}))


def pairing(ck, n, dim, total, allp=None, momenta=None, phases=None, kinds='p', kw=(), generic=False):
    it = setup(ck)
    calls = constraints(it)
    if generic:
        def constrain(it, args, kw, st, node):
            # some family with arbitrary members
            l = []
            for i in range(2):
                t = nd.build((2 * n, 2 * n), lambda ix: atom('h', (Const(i),) + tuple(Const(j) for j in ix), 's', (), 'complex'))
                d = lst(it, st, [Tup([k, ND.back(t.map(lambda x: T.mul(k, x)), 'np.ndarray')]) for k in (KS.items[i], T.mul(KS.items[0], KS.items[1]))], 'dict')
                l.append(it.summaries['model.Model'](it, [d], {'momenta': Tup(KS.items[:dim])}, st, node))
            return lst(it, st, l)
        it.summaries[MOD + '.constrain_family'] = constrain
    st = state()
    sy = [symmetry(it, st, n, 'S%d' % i) if k == 'p' else generator(it, st, n, 'S%d' % i) for i, k in enumerate(kinds)]
    before = [it.snap(x, st) for x in sy]
    tp = Const(total) if isinstance(total, int) else lst(it, st, [Const(x) for x in total])
    k = dict(kw)
    if allp is not None:
        k['all_powers'] = allp_value(it, st, allp)
    if momenta is not None:
        k['momenta'] = lst(it, st, momenta)
    if phases is not None:
        k['phases'] = lst(it, st, phases)
    v, s = absrun(it, it.func(MOD, 'continuum_pairing'), [lst(it, st, sy), Const(dim), tp], st, k)
    return it, v if isinstance(v, Exc) else it.snap(v, s), calls, before


def field(rec, name):
    if isinstance(rec, Rec):
        for t in rec.items:
            if t.items[0].v == name:
                return t.items[1]
    return None


def diag2(a, b):
    n = a.shape[0]
    m = b.shape[0]
    return nd.build((n + m, n + m), lambda ix: a.at(ix) if ix[0] < n and ix[1] < n else
                    b.at((ix[0] - n, ix[1] - n)) if ix[0] >= n and ix[1] >= n else Const(0))


def given(calls):
    """Symmetry lists of the constraint steps."""
    if not calls:
        return Verdict('unk', 'constraint step not recognised')
    out = []
    for c in calls:
        s = members(c['symmetries'])
        if s is None:
            return Verdict('unk', 'symmetries not determined')
        out.append(s)
    return out


def extended(ck, n, dim, kinds, phases, label):
    def ob():
        it, r, calls, before = pairing(ck, n, dim, 1, phases=phases, kinds=kinds)
        if isinstance(r, Exc):
            return Verdict('ne', '%s: raises %s' % (label, r.name))
        ls = given(calls)
        if isinstance(ls, Verdict):
            return ls
        voc = {x.name for v in before for x in walk(v) if isinstance(x, Atom)} | {'phi'}
        flags = {x for b, k in zip(before, kinds) if k == 'p' for f in ('conjugate', 'antisymmetry') for x in walk(field(b, f)) if isinstance(x, P)}
        for l in ls:
            for i, b in enumerate(before):
                u = table(field(b, 'U'))
                ph = phases[i] if phases is not None else Const(1)
                if kinds[i] == 'p':
                    want = diag2(u, u.map(T.conj).map(lambda x: T.mul(ph, x)))
                else:
                    want = diag2(u, nd.ew(T.add, u.map(lambda x: T.neg(T.conj(x))), eye(n).map(lambda x: T.mul(ph, x))))
                same_r = [x for x in l if isinstance(x, Rec) and x.cls == b.cls and (
                    field(x, 'R') == field(b, 'R') if kinds[i] == 'p' else field(x, 'R') in (NONE, field(b, 'R')))]
                if not same_r:
                    return Verdict('unk', '%s: symmetry %d not found among the constraints' % (label, i))
                best = None
                for x in same_r:
                    v = Verdict('eq')
                    for cube, u in leaves(field(x, 'U')):
                        t = table(u)
                        w = same(t, want, voc, why='%s: symmetry %d' % (label, i)) if t is not None else Verdict('unk', 'unknown unitary')
                        if w.kind == 'ne' and any(p not in flags for p, b in cube):
                            w = Verdict('unk', 'unitary depends on other conditions', cube, u)
                        v = worst([v, w])
                    if v.kind == 'eq':
                        for f in ('conjugate', 'antisymmetry') if kinds[i] == 'p' else ():
                            if field(x, f) != field(b, f):
                                v = Verdict('ne', '%s: symmetry %d has another %s' % (label, i, f))
                    best = v if best is None or v.kind == 'eq' or v.kind == 'ne' and best.kind == 'unk' else best
                if best.kind != 'eq':
                    return best
        return Verdict('eq')
    return ob


def particle_hole(ck, n, dim, sq, label, kw):
    def ob():
        it, r, calls, before = pairing(ck, n, dim, 1, kw=kw)
        if isinstance(r, Exc):
            return Verdict('ne', '%s: raises %s' % (label, r.name))
        ls = given(calls)
        if isinstance(ls, Verdict):
            return ls
        for l in ls:
            ok = []
            for x in l:
                if not isinstance(x, Rec):
                    return Verdict('unk', 'symmetry not determined')
                if field(x, 'conjugate') == TRUE and field(x, 'antisymmetry') == TRUE:
                    ok.append(x)
            if not ok:
                return Verdict('ne', '%s: no particle-hole operator among the constraints' % label)
            for x in ok:
                R, U = table(field(x, 'R')), table(field(x, 'U'))
                if R is None or U is None:
                    return Verdict('unk', '%s: particle-hole operator not determined' % label)
                v = same(R, eye(dim), (), why=label + ': R of the particle-hole operator')
                if v.kind != 'eq':
                    return v
                if U.shape != (2 * n, 2 * n):
                    return Verdict('ne', '%s: extents %s' % (label, U.shape))
                v = same(mm(U, U.map(T.conj)), scale(Const(sq), eye(2 * n)), (), why=label + ': square of the particle-hole operator')
                if v.kind != 'eq':
                    return v
                ref = kr(const([[0, 1], [sq, 0]]), eye(n))
                if same(U, ref, ()).kind != 'eq' and same(scale(Const(-1), U), ref, ()).kind != 'eq':
                    return Verdict('ne', '%s: particle-hole operator is %s' % (label, nd.nest(U)))
        return Verdict('eq')
    return ob


def basis(n, off):
    """All n x n matrices with complex coefficients, placed off the diagonal."""
    out = []
    for i in range(n):
        for j in range(n):
            for z in (1, 1j):
                out.append({(i, n + j): z, (n + j, i): complex(z).conjugate()} if off else {(i, j): z})
    return out


def pairing_terms(ck, n, dim, total, allp, momenta, kw, label):
    memo = []

    def go():
        if not memo:
            memo.append(pairing(ck, n, dim, total, allp, momenta, kw=kw))
        return memo[0]

    def exp(off):
        out = []
        for deg in (range(total + 1) if isinstance(total, int) else total):
            for p in powers(dim, deg, allp):
                k = mono(p, momenta or KS.items)
                out += [{(k, i, j): z for (i, j), z in m.items()} for m in basis(n, off)]
        return out

    def before():
        it, r, calls, sy = go()
        if isinstance(r, Exc):
            return Verdict('ne', '%s: raises %s' % (label, r.name))
        if not calls:
            return Verdict('unk', 'constraint step not recognised')
        fl = []
        for c in calls:
            vals = valued(c['family'])
            f = vals if isinstance(vals, Verdict) else flats(vals, 2 * n)
            if isinstance(f, Verdict):
                return f
            fl += f
        return compare_span(fl, exp(True), label + ', constrained terms')

    def after():
        vals = valued(go()[1])
        fl = vals if isinstance(vals, Verdict) else flats(vals, n)
        return fl if isinstance(fl, Verdict) else compare_span(fl, exp(False), label)
    return before, after


def block(ck, n, prettify):
    def ob():
        it, r, calls, sy = pairing(ck, n, 2, [0], generic=True, kw={'prettify': TRUE} if prettify else {})
        vals = valued(r)
        if isinstance(vals, Verdict):
            return vals
        if len(vals) != 2:
            return Verdict('ne', '%d members out of 2' % len(vals))
        for i, v in enumerate(vals):
            keys = (poly(KS.items[i]), poly(T.mul(KS.items[0], KS.items[1])))
            if set(v.data) != set(keys):
                return Verdict('ne' if all(settled_key(k) for k in v.data) else 'unk', 'symbolic factors %s' % sorted(map(str, v.data)))
            for k in keys:
                want = nd.build((n, n), lambda ix: T.mul(k, atom('h', (Const(i), Const(ix[0]), Const(n + ix[1])), 's', (), 'complex')))
                w = same(v.data[k], want, {'h', 'sym:k_x', 'sym:k_y'}, why='member %d' % i)
                if w.kind != 'eq':
                    return w
        return Verdict('eq')
    return ob


def run(ck):
    ck.rule('the symmetries handed to the constraint step, as tables over the entries of the given unitary parts, are the documented '
            'extensions; the terms handed to it span all off-diagonal Hermitian matrices times the requested monomials; the result is their upper right block')
    it = setup(ck)
    w = where(ck, it, MOD, 'continuum_pairing')
    for kinds in ('p', 'c', 'pp', 'pc', 'cp', 'pcp', 'ccp'):
        for ph in (None, PH):
            for n in (1, 2):
                label = 'symmetries %s, %d bands%s' % (kinds, n, ', phases' if ph else '')
                ck.ob(label, w, extended(ck, n, 2, kinds, ph[:len(kinds)] if ph else None, label))
    for n in (1, 2, 3):
        for pr in (False, True):
            ck.ob('block of arbitrary members, %d bands%s' % (n, ', prettified' if pr else ''), w, block(ck, n, pr))
    for n, dim in ((1, 1), (2, 2), (1, 3)):
        for sq, kw in ((1, {}), (1, {'ph_square': Const(1)}), (-1, {'ph_square': Const(-1)})):
            label = 'particle-hole operator%s, %d bands' % ('' if not kw else ' squaring to %d' % sq, n)
            ck.ob(label, w, particle_hole(ck, n, dim, sq, label, kw))
    for n, dim, total, allp, momenta, kw, label in (
            (1, 2, 1, None, None, {}, 'one band'), (2, 2, 1, None, None, {}, 'two bands'), (2, 1, 2, None, None, {}, 'up to 2'),
            (1, 3, [1, 2], None, None, {}, 'powers 1 and 2'), (1, 2, [0, 3], [1, 3], None, {}, 'with limits'), (1, 2, 1, None, Q, {}, 'own momenta'),
            (2, 1, 1, None, None, {'prettify': TRUE}, 'prettified'), (2, 1, 1, None, None, {'ph_square': Const(-1)}, 'negative square')):
        b, a = pairing_terms(ck, n, dim, total, allp, momenta, kw, label)
        ck.ob('terms in particle-hole space: ' + label, w, b)
        ck.ob('upper right blocks: ' + label, w, a)
