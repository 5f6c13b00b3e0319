"""C24: options given by the caller are the values used by the steps they describe."""
import math
from .modelval import *
from . import mcommon, mrun, mscen, c15, c16, c17, c18, c29
from .c14 import MODEL, PS, models, has, lst, strip, worst
from sa import modelrep, nd as NN

SF, HG, LIN, GRP = 'symmetry_finder', 'hamiltonian_generator', 'linalg', 'groups'
ND5, TOL = Const(5), rat(1, 10**4)


class Log:
    """Calls of the steps, with their arguments by name."""
    def __init__(self):
        self.calls = []

    def watch(self, it, mod, name, result, cls=None):
        """result(bound arguments, state) or None to keep the earlier summary."""
        if cls is None and not has(it, mod, name):
            return
        full = '%s.%s' % (mod, name) if cls is None else '%s.%s.%s' % (mod, cls, name)
        old = it.summaries.get(full)

        def h(it, a, k, st, node):
            f = it.func(mod, name) if cls is None else it.method(mod, cls, name)
            d = it.bind_args(f, list(a), dict(k), st)
            if d is None:
                return NotImplemented
            self.calls.append((name, {x: it.snap(y, st) for x, y in d.items()}))
            return old(it, a, k, st, node) if result is None and old is not None else result(d, st) if result is not None else NotImplemented
        it.summaries[full] = h

    def method(self, it, name, params, result):
        """Method of a letter."""
        def h(it, o, a, k, st, node):
            if not isinstance(o, Poly):
                return NotImplemented
            d = dict(zip(params, a))
            d.update(k)
            self.calls.append((name, {x: it.snap(y, st) for x, y in d.items()}))
            return result(o, d)
        it.method_over[name] = h

    def got(self, name):
        return [d for n, d in self.calls if n == name]


def value(v):
    n = B.numconst(v) if isinstance(v, (Const, Poly)) else None
    return n


def same_value(a, b):
    if a == b:
        return True
    x, y = value(a), value(b)
    if x is not None and y is not None:
        return abs(x - y) <= 1e-9 * max(abs(x), abs(y))
    p, q = isinstance(a, Const), isinstance(b, Const)
    if p and q:
        return False if not (a == NONE and b == FALSE or a == FALSE and b == NONE) else None
    if any(isinstance(z, (Opq, Undef)) for z in list(walk(a)) + list(walk(b))):
        return None
    if (p or x is not None) and (q or y is not None):
        return False
    if p or q or isinstance(a, Poly) and isinstance(b, Poly):
        z = a if isinstance(a, Poly) else b
        # a letter given by the caller against a constant
        return False if isinstance(z, Poly) and B.single_atom(z) is not None and B.single_atom(z).name == 'opt' else None
    return None


def expect(log, rules):
    """rules: (step, parameter, value) or (step, None, False): the step does not happen."""
    out = [Verdict('eq')]
    for step, par, want, *only in rules:
        calls = [d for d in log.got(step) if all(f(d) for f in only)]
        if par is None:
            if want is False and calls:
                out.append(Verdict('ne', '%s is called although it was not asked for' % step))
            elif want is True and not calls:
                out.append(Verdict('ne', '%s is not called although it was asked for' % step) if log.complete else Verdict('unk', '%s is not called' % step))
            continue
        if not calls:
            out.append(Verdict('unk', '%s is not called' % step))
        for d in calls:
            if par not in d:
                out.append(Verdict('unk', '%s has no parameter %s' % (step, par)))
                continue
            c = same_value(d[par], want)
            if c is False:
                out.append(Verdict('ne', '%s=%s of %s is not the value given by the caller (%s)' % (par, d[par], step, want)))
            elif c is None:
                out.append(Verdict('unk', '%s=%s of %s against %s' % (par, str(d[par])[:80], step, want)))
    return worst(out)


class Cases:
    def __init__(self, ck):
        self.ck = ck

    def ob(self, f, label, fn, mod):
        """fn() -> (log, rules)"""
        try:
            w = where(self.ck, make(self.ck), mod, *f.split('.'))
        except AnchorMissing:
            return

        def go():
            log, rules = fn()
            log.complete = not log.taint
            return expect(log, rules)
        self.ck.ob('%s: %s' % (f, label), w, go)


def finish(log, v):
    """Remember whether the run was fully determined."""
    log.taint = isinstance(v, Opq) or v is None
    log.error = v.name if isinstance(v, Exc) else None
    return log


def onoff(b):
    return TRUE if b else FALSE


def finder(C):
    ck = C.ck
    G = [g for g in c15.GROUPS if g.name == 'Z2xZ2'][0]

    def whole(pretty, sparse, rot, gens, verb):
        def fn():
            z = c15.Search(ck, G, {0, 1})
            it, st, log = z.it, state(), Log()
            ps = Tup([atom('P0', (), 'm', (), 'np.ndarray')])
            log.watch(it, SF, 'conserved_quantities', lambda d, st: lst(it, st, [atom('Q0', (), 'x', (), 'Generator')]))
            log.watch(it, SF, 'continuous_symmetries', lambda d, st: lst(it, st, [atom('L0', (), 'x', (), 'Generator')]))
            log.watch(it, SF, 'discrete_symmetries', lambda d, st: Tup([z.set(st, [0, 1], True), ps]))
            log.watch(it, SF, '_reduce_hamiltonian', lambda d, st: ps)
            kw = {'prettify': onoff(pretty), 'sparse_linalg': onoff(sparse), 'continuous_rotations': onoff(rot), 'generators': onoff(gens), 'verbose': onoff(verb),
                  'num_digits': ND5, 'candidates': z.set(st, range(4))}
            v, s = absrun(it, it.func(SF, 'symmetries'), [MODEL], st, kw)
            r = [('conserved_quantities', 'prettify', onoff(pretty)), ('conserved_quantities', 'num_digits', ND5), ('conserved_quantities', 'Ps', ps),
                 ('discrete_symmetries', 'generators', onoff(gens)), ('discrete_symmetries', 'verbose', onoff(verb)), ('discrete_symmetries', 'sparse_linalg', onoff(sparse)),
                 ('discrete_symmetries', 'model', MODEL)]
            if has(it, SF, '_reduce_hamiltonian'):
                r.append(('_reduce_hamiltonian', 'sparse', onoff(sparse)))
            if rot:
                r += [('continuous_symmetries', 'prettify', onoff(pretty)), ('continuous_symmetries', 'num_digits', ND5), ('continuous_symmetries', 'sparse_linalg', onoff(sparse)),
                      ('continuous_symmetries', 'model', MODEL)]
            else:
                r.append(('continuous_symmetries', None, False))
            return finish(log, v), r
        C.ob('symmetries', 'prettify=%s sparse_linalg=%s continuous_rotations=%s generators=%s verbose=%s' % (pretty, sparse, rot, gens, verb), fn, SF)
    for flags in ((0, 0, 1, 0, 0), (1, 0, 1, 0, 0), (0, 1, 1, 0, 0), (0, 0, 0, 1, 0), (0, 0, 1, 0, 1), (1, 1, 0, 1, 1), (1, 1, 1, 1, 1)):
        whole(*[bool(x) for x in flags])

    def search(sparse, verb, given):
        def fn():
            z = c15.Search(ck, G, {0, 1})
            it, st, log = z.it, state(), Log()
            ps = Tup([atom('P0', (), 'm', (), 'np.ndarray')])
            log.watch(it, SF, '_reduce_hamiltonian', lambda d, st: ps)
            log.watch(it, SF, '_find_unitary', None)
            it.ext_over['builtins.print'] = lambda it, a, k, st, n: (log.calls.append(('print', {})), NONE)[1]
            kw = {'sparse_linalg': onoff(sparse), 'verbose': onoff(verb)}
            if given:
                kw['Ps'] = Tup([atom('P1', (), 'm', (), 'np.ndarray')])
            v, s = absrun(it, it.func(SF, 'discrete_symmetries'), [MODEL, z.set(st, range(4))], st, kw)
            r = [('print', None, verb), ('_find_unitary', 'sparse', onoff(sparse)), ('_find_unitary', 'Ps', kw.get('Ps', ps)), ('_find_unitary', 'model', MODEL)]
            r.append(('_reduce_hamiltonian', None, False) if given else ('_reduce_hamiltonian', 'sparse', onoff(sparse)))
            if not has(it, SF, '_find_unitary'):
                r = r[:1]
            return finish(log, v), r
        C.ob('discrete_symmetries', 'sparse_linalg=%s verbose=%s%s' % (sparse, verb, ', Ps' if given else ''), fn, SF)
    for a in (False, True):
        for b in (False, True):
            for c in (False, True):
                search(a, b, c)

    def unitary(sparse, deep=False):
        def fn():
            it = mkn(ck)
            models(it)
            st, log = state(), Log()
            if deep:
                log.watch(it, LIN, 'solve_mat_eqn', lambda d, st: lst(it, st, []))
            else:
                log.watch(it, SF, '_find_unitary_blocks', lambda d, st: atom('blocks', (), 'x'))
            it.summaries[SF + '._construct_unitary'] = lambda it, a, k, st, n: mat('S', 'np.ndarray')
            g = it.alloc(st, HInst(it.func(GRP, 'PointGroupElement'), {'R': ND.back(const([[-1, 0], [0, -1]]), 'ta.ndarray_int'), 'conjugate': FALSE,
                                                                      'antisymmetry': FALSE, 'U': NONE, '_strict_eq': FALSE}))
            absrun(it, it.func(SF, '_find_unitary'), [MODEL, lst(it, st, [PS]), g], st, {'sparse': onoff(sparse)})
            return finish(log, NONE), [('solve_mat_eqn' if deep else '_find_unitary_blocks', 'sparse', onoff(sparse))]
        if has(mkn(ck), SF, '_find_unitary') and (deep or has(mkn(ck), SF, '_find_unitary_blocks')):
            C.ob('discrete_symmetries', 'test of one candidate%s, sparse=%s' % (', equations' if deep else '', sparse), fn, SF)
    for b in (False, True):
        for deep in (False, True):
            unitary(b, deep)

    def conserved(pretty, given):
        def fn():
            it = mkn(ck)
            st, log = state(), Log()
            log.watch(it, LIN, 'sparse_basis', lambda d, st: d['bas'])
            kw = {'prettify': onoff(pretty)} if pretty or given else {}
            if given:
                kw['num_digits'] = ND5
            v, s = absrun(it, it.func(SF, 'conserved_quantities'), [Tup([TWO])], st, kw)
            return finish(log, v), [('sparse_basis', 'num_digits', ND5 if given else Const(3))] if pretty else [('sparse_basis', None, False)]
        C.ob('conserved_quantities', 'prettify=%s%s' % (pretty, ', num_digits' if given else ''), fn, SF)
    for a in (False, True):
        for b in (False, True):
            conserved(a, b)

    def rotations(pretty, sparse, given, digits):
        def fn():
            it = mkn(ck)
            models(it)
            st, log = state(), Log()
            NV = ND.back(const([[1, 2, 0, 0], [0, 1, 1, 0]]), 'np.ndarray')
            log.watch(it, SF, '_reduce_hamiltonian', lambda d, st: lst(it, st, [PS]))
            it.summaries[SF + '._reduced_model'] = lambda it, a, k, st, nd: lst(it, st, [atom('reduced', (), 'x', (), 'Model')])
            it.summaries[LIN + '.family_to_vectors'] = lambda it, a, k, st, nd: mat('F', 'np.ndarray')
            log.watch(it, LIN, 'nullspace', lambda d, st: NV)
            log.watch(it, LIN, 'sparse_basis', lambda d, st: NV)

            def gen(it, a, k, st, nd):
                return it.alloc(st, HInst(it.func(GRP, 'ContinuousGroupGenerator'), {'R': NONE, 'U': NONE}))
            it.summaries[GRP + '.ContinuousGroupGenerator'] = gen
            kw = {'prettify': onoff(pretty), 'sparse_linalg': onoff(sparse)}
            if digits:
                kw['num_digits'] = ND5
            if given:
                kw['Ps'] = lst(it, st, [PS])
            v, s = absrun(it, it.func(SF, 'continuous_symmetries'), [MODEL], st, kw)
            r = [('nullspace', 'sparse', onoff(sparse))]
            if has(it, SF, '_reduce_hamiltonian'):
                r.append(('_reduce_hamiltonian', None, False) if given else ('_reduce_hamiltonian', 'sparse', onoff(sparse)))
            r.append(('sparse_basis', 'num_digits', ND5 if digits else Const(8)) if pretty else ('sparse_basis', None, False))
            return finish(log, v), r
        C.ob('continuous_symmetries', 'prettify=%s sparse_linalg=%s%s%s' % (pretty, sparse, ', Ps' if given else '', ', num_digits' if digits else ''), fn, SF)
    for a, b, c, d in ((0, 0, 0, 0), (1, 0, 0, 1), (1, 1, 0, 0), (0, 1, 0, 1), (1, 1, 1, 1), (0, 0, 1, 1)):
        rotations(bool(a), bool(b), bool(c), bool(d))


TWO = ND.back(const([[[1, 0], [0, 1]], [[1, 0], [0, 1]]]), 'np.ndarray')


def families(C):
    ck = C.ck

    def cont(f, pretty, sparse, digits):
        def fn():
            log = Log()
            old = c17.constraints

            def both(it):
                r = old(it)
                log.watch(it, HG, 'constrain_family', None)
                log.watch(it, HG, 'make_basis_pretty', None)
                return r
            kw = {'prettify': onoff(pretty), 'sparse_linalg': onoff(sparse)}
            if digits:
                kw['num_digits'] = ND5
            c17.constraints = c18.constraints = both
            try:
                if f == 'continuum_hamiltonian':
                    it, v, calls, sy = c17.family(ck, 1, 2, 1, None, None, kw)
                else:
                    it, v, calls, sy = c18.pairing(ck, 1, 2, 1, kw=kw)
            finally:
                c17.constraints = c18.constraints = old
            r = [('constrain_family', 'sparse_linalg', onoff(sparse))]
            r.append(('make_basis_pretty', 'num_digits', ND5 if digits else Const(10)) if pretty else ('make_basis_pretty', None, False))
            return finish(log, v), r
        C.ob(f, 'prettify=%s sparse_linalg=%s%s' % (pretty, sparse, ', num_digits' if digits else ''), fn, HG)
    for f in ('continuum_hamiltonian', 'continuum_pairing'):
        for a, b, c in ((0, 0, 0), (1, 0, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1)):
            cont(f, bool(a), bool(b), bool(c))

    def constrain(sparse):
        def fn():
            it = c16.setup(ck)
            c16.matrix_attrs(it)
            st, log = state(), Log()
            it.summaries[LIN + '.family_to_vectors'] = lambda it, a, k, st, n: ND.back(const([[1, 2], [3, 5]]), 'np.ndarray')
            log.watch(it, LIN, 'nullspace', lambda d, st: ND.back(const([[1, 2]]), 'np.ndarray'))
            gs = [c16.MIX[c](it, st, i) for i, c in enumerate('PC')]
            kw = {} if sparse is None else {'sparse_linalg': onoff(sparse)}
            v, s = absrun(it, it.func(HG, 'constrain_family'), [lst(it, st, gs), lst(it, st, [c16.member(i) for i in range(2)])], st, kw)
            return finish(log, v), [('nullspace', 'sparse', onoff(sparse))]
        C.ob('constrain_family', 'sparse_linalg=%s' % sparse, fn, HG)
    for b in (None, False, True):
        constrain(b)

    def members_(it, log, st):
        log.method(it, 'around', ('decimals',), lambda o, d: atom('around', (o,), 'x', (), 'Model'))
        log.method(it, 'tosympy', ('nsimplify',), lambda o, d: atom('expr', (o,), 's', ('sym',), 'sympy.Matrix'))
        it.summaries[LIN + '.family_to_vectors'] = lambda it, a, k, st, n: ND.back(const([[1, 2, 0], [3, 5, 1]]), 'np.ndarray')
        return lst(it, st, [c16.member(i) for i in range(2)])

    def log10(it, a, k, st, node):
        n = value(a[0])
        if n is not None and n > 0:
            d = round(math.log10(float(n)))
            if abs(float(n) - 10.0**d) < 1e-9 * 10.0**d:
                return Const(d)
        return NotImplemented

    def simple(f, label, kw, rules, watch=(), digits=False):
        def fn():
            it = c16.setup(ck)
            it.ext_over['numpy.log10'] = it.ext_over['math.log10'] = log10
            st, log = state(), Log()
            fam = members_(it, log, st)
            for mod, name, res in watch:
                log.watch(it, mod, name, res)
            args = [fam] if f != 'subtract_family' else [fam, lst(it, st, [c16.member(i) for i in range(2, 4)])]
            k = {x: (lst(it, st, y) if isinstance(y, list) else y) for x, y in kw.items()}
            if f == 'check_symmetry':
                args.append(lst(it, st, [c16.MIX[c](it, st, i) for i, c in enumerate(k.pop('mix').v)]))
            v, s = absrun(it, it.func(HG, f), args, st, k)
            return finish(log, v), rules
        C.ob(f, label, fn, HG)
    M2 = ND.back(const([[1, 0], [0, 1]]), 'np.ndarray')
    pair = lambda d, st: Tup([M2, M2])
    for n in (1, 5):
        simple('round_family', 'num_digits=%d' % n, {'num_digits': Const(n)}, [('around', 'decimals', Const(n))])
        simple('make_basis_pretty', 'num_digits=%d' % n, {'num_digits': Const(n)}, [('around', 'decimals', Const(n)), ('rref', 'rtol', rat(1, 10**n))], [(LIN, 'rref', pair)])
    simple('round_family', 'default', {}, [('around', 'decimals', Const(3))])
    simple('make_basis_pretty', 'default', {}, [('around', 'decimals', Const(2)), ('rref', 'rtol', rat(1, 100))], [(LIN, 'rref', pair)])
    for tol in (rat(1, 10**3), rat(1, 10**6), None):
        kw = {} if tol is None else {'tol': tol}
        t = rat(1, 10**8) if tol is None else tol
        lab = 'tol=%s' % tol if tol is not None else 'default'
        simple('remove_duplicates', lab, kw, [('nullspace', 'atol', t), ('nullspace', 'return_complement', TRUE)], [(LIN, 'nullspace', pair)])
        for p in (False, True):
            digits = {rat(1, 10**3): 3, rat(1, 10**6): 6, rat(1, 10**8): 8}[t]
            simple('subtract_family', lab + ', prettify=%s' % p, dict(kw, prettify=onoff(p)),
                   [('nullspace', 'atol', t), ('nullspace', 'return_complement', TRUE)] + ([('make_basis_pretty', 'num_digits', Const(digits))] if p else [('make_basis_pretty', None, False)]),
                   [(LIN, 'nullspace', pair), (HG, 'make_basis_pretty', lambda d, st: d['family'])])
    for ns in (False, True):
        cs = [atom('opt', (Const(i),), 's', ('sym',), 'sympy.Symbol') for i in range(2)]
        for coeffs in (None, cs):
            kw = {'nsimplify': onoff(ns)}
            if coeffs:
                kw['coeffs'] = coeffs
            lab = 'nsimplify=%s%s' % (ns, ', coeffs' if coeffs else '')
            simple('hamiltonian_from_family', lab, kw, [('tosympy', 'nsimplify', onoff(ns))])
            simple('hamiltonian_from_family', lab + ', tosympy=False', dict(kw, tosympy=FALSE), [('tosympy', None, False)])
        simple('display_family', 'nsimplify=%s' % ns, {'nsimplify': onoff(ns)}, [('tosympy', 'nsimplify', onoff(ns)), ('hamiltonian_from_family', None, False)],
               [(HG, 'hamiltonian_from_family', lambda d, st: atom('sum', (), 's', ('sym',), 'sympy.Matrix'))])
        simple('display_family', 'summed, nsimplify=%s' % ns, {'nsimplify': onoff(ns), 'summed': TRUE}, [('tosympy', 'nsimplify', onoff(ns))])
    for mix in ('P', 'C', 'c', 'PC', 'CP'):
        simple('check_symmetry', 'num_digits, symmetries %s' % mix, {'mix': Const(mix), 'num_digits': ND5}, [('around', 'decimals', ND5)])
        simple('check_symmetry', 'no digits, symmetries %s' % mix, {'mix': Const(mix)}, [('around', None, False)])

    def rounded(mix):
        """With digits, every image is rounded before it is compared."""
        def go():
            it = c16.setup(ck)
            st = state()
            nd_ = atom('opt', (), 's', ('real', 'int'), 'int')
            gs = [c16.MIX[c](it, st, i) for i, c in enumerate(mix)]
            v, s = absrun(it, it.func(HG, 'check_symmetry'), [lst(it, st, [c16.member(0)]), lst(it, st, gs)], st, {'num_digits': nd_})
            bad, n = Verdict('eq'), 0
            for cube, x in leaves(strip(v)):
                if isinstance(x, Exc):
                    continue
                n += 1
                for p, b in cube:
                    if not isinstance(p, P) or p.name not in ('eq', 'nonempty'):
                        continue
                    for y in p.args:
                        a = B.single_atom(y) if isinstance(y, Poly) else None
                        if a is not None and a.name == 'applied':
                            return Verdict('ne', 'num_digits is given but the image is compared without rounding', cube, y)
            return bad if n else Verdict('unk', 'no normal return')
        w = where(ck, make(ck), HG, 'check_symmetry')
        ck.ob('check_symmetry: images under %s are rounded' % mix, w, go)
    for mix in ('P', 'C', 'c'):
        rounded(mix)

    def bloch(pretty, symm, digits, bm):
        def fn():
            log = Log()
            old = c29.install

            def both(it):
                old(it)
            hops = [(c29.A_, c29.A_, [Const(1), Const(0)])]
            kw = {'prettify': onoff(pretty), 'symmetrize': onoff(symm)}
            if digits:
                kw['num_digits'] = ND5
            run0 = c29.absrun

            def hook(it, f, a, st, k):
                log.watch(it, HG, 'remove_duplicates', None)
                log.watch(it, HG, 'make_basis_pretty', None)
                around = it.method_over['around']

                def h(it, o, a, k, st, node):
                    d = dict(zip(('decimals',), a))
                    d.update(k)
                    log.calls.append(('around', {x: it.snap(y, st) for x, y in d.items()}))
                    return around(it, o, a, k, st, node)
                it.method_over['around'] = h
                return run0(it, f, a, st, k)
            c29.absrun = hook
            try:
                it, v, calls = c29.scenario(ck, hops, [(c29.A_, 1)], 2, bm, kw=kw)
            finally:
                c29.absrun = run0
            d = 5 if digits else 10
            r = [('make_basis_pretty', 'num_digits', Const(d)) if pretty else ('make_basis_pretty', None, False)]
            if symm:
                r += [('around', 'decimals', Const(d)), ('remove_duplicates', 'tol', rat(1, 10**d))]
            else:
                r.append(('around', None, False))
            return finish(log, v), r
        C.ob('bloch_family', 'prettify=%s symmetrize=%s%s%s' % (pretty, symm, ', num_digits' if digits else '', ', Bloch' if bm else ''), fn, HG)
    for a, b, c, d in ((0, 0, 0, 0), (1, 0, 1, 0), (1, 1, 1, 0), (0, 1, 1, 1), (1, 1, 0, 1), (0, 1, 0, 0)):
        bloch(bool(a), bool(b), bool(c), bool(d))


OPTV = lambda n: atom('opt', (Const(n),), 's', ('real',), 'float')


def algebra(C):
    ck = C.ck
    n = 2

    def equations(sparse, kmax, flags):
        def fn():
            it = mkn(ck)
            st, log = state(), Log()
            log.watch(it, LIN, 'nullspace', lambda d, st: ND.back(NN.build((1, 4), lambda ix: real('v', *ix)), 'np.ndarray'))
            kw = {k: TRUE for k in flags}
            if sparse is not None:
                kw['sparse'] = onoff(sparse)
            if kmax is not None:
                kw['k_max'] = kmax
            v, s = absrun(it, it.func(LIN, 'solve_mat_eqn'), [ND.back(NN.stack([const([[0, 1], [1, 0]])]), 'np.ndarray')], st, kw)
            return finish(log, v), [('nullspace', 'sparse', onoff(bool(sparse))), ('nullspace', 'k_max', Const(-10) if kmax is None else kmax)]
        C.ob('solve_mat_eqn', 'sparse=%s%s %s' % (sparse, '' if kmax is None else ' k_max', ' '.join(flags)), fn, LIN)
    for sp in (None, False, True):
        for km in (None, Const(7), OPTV('k_max')):
            for fl in ((), ('hermitian',), ('hermitian', 'traceless'), ('conjugate',)):
                equations(sp, km, fl)


def model_options(C):
    ck = C.ck
    S_ = mscen
    F = S_.Fmt('np.ndarray')
    a, b = S_.a, S_.b

    def close(label, other, given):
        def fn():
            s = mcommon.Sc(ck, 'Model')
            log = Log()
            log.watch(s.it, LIN, 'allclose', lambda d, st: TRUE)
            s.it.summaries['model.Model.__eq__'] = lambda it, a, k, st, n: onoff(other == 'empty')
            A = [F.v(x) for x in ('A1', 'A2', 'B1')]
            l = F.m(s, [(a, A[0]), (b, A[1])])
            r = F.m(s, [(a, A[2])]) if other == 'model' else F.m(s, []) if other == 'empty' else Const(0)
            kw = {k: OPTV(k) for k in given}
            v = s.call(l, 'allclose', r, **kw)
            dflt = {'rtol': rat(1, 10**5), 'atol': rat(1, 10**8), 'equal_nan': FALSE}
            return finish(log, v), [('allclose', k, kw.get(k, dflt[k])) for k in dflt]
        C.ob('Model.allclose', '%s%s' % (label, ', ' + ', '.join(given) if given else ''), fn, 'model')
    for o in ('model', 'empty', 'zero'):
        for g in ((), ('rtol',), ('atol',), ('equal_nan',), ('rtol', 'atol', 'equal_nan')):
            close('against %s' % o, o, g)

    def watch_sympy(s, log, cls, name, res):
        log.watch(s.it, 'model', name, res, cls=cls)

    def simplified(cls, meth, ns):
        def fn():
            s = mcommon.Sc(ck, cls)
            log = Log()
            expr = atom('expr', (), 's', ('sym',), 'sympy.MatrixBase')
            on = onoff(ns)
            kw = {'nsimplify': on}
            A1, A2 = F.v('A1'), F.v('A2')
            rules = []
            if cls == 'BlochModel':
                h = S_.v2('p'), S_.v2('q')
                l = [(S_.bl(h[0], a), A1), (S_.bl(h[1], b), A2)]
                m = F.m(s, l, keep=[l[0][0]])
                watch_sympy(s, log, 'BlochCoeff', 'tosympy', lambda d, st: S_.mul(a, S_.phase('p')) if d['self'] == l[0][0] else S_.mul(b, S_.phase('q')))
                if meth == 'tomodel':
                    rules = [('tosympy', 'nsimplify', on), ('tosympy', 'momenta', Tup(list(S_.MOM)))]
                else:
                    watch_sympy(s, log, 'BlochModel', 'tomodel', lambda d, st: modelrep.model(s.it, st, [(a, A1)], cls='Model', shape=F.sh(), fmt=F.fmt, momenta=S_.MOM))
                    watch_sympy(s, log, 'Model', 'tosympy', lambda d, st: expr)
                    rules = [('tomodel', 'nsimplify', on)] + ([('tosympy', 'nsimplify', on)] if meth == 'tosympy' else [])
            else:
                m = F.m(s, [(a, A1), (b, A2)])
                watch_sympy(s, log, 'Model', 'tosympy', lambda d, st: expr)
                rules = [('tosympy', 'nsimplify', on)]
            v = s.call(m, meth, **kw)
            return finish(log, v), rules
        C.ob('%s.%s' % (cls, meth), 'nsimplify=%s' % ns, fn, 'model')
    for ns in (False, True):
        simplified('BlochModel', 'tomodel', ns)
        simplified('BlochModel', 'tosympy', ns)
        simplified('Model', 'lambdify', ns)

    def definitions(what):
        def fn():
            loc = atom('opt', (Const('locals'),), 'x', (), 'dict')
            if what == 'lambdify':
                s = mcommon.Sc(ck, 'Model')
                log = Log()
                log.watch(s.it, 'kwant_continuum', 'sympify', lambda d, st: atom('expr', (), 's', ('sym',), 'sympy.Basic'))
                v = s.func('kwant_continuum', 'lambdify', Const('text'), loc)
                return finish(log, v), [('sympify', 'locals', loc), ('sympify', 'expr', Const('text'))]
            s = S_.parsed(mcommon.Sc(ck, what), [(a, F.v('A1'))])
            log = Log()
            log.watch(s.it, 'kwant_continuum', 'sympify', None)
            v = s.new(what, Const('text'), locals=loc)
            return finish(log, v), [('sympify', 'locals', loc, lambda d: d.get('expr') == Const('text'))]
        C.ob('lambdify' if what == 'lambdify' else what, 'locals', fn, 'kwant_continuum' if what == 'lambdify' else 'model')
    for w in ('Model', 'BlochModel', 'lambdify'):
        definitions(w)


def run(ck):
    ck.rule('the values bound to the parameters of the steps a public function calls, found by abstract interpretation with the steps as recorded summaries, '
            'are the values of its own options; steps that are switched off are not called')
    C = Cases(ck)
    finder(C)
    families(C)
    algebra(C)
    model_options(C)
    mrun.run_scen(ck, 'C24', None)
