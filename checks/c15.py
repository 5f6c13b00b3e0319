"""C15: the discrete symmetry search finds exactly the symmetries among the candidates."""
from .c28 import *
from . import c28
from .c14 import MODEL, models, lst, worst
import itertools

SF = 'symmetry_finder'
GROUPS = [G for G in c28.GROUPS if G.n <= 12]


class El(str):
    """Name of a group element; with or without unitary part."""
    full = False


def el(i, full=False):
    s = El('<%d>' % i)
    s.full = full
    return Const(s)


def full(v):
    return isinstance(v, Const) and isinstance(v.v, El) and v.v.full


class Search:
    """Search in group G where the elements of S are the symmetries."""
    def __init__(self, ck, G, S, flip=False):
        self.G, self.S, self.flip = G, frozenset(S), flip
        self.tested, self.calls = [], []
        it = self.it = mk(ck, G)
        it.set_pops = True
        models(it, tuple(atom('k%d' % i, (), 's', ('real', 'sym'), 'sympy.Symbol') for i in range(2)))
        hook = it.binop_hook

        def binop(it, op, a, b, st):
            r = hook(it, op, a, b, st)
            i = num(r) if r is not None else None
            return r if i is None else el(i, full(a) and (full(b) or num(b) is None))
        it.binop_hook = binop

        def method(name):
            def h(it, o, args, kw, st, node):
                x = num(o)
                if x is None:
                    return NotImplemented
                if name == 'apply':
                    m = args[0] if args else kw.get('model')
                    if not full(o) or m != MODEL:
                        return Opq('applied', (o,))
                    return MODEL if x in self.S else atom('applied', (o, MODEL), 'x', (), 'Model')
                return el(G.inv[x] if name == 'inv' else 0, full(o))
            return h
        for n in ('inv', 'identity', 'apply'):
            it.method_over[n] = method(n)
        attr = it.attr_hook

        def attrs(it, o, name, st, node=None):
            if num(o) is not None:
                if name == 'U':
                    return B.letter(Atom('U', (Const(num(o)),), 'm', (), 'np.ndarray')) if full(o) else NONE
                return None if name in ('inv', 'identity', 'apply') else Opq('attr', (o, Const(name)))
            return attr(it, o, name, st, node)
        it.attr_hook = attrs

        def store(it, o, name, v, st):
            if num(o) is None or name != 'U' or st.guard != TRUE:
                return False
            o.v.full = v != NONE
            return True
        it.setattr_hook = store

        def find(it, args, kw, st, node):
            d = it.bind_args(it.func(SF, '_find_unitary'), args, dict(kw), st)
            if d is None or st.guard != TRUE:
                return NotImplemented
            g = d['g']
            i = num(g)
            if i is None:
                return Opq('found', (it.snap(g, st),))
            self.calls.append(d)
            self.tested.append(i)
            if full(g):
                return Opq('error', ())
            return el(i, True) if i in self.S else g
        it.summaries[SF + '._find_unitary'] = find

        def group(it, args, kw, st, node):
            v = it.snap(args[0], st)
            m = members(v)
            if m is None:
                return NotImplemented
            l = [x.payload for x in v.segs] if not isinstance(v, Tup) else v.items
            return self.set(st, G.closure(m), all(full(x) for x in l)) if m else self.set(st, ())
        it.summaries['groups.generate_group'] = group

        def reduced(it, args, kw, st, node):
            self.reduce = (args, kw)
            return Tup([atom('P0', (), 'm', (), 'np.ndarray')])
        it.summaries[SF + '._reduce_hamiltonian'] = reduced

    def set(self, st, items, f=False, kind='set'):
        l = [Seg((), TRUE, el(i, f)) for i in sorted(items)]
        return self.it.alloc(st, HSeq(kind, l[::-1] if self.flip else l))


def unitaries(v):
    l = list(v.items) if isinstance(v, Tup) else [s.payload for s in v.segs]
    return all(full(x) for x in l)


def run(ck):
    ck.rule('constant propagation with elements of finite groups as named constants; the test of one candidate is replaced by membership in a given subgroup of true '
            'symmetries; the reported set is compared with the group generated by the symmetries among the candidates')
    w = where(ck, make(ck), SF, 'discrete_symmetries')
    for G in GROUPS:
        for S in sorted(G.subgroups(), key=lambda s: (len(s), sorted(s))):
            cands = [frozenset(range(G.n))]
            if G.n > 2:
                cands += [frozenset(range(G.n)) - {0}, frozenset(range(1, G.n, 2)), frozenset(range(G.n)) - S | {0}, frozenset([max(S), G.n - 1])]
            for gens in (False, True):
                def go(G=G, S=S, gens=gens, cands=cands):
                    for C in cands:
                        if not C:
                            continue
                        orders, und = [], None
                        for flip in (False, True):
                            z = Search(ck, G, S, flip)
                            it, st = z.it, state()
                            given = z.set(st, C)
                            v, s = absrun(it, it.func(SF, 'discrete_symmetries'), [MODEL, given], st, {'generators': Const(gens)})
                            if isinstance(v, Exc):
                                return Verdict('ne', 'symmetries %s among the candidates %s: raises %s' % (show(S), show(C), v.name))
                            v = it.snap(v, s)
                            if not isinstance(v, Tup) or len(v.items) != 2:
                                und = str(v)[:200]
                                continue
                            got = members(v.items[0])
                            if got is None:
                                und = str(v)[:200]
                                continue
                            want = G.closure((C & S) | {0})
                            txt = 'symmetries %s among the candidates %s: ' % (show(S), show(C))
                            if not gens and got != want:
                                return Verdict('ne', txt + 'reports %s instead of %s' % (show(got), show(want)))
                            if gens and G.closure(got | {0}) != want:
                                return Verdict('ne', txt + 'the reported generators %s do not generate %s' % (show(got), show(want)))
                            if not unitaries(v.items[0]):
                                return Verdict('ne', txt + 'an element without unitary part is reported')
                            left = members(it.snap(given, s))
                            if left is not None and left != C:
                                return Verdict('ne', txt + 'the candidates given are changed to %s' % show(left))
                            orders.append(z.tested)
                        if und:
                            return Verdict('unk', und)
                        if orders[0] != orders[1]:
                            return Verdict('ne', 'candidates %s are tested in an order that depends on the iteration order of sets: %s, %s' % (show(C), orders[0], orders[1]))
                    return Verdict('eq')
                ck.ob('symmetries %s of %s, generators=%s' % (show(S), G.name, gens), w, go)
    whole(ck)


def elements(it, st, v):
    v = it.snap(v, st)
    l = it.iter(v, st)
    if l is None or any(not isinstance(s, Seg) or s.binders or s.guard != TRUE for s in l):
        return None
    return [s.payload for s in l]


def whole(ck):
    """symmetries(): search over given or all onsite candidates, and continuous generators."""
    f = make(ck).func(SF, 'symmetries')
    w = where(ck, make(ck), SF, 'symmetries')
    tables = [G for G in GROUPS if G.name in ('Z1', 'Z2', 'Z3', 'Z2xZ2', 'S3', 'D4')]
    onsite = [G for G in GROUPS if G.name == 'Z2xZ2'][0]

    def prepared(G, S, flip):
        z = Search(ck, G, S, flip)
        it = z.it

        def conserved(it, args, kw, st, node):
            return lst(it, st, [atom('Q%d' % i, (), 'x', (), 'Generator') for i in range(2)])

        def rotations(it, args, kw, st, node):
            return lst(it, st, [atom('L%d' % i, (), 'x', (), 'Generator') for i in range(2)])
        it.summaries[SF + '.conserved_quantities'] = conserved
        it.summaries[SF + '.continuous_symmetries'] = rotations
        return z

    def outcome(z, v, s, S, want, gens, rot, txt):
        if isinstance(v, Exc):
            return Verdict('ne', txt + 'raises %s' % v.name)
        it = z.it
        v = it.snap(v, s)
        if not isinstance(v, Tup) or len(v.items) != 2:
            return Verdict('unk', str(v)[:200])
        d, c = elements(it, s, v.items[0]), elements(it, s, v.items[1])
        if d is None or c is None or any(num(x) is None for x in d):
            return Verdict('unk', str(v)[:200])
        got = frozenset(num(x) for x in d)
        if len(got) < len(d):
            return Verdict('ne', txt + 'an element is repeated')
        if not gens and got != want:
            return Verdict('ne', txt + 'reports %s instead of %s' % (show(got), show(want)))
        if gens and z.G.closure(got | {0}) != z.G.closure(want | {0}):
            return Verdict('ne', txt + 'the reported generators %s do not generate %s' % (show(got), show(want)))
        if not all(full(x) for x in d):
            return Verdict('ne', txt + 'an element without unitary part is reported')
        if [x.v for x in d] != sorted(x.v for x in d):
            return Verdict('ne', txt + 'the symmetries are not in order')
        names = [a.name if a is not None else None for a in (B.single_atom(x) if isinstance(x, Poly) else None for x in c)]
        if None in names:
            return Verdict('unk', 'generators %s' % c)
        if names != ['Q0', 'Q1'] + (['L0', 'L1'] if rot else []):
            return Verdict('ne', txt + 'continuous generators %s' % ', '.join(names))
        return Verdict('eq')

    for G in tables:
        for gens in (False, True):
            for rot in (False, True):
                def go(G=G, gens=gens, rot=rot):
                    out = []
                    for S in G.subgroups():
                        for kind in ('set', 'list'):
                            z = prepared(G, S, kind == 'list')
                            it, st = z.it, state()
                            given = z.set(st, range(G.n), kind=kind)
                            v, s = absrun(it, f, [MODEL], st, {'candidates': given, 'generators': Const(gens), 'continuous_rotations': Const(rot)})
                            out.append(outcome(z, v, s, S, S, gens, rot, 'symmetries %s, all elements of %s given as a %s: ' % (show(S), G.name, kind)))
                    return worst(out)
                ck.ob('symmetries of a model with candidates %s, generators=%s, continuous_rotations=%s' % (G.name, gens, rot), w, go)
    for gens in (False, True):
        def go(gens=gens):
            out = []
            for S in onsite.subgroups():
                z = prepared(onsite, S, gens)
                it, st = z.it, state()
                dims = []

                def letter(i):
                    def h(it, args, kw, st, node):
                        d = it.bind_args(it.func('groups', ('time_reversal', 'particle_hole', 'chiral')[i]), args, dict(kw), st)
                        if d is None:
                            return NotImplemented
                        dims.append(d['realspace_dim'])
                        return el((onsite.ix[(1, 0, 2, 3)], onsite.ix[(0, 1, 3, 2)], onsite.ix[(1, 0, 3, 2)])[i])
                    return h
                for i, n in enumerate(('time_reversal', 'particle_hole', 'chiral')):
                    it.summaries['groups.' + n] = letter(i)
                v, s = absrun(it, f, [MODEL], st, {'generators': Const(gens)})
                out.append(outcome(z, v, s, S, S, gens, False, 'onsite symmetries %s: ' % show(S)))
                if any(x != Const(2) for x in dims):
                    out.append(Verdict('ne', 'onsite candidates of dimension %s for a model with two momenta' % (dims,)))
            return worst(out)
        ck.ob('onsite symmetries of a model without candidates, generators=%s' % gens, w, go)

    def none():
        z = prepared(tables[0], {0}, False)
        it, st = z.it, state()
        v, s = absrun(it, f, [MODEL], st, {'candidates': z.set(st, (), kind='list')})
        return outcome(z, v, s, {0}, frozenset(), False, False, 'no candidates: ')
    ck.ob('symmetries of a model with empty candidates', w, none)
