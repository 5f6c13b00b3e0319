"""C28: generated groups are the closure of their generators."""
from .common import *
import itertools


class Table:
    """A finite group given by permutations; its elements are named constants."""
    def __init__(self, name, gens):
        self.name = name
        n = len(gens[0])
        els = [tuple(range(n))]
        for x in els:
            for g in gens:
                y = tuple(x[i] for i in g)
                if y not in els:
                    els.append(y)
        self.ix = {e: i for i, e in enumerate(els)}
        self.n = len(els)
        self.mul = [[self.ix[tuple(x[i] for i in y)] for y in els] for x in els]
        self.inv = [next(j for j in range(self.n) if self.mul[i][j] == 0) for i in range(self.n)]

    def closure(self, gens):
        """Products of one or more generators."""
        s = set(gens)
        while True:
            m = {self.mul[a][b] for a in s for b in gens} - s
            if not m:
                return frozenset(s)
            s |= m

    def subgroups(self):
        out = {self.closure([i]) for i in range(self.n)}
        while True:
            new = {self.closure(a | b) for a in out for b in out} - out
            if not new:
                return out
            out |= new


def perm(*cycles, n):
    p = list(range(n))
    for c in cycles:
        for a, b in zip(c, c[1:] + c[:1]):
            p[a] = b
    return tuple(p)


GROUPS = [Table('Z1', [perm(n=1)]), Table('Z2', [perm((0, 1), n=2)]), Table('Z3', [perm((0, 1, 2), n=3)]), Table('Z4', [perm((0, 1, 2, 3), n=4)]),
          Table('Z2xZ2', [perm((0, 1), n=4), perm((2, 3), n=4)]), Table('Z6', [perm((0, 1, 2), (3, 4), n=5)]),
          Table('S3', [perm((0, 1, 2), n=3), perm((0, 1), n=3)]), Table('D4', [perm((0, 1, 2, 3), n=4), perm((0, 2), n=4)]),
          Table('Z8', [perm((0, 1, 2, 3, 4, 5, 6, 7), n=8)]), Table('Z2^3', [perm((0, 1), n=6), perm((2, 3), n=6), perm((4, 5), n=6)]),
          Table('Q8', [(1, 2, 3, 0, 5, 6, 7, 4), (4, 7, 6, 5, 2, 1, 0, 3)]), Table('A4', [perm((0, 1, 2), n=4), perm((0, 1), (2, 3), n=4)]),
          Table('A4xZ2', [perm((0, 1, 2), n=6), perm((0, 1), (2, 3), n=6), perm((4, 5), n=6)]),
          Table('D6', [perm((0, 1, 2, 3, 4, 5), n=6), perm((1, 5), (2, 4), n=6)]), Table('S4', [perm((0, 1, 2, 3), n=4), perm((0, 1), n=4)])]


def el(i):
    return Const('<%d>' % i)


def num(v):
    if isinstance(v, Const) and isinstance(v.v, str) and v.v[:1] == '<' and v.v[-1:] == '>':
        return int(v.v[1:-1])
    return None


def mk(ck, G):
    it = make(ck)

    def binop(it, op, a, b, st):
        x, y = num(a), num(b)
        if x is None and y is None:
            return None
        if x is not None and y is not None and op in ('Mult', 'MatMult'):
            return el(G.mul[x][y])
        n = B.numconst(b)
        if x is not None and op == 'Pow' and n is not None and n == int(n):
            r, m = 0, x if n >= 0 else G.inv[x]
            for _ in range(abs(int(n))):
                r = G.mul[r][m]
            return el(r)
        return Opq('element', (a, b))
    it.binop_hook = binop
    it.max_iter = 3000

    def method(name):
        def h(it, o, args, kw, st, node):
            x = num(o)
            if x is None:
                return NotImplemented
            return el(G.inv[x] if name == 'inv' else 0)
        return h
    for n in ('inv', 'identity'):
        it.method_over[n] = method(n)
    return it


def members(v):
    """Set of element numbers of a gated-free set value, or None."""
    if isinstance(v, Tup):
        l = list(v.items)
    elif isinstance(v, (Seq, SetV)) and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in v.segs):
        l = [s.payload for s in v.segs]
    else:
        return None
    l = [num(x) for x in l]
    return None if any(x is None for x in l) else frozenset(l)


def newset(it, st, items, kind='set'):
    return it.alloc(st, HSeq(kind, [Seg((), TRUE, el(i)) for i in items]))


def show(s):
    return '{%s}' % ', '.join(map(str, sorted(s)))


def run(ck):
    ck.rule('constant propagation with elements of finite groups as named constants whose products are given by the multiplication table of the group; the set '
            'returned is compared with the closure, the table of subgroups with the list of all subgroups and each generating set with what it generates')
    it0 = make(ck)
    w = where(ck, it0, 'groups', 'generate_group')
    for G in GROUPS:
        subsets = [c for k in (1, 2) for c in itertools.combinations(range(G.n), k)]
        if len(subsets) > 30:
            subsets = subsets[:G.n] + subsets[G.n::max(1, len(subsets) // 20)]
        if G.n <= 12:
            subsets.append(tuple(range(G.n)))
        for gens in subsets:
            for kind in ('set', 'list') if gens == subsets[-1] or len(gens) == 1 else ('set',):
                def go(G=G, gens=gens, kind=kind):
                    it, st = mk(ck, G), state()
                    given = newset(it, st, gens, kind)
                    v, s = absrun(it, it.func('groups', 'generate_group'), [given], st)
                    if isinstance(v, Exc):
                        return Verdict('ne', 'raises %s' % v.name)
                    got = members(it.snap(v, s))
                    want = G.closure(gens)
                    if got is None:
                        return Verdict('unk', 'no set of elements: %s' % str(it.snap(v, s))[:150])
                    left = members(it.snap(given, s))
                    if left is not None and left != frozenset(gens):
                        return Verdict('ne', 'the generators given are changed from %s to %s' % (show(gens), show(left)))
                    if got != want:
                        return Verdict('ne', 'the group generated by %s is %s instead of %s' % (show(gens), show(got), show(want)))
                    return Verdict('eq')
                ck.ob('group generated by the %s %s in %s' % (kind, show(gens), G.name), w, go)
    w = where(ck, it0, 'groups', 'generate_subgroups')
    for G in GROUPS:
        if G.name == 'S4':
            continue

        def go(G=G):
            it, st = mk(ck, G), state()
            st_gen = {}

            def gen(it, args, kw, st, node):
                m = members(it.snap(args[0], st))
                if m is None:
                    return NotImplemented
                return newset(it, st, sorted(G.closure(m)) if m else [])
            it.summaries['groups.generate_group'] = gen
            v, s = absrun(it, it.func('groups', 'generate_subgroups'), [newset(it, st, range(G.n))], st)
            if isinstance(v, Exc):
                return Verdict('ne', 'raises %s' % v.name)
            v = it.snap(v, s)
            if not isinstance(v, DictV) or any(x.binders or x.guard != TRUE for x in v.segs):
                return Verdict('unk', 'no table: %s' % str(v)[:150])
            rows = [(members(x.payload.items[0]), members(x.payload.items[1])) for x in v.segs]
            if any(a is None or b is None for a, b in rows):
                return Verdict('unk', 'not sets of elements')
            for a, b in rows:
                if not b or G.closure(b) != a:
                    return Verdict('ne', '%s is listed as generated by %s' % (show(a), show(b)))
            got, want = {a for a, b in rows}, G.subgroups()
            if got - want:
                return Verdict('ne', '%s is no subgroup' % show(min(got - want, key=sorted)))
            if want - got:
                return Verdict('ne', 'the subgroup %s is missing' % show(min(want - got, key=sorted)))
            return Verdict('eq')
        ck.ob('subgroups of %s' % G.name, w, go)
    if 'set_multiply' not in it0.pkg.modules['groups'].defs:
        return
    w = where(ck, it0, 'groups', 'set_multiply')
    for G in GROUPS[2:8]:
        for a, b in (((1,), (1, 2)), ((0, 1, 2), (1,)), ((1, 2), (1, 2)), (tuple(range(G.n)), (1,))):
            def go(G=G, a=a, b=b):
                a, b = [x % G.n for x in a], [x % G.n for x in b]
                it, st = mk(ck, G), state()
                v, s = absrun(it, it.func('groups', 'set_multiply'), [newset(it, st, a), newset(it, st, b)], st)
                got = members(it.snap(v, s)) if not isinstance(v, Exc) else None
                want = frozenset(G.mul[x][y] for x in a for y in b)
                if got is None:
                    return Verdict('unk', 'no set of elements')
                return Verdict('eq') if got == want else Verdict('ne', '%s %s gives %s instead of %s' % (show(a), show(b), show(got), show(want)))
            ck.ob('products of %s and %s in %s' % (show(a), show(b), G.name), w, go)
