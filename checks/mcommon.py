"""Helpers of the checks that analyse Model's own methods over the
term-partition domain (sa/modelrep.py)."""
from .common import *
from sa import modelrep as M
from sa import terms as T
from sa.modelrep import sym, symvec, val, Want, bloch, KX, KY, KZ

RULE = ('abstract interpretation of the Model methods over the term-partition domain (finite classes of keys, one free '
        'symbol and one free matrix letter per class); the resulting term mapping, momenta, kept symbols, shape, format '
        'and class are compared with the reference')
FMTS = ('np.ndarray', 'csr_matrix', 'LinearOperator', 'np.complex128')


def mk_it(ck):
    it = make(ck)
    M.install(it)
    return it


def ext(fmt):
    return Ext(M.FORMATS[fmt])


def entries(v):
    """Snapshot of a concrete dict/set -> list of payloads or None."""
    if isinstance(v, (DictV, SetV, Seq)):
        out = []
        for s in v.segs:
            if not isinstance(s, Seg) or s.binders or s.guard != TRUE:
                return None
            out.append(s.payload)
        return out
    if isinstance(v, Tup):
        return list(v.items)
    return None


def zero(v):
    p = poly(v)
    if p is not None and B.is_zero(p):
        return True
    if p is not None:
        a = B.single_atom(p)
        if a is not None and a.name in ('zeros',):
            return True
    return False


def cmp_terms(found, want, vocab, drop_zero=True):
    """found, want: lists of (key, value)."""
    def table(l):
        d = {}
        for k, v in l:
            if k.key() in d:
                return None
            d[k.key()] = (k, v)
        return d
    f, w = table(found), table(want)
    if f is None:
        return Verdict('unk', 'repeated key')
    unk = None
    for k in list(w) + [k for k in f if k not in w]:
        if k in f and k in w:
            r = compare(f[k][1], w[k][1], vocab, 'strict')
            if r.kind == 'ne' or r.kind == 'unk' and unk is None:
                r = Verdict(r.kind, 'coefficient of %r: %s' % (w[k][0], r.why), r.cube, r.code, r.spec)
        elif k in w:
            if drop_zero and zero(w[k][1]):
                continue
            bad = [x for x, _ in found if is_unk(x)]
            r = Verdict('unk' if bad else 'ne', 'term %r is missing' % (w[k][0],), (), DictV([Seg((), TRUE, Tup([a, b])) for a, b in found]), w[k][1])
        else:
            if drop_zero and zero(f[k][1]):
                continue
            r = Verdict('unk' if is_unk(f[k][0]) or is_unk(f[k][1]) else 'ne', 'unexpected term %r' % (f[k][0],), (), f[k][1], Const(0))
        if r.kind == 'ne':
            return r
        if r.kind == 'unk':
            unk = unk or r
    return unk or Verdict('eq')


def is_unk(v):
    from sa.compare import is_unknown
    if is_unknown(v) is not None:
        return True
    for x in walk(v):
        if isinstance(x, Atom) and not ('sym' in x.attrs or x.name in ('epow', 'idx', 'V', 'tmp') or x.name.startswith('V:')):
            from sa.compare import HARD
            if x.name not in HARD and not x.attrs:
                return True
    return False


def cmp_model(v, want, vocab=(), what=None):
    """what: iterable of aspects to compare (default: all given in want)."""
    vocab = set(vocab) | {'numpy.ndarray', 'zeros', 'round', 'n', 'm', 'p', 'q'}
    vocab |= {x.name for x in walk(v) if isinstance(x, Atom) and 'sym' in x.attrs}
    lv = list(leaves(v))
    for cube, x in lv:
        if isinstance(x, Exc):
            if not cube:
                return Verdict('ne', 'raises %s' % x.name, (), v, None)
            return Verdict('unk', 'raises under an undecided condition', cube, v, None)
    if len(lv) != 1:
        return Verdict('unk', 'undecided condition', lv[0][0], v, None)
    d = M.read(v)
    if d is None:
        from sa.compare import is_unknown
        if isinstance(v, (Const, Poly, Tup, DictV)) and is_unknown(v) is None:
            return Verdict('ne', 'is not a model', (), v, None)
        return Verdict('unk', 'not a model', (), v, None)
    found = entries(d.get('data'))
    if found is None or any(not isinstance(p, Tup) for p in found):
        return Verdict('unk', 'terms not enumerated', (), v, None)
    what = what or ('terms', 'momenta', 'keep', 'shape', 'format', 'class')
    out = []
    if 'terms' in what:
        voc = set(vocab)
        for k, x in want.terms:
            voc |= {a.name for a in walk(x) if isinstance(a, Atom)}
        out.append(cmp_terms([tuple(p.items) for p in found], want.terms, voc))
    if 'momenta' in what and want.momenta is not None:
        r = compare(d.get('momenta', UNDEF), want.momenta, vocab, 'strict')
        r.why = 'momenta: ' + r.why
        out.append(r)
    if 'keep' in what and want.keep is not None:
        ks = entries(d.get('keep'))
        if ks is None:
            out.append(Verdict('unk', 'kept symbols not enumerated'))
        else:
            a, b = {k.key() for k in ks}, {k.key() for k in want.keep}
            out.append(Verdict('eq') if a == b else Verdict('unk' if any(is_unk(k) for k in ks) else 'ne', 'kept symbols', (), SetV([Seg((), TRUE, k) for k in ks]), SetV([Seg((), TRUE, k) for k in want.keep])))
    if 'shape' in what and want.shape is not None:
        r = compare(d.get('shape', UNDEF), want.shape, vocab, 'strict')
        r.why = 'shape: ' + r.why
        out.append(r)
    if 'format' in what and want.fmt is not None:
        f = d.get('format')
        w = ext(want.fmt)
        ok = f == w or (hasattr(f, 'name') and f.name == M.FORMATS[want.fmt])
        out.append(Verdict('eq') if ok else Verdict('ne' if isinstance(f, Ext) or f == NONE else 'unk', 'format', (), f, w))
    if 'class' in what and want.cls is not None:
        out.append(Verdict('eq') if d['__class__'] == 'model.' + want.cls else Verdict('ne', 'class %s instead of %s' % (d['__class__'], want.cls)))
    for r in out:
        if r.kind == 'ne':
            return r
    for r in out:
        if r.kind != 'eq':
            return r
    return Verdict('eq')


class Sc:
    """One scenario: fresh engine and state."""
    def __init__(self, ck, cls='Model'):
        self.it = mk_it(ck)
        self.st = state()
        self.cls = cls
        self.made = []

    def model(self, terms, cls=None, **kw):
        m = M.model(self.it, self.st, terms, cls=cls or self.cls, **kw)
        self.made.append((m, self.it.snap(m, self.st)))
        return m

    def call(self, obj, name, *args, **kw):
        cls = self.it.get(self.st, obj).cls
        f = cls.lookup(name)
        if f is None:
            raise AnchorMissing('%s.%s' % (cls.qual, name))
        v, s = absrun(self.it, f, [obj] + list(args), self.st.copy(), kw)
        self.after = s
        return v

    def func(self, mod, name, *args, **kw):
        v, s = absrun(self.it, self.it.func(mod, name), list(args), self.st.copy(), kw)
        self.after = s
        return v

    def dict(self, pairs):
        return self.it.alloc(self.st, HSeq('dict', [Seg((), TRUE, Tup([k, v])) for k, v in pairs]))

    def list(self, items):
        return self.it.alloc(self.st, HSeq('list', [Seg((), TRUE, v) for v in items]))

    def set(self, items):
        return self.it.alloc(self.st, HSeq('set', [Seg((), TRUE, v) for v in items]))

    def new(self, cls, *args, **kw):
        """Outcome of a constructor call."""
        c = self.it.func('model', cls)
        v, s = absrun(self.it, c, list(args), self.st.copy(), kw)
        self.after = s
        return v

    def user(self, f):
        """A function supplied by the caller of the library."""
        name = 'user.f%d' % len(self.it.ext_over)
        self.it.ext_over[name] = lambda it, a, kw, st, n: f(*[it.snap(x, st) for x in a])
        return Ext(name)

    def call_rec(self, rec, name, *args, **kw):
        """Method of an immutable record (BlochCoeff)."""
        c = self.it.func('model', rec.cls.split('.')[-1])
        f = c.lookup(name)
        if f is None:
            raise AnchorMissing('%s.%s' % (c.qual, name))
        v, s = absrun(self.it, f, [rec] + list(args), self.st.copy(), kw)
        self.after = s
        return v
