"""Abstract interpreter over the syntax tree (gated value numbering).

One abstract pass per function activation: branches are joined into gated
values, loops are summarised by one generic element (or unrolled when the
iterable is a literal), in-package functions are analysed in the context of
the caller. Nothing of the analysed package is imported or executed.
"""
import ast
import os
from .terms import *
from . import build as B
from .build import *


TRACE = bool(os.environ.get('SA_TRACE'))


class AnchorMissing(Exception):
    pass


class Budget(Exception):
    pass


# --- code objects -------------------------------------------------------------

class Fun(V):
    __slots__ = ('node', 'mod', 'fid', 'qual', 'cls', 'defaults', 'kwdefaults', 'deco')

    def __init__(self, node, mod, fid, qual, cls=None, defaults=(), kwdefaults=(), deco=()):
        self.node, self.mod, self.fid, self.qual, self.cls = node, mod, fid, qual, cls
        self.defaults, self.kwdefaults, self.deco = defaults, kwdefaults, deco

    def _key(self):
        return 'fun:%s@%s' % (self.qual, self.fid) if self.fid else 'fun:%s' % self.qual


class Bound(V):
    __slots__ = ('slf', 'fun')

    def __init__(self, slf, fun):
        self.slf, self.fun = slf, fun

    def _key(self):
        return 'bound:%r.%r' % (self.slf, self.fun)


class Meth(V):
    """Method of an abstract value, by name."""
    __slots__ = ('slf', 'name')

    def __init__(self, slf, name):
        self.slf, self.name = slf, name

    def _key(self):
        return 'meth:%r.%s' % (self.slf, self.name)


class Cls(V):
    __slots__ = ('name', 'mod', 'node', 'bases', 'methods', 'qual')

    def __init__(self, name, mod, node, bases, methods, qual):
        self.name, self.mod, self.node, self.bases, self.methods, self.qual = name, mod, node, bases, methods, qual

    def _key(self):
        return 'class:%s' % self.qual

    def lookup(self, n):
        if n in self.methods:
            return self.methods[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def mro(self):
        out = [self.name]
        for b in self.bases:
            out += b.mro() if isinstance(b, Cls) else [b.name if isinstance(b, Ext) else '?']
        return out


class Ext(V):
    """External module, function or class, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _key(self):
        return 'ext:' + self.name


class PyMod(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _key(self):
        return 'mod:' + self.name


class Partial(V):
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw

    def _key(self):
        return 'partial(%r,%r,%r)' % (self.fn, self.args, sorted(self.kw.items()))


class Ref(V):
    """Reference to a heap object; sub renames the object's home binders."""
    __slots__ = ('oid', 'sub')

    def __init__(self, oid, sub=()):
        self.oid, self.sub = oid, tuple(sub)

    def _key(self):
        s = ''.join('[%r->%r]' % (a, b) for a, b in self.sub)
        return '&%d%s' % (self.oid, s)

    def subst(self, m):
        home = HOME.get(self.oid, ())
        cur = dict(self.sub)
        out = []
        for h in home:
            t = cur.get(h, h)
            t2 = subst(t, m)
            if t2 != h:
                out.append((h, t2))
        r = Ref(self.oid, out)
        return r

    def children(self):
        return [b for _, b in self.sub]


HOME = {}      # oid -> home binders


class Super(V):
    __slots__ = ('cls', 'slf')

    def __init__(self, cls, slf):
        self.cls, self.slf = cls, slf

    def _key(self):
        return 'super(%r,%r)' % (self.cls, self.slf)


class Exc(V):
    """Outcome: the call raises."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _key(self):
        return 'raise:' + self.name


# --- heap records ----------------------------------------------------------------

class HInst:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def copy(self):
        return HInst(self.cls, dict(self.fields))


class HSeq:
    """list / dict / set contents as a tuple of segments (+Carry markers)."""
    def __init__(self, kind, segs, default=None):
        self.kind, self.segs, self.default = kind, tuple(segs), default

    def copy(self):
        return HSeq(self.kind, self.segs, self.default)


class HOpq:
    def __init__(self, why=''):
        self.why = why

    def copy(self):
        return self


class State:
    __slots__ = ('frames', 'heap', 'guard')

    def __init__(self, frames=None, heap=None, guard=TRUE):
        self.frames, self.heap, self.guard = frames or {}, heap or {}, guard

    def copy(self):
        return State({f: dict(d) for f, d in self.frames.items()}, dict(self.heap), self.guard)

    def become(self, o):
        self.frames, self.heap, self.guard = o.frames, o.heap, o.guard

    @property
    def dead(self):
        return self.guard == FALSE


def rec_eq(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, HInst):
        return a.cls == b.cls and a.fields == b.fields
    if isinstance(a, HSeq):
        return a.kind == b.kind and a.segs == b.segs
    return False


def join_rec(c, a, b):
    if rec_eq(a, b):
        return a
    if isinstance(a, HInst) and isinstance(b, HInst) and a.cls == b.cls:
        f = {}
        for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
            f[k] = ite(c, a.fields.get(k, UNDEF), b.fields.get(k, UNDEF))
        return HInst(a.cls, f)
    if isinstance(a, HSeq) and isinstance(b, HSeq) and a.kind == b.kind:
        n = 0
        while n < min(len(a.segs), len(b.segs)) and a.segs[n] == b.segs[n]:
            n += 1
        ra, rb = a.segs[n:], b.segs[n:]
        if any(not isinstance(s, Seg) for s in ra + rb):
            return HOpq('join')
        segs = list(a.segs[:n])
        segs += [Seg(s.binders, band(c, s.guard), s.payload) for s in ra]
        segs += [Seg(s.binders, band(bnot(c), s.guard), s.payload) for s in rb]
        # same payload on both sides
        return HSeq(a.kind, merge_segs(segs), a.default)
    return HOpq('join')


def merge_segs(segs):
    out = []
    for s in segs:
        for i, o in enumerate(out):
            if isinstance(o, Seg) and isinstance(s, Seg) and o.binders == s.binders and o.payload == s.payload \
                    and band(o.guard, s.guard) == FALSE:
                out[i] = Seg(o.binders, bor(o.guard, s.guard), o.payload)
                break
        else:
            out.append(s)
    return out


def join_states(c, s1, s2):
    if s1.dead:
        return s2
    if s2.dead:
        return s1
    r = State(guard=bor(s1.guard, s2.guard))
    for f in s1.frames:
        if f not in s2.frames:
            r.frames[f] = s1.frames[f]
            continue
        d1, d2 = s1.frames[f], s2.frames[f]
        d = {}
        for k in list(d1) + [k for k in d2 if k not in d1]:
            a, b = d1.get(k, UNDEF), d2.get(k, UNDEF)
            d[k] = a if a is b else ite(c, a, b)
        r.frames[f] = d
    for f in s2.frames:
        r.frames.setdefault(f, s2.frames[f])
    for o in s1.heap:
        if o in s2.heap:
            r.heap[o] = join_rec(c, s1.heap[o], s2.heap[o])
        else:
            r.heap[o] = s1.heap[o]
    for o in s2.heap:
        r.heap.setdefault(o, s2.heap[o])
    return r


class Ctx:
    """One function activation (or module / spec)."""
    def __init__(self, fun, fid):
        self.fun, self.fid = fun, fid
        self.returns = []
        self.loops = []
        self.yields = None


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


# --- package loading ---------------------------------------------------------------

class Module:
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.tree = ast.parse(src)
        self.src = src
        self.defs = {}       # name -> node or ('import', ...)
        self.cache = {}
        self.mutated = set()
        self._scan()

    def _scan(self):
        def bind(n, v):
            if n in self.defs and not isinstance(v, tuple):
                self.mutated.add(n)
            self.defs[n] = v
        def scan(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    bind(st.name, st)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        bind((a.asname or a.name.split('.')[0]),
                             ('ext', a.name if a.asname else a.name.split('.')[0]))
                elif isinstance(st, ast.ImportFrom):
                    for a in st.names:
                        if st.level:
                            bind(a.asname or a.name, ('rel', st.module, a.name))
                        else:
                            bind(a.asname or a.name, ('ext', st.module + '.' + a.name))
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            bind(t.id, st.value)
                        elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple):
                            for a, b in zip(t.elts, st.value.elts):
                                if isinstance(a, ast.Name):
                                    bind(a.id, b)
                        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                            self.mutated.add(t.value.id)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                    bind(st.target.id, st.value)
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                        isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name):
                    self.mutated.add(st.value.func.value.id)
                elif isinstance(st, ast.Delete):
                    for t in st.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                            self.mutated.add(t.value.id)
                elif isinstance(st, (ast.If, ast.Try)):
                    scan(st.body)
                    scan(st.orelse)
                    for h in getattr(st, 'handlers', []):
                        scan(h.body)
        scan(self.tree.body)


class Package:
    def __init__(self, root='/repo/qsymm', name='qsymm'):
        self.name = name
        self.modules = {}
        for f in sorted(os.listdir(root)):
            if f.endswith('.py') and not f.startswith('_'):
                p = os.path.join(root, f)
                with open(p, encoding='utf-8') as fh:
                    self.modules[f[:-3]] = Module(f[:-3], p, fh.read())


def once(segs):
    """Members of a set that are the same value count once."""
    if not all(isinstance(s, Seg) and not s.binders and s.guard == TRUE and isinstance(s.payload, (Const, SetV, Poly)) for s in segs):
        return segs
    seen, out = set(), []
    for s in segs:
        k = s.payload.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


class Interp:
    MAX_STEPS = 400000

    def __init__(self, pkg, summaries=None):
        from . import lib
        self.pkg = pkg
        self.lib = lib
        self.summaries = dict(summaries or {})
        self.next_id = 1
        self.ctx = []
        self.raises = []        # (guard, exception name, node, qualname)
        self.binders = []       # active generic loop binders
        self.steps = 0
        self.unknown = []       # notes about unknown constructs
        self.functions = set()  # analysed functions
        self.taint = False
        self.depth = 0
        self.extra_mods = {}
        self.ext_over = {}
        self.ext_values = {}
        self.globals_over = {}
        self.method_over = {}
        self.explicit = False
        self.nd = False

    def fresh(self):
        self.next_id += 1
        return self.next_id

    def alloc(self, st, rec):
        oid = self.fresh()
        if isinstance(rec, HSeq) and rec.kind == 'set' and len(rec.segs) > 1:
            rec = HSeq('set', once(rec.segs))
        HOME[oid] = tuple(self.binders)
        st.heap[oid] = rec
        return Ref(oid)

    # -- heap access through renamed references
    def get(self, st, ref):
        return st.heap.get(ref.oid, HOpq('missing'))

    def view(self, ref, v):
        return subst(v, dict(ref.sub)) if ref.sub else v

    def unview(self, ref, v):
        if not ref.sub:
            return v
        return subst(v, {b: a for a, b in ref.sub})

    def segs(self, st, ref):
        r = self.get(st, ref)
        if isinstance(r, HSeq):
            return [self.view(ref, s) for s in r.segs]
        return None

    def set_rec(self, st, ref, rec):
        st.heap[ref.oid] = rec

    # -- names
    def modval(self, mod, name):
        m = self.pkg.modules.get(mod) or self.extra_mods.get(mod)
        if m is None:
            return Opq('module', (Const(mod),))
        if mod + '.' + name in self.globals_over:
            return self.globals_over[mod + '.' + name]
        if name in m.cache:
            return m.cache[name]
        if name not in m.defs:
            return None
        d = m.defs[name]
        m.cache[name] = Opq('global', (Const(mod), Const(name)))
        q = mod + '.' + name
        if q in self.lib.GLOBALS and name in m.mutated | set(m.defs):
            v = self.lib.GLOBALS[q]
        elif isinstance(d, tuple):
            if d[0] == 'ext':
                v = Ext(d[1])
            else:
                base, n = d[1], d[2]
                if base is None:
                    v = PyMod(n) if n in self.pkg.modules else Opq('mod', (Const(n),))
                elif base in self.pkg.modules:
                    v = self.modval(base, n)
                    v = Opq('name', (Const(n),)) if v is None else v
                else:
                    v = Opq('mod', (Const(str(base)),))
        elif isinstance(d, ast.FunctionDef):
            v = self.mkfun(d, mod, None, mod + '.' + d.name, State())
        elif isinstance(d, ast.ClassDef):
            v = self.mkcls(d, mod)
        elif name in m.mutated:
            v = letter(Atom('global:%s.%s' % (mod, name), (), 's', (), 'coll'))
        else:
            st = State({0: {}})
            self.ctx.append(Ctx(Fun(m.tree, mod, None, mod + '.<module>'), 0))
            saved = self.raises
            self.raises = []
            try:
                v = self.eval(d, st)
                v = self.snap(v, st) if not isinstance(v, (Fun, Cls, Ext, PyMod)) else v
            finally:
                self.ctx.pop()
                self.raises = saved
        m.cache[name] = v
        return v

    def module_names(self, mod, st):
        """Names bound after the module's top-level statements (definitions
        of functions, classes and imports are resolved on demand)."""
        m = self.pkg.modules[mod]
        self.ctx.append(Ctx(Fun(m.tree, mod, None, mod + '.<module>'), 0))
        try:
            for s in m.tree.body:
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                    self.exec_block([s], st)
        finally:
            self.ctx.pop()
        return st.frames[0]

    def mkcls(self, d, mod):
        methods = {}
        st = State({0: {}})
        self.ctx.append(Ctx(Fun(d, mod, None, mod + '.' + d.name), 0))
        bases = [self.eval(b, st) for b in d.bases]
        c = Cls(d.name, mod, d, bases, methods, mod + '.' + d.name)
        for s in d.body:
            if isinstance(s, ast.FunctionDef):
                methods[s.name] = self.mkfun(s, mod, None, mod + '.' + d.name + '.' + s.name, st, c)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        methods[t.id] = self.eval(s.value, st)
        self.ctx.pop()
        return c

    def mkfun(self, node, mod, fid, qual, st, cls=None):
        # defaults are evaluated in the defining scope
        need_ctx = not self.ctx
        if need_ctx:
            self.ctx.append(Ctx(Fun(node, mod, None, qual), 0))
            st = State({0: {}})
        elif self.ctx[-1].fun.mod != mod:
            self.ctx.append(Ctx(Fun(node, mod, None, qual), 0))
            st = State({0: {}})
            need_ctx = True
        a = node.args
        defaults = tuple(self.eval(x, st) for x in a.defaults)
        kwd = tuple(self.eval(x, st) if x is not None else None for x in a.kw_defaults)
        deco = ()
        if isinstance(node, ast.FunctionDef):
            deco = tuple(ast.unparse(x) for x in node.decorator_list)
        if need_ctx:
            self.ctx.pop()
        return Fun(node, mod, fid, qual, cls, defaults, kwd, deco)

    def lookup(self, name, st):
        ctx = self.ctx[-1]
        fid = ctx.fid
        fun = ctx.fun
        while True:
            d = st.frames.get(fid)
            if d is not None and name in d:
                return d[name]
            # enclosing function frame
            fid = fun.fid if fun is not None else None
            if not fid:
                break
            fun = self.frame_fun.get(fid)
        mod = ctx.fun.mod
        v = self.modval(mod, name)
        if v is not None:
            return v
        if name in self.lib.BUILTINS:
            return Ext('builtins.' + name)
        return Opq('name', (Const(name),))

    frame_fun = {}

    # -- snapshots -------------------------------------------------------------
    def snap(self, v, st, depth=0):
        """Replace references by immutable canonical content."""
        if depth > 12:
            return Opq('deep')
        if isinstance(v, Ref):
            r = self.get(st, v)
            if isinstance(r, HSeq):
                segs = [self.snap(self.view(v, s), st, depth + 1) for s in r.segs]
                return {'list': Seq, 'dict': DictV, 'set': SetV}[r.kind](merge_segs(segs))
            if isinstance(r, HInst):
                if self.is_model(r.cls):
                    return self.lib.model_snapshot(self, v, r, st)
                items = [Tup([Const(k), self.snap(self.view(v, x), st, depth + 1)])
                         for k, x in sorted(r.fields.items())]
                return Rec(r.cls.qual if isinstance(r.cls, Cls) else repr(r.cls), items)
            return Opq('heap')
        if isinstance(v, Ite):
            p = self.snap_pred(v.p, st, depth)
            return ite(p, self.snap(v.hi, st, depth), self.snap(v.lo, st, depth))
        if isinstance(v, Tup):
            return Tup(self.snap(x, st, depth + 1) for x in v.items)
        if isinstance(v, Rec):
            return Rec(v.cls, [self.snap(x, st, depth + 1) for x in v.items])
        if isinstance(v, Seg):
            return Seg(v.binders, self.snap(v.guard, st, depth + 1), self.snap(v.payload, st, depth + 1))
        if isinstance(v, Seq):
            return Seq(self.snap(s, st, depth + 1) for s in v.segs)
        if isinstance(v, DictV):
            return DictV(self.snap(s, st, depth + 1) for s in v.segs)
        if isinstance(v, SetV):
            return SetV(self.snap(s, st, depth + 1) for s in v.segs)
        if isinstance(v, Opq):
            return Opq(v.tag, [self.snap(x, st, depth + 1) if isinstance(x, V) else x for x in v.args])
        if isinstance(v, Poly) and '&' in v.key():
            m = {}
            for x in walk(v):
                if isinstance(x, Ref):
                    m[x] = self.snap(x, st, depth + 1)
            return subst(v, m) if m else v
        return v

    def snap_pred(self, p, st, depth):
        if '&' not in p.key():
            return pred(p)
        return B.mkpred(p.name, [self.snap(a, st, depth + 1) for a in p.args])

    def truthy(self, v, st):
        def leaf(x):
            if isinstance(x, Ref):
                r = self.get(st, x)
                if isinstance(r, HSeq):
                    t = truth(self.snap(x, st))
                    return t if t in (TRUE, FALSE) else truth(x)
                if isinstance(r, HInst) and self.is_model(r.cls) and r.fields.get('data') is not None:
                    return self.truthy(r.fields['data'], st)
            return truth(x)
        return lift(leaf, v)

    def is_model(self, cls):
        return isinstance(cls, Cls) and 'Model' in cls.mro()

    # -- calls -------------------------------------------------------------------
    def note(self, what, node=None):
        self.unknown.append((what, getattr(node, 'lineno', 0), self.ctx[-1].fun.qual if self.ctx else ''))

    def fork(self, v, st, f):
        """Apply stateful f(leaf, state) to the leaves of a gated value."""
        v = restrict(v, st.guard)
        if not isinstance(v, Ite):
            return f(v, st)
        c = pred(v.p)
        s1, s2 = st.copy(), st.copy()
        s1.guard, s2.guard = band(st.guard, c), band(st.guard, bnot(c))
        r1 = self.fork(v.hi, s1, f)
        r2 = self.fork(v.lo, s2, f)
        if s1.dead:
            st.become(s2)
            return r2
        if s2.dead:
            st.become(s1)
            return r1
        r = ite(c, r1, r2)
        st.become(join_states(c, s1, s2))
        return r

    def call(self, f, args, kw, st, node=None):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget()
        f = restrict(f, st.guard)
        if isinstance(f, Ite):
            return self.fork(f, st, lambda g, s: self.call(g, args, kw, s, node))
        if st.dead:
            return Opq('dead')
        if isinstance(f, Fun):
            s = self.summaries.get(f.qual)
            if s is not None:
                r = s(self, args, kw, st, node)
                if r is not NotImplemented:
                    return r
            return self.call_fun(f, args, kw, st, node)
        if isinstance(f, Bound):
            return self.call(f.fun, [f.slf] + list(args), kw, st, node)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, st, node)
        if isinstance(f, Cls):
            s = self.summaries.get(f.qual)
            if s is not None:
                r = s(self, args, kw, st, node)
                if r is not NotImplemented:
                    return r
            return self.construct(f, args, kw, st, node)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.name, args, kw, st, node)
        if isinstance(f, Meth):
            return self.lib.call_method(self, f.slf, f.name, args, kw, st, node)
        if isinstance(f, Ref):
            r = self.get(st, f)
            if isinstance(r, HInst) and isinstance(r.cls, Cls):
                m = r.cls.lookup('__call__')
                if m is not None:
                    return self.call(m, [f] + list(args), kw, st, node)
        self.note('call of unknown %r' % (f,), node)
        self.escape(args, kw, st)
        return Opq('call', [f] + list(args) + [Tup([Const(k), v]) for k, v in sorted(kw.items())])

    def escape(self, args, kw, st):
        """Unknown code receives references: their contents become unknown."""
        for a in list(args) + list(kw.values()):
            for x in walk(a):
                if isinstance(x, Ref):
                    st.heap[x.oid] = HOpq('escaped')

    def construct(self, c, args, kw, st, node):
        new = c.lookup('__new__')
        if new is not None:
            r = self.call(new, [c] + list(args), kw, st, node)
            return r
        ref = self.alloc(st, HInst(c, {}))
        init = c.lookup('__init__')
        if init is not None:
            self.call(init, [ref] + list(args), kw, st, node)
        elif any(isinstance(b, Ext) and b.name == 'builtins.list' for b in c.bases) or 'PrettyList' == c.name:
            segs = self.iter(args[0], st) if args else []
            if segs is None:
                return Opq('list', args)
            return self.alloc(st, HSeq('list', segs))
        return ref

    def bind_args(self, f, args, kw, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            return None
        for n, v in zip(names, args):
            d[n] = v
        if a.vararg is not None:
            d[a.vararg.arg] = Tup(args[len(names):])
        kw = dict(kw)
        kwonly = [x.arg for x in a.kwonlyargs]
        for k in list(kw):
            if k in names or k in kwonly:
                if k in d:
                    return None
                d[k] = kw.pop(k)
        if a.kwarg is not None:
            d[a.kwarg.arg] = self.alloc(st, HSeq('dict', [Seg((), TRUE, Tup([Const(k), v])) for k, v in kw.items()]))
        elif kw:
            return None
        for n, v in zip(names[len(names) - len(f.defaults):], f.defaults):
            d.setdefault(n, v)
        for n, v in zip(kwonly, f.kwdefaults):
            if v is not None:
                d.setdefault(n, v)
        if any(n not in d for n in names + kwonly):
            return None
        return d

    def call_fun(self, f, args, kw, st, node=None):
        if any(not ('lru_cache' in d or 'cache' in d or 'staticmethod' in d) for d in f.deco):
            self.note('decorated function ' + f.qual, node)
            return Opq('call', [f] + list(args))
        if self.depth > 40 or sum(1 for c in self.ctx if c.fun.node is f.node) >= 2:
            self.note('recursion ' + f.qual, node)
            self.escape(args, kw, st)
            return Opq('rec:' + f.qual, list(args) + [Tup([Const(k), v]) for k, v in sorted(kw.items())])
        d = self.bind_args(f, args, kw, st)
        if d is None:
            self.raises.append((st.guard, 'TypeError', node, f.qual))
            st.guard = FALSE
            return Opq('badcall', [f])
        self.functions.add(f.qual)
        fid = self.fresh()
        st.frames[fid] = d
        fun = f
        self.frame_fun[fid] = fun
        ctx = Ctx(fun, fid)
        self.ctx.append(ctx)
        self.depth += 1
        entry = st.guard
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, st)
            if is_generator(f.node):
                ctx.yields = self.alloc(st, HSeq('list', []))
            self.exec_block(f.node.body, st)
            if ctx.yields is not None:
                if ctx.returns:
                    self.note('return in generator', node)
                    return Opq('generator')
                r = self.segs(st, ctx.yields)
                return Seq(r) if r is not None else Opq('generator')
            exits = list(ctx.returns)
            if not st.dead:
                exits.append((st.copy(), NONE))
            if not exits:
                st.guard = FALSE
                return Opq('noreturn')
            s, v = exits[-1]
            for s2, v2 in reversed(exits[:-1]):
                c = restrict(s2.guard, entry)
                v = ite(c, v2, v)
                s = join_states(c, s2, s)
            s.frames = {k: x for k, x in s.frames.items()}
            st.become(s)
            return v
        finally:
            self.depth -= 1
            self.ctx.pop()

    # -- iteration ----------------------------------------------------------------
    def fresh_seg(self, s):
        m = {b: Binder(b.dom, n=b.n) for b in s.binders}
        return Seg([m[b] for b in s.binders], subst(s.guard, m), subst(s.payload, m))

    def iter(self, v, st):
        """Segments of an iterable, or None."""
        v = restrict(v, st.guard)
        if isinstance(v, Ite):
            a, b = self.iter(v.hi, st), self.iter(v.lo, st)
            if a is None or b is None:
                return None
            c = pred(v.p)
            return merge_segs([Seg(s.binders, band(c, s.guard), s.payload) for s in a] +
                              [Seg(s.binders, band(bnot(c), s.guard), s.payload) for s in b])
        if isinstance(v, Tup):
            return [Seg((), TRUE, x) for x in v.items]
        if isinstance(v, Seq) or isinstance(v, SetV):
            return list(v.segs) if all(isinstance(s, Seg) for s in v.segs) else None
        if isinstance(v, DictV):
            return [Seg(s.binders, s.guard, s.payload.items[0]) for s in v.segs]
        if isinstance(v, Rec) and v.cls not in ('slice',):
            return [Seg((), TRUE, x) for x in v.items]
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Seg((), TRUE, Const(ch)) for ch in v.v]
        if isinstance(v, Ref):
            r = self.get(st, v)
            if isinstance(r, HSeq):
                segs = self.segs(st, v)
                if any(not isinstance(s, Seg) for s in segs):
                    return None
                if r.kind == 'dict':
                    return [Seg(s.binders, s.guard, s.payload.items[0]) for s in segs]
                return segs
            if isinstance(r, HInst) and self.is_model(r.cls):
                return self.iter(r.fields.get('data', UNDEF), st)
            return None
        if isinstance(v, Poly):
            if self.nd and v.kind != 's':
                e = self.lib.ND.tryof(v)
                if e is not None and e.shape:
                    return [Seg((), TRUE, self.lib.ND.back(x, v.typ)) for x in e.rows()]
            if self.explicit:
                e = self.lib.AR.expl(v)
                if e is not None:
                    if self.lib.AR.is2(e) and v.typ and any(t.startswith('sympy') for t in v.typ):
                        e = [y for r in e for y in r]
                    return [Seg((), TRUE, self.lib.AR.mk(x, v.typ) if isinstance(x, list) else x) for x in e]
            a = single_atom(v)
            if a is not None and a.name == 'range':
                b = Binder(v)
                return [Seg([b], TRUE, letter(Atom('i', (b,), 's', ('real',), 'int')))]
            if v.kind == 'm':
                b = Binder(v)
                return [Seg([b], TRUE, B.idx(v, pos(b)))]
            if v.kind == 'v':
                b = Binder(v)
                return [Seg([b], TRUE, B.idx(v, pos(b)))]
            if a is not None and (a.typ and 'coll' in a.typ or a.name == 'len'):
                b = Binder(v)
                e = B.elem(v, pos(b))
                return [Seg([b], TRUE, e)] if e is not None else None
            if a is not None and v.typ and 'iter' in v.typ:
                b = Binder(v)
                return [Seg([b], TRUE, letter(Atom('el', (b,), 's')))]
        if isinstance(v, Opq):
            b = Binder(v)
            return [Seg([b], TRUE, Opq('el', (b,)))]
        return None

    # -- statements -----------------------------------------------------------------
    def exec_block(self, body, st):
        for s in body:
            if st.dead:
                return
            self.exec(s, st)

    def exec(self, s, st):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget()
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.note('statement ' + type(s).__name__, s)
            self.taint = True
            return
        m(s, st)

    def x_Pass(self, s, st):
        pass

    def x_Global(self, s, st):
        self.taint = True

    def x_Nonlocal(self, s, st):
        self.taint = True

    def x_Import(self, s, st):
        for a in s.names:
            st.frames[self.ctx[-1].fid][a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])

    def x_ImportFrom(self, s, st):
        for a in s.names:
            if s.level:
                v = self.modval(s.module, a.name) if s.module in self.pkg.modules else (
                    PyMod(a.name) if a.name in self.pkg.modules else None)
                v = v if v is not None else Opq('import')
            else:
                v = Ext(s.module + '.' + a.name)
            st.frames[self.ctx[-1].fid][a.asname or a.name] = v

    def x_Expr(self, s, st):
        self.eval(s.value, st)

    def x_FunctionDef(self, s, st):
        ctx = self.ctx[-1]
        f = self.mkfun(s, ctx.fun.mod, ctx.fid, ctx.fun.qual + '.' + s.name, st)
        st.frames[ctx.fid][s.name] = f

    def x_ClassDef(self, s, st):
        st.frames[self.ctx[-1].fid][s.name] = Opq('localclass')

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if st.dead:
            return
        self.ctx[-1].returns.append((st.copy(), v))
        st.guard = FALSE

    def x_Raise(self, s, st):
        name = 'Exception'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else ast.unparse(e)
        self.raises.append((st.guard, name, s, self.ctx[-1].fun.qual))
        st.guard = FALSE

    def x_Assert(self, s, st):
        c = self.truthy(self.eval(s.test, st), st)
        c = restrict(c, st.guard)
        if st.dead:
            return
        bad = band(st.guard, bnot(c))
        if bad != FALSE:
            self.raises.append((bad, 'AssertionError', s, self.ctx[-1].fun.qual))
        st.guard = band(st.guard, c)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[self.ctx[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript) and self.delete_sub(t, st):
                pass
            else:
                self.note('del', s)
                self.taint = True

    def delete_sub(self, t, st):
        o = restrict(self.eval(t.value, st), st.guard)
        i = self.snap(self.eval(t.slice, st), st)
        if not isinstance(o, Ref):
            return False
        r = self.get(st, o)
        if isinstance(r, HSeq) and r.kind == 'dict':
            return self.lib.dict_delete(self, o, i, st) is not None
        if isinstance(r, HSeq) and r.kind == 'list':
            return self.lib.list_pop(self, o, [i], {}, st, t) is not NotImplemented
        return False

    def x_Break(self, s, st):
        self.ctx[-1].loops[-1].breaks.append(st.copy())
        st.guard = FALSE

    def x_Continue(self, s, st):
        self.ctx[-1].loops[-1].continues.append(st.copy())
        st.guard = FALSE

    def x_If(self, s, st):
        c = self.truthy(self.eval(s.test, st), st)
        self.branch(c, st, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x))

    def branch(self, c, st, f, g):
        if st.dead:
            return
        c = restrict(c, st.guard)
        if c == TRUE:
            return f(st)
        if c == FALSE:
            return g(st)
        if TRACE:
            print('undecided', self.ctx[-1].fun.qual if self.ctx else '', repr(c)[:300])
        s1, s2 = st.copy(), st.copy()
        s1.guard, s2.guard = band(st.guard, c), band(st.guard, bnot(c))
        if s1.dead:
            return g(st)
        if s2.dead:
            return f(st)
        f(s1)
        g(s2)
        st.become(join_states(c, s1, s2))

    def x_With(self, s, st):
        self.note('with', s)
        for i in s.items:
            v = self.eval(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, Opq('with', (v,)), st)
        self.exec_block(s.body, st)

    def x_Try(self, s, st):
        before = st.copy()
        mark = len(self.raises)
        nret = len(self.ctx[-1].returns)
        self.exec_block(s.body, st)
        inner = self.raises[mark:]
        # explicit raises inside the body that a handler catches
        caught = FALSE
        keep = []
        for r in inner:
            if any(handler_matches(h, r[1]) for h in s.handlers):
                caught = bor(caught, r[0])
            else:
                keep.append(r)
        self.raises[mark:] = keep
        self.exec_block(s.orelse, st)
        if s.handlers:
            outs = []
            for h in s.handlers:
                hs = before.copy()
                if inner and any(handler_matches(h, r[1]) for r in inner):
                    hs.guard = band(before.guard, caught)
                else:
                    p = pred(P('raises', Const('%s:%s' % (self.ctx[-1].fun.qual,
                                                         ast.unparse(h.type) if h.type is not None else '')),
                               Const(self.try_sig(s))))
                    if not self.lib.may_raise(self, s, h, before):
                        continue
                    # the body may raise implicitly
                    hs.guard = band(before.guard, p)
                    st.guard = band(st.guard, bnot(p))
                if hs.dead:
                    continue
                if h.name:
                    hs.frames[self.ctx[-1].fid][h.name] = Opq('exception')
                self.exec_block(h.body, hs)
                outs.append(hs)
            for hs in outs:
                if not hs.dead:
                    c = restrict(hs.guard, before.guard)
                    st.become(join_states(c, hs, st.copy()))
        if s.finalbody:
            self.exec_block(s.finalbody, st)

    def try_sig(self, s):
        return 'try'

    x_TryStar = x_Try

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        if st.dead:
            return
        for t in s.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def x_AugAssign(self, s, st):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st)
            v = self.eval(s.value, st)
            new = self.inplace(op, old, v, st, s)
            if new is not None:
                if self.arrayish(old) and not isinstance(old, Ref):
                    self.replace_alias(old, new, st)
                    if self.nd:
                        self.lib.ND.modified(self, old, new, st)
                st.frames[self.ctx[-1].fid][t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            old = self.getattr(o, t.attr, st, t)
            v = self.eval(s.value, st)
            new = self.inplace(op, old, v, st, s)
            if new is not None:
                self.setattr(o, t.attr, new, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.eval(t.slice, st)
            old = self.getitem(o, i, st, t)
            v = self.eval(s.value, st)
            new = self.binop(op, old, v, st, s)
            self.store_sub(t, o, i, new, st, aug=True)

    def arrayish(self, v):
        return isinstance(v, Poly) and v.kind in ('m', 'v')

    def inplace(self, op, old, v, st, node):
        old = restrict(old, st.guard)
        if isinstance(old, Ref):
            r = self.get(st, old)
            if isinstance(r, HSeq):
                if r.kind == 'list' and op == 'Add':
                    self.lib.call_method(self, old, 'extend', [v], {}, st, node)
                    return old
                if r.kind == 'set' and op in ('BitOr', 'Sub', 'BitAnd'):
                    self.lib.call_method(self, old, {'BitOr': 'update', 'Sub': 'difference_update',
                                                     'BitAnd': 'intersection_update'}[op], [v], {}, st, node)
                    return old
        return self.binop(op, old, v, st, node)

    def replace_alias(self, old, new, st):
        """In-place modification of an array: every holder of the same object sees it."""
        for d in st.frames.values():
            for k, x in d.items():
                if x is old:
                    d[k] = new
        for o, r in list(st.heap.items()):
            if isinstance(r, HInst) and any(x is old for x in r.fields.values()):
                r = r.copy()
                for k, x in r.fields.items():
                    if x is old:
                        r.fields[k] = new
                st.heap[o] = r
            elif isinstance(r, HSeq) and any(isinstance(s, Seg) and s.payload is old for s in r.segs):
                st.heap[o] = HSeq(r.kind, [Seg(s.binders, s.guard, new) if isinstance(s, Seg) and s.payload is old
                                           else s for s in r.segs], r.default)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.frames[self.ctx[-1].fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                self.note('starred target', t)
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Opq('unpack'), st)
                return
            vals = self.unpack(v, n, st)
            if self.nd and any(isinstance(e, ast.Subscript) for e in t.elts):
                # a value on the right may be a view of what is written first
                fr = st.frames[self.ctx[-1].fid]
                tmp = ['$%d.%d' % (id(t), k) for k in range(n)]
                fr.update(zip(tmp, vals))
                for e, k in zip(t.elts, tmp):
                    if st.dead:
                        return
                    self.assign(e, st.frames[self.ctx[-1].fid].pop(k), st)
                return
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.eval(t.slice, st)
            self.store_sub(t, o, i, v, st)
        else:
            self.note('target', t)
            self.taint = True

    def unpack(self, v, n, st):
        v = restrict(v, st.guard)
        if isinstance(v, Ite):
            a, b = self.unpack(v.hi, n, st), self.unpack(v.lo, n, st)
            return [ite(pred(v.p), x, y) for x, y in zip(a, b)]
        if isinstance(v, Tup) and len(v.items) == n:
            return list(v.items)
        if isinstance(v, Rec) and len(v.items) == n:
            return list(v.items)
        if isinstance(v, Ref):
            r = self.get(st, v)
            if isinstance(r, HSeq) and r.kind == 'list':
                segs = self.segs(st, v)
                if len(segs) == n and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in segs):
                    return [s.payload for s in segs]
        if isinstance(v, Seq) and len(v.segs) == n and all(isinstance(s, Seg) and not s.binders for s in v.segs):
            return [s.payload for s in v.segs]
        return [self.getitem(v, Const(i), st, None) for i in range(n)]

    def store_sub(self, t, o, i, v, st, aug=False):
        o = restrict(o, st.guard)
        if isinstance(o, Ref):
            r = self.get(st, o)
            if isinstance(r, HSeq):
                if r.kind == 'dict':
                    self.dict_store(o, i, v, st)
                    return
                if r.kind == 'list':
                    n = numconst(i)
                    b = B.pos_binder(i)
                    segs = list(self.segs(st, o))
                    if n is not None and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in segs) \
                            and -len(segs) <= n < len(segs):
                        segs[int(n)] = Seg((), TRUE, v)
                        self.set_rec(st, o, HSeq('list', [self.unview(o, s) for s in segs]))
                        return
                    if b is not None and len(segs) == 1 and isinstance(segs[0], Seg) and len(segs[0].binders) == 1 \
                            and b.dom == segs[0].binders[0].dom and b in self.binders:
                        s = segs[0]
                        self.set_rec(st, o, HSeq('list', [self.unview(o, Seg(s.binders, s.guard, subst(v, {b: s.binders[0]})))]))
                        return
                self.set_rec(st, o, HOpq('store'))
                return
            if isinstance(r, HInst):
                if self.is_model(r.cls) and getattr(self, 'model_set', None):
                    self.lib.model_setitem(self, o, i, v, st)
                    return
                m = r.cls.lookup('__setitem__') if isinstance(r.cls, Cls) else None
                if m is not None:
                    self.call(m, [o, i, v], {}, st, t)
                    return
            self.taint = True
            return
        if isinstance(t.value, ast.Name) and isinstance(o, (Poly, Ite)):
            if isinstance(o, Poly):
                a = single_atom(o)
                if a is not None and a.name in ('submat', 'idx', 'view'):
                    self.taint = True      # write through a view
                    self.note('store through a view', t)
            new = lift(lambda x, k, w: self.store_term(x, k, w), o, self.snap(i, st), self.snap(v, st))
            if self.nd and isinstance(o, Poly) and self.lib.ND.misfit(self, o, self.snap(i, st), self.snap(v, st)):
                self.raises.append((st.guard, 'ValueError', t, self.ctx[-1].fun.qual))
            self.replace_alias(o, new, st)
            if self.nd:
                self.lib.ND.modified(self, o, new, st)
            st.frames[self.ctx[-1].fid][t.value.id] = new
            # the name may live in an enclosing frame
            return
        self.note('store', t)
        self.taint = True

    def store_term(self, base, i, v):
        p = poly(base)
        if p is None:
            return Opq('store', (base, i, v))
        if self.nd and p.kind != 's':
            r = self.lib.ND.store(self, base, i, v)
            if r is not None:
                return r
        a = single_atom(p)
        if isinstance(i, Rec) and i.cls == 'slice' and all(x == NONE for x in i.items):
            return v
        if a is not None and a.name == 'store':
            b0, stores = a.args
            items = [x for x in stores.items if x.items[0] != i] + [Tup([i, v])]
        else:
            b0, items = p, [Tup([i, v])]
        # constant distinct indices: order is irrelevant
        if all(const_index(x.items[0]) for x in items):
            items.sort(key=lambda x: x.key())
        return letter(Atom('store', (b0, Tup(items)), p.kind, (), p.typ))

    def dict_store(self, o, k, v, st):
        segs = list(self.segs(st, o))
        kk = self.snap(k, st)
        new = []
        done = False
        for s in segs:
            if isinstance(s, Seg) and not s.binders and s.guard == TRUE and s.payload.items[0] == kk:
                new.append(Seg((), TRUE, Tup([kk, v])))
                done = True
            else:
                new.append(s)
        if not done:
            new.append(Seg((), TRUE, Tup([kk, v])))
        r = self.get(st, o)
        self.set_rec(st, o, HSeq('dict', [self.unview(o, s) for s in new], r.default))

    # -- attributes -----------------------------------------------------------------
    def setattr(self, o, name, v, st):
        o = restrict(o, st.guard)
        if isinstance(o, Ite):
            c = pred(o.p)
            self.branch(c, st, lambda s: self.setattr(o.hi, name, v, s), lambda s: self.setattr(o.lo, name, v, s))
            return
        if isinstance(o, Ref):
            r = self.get(st, o)
            if isinstance(r, HInst):
                r = r.copy()
                r.fields[name] = self.unview(o, v)
                st.heap[o.oid] = r
                return
        h = getattr(self, 'setattr_hook', None)
        if h is not None and h(self, o, name, v, st):
            return
        self.note('setattr ' + name)
        self.taint = True

    def getattr(self, o, name, st, node=None):
        o = restrict(o, st.guard)
        if isinstance(o, Ite):
            # attribute loads have no effects
            return ite(pred(o.p), self.getattr(o.hi, name, st, node), self.getattr(o.lo, name, st, node))
        if isinstance(o, Ref):
            r = self.get(st, o)
            if isinstance(r, HInst):
                if name in r.fields:
                    return self.view(o, r.fields[name])
                if isinstance(r.cls, Cls):
                    m = r.cls.lookup(name)
                    if isinstance(m, Fun):
                        if any('property' in d for d in m.deco):
                            return self.call_fun(Fun(m.node, m.mod, m.fid, m.qual, m.cls, m.defaults, m.kwdefaults), [o], {}, st, node)
                        if any('staticmethod' in d for d in m.deco):
                            return m
                        return Bound(o, m)
                    if m is not None:
                        return m
                if name == '__class__':
                    return r.cls
                return Meth(o, name)
            return Meth(o, name)
        if isinstance(o, PyMod):
            v = self.modval(o.name, name)
            return v if v is not None else Opq('attr', (o, Const(name)))
        if isinstance(o, Ext):
            if o.name + '.' + name in self.ext_values:
                return self.ext_values[o.name + '.' + name]
            c = self.lib.ext_const(o.name + '.' + name)
            return c if c is not None else Ext(o.name + '.' + name)
        if isinstance(o, Cls):
            m = o.lookup(name)
            return m if m is not None else Opq('attr', (o, Const(name)))
        if isinstance(o, Super):
            for b in o.cls.bases:
                if isinstance(b, Cls):
                    m = b.lookup(name)
                    if m is not None:
                        return Bound(o.slf, m) if name != '__new__' else m
            return Meth(o, name)
        if isinstance(o, Rec):
            cls = self.rec_class(o)
            if cls is not None:
                m = cls.lookup(name)
                if isinstance(m, Fun):
                    return Bound(o, m)
            if o.cls == 'slice' and name in ('start', 'stop', 'step'):
                return o.items[('start', 'stop', 'step').index(name)]
        return self.lib.get_attr(self, o, name, st, node)

    def rec_class(self, rec):
        if '.' in rec.cls:
            mod, n = rec.cls.split('.', 1)
            c = self.modval(mod, n) if mod in self.pkg.modules else None
            return c if isinstance(c, Cls) else None
        return None

    # -- loops -------------------------------------------------------------------------
    def x_While(self, s, st):
        ctx = self.ctx[-1]
        # constant-decidable loops are unrolled
        c = restrict(self.truthy(self.eval(s.test, st), st), st.guard)
        rounds = 0
        seen = set()
        while c == TRUE and rounds < 64 and not st.dead:
            rounds += 1
            fp = self.fingerprint(st)
            if fp is not None:
                if fp in seen:
                    # the same constants as in an earlier round: the loop never ends
                    self.raises.append((st.guard, 'NonTermination', s, ctx.fun.qual))
                    st.guard = FALSE
                    return
                seen.add(fp)
            lc = LoopCtx()
            ctx.loops.append(lc)
            self.exec_block(s.body, st)
            ctx.loops.pop()
            if lc.breaks:
                break
            for x in lc.continues:
                if not x.dead:
                    st.become(join_states(x.guard, x, st.copy()))
            if st.dead:
                return
            c = restrict(self.truthy(self.eval(s.test, st), st), st.guard)
            if c == FALSE:
                self.exec_block(s.orelse, st)
                return
        if c == FALSE:
            self.exec_block(s.orelse, st)
            return
        if rounds:
            # a break or an undecided condition after some rounds
            if lc.breaks and len(lc.breaks) == 1 and st.dead:
                st.become(lc.breaks[0])
                return
            self.taint = True
        self.note('while loop', s)
        self.havoc(lambda x: self.exec_block(s.body, x), s.body, st)
        # exits of the loop through a false condition or break: unknown number of rounds
        self.eval(s.test, st)
        self.exec_block(s.orelse, st)

    def fingerprint(self, st):
        """Key of the local names if all of them hold constants, else None."""
        def plain(v):
            if isinstance(v, Const) or v == NONE:
                return True
            if isinstance(v, Tup):
                return all(plain(x) for x in v.items)
            if isinstance(v, (Seq, SetV, DictV)):
                return all(isinstance(x, Seg) and not x.binders and x.guard == TRUE and plain(x.payload) for x in v.segs)
            return False
        out = []
        for n, v in sorted(st.frames[self.ctx[-1].fid].items()):
            try:
                v = self.snap(v, st)
            except Exception:
                return None
            if not plain(v):
                return None
            out.append((n, v.key()))
        return tuple(out)

    def havoc(self, run, body, st):
        """Unknown iteration: everything the body may change becomes unknown."""
        ctx = self.ctx[-1]
        trial = st.copy()
        lc = LoopCtx()
        ctx.loops.append(lc)
        mark, nret, ny = len(self.raises), len(ctx.returns), None
        names = assigned_names(body)
        for n in names:
            trial.frames[ctx.fid][n] = Opq('loop', (Const(n),))
        try:
            run(trial)
        finally:
            ctx.loops.pop()
        outs = [trial] + lc.breaks + lc.continues
        del self.raises[mark:]
        rets = ctx.returns[nret:]
        del ctx.returns[nret:]
        for n in names:
            st.frames[ctx.fid][n] = Opq('loop', (Const(n),))
        for o in list(st.heap):
            for t in outs + [r[0] for r in rets]:
                if o in t.heap and not rec_eq(t.heap[o], st.heap[o]):
                    st.heap[o] = HOpq('loop')
        if rets:
            p = pred(P('loopreturn', Const(self.fresh())))
            s2 = st.copy()
            s2.guard = band(st.guard, p)
            ctx.returns.append((s2, Opq('loopreturn')))
            st.guard = band(st.guard, bnot(p))

    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        if st.dead:
            return
        segs = self.iter(it, st)
        if segs is None or len(segs) > getattr(self, "max_iter", 60):
            self.note('iteration over unknown', s)
            def run(x):
                self.assign(s.target, Opq('item', (self.snap(it, st),)), x)
                self.exec_block(s.body, x)
            self.havoc(run, s.body + [ast.Assign(targets=[s.target], value=ast.Constant(value=None))], st)
            self.exec_block(s.orelse, st)
            return
        ctx = self.ctx[-1]
        broken = []
        for seg in segs:
            if st.dead:
                break
            if not seg.binders:
                lc = LoopCtx()
                ctx.loops.append(lc)
                entry = st.guard
                def one(x, seg=seg):
                    self.assign(s.target, seg.payload, x)
                    self.exec_block(s.body, x)
                skip = None
                g = restrict(seg.guard, st.guard)
                if g == FALSE:
                    ctx.loops.pop()
                    continue
                if g != TRUE:
                    skip = st.copy()
                    skip.guard = band(st.guard, bnot(g))
                    st.guard = band(st.guard, g)
                one(st)
                ctx.loops.pop()
                for c in lc.continues + ([skip] if skip is not None else []):
                    if not c.dead:
                        st.become(join_states(restrict(c.guard, entry), c, st.copy()))
                broken += lc.breaks
            else:
                self.generic_loop(s, seg, st, broken)
        self.exec_block(s.orelse, st)
        for b in broken:
            if not b.dead:
                st.become(join_states(b.guard, b, st.copy()))

    def generic_loop(self, s, seg, st, broken):
        ctx = self.ctx[-1]
        seg = self.fresh_seg(seg)
        fid = ctx.fid
        names = [n for n in assigned_names(s.body) if n in st.frames[fid] and n not in target_names(s.target)]
        pre = st.copy()

        def run(x, carry_oids):
            lc = LoopCtx()
            ctx.loops.append(lc)
            carries = {}
            for n in names:
                v = pre.frames[fid][n]
                c = self.carry_of(n, v, pre)
                if c is not None:
                    carries[n] = c
                    x.frames[fid][n] = c
            for o in carry_oids:
                r = x.heap[o]
                if isinstance(r, HSeq):
                    x.heap[o] = HSeq(r.kind, [Carry('o%d' % o)], r.default)
                elif isinstance(r, HInst):
                    f = {}
                    for k, v in r.fields.items():
                        c = self.carry_of('o%d.%s' % (o, k), v, pre)
                        f[k] = v if c is None else c
                    x.heap[o] = HInst(r.cls, f)
            x.guard = band(st.guard, seg.guard)
            entry = x.guard
            self.binders.extend(seg.binders)
            try:
                self.assign(s.target, seg.payload, x)
                self.exec_block(s.body, x)
            finally:
                del self.binders[len(self.binders) - len(seg.binders):]
                ctx.loops.pop()
            for c in lc.continues:
                if not c.dead:
                    x.become(join_states(restrict(c.guard, entry), c, x.copy()))
            return lc, carries

        # trial run: which existing heap objects change?
        mark, nret = len(self.raises), len(ctx.returns)
        notes = len(self.unknown)
        trial = st.copy()
        lc, _ = run(trial, [])
        changed = [o for o in pre.heap if any(o in t.heap and not rec_eq(t.heap[o], pre.heap[o])
                                              for t in [trial] + lc.breaks + [r[0] for r in ctx.returns[nret:]])]
        # objects that are themselves generic elements are updated in place
        elementwise = [o for o in changed if HOME.get(o) and self.reaches(seg.payload, o)]
        carry_oids = [o for o in changed if o not in elementwise]
        del self.raises[mark:]
        del ctx.returns[nret:]
        if lc.breaks:
            self.note('break in generic loop', s)
            def hv(x):
                self.assign(s.target, seg.payload, x)
                self.exec_block(s.body, x)
            self.havoc(hv, s.body + [ast.Assign(targets=[s.target], value=ast.Constant(value=None))], st)
            return
        x = st.copy()
        lc, carries = run(x, carry_oids)
        outer = st.guard
        # exits from inside the loop become existential
        stop = FALSE
        for i in range(mark, len(self.raises)):
            g, nm, nd, q = self.raises[i]
            e = B.exists(seg.binders, restrict(g, outer))
            self.raises[i] = (band(outer, e), nm, nd, q)
            stop = bor(stop, e)
        for i in range(nret, len(ctx.returns)):
            rs, v = ctx.returns[i]
            e = B.exists(seg.binders, restrict(rs.guard, outer))
            if B.depends(self.snap(v, rs), seg.binders):
                v = Opq('first', (Seg(seg.binders, restrict(rs.guard, outer), self.snap(v, rs)),))
            pre2 = pre.copy()
            pre2.guard = band(outer, e)
            ctx.returns[i] = (pre2, v)
            stop = bor(stop, e)
        if x.dead:
            # every element leaves the function
            st.guard = band(outer, bnot(stop))
            return
        went = restrict(x.guard, outer)      # guard under which an element completes the body
        st.guard = band(outer, bnot(stop))
        # effect of an element that completes; elements always complete here
        eg = seg.guard
        for n in names:
            pv = pre.frames[fid][n]
            nv = x.frames[fid].get(n, UNDEF)
            c = carries.get(n)
            st.frames[fid][n] = self.summarise(n, pv, c, nv, seg, eg, st, x)
        for k, v in x.frames[fid].items():
            if k not in st.frames[fid]:
                st.frames[fid][k] = Opq('last', (Const(k),)) if B.depends(self.snap(v, x), seg.binders) else v
        for o in carry_oids:
            st.heap[o] = self.summarise_rec(o, pre.heap[o], x.heap[o], seg, eg, st, x)
        for o in elementwise:
            st.heap[o] = x.heap[o]
        for o in x.heap:
            if o not in pre.heap:
                st.heap[o] = x.heap[o]

    def reaches(self, payload, oid):
        return any(isinstance(x, Ref) and x.oid == oid for x in walk(payload))

    def carry_of(self, n, v, st):
        if isinstance(v, Ref):
            return None
        if isinstance(v, (Fun, Cls, Ext, PyMod, Bound, Meth)):
            return None
        if isinstance(v, Ite) and is_bool(v) or isinstance(v, Const) and isinstance(v.v, bool):
            return pred(P('carry', Const(n)))
        p = poly(v) if not isinstance(v, Ite) else None
        if p is not None:
            if single_atom(p) is not None and single_atom(p).typ and 'coll' in single_atom(p).typ:
                return Opq('carry', (Const(n),))
            return letter(Atom('carry:' + n, (), p.kind, (), p.typ))
        return Opq('carry', (Const(n),))

    def summarise(self, n, pv, c, nv, seg, eg, st, x):
        if c is None:
            # a reference: unchanged, or rebound to a new object
            if nv == pv:
                return pv
            nr = nv if isinstance(nv, Ref) else None
            if isinstance(pv, Ref) and nr is not None:
                r = self.lib.summarise_rebound(self, pv, nr, seg, eg, st, x)
                if r is not None:
                    return r
            return Opq('loopvar', (Const(n),))
        if nv == c:
            return pv
        s = self.snap(nv, x)
        ckey = c.key()
        if ckey not in s.key():
            if B.depends(s, seg.binders):
                return Opq('last', (Seg(seg.binders, eg, s),))
            if isinstance(nv, Ref):
                return nv
            return ite(B.exists(seg.binders, eg), nv, pv)
        if isinstance(c, Ite):
            p = c.p
            if is_bool(s):
                t, f = setp(s, p, 1), setp(s, p, 0)
                if f == FALSE:
                    return band(pv, bnot(B.exists(seg.binders, band(eg, bnot(t)))))
                if t == TRUE:
                    return bor(pv, B.exists(seg.binders, band(eg, f)))
            return Opq('loopvar', (Const(n), s))
        if isinstance(c, Poly):
            d = lift(lambda v: add(v, c, -1), s)
            if not any(isinstance(l, Opq) for _, l in leaves(d)) and ckey not in d.key():
                return lift(add, pv, B.fsum(seg.binders, eg, d))
        # conditional overwrite: ite(g, X, carry)
        over = [l for _, l in leaves(s) if l != c]
        if over and all(o == over[0] for o in over) and ckey not in over[0].key() and \
                not B.depends(over[0], seg.binders):
            g = FALSE
            for cube, l in leaves(s):
                if l != c:
                    g = bor(g, band(*[pred(p) if b else bnot(pred(p)) for p, b in cube]))
            return ite(B.exists(seg.binders, band(eg, g)), over[0], pv)
        return Opq('loopvar', (Const(n), Seg(seg.binders, eg, s)))

    def summarise_rec(self, o, pre, new, seg, eg, st, x):
        if isinstance(pre, HSeq) and isinstance(new, HSeq):
            if not new.segs or not isinstance(new.segs[0], Carry) or any(isinstance(s, Carry) for s in new.segs[1:]):
                return HOpq('loop')
            added = []
            for s in new.segs[1:]:
                added.append(Seg(seg.binders + s.binders, band(eg, s.guard), s.payload))
            return HSeq(pre.kind, list(pre.segs) + added, pre.default)
        if isinstance(pre, HInst) and isinstance(new, HInst):
            f = {}
            for k in new.fields:
                pv = pre.fields.get(k, UNDEF)
                c = self.carry_of('o%d.%s' % (o, k), pv, st) if pv is not UNDEF else None
                f[k] = self.summarise('%d.%s' % (o, k), pv, c, new.fields[k], seg, eg, st, x)
            return HInst(pre.cls, f)
        return HOpq('loop')

    # -- expressions --------------------------------------------------------------------
    def eval(self, e, st):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note('expression ' + type(e).__name__, e)
            return Opq(type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        return Const(e.value)

    def e_Name(self, e, st):
        return self.lookup(e.id, st)

    def e_Attribute(self, e, st):
        return self.getattr(self.eval(e.value, st), e.attr, st, e)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Tuple(self, e, st):
        return self.mkseq(e.elts, st, Tup)

    def mkseq(self, elts, st, cons):
        items = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs = self.iter(self.eval(x.value, st), st)
                if segs is None or any(s.binders or s.guard != TRUE for s in segs):
                    if segs is not None and cons is not Tup:
                        items.append(segs)
                        continue
                    return Opq('starred')
                items += [s.payload for s in segs]
            else:
                items.append(self.eval(x, st))
        if cons is Tup:
            return Tup(items)
        segs = []
        for i in items:
            if isinstance(i, list):
                segs += i
            else:
                segs.append(Seg((), TRUE, i))
        return self.alloc(st, HSeq(cons, segs))

    def e_List(self, e, st):
        return self.mkseq(e.elts, st, 'list')

    def e_Set(self, e, st):
        return self.mkseq(e.elts, st, 'set')

    def e_Dict(self, e, st):
        ref = self.alloc(st, HSeq('dict', []))
        for k, v in zip(e.keys, e.values):
            if k is None:
                other = self.eval(v, st)
                self.lib.call_method(self, ref, 'update', [other], {}, st, e)
                continue
            kk = self.eval(k, st)
            self.dict_store(ref, kk, self.eval(v, st), st)
        return ref

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(Const(v.value))
            else:
                x = self.eval(v.value, st)
                if v.conversion not in (-1, 115) or v.format_spec is not None:
                    x = B.fn('format', [self.snap(x, st), Const(v.conversion),
                                        self.snap(self.eval(v.format_spec, st), st) if v.format_spec else NONE], 's', (), 'str')
                parts.append(x)
        if all(isinstance(p, Const) and type(p.v) in (str, int) for p in parts):
            return Const(''.join(str(p.v) for p in parts))
        return B.fn('fstr', [Tup([self.snap(p, st) for p in parts])], 's', (), 'str')

    def e_Lambda(self, e, st):
        ctx = self.ctx[-1]
        return self.mkfun(e, ctx.fun.mod, ctx.fid, ctx.fun.qual + '.<lambda>', st)

    def e_IfExp(self, e, st):
        c = restrict(self.truthy(self.eval(e.test, st), st), st.guard)
        out = {}
        def f(x):
            out[1] = self.eval(e.body, x)
        def g(x):
            out[0] = self.eval(e.orelse, x)
        self.branch(c, st, f, g)
        if 1 in out and 0 in out:
            return ite(c, out[1], out[0])
        return out.get(1, out.get(0, Opq('dead')))

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st)
        for nxt in e.values[1:]:
            if st.dead:
                return v
            t = restrict(self.truthy(v, st), st.guard)
            out = {}
            def f(x, nxt=nxt):
                out['n'] = self.eval(nxt, x)
            if is_and:
                self.branch(t, st, f, lambda x: None)
                v = ite(t, out['n'], v) if 'n' in out else v
            else:
                self.branch(t, st, lambda x: None, f)
                v = ite(t, v, out['n']) if 'n' in out else v
        return v

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        op = type(e.op).__name__
        if op == 'Not':
            return bnot(self.truthy(v, st))
        def f(x, s):
            if op == 'USub':
                if isinstance(x, Const) and isinstance(x.v, (int, float, complex)):
                    return Const(-x.v)
                if isinstance(x, Ref):
                    return self.dunder(x, '__neg__', [], s, e)
                if self.nd and self.lib.ND.arr(x):
                    r = self.lib.ND.neg(self, x)
                    if r is not None:
                        return r
                return neg(x)
            if op == 'UAdd':
                return x
            if is_bool(x):
                return bnot(x)
            return Opq('~', (x,))
        return self.fork(v, st, f)

    def dunder(self, x, name, args, st, node):
        r = self.get(st, x)
        if isinstance(r, HInst) and isinstance(r.cls, Cls):
            m = r.cls.lookup(name)
            if m is not None:
                return self.call(m, [x] + args, {}, st, node)
        return self.lib.call_method(self, x, name, args, {}, st, node)

    BIN = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
           'MatMult': ('__matmul__', '__rmatmul__'), 'Div': ('__truediv__', '__rtruediv__'),
           'Pow': ('__pow__', '__rpow__'), 'BitOr': ('__or__', '__ror__'), 'BitAnd': ('__and__', '__rand__'),
           'BitXor': ('__xor__', '__rxor__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__'),
           'Mod': ('__mod__', '__rmod__')}

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        if st.dead:
            return Opq('dead')
        return self.binop(type(e.op).__name__, a, b, st, e)

    def cls_of(self, v, st):
        if isinstance(v, Ref):
            r = self.get(st, v)
            return r.cls if isinstance(r, HInst) and isinstance(r.cls, Cls) else None
        if isinstance(v, Rec):
            return self.rec_class(v)
        return None

    def binop(self, op, a, b, st, node):
        a, b = restrict(a, st.guard), restrict(b, st.guard)
        if isinstance(a, Ite) or isinstance(b, Ite):
            if op in ('BitXor', 'BitAnd', 'BitOr') and is_bool(a) and is_bool(b):
                return {'BitXor': bxor, 'BitAnd': band, 'BitOr': bor}[op](a, b)
            return self.fork(a, st, lambda x, s: self.fork(b, s, lambda y, s2: self.binop(op, x, y, s2, node)))
        h = getattr(self, 'binop_hook', None)
        if h is not None:
            v = h(self, op, a, b, st)
            if v is not None:
                return v
        l, r = self.BIN.get(op, ('', ''))
        ca, cb = self.cls_of(a, st), self.cls_of(b, st)
        if ca is not None:
            m = ca.lookup(l)
            if m is not None:
                return self.call(m, [a, b], {}, st, node)
        if cb is not None:
            m = cb.lookup(r)
            if m is not None:
                return self.call(m, [b, a], {}, st, node)
        return self.lib.binop(self, op, a, b, st, node)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st)
            r = self.compare(type(op).__name__, left, right, st, e)
            res = band(res, r) if len(e.ops) > 1 else r
            left = right
        return res

    def compare(self, op, a, b, st, node):
        a, b = restrict(a, st.guard), restrict(b, st.guard)
        if op in ('Eq', 'NotEq'):
            if isinstance(a, Ite) and not is_bool(a) or isinstance(b, Ite) and not is_bool(b):
                return self.fork(a, st, lambda x, s: self.fork(b, s, lambda y, s2: self.compare(op, x, y, s2, node)))
            if is_bool(a) and is_bool(b):
                r = bnot(bxor(a, b))
                return r if op == 'Eq' else bnot(r)
            ca = self.cls_of(a, st)
            if ca is not None:
                m = ca.lookup('__eq__' if op == 'Eq' else '__ne__')
                if m is not None:
                    return truth(self.call(m, [a, b], {}, st, node))
                if op == 'NotEq':
                    m = ca.lookup('__eq__')
                    if m is not None:
                        return bnot(truth(self.call(m, [a, b], {}, st, node)))
            r = self.lib.eq_values(self, a, b, st)
            return r if op == 'Eq' else bnot(r)
        if op in ('Is', 'IsNot'):
            r = self.lib.is_values(self, a, b, st)
            return r if op == 'Is' else bnot(r)
        if op in ('In', 'NotIn'):
            r = self.lib.contains(self, a, b, st)
            return r if op == 'In' else bnot(r)
        if op in ('Lt', 'Gt', 'LtE', 'GtE'):
            for x, y, n in ((a, b, {'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[op]),
                            (b, a, {'Lt': '__gt__', 'Gt': '__lt__', 'LtE': '__ge__', 'GtE': '__le__'}[op])):
                cx = self.cls_of(x, st)
                m = cx.lookup(n) if cx is not None else None
                if isinstance(m, Fun):
                    return truth(self.call(m, [x, y], {}, st, node))
            return self.lib.order(self, op, a, b, st, node)
        return Opq(op, (a, b))

    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        i = self.eval(e.slice, st)
        return self.getitem(o, i, st, e)

    def e_Slice(self, e, st):
        f = lambda x: self.eval(x, st) if x is not None else NONE
        return Rec('slice', [f(e.lower), f(e.upper), f(e.step)])

    def getitem(self, o, i, st, node):
        o, i = restrict(o, st.guard), restrict(i, st.guard)
        if isinstance(o, Ite) or isinstance(i, Ite):
            return self.fork(o, st, lambda x, s: self.fork(i, s, lambda y, s2: self.getitem(x, y, s2, node)))
        c = self.cls_of(o, st)
        if c is not None and isinstance(o, Ref):
            if self.is_model(c) and getattr(self, 'model_get', None):
                return self.lib.model_getitem(self, o, i, st)
            m = c.lookup('__getitem__')
            if m is not None:
                return self.call(m, [o, i], {}, st, node)
        h = self.method_over.get('__getitem__')
        if h is not None:
            r = h(self, o, [i], {}, st, node)
            if r is not NotImplemented:
                return r
        return self.lib.getitem(self, o, i, st, node)

    # comprehensions
    def comp(self, gens, st, body):
        """List of segments (binders, guard, body-value)."""
        out = []
        fid = self.ctx[-1].fid
        def rec(k, s, binders, guard):
            if k == len(gens):
                v = body(s)
                out.append(Seg(binders, guard, v))
                return True
            g = gens[k]
            it = self.eval(g.iter, s)
            segs = self.iter(it, s)
            if segs is None:
                self.note('comprehension over unknown', g.iter)
                return False
            for seg in segs:
                s2 = s.copy()
                if seg.binders:
                    seg = self.fresh_seg(seg)
                n = len(self.binders)
                self.binders.extend(seg.binders)
                try:
                    s2.guard = band(s2.guard, seg.guard)
                    if s2.dead:
                        continue
                    self.assign(g.target, seg.payload, s2)
                    gd = seg.guard
                    for c in g.ifs:
                        t = self.truthy(self.eval(c, s2), s2)
                        gd = band(gd, t)
                        s2.guard = band(s2.guard, t)
                    if s2.dead:
                        continue
                    ok = rec(k + 1, s2, binders + tuple(seg.binders), band(guard, gd))
                finally:
                    del self.binders[n:]
                # keep objects allocated by the element expressions
                for o, r in s2.heap.items():
                    if o not in s.heap:
                        s.heap[o] = r
                if not ok:
                    return False
            return True
        s0 = st.copy()
        saved = None
        ok = rec(0, s0, (), TRUE)
        for o, r in s0.heap.items():
            if o not in st.heap:
                st.heap[o] = r
        return merge_segs(out) if ok else None

    def exit_guards(self, mark, st, binders):
        pass

    def e_ListComp(self, e, st):
        segs = self.comp(e.generators, st, lambda s: self.eval(e.elt, s))
        return self.alloc(st, HSeq('list', segs)) if segs is not None else Opq('listcomp')

    def e_SetComp(self, e, st):
        segs = self.comp(e.generators, st, lambda s: self.eval(e.elt, s))
        return self.alloc(st, HSeq('set', segs)) if segs is not None else Opq('setcomp')

    def e_GeneratorExp(self, e, st):
        segs = self.comp(e.generators, st, lambda s: self.eval(e.elt, s))
        return Seq(segs) if segs is not None else Opq('genexp')

    def e_DictComp(self, e, st):
        segs = self.comp(e.generators, st, lambda s: Tup([self.eval(e.key, s), self.eval(e.value, s)]))
        if segs is None:
            return Opq('dictcomp')
        if self.explicit and all(isinstance(x, Seg) and not x.binders and x.guard == TRUE for x in segs):
            # equal keys: the last value wins
            ref = self.alloc(st, HSeq('dict', []))
            for x in segs:
                self.dict_store(ref, x.payload.items[0], x.payload.items[1], st)
            return ref
        return self.alloc(st, HSeq('dict', segs))

    def e_Starred(self, e, st):
        return Opq('starred')

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        y = self.ctx[-1].yields
        self.lib.call_method(self, y, 'append', [v], {}, st, e)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        self.lib.call_method(self, self.ctx[-1].yields, 'extend', [v], {}, st, e)
        return NONE

    def e_Call(self, e, st):
        # super() needs the defining class
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            fun = self.ctx[-1].fun
            if e.args:
                c = self.eval(e.args[0], st)
                o = self.eval(e.args[1], st)
            else:
                c = fun.cls
                o = st.frames[self.ctx[-1].fid].get(fun.node.args.args[0].arg) if fun.cls is not None else Opq('super')
            return Super(c, o) if isinstance(c, Cls) else Opq('super')
        f = self.eval(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                segs = self.iter(v, st)
                if segs is None or any(s.binders or s.guard != TRUE for s in segs):
                    args.append(Rec('star', [self.snap(v, st)]) if segs is None else Rec('star', [v if not isinstance(v, Ref) else self.snap(v, st)]))
                    continue
                args += [s.payload for s in segs]
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                segs = self.segs(st, v) if isinstance(v, Ref) else None
                if segs is not None and all(isinstance(s, Seg) and not s.binders and isinstance(s.payload.items[0], Const) for s in segs):
                    for s in segs:
                        kw[s.payload.items[0].v] = s.payload.items[1]
                elif isinstance(v, DictV) and not v.segs:
                    pass
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        if st.dead:
            return Opq('dead')
        if any(isinstance(a, Rec) and a.cls == 'star' for a in args) and not isinstance(f, (Ext, Meth)):
            self.note('star args', e)
            return Opq('starcall', [f] + args)
        return self.call(f, args, kw, st, e)

    # -- entry points ------------------------------------------------------------------
    def func(self, mod, name):
        m = self.pkg.modules.get(mod)
        if m is None:
            raise AnchorMissing('module qsymm.%s' % mod)
        v = self.modval(mod, name)
        if not isinstance(v, (Fun, Cls)):
            raise AnchorMissing('qsymm.%s.%s' % (mod, name))
        return v

    def method(self, mod, cls, name):
        c = self.func(mod, cls)
        if not isinstance(c, Cls):
            raise AnchorMissing('class qsymm.%s.%s' % (mod, cls))
        m = c.lookup(name)
        if m is None:
            raise AnchorMissing('qsymm.%s.%s.%s' % (mod, cls, name))
        return m

    def run(self, f, args, kw=None, st=None):
        """Outcome of a call: (gated value incl. Exc leaves, final state)."""
        st = st if st is not None else State({0: {}})
        st.frames.setdefault(0, {})
        self.ctx = [Ctx(Fun(ast.parse(''), '', None, '<top>'), 0)]
        self.raises = []
        self.binders = []
        self.steps = 0
        self.taint = False
        self.unknown = []
        v = self.call(f, list(args), dict(kw or {}), st)
        out = v if not st.dead else Opq('noreturn')
        snap = self.snap(out, st)
        first = True
        for g, name, node, q in reversed(self.raises):
            if st.dead and first and not isinstance(snap, Exc):
                snap = Exc(name)
            else:
                snap = ite(g, Exc(name), snap)
            first = False
        return snap, st


def pos(b):
    return letter(Atom('pos', (b,), 's', ('real',), 'int'))


def const_index(i):
    if isinstance(i, Tup):
        return all(isinstance(x, Const) for x in i.items)
    return isinstance(i, Const)


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return own(node, n)
    return False


def own(fn, target):
    """Is target directly inside fn (not in a nested function)?"""
    stack = list(ast.iter_child_nodes(fn))
    while stack:
        n = stack.pop()
        if n is target:
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        stack += list(ast.iter_child_nodes(n))
    return False


def assigned_names(body):
    out = []
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            out.append(n.value.id)
        stack += list(ast.iter_child_nodes(n))
    return sorted(set(out))


def target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


HIER = {'ValueError': ['ValueError', 'Exception'], 'TypeError': ['TypeError', 'Exception'],
        'NotImplementedError': ['NotImplementedError', 'RuntimeError', 'Exception'],
        'AssertionError': ['AssertionError', 'Exception'], 'RuntimeError': ['RuntimeError', 'Exception']}


def handler_matches(h, name):
    if h.type is None:
        return True
    types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    names = [t.id if isinstance(t, ast.Name) else ast.unparse(t) for t in types]
    return any(n in HIER.get(name, [name, 'Exception']) or n == 'BaseException' for n in names)
