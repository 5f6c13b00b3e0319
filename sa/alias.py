"""Flow-sensitive may-alias and mod analysis of the package source.

Values are sets of abstract objects (Loc).  Objects are parameters (expanded
lazily along access paths), allocation sites (qualified by the call chain),
module-level objects, default arguments, results of memoised functions and
library objects.  Calls between package functions are analysed in the context
of the call (abstract inlining), library calls by their documented effect:
fresh result, view of an argument, or in-place update.  Everything not known
is taken to be fresh and free of effects, so that reports rest on known
effects only."""
import ast, os, sys, time

IMM = {'num', 'str', 'sym', 'none', 'bool', 'type', 'ta', 'func', 'module', 'rng'}
REPO = {'Model', 'BlochModel', 'PointGroupElement', 'ContinuousGroupGenerator', 'BlochCoeff', 'PrettyList'}
MUTM = {'append', 'extend', 'insert', 'remove', 'sort', 'reverse', 'update', 'add', 'discard', 'clear', 'setdefault', 'popitem',
        'pop', 'fill', 'resize', 'setflags', 'itemset', 'partition', 'put', 'eliminate_zeros', 'sort_indices', 'sum_duplicates',
        'setdiag', 'prune', '__setitem__', '__delitem__', '__iadd__', 'row_op', 'col_op', 'row_del', 'col_del', 'row_swap', 'col_swap',
        'difference_update', 'intersection_update', 'symmetric_difference_update', 'appendleft', 'popleft', 'move_to_end', 'byteswap', '__setattr__'}
VIEWM = {'reshape', 'ravel', 'view', 'squeeze', 'swapaxes', 'transpose', 'diagonal', 'tocsr', 'tocsc', 'tocoo', 'tolil', 'todok',
         'tobsr', 'todia', 'asformat', 'getH', '__array__', '__iter__'}
VIEWA = {'T', 'real', 'imag', 'flat', 'base', 'mT', 'H', 'A'}
VIEWF = {'numpy.' + x for x in ('asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'transpose', 'squeeze',
                                'swapaxes', 'moveaxis', 'rollaxis', 'real', 'imag', 'diagonal', 'broadcast_to', 'expand_dims', 'ascontiguousarray',
                                'asfortranarray', 'asmatrix', 'split', 'array_split', 'hsplit', 'vsplit', 'nditer', 'flip', 'fliplr', 'flipud',
                                'asarray_chkfinite', 'require')}
MUTF = {'numpy.' + x: 0 for x in ('fill_diagonal', 'put', 'copyto', 'place', 'putmask', 'put_along_axis')}
MUTF.update({'numpy.random.shuffle': 0, 'random.shuffle': 0, 'heapq.heappush': 0, 'heapq.heappop': 0, 'heapq.heapify': 0, 'bisect.insort': 0,
             'operator.iadd': 0, 'operator.imul': 0, 'operator.setitem': 0, 'operator.delitem': 0, 'operator.isub': 0,
             'operator.itruediv': 0, 'operator.iconcat': 0, 'builtins.setattr': 0, 'builtins.delattr': 0,
             'numpy.add.at': 0, 'numpy.subtract.at': 0, 'numpy.multiply.at': 0})
NUMF = {'len', 'abs', 'int', 'float', 'complex', 'bool', 'round', 'hash', 'id', 'isinstance', 'issubclass', 'callable', 'hasattr', 'any',
        'all', 'range', 'ord', 'pow', 'divmod'}
SPARSE = {'csr_matrix', 'csc_matrix', 'coo_matrix', 'lil_matrix', 'bsr_matrix', 'dok_matrix', 'dia_matrix', 'csr_array'}
DEPTH = 14
KLIM = 3
FIELDS = ('[]', '{}', '[0]', '[1]', '[2]', '[3]', 'data', 'keep', 'momenta', 'shape', 'format', 'R', 'U', 'conjugate', 'antisymmetry', '_strict_eq')


class Loc:
    __slots__ = ('id', 'kind', 'typ', 'path', 'extra', 'kids', 'parent', 'isdata')
    n = 0

    def __init__(self, kind, typ=None, path='', extra=None, parent=None):
        Loc.n += 1
        self.isdata = False
        self.id, self.kind, self.path, self.extra, self.kids, self.parent = Loc.n, kind, path, extra, {}, parent
        self.typ = typ if typ is None or isinstance(typ, frozenset) else frozenset([typ])

    def imm(self):
        return self.typ is not None and self.typ <= IMM

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, '|'.join(sorted(self.typ)) if self.typ else '?', self.path)


F0 = frozenset()


class Store:
    """Overlay store: child deltas over a parent that is not changed meanwhile."""
    __slots__ = ('base', 'd', 'dead', 'depth')

    def __init__(self, base=None):
        self.base, self.d, self.dead, self.depth = base, {}, False, (base.depth + 1 if base else 0)

    def get(self, k):
        s = self
        while s is not None:
            v = s.d.get(k)
            if v is not None:
                return v
            s = s.base
        return None

    def set(self, k, v):
        if k[1] == '[]' and k[0].isdata:
            # the values of a Model are numbers, arrays or operators, never Models or symmetries
            v = frozenset(x for x in v if not (x.typ and x.typ <= REPO))
        self.d[k] = v

    def delta(self, top):
        out = {}
        s = self
        while s is not top:
            for k, v in s.d.items():
                out.setdefault(k, v)
            s = s.base
        return out


class Frame:
    n = 0

    def __init__(self, fn, mod, parent, chain, cls=None):
        Frame.n += 1
        self.id, self.fn, self.mod, self.parent, self.chain, self.cls = Frame.n, fn, mod, parent, chain, cls
        self.rets, self.top, self.loops, self.glob, self.yields, self.ybody = [], None, [], set(), [], None
        self.captured = False


def _capture(self):
    f = self
    while f is not None:
        f.captured = True
        f = f.parent


Frame.capture = _capture


class Closure:
    def __init__(self, node, frame, mod):
        self.node, self.frame, self.mod = node, frame, mod


def norm_ext(d):
    for a, b in (('np.', 'numpy.'),):
        if d.startswith(a):
            return b + d[len(a):]
    return d


class Package:
    def __init__(self, repo):
        self.mods = {}
        d = os.path.join(repo, 'qsymm')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py') and not f.startswith('_version') and f != '_static_version.py':
                src = open(os.path.join(d, f)).read()
                self.mods[f[:-3]] = self.load(f[:-3], ast.parse(src), os.path.join(d, f))

    def load(self, name, tree, path):
        m = {'name': name, 'tree': tree, 'path': path, 'funcs': {}, 'classes': {}, 'imports': {}, 'assigns': {}}

        def top(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m['funcs'][s.name] = s
                elif isinstance(s, ast.ClassDef):
                    m['classes'][s.name] = {'node': s, 'methods': {x.name: x for x in s.body if isinstance(x, ast.FunctionDef)},
                                            'bases': [ast.unparse(b) for b in s.bases], 'mod': name,
                                            'consts': {t.id: x.value for x in s.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}}
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m['imports'][a.asname] = ('ext', a.name)
                        else:
                            m['imports'][a.name.split('.')[0]] = ('ext', a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        n = a.asname or a.name
                        if s.level:
                            if s.module is None:
                                m['imports'][n] = ('mod', a.name)
                            elif a.name == '*':
                                m.setdefault('star', []).append(s.module)
                            else:
                                m['imports'][n] = ('repo', s.module.split('.')[-1], a.name)
                        else:
                            m['imports'][n] = ('ext', (s.module or '') + '.' + a.name)
                elif isinstance(s, (ast.Try, ast.If, ast.With)):
                    top(s.body)
                    for h in getattr(s, 'handlers', []):
                        top(h.body)
                    top(getattr(s, 'orelse', []))
                    top(getattr(s, 'finalbody', []))
        top(tree.body)
        return m


class Stop(Exception):
    pass


class Engine:
    def __init__(self, repo, pkg=None, exc=False):
        self.pkg = pkg or Package(repo)
        self.classes = {c: d for m in self.pkg.mods.values() for c, d in m['classes'].items()}
        self.mut = {}            # (loc, site) -> (what, chain)
        self.globcalls = {}      # process-wide effects by library calls
        self.trace = exc
        self.excs = []
        self.allocs = {}
        self.active = []
        self.frames = {}
        self.modenv = {}
        self.calls = 0
        self.S = Store()
        self.init = False
        self.funcs_seen = set()
        self.with_ctx = []
        self.exits = []
        self.defaults = {}
        self.cached = {}
        self.budget, self.deadline = 800000, None
        self.memo, self.cut = {}, 0
        self.steps = 0
        self.externals = {}
        self.memo_flow = []
        self.cachedcalls = {}

    # ---------------------------------------------------------------- values
    def imm(self, typ):
        k = ('imm', typ)
        if k not in self.allocs:
            self.allocs[k] = Loc('imm', typ)
        return frozenset([self.allocs[k]])

    def alloc(self, fr, node, typ=None, tag='', extra=None):
        k = (fr.chain if fr else None, id(node), typ, tag)
        if typ is None and tag in ('op', 'ix') and not self.init:
            k = ('array', 'op?')
        if typ in ('ndarray', 'sparse', 'linop') and not self.init:
            k = ('array', typ)      # new arrays need not be told apart
        l = self.allocs.get(k)
        if l is None:
            l = Loc('global' if self.init else 'alloc', typ, '%s:%s' % (fr.mod if fr else '', getattr(node, 'lineno', 0)), extra)
            self.allocs[k] = l
        else:
            l.extra = extra if extra is not None else l.extra
        return l

    def fresh(self, fr, node, typ=None, fields=None, tag=''):
        l = self.alloc(fr, node, typ, tag)
        for f, v in (fields or {}).items():
            self.S.set((l, f), v)
        if not fields and typ in ('list', 'dict', 'set', 'tuple'):
            self.S.set((l, '[]'), F0)
        return frozenset([l])

    def kid(self, l, f):
        """Lazily created content of objects that exist before the analysis starts."""
        if f in l.kids:
            return l.kids[f]
        spec = l.extra if isinstance(l.extra, dict) else None
        if spec is not None and f in spec:
            r = frozenset(self.param(l.path + (f if f.startswith('[') else '.' + f), t, l.kind, parent=l) for t in spec[f])
        elif spec is not None and '*' not in spec and f.startswith('[') and '[]' in spec:
            r = self.kid(l, '[]')
        elif spec is not None and (f in ('{}',) or l.typ and l.typ & {'Model', 'BlochModel', 'PointGroupElement', 'ContinuousGroupGenerator'}):
            r = F0
        elif l.path.count('.') + l.path.count('[') > 4:
            r = frozenset([l])
        else:
            r = frozenset([Loc(l.kind, None, l.path + (f if f.startswith('[') else '.' + f), None, l)])
        l.kids[f] = r
        return r

    def param(self, path, t, kind='param', parent=None):
        """t: type tag or (tag, {field: [types]})."""
        spec = None
        if isinstance(t, tuple):
            t, spec = t
        return Loc(kind, t, path, spec, parent)

    def read(self, l, f):
        v = self.S.get((l, f))
        if v is not None:
            return v
        if l.kind in ('param', 'default', 'cached', 'extv'):
            return self.kid(l, f)
        if l.kind == 'global':
            return self.kid(l, f) if not self.init and (l, f) in () else F0
        return F0

    def elems(self, v):
        """Everything that iterating may produce."""
        out = set()
        for l in v:
            out |= self.el1(l)
        return frozenset(out)

    def el1(self, l):
        t = l.typ or F0
        if t & {'ndarray', 'sparse'}:
            return frozenset([self.elt(l)])
        if t & {'Model', 'BlochModel'}:
            return self.imm('sym')
        if t <= IMM and t:
            return self.imm('num') if 'str' not in t else self.imm('str')
        if 'dict' in t:
            return self.fieldall(l, '{}') | self.imm('sym')
        return self.fieldall(l, '[]')

    def fieldall(self, l, f):
        out = set(self.read(l, f))
        if f == '[]':
            i = 0
            n = self.S.get((l, '#'))
            spec = l.extra if isinstance(l.extra, dict) else {}
            while i < 12 and (self.S.get((l, '[%d]' % i)) is not None or '[%d]' % i in spec):
                out |= self.read(l, '[%d]' % i)
                i += 1
        return frozenset(out)

    def elt(self, l):
        """Part of an array: may be a view of it or a number."""
        k = ('elt', l)
        if k not in self.allocs:
            e = Loc('elt', None, l.path + '[i]', None, l)
            self.allocs[k] = e
        return self.allocs[k]

    def position(self, v, i, n=None):
        out = set()
        for l in v:
            t = l.typ or F0
            if t & {'ndarray', 'sparse'}:
                out.add(self.elt(l))
                continue
            spec = l.extra if isinstance(l.extra, dict) else {}
            k = '[%d]' % i
            if self.S.get((l, k)) is not None or k in spec:
                out |= self.read(l, k)
            else:
                out |= self.el1(l)
        return frozenset(out)

    # ------------------------------------------------------------ effects
    def mutate(self, v, node, fr, what):
        for l in v:
            self.mut1(l, node, fr, what)

    def mut1(self, l, node, fr, what):
        if l.kind == 'elt':
            l = l.parent
        if l.imm() or l.kind == 'imm':
            return
        if l.kind == 'alloc':
            return
        if l.kind == 'global' and self.init:
            return
        site = '%s:%s' % (os.path.basename(self.pkg.mods[fr.mod]['path']), getattr(node, 'lineno', 0))
        self.mut.setdefault((l, site, what), tuple(f for f in fr.chain_names()))

    def raise_point(self):
        if self.trace and self.excs and not self.S.dead:
            self.excs[-1][1].append(self.S.delta(self.excs[-1][0]))

    # ------------------------------------------------------------ joins
    def look(self, store, k):
        v = store.get(k)
        if v is not None:
            return v
        if isinstance(k[0], Loc):
            l, f = k
            if l.kind in ('param', 'default', 'cached', 'extv'):
                return self.kid(l, f)
        return F0

    def merge(self, base, deltas):
        """Join deltas over base into base."""
        keys = set()
        for d in deltas:
            keys.update(d)
        for k in keys:
            out = F0
            first = True
            for d in deltas:
                v = d.get(k)
                if v is None:
                    v = self.look(base, k)
                out = v if first else (out | v)
                first = False
            base.set(k, out)

    def branches(self, fns):
        """Run alternatives from the current store; join those that go on."""
        base = self.S
        deltas, vals = [], []
        for fn in fns:
            self.S = Store(base)
            vals.append(fn())
            if not self.S.dead:
                deltas.append(self.S.delta(base))
        self.S = base
        if deltas:
            self.merge(base, deltas)
        else:
            base.dead = True
        return vals

    # ------------------------------------------------------------ names
    def special(self, key, typ='func', extra=None):
        l = self.allocs.get(key)
        if l is None:
            l = self.allocs[key] = Loc('ref', typ, str(key[-1]), extra)
        return frozenset([l])

    def extv(self, dotted):
        dotted = norm_ext(dotted)
        if dotted in self.externals:
            return self.externals[dotted]
        return self.special(('ext', dotted), 'module', ('ext', dotted))

    def funv(self, mod, name):
        return self.special(('fun', mod, name), 'func', ('fun', mod, name))

    def clsv(self, name):
        return self.special(('cls', name), 'type', ('cls', name))

    def glob(self, mod, name):
        m = self.pkg.mods.get(mod)
        if m is None:
            return None
        if name in m['classes']:
            return self.clsv(name)
        if name in m['funcs']:
            return self.funv(mod, name)
        env = self.modenv.get(mod)
        if env is None:
            self.init_module(mod)
            env = self.modenv[mod]
        if name in env:
            return env[name]
        if name in m['imports']:
            i = m['imports'][name]
            if i[0] == 'ext':
                return self.extv(i[1])
            if i[0] == 'mod':
                return self.special(('mod', i[1]), 'module', ('mod', i[1]))
            v = self.glob(i[1], i[2])
            if v is None and i[1] == '' or v is None and i[2] in self.pkg.mods:
                return self.special(('mod', i[2]), 'module', ('mod', i[2]))
            return v if v is not None else self.imm('num')
        for s in m.get('star', []):
            v = self.glob(s, name)
            if v is not None:
                return v
        return None

    def init_module(self, mod):
        self.modenv[mod] = {}
        m = self.pkg.mods[mod]
        fr = Frame(None, mod, None, ('init', mod))
        old, self.S, oi, self.init = self.S, Store(), self.init, True
        oe, self.excs = self.excs, []
        fr.top = self.S
        fr.modlevel = True
        self.modframe = getattr(self, 'modframe', {})
        self.modframe[mod] = fr
        try:
            self.body(m['tree'].body, fr)
        finally:
            d = self.S.delta(None)
            self.S, self.init, self.excs = old, oi, oe
        root = self.S
        while root.base is not None:
            root = root.base
        for k, v in d.items():
            if isinstance(k[0], Loc):
                root.d.setdefault(k, v)
            elif k[0] == 'v' and k[1] == fr.id:
                self.modenv[mod][k[2]] = v

    def name(self, n, fr, node=None):
        f = fr
        while f is not None:
            v = self.S.get(('v', f.id, n))
            if v is not None:
                return v
            f = f.parent
        v = self.glob(fr.mod, n)
        if v is not None:
            return v
        return self.extv('builtins.' + n)

    def setname(self, n, v, fr):
        if n in fr.glob:
            self.globcalls.setdefault(('global ' + n, '%s:%s' % (fr.mod, getattr(fr.fn, 'lineno', 0))), tuple(fr.chain_names()))
        self.S.set(('v', fr.id, n), v)

    # ------------------------------------------------------------ truth
    def isa(self, l, cls):
        """cls: dotted or class name.  True / False / None."""
        t = l.typ
        if t is None or l.kind == 'elt':
            return None
        out = set()
        for x in t:
            out.add(self.isa1(x, cls))
        return out.pop() if len(out) == 1 else None

    def isa1(self, t, cls):
        short = cls.split('.')[-1]
        if cls == '?':
            return False if t in self.classes else None
        if t in self.classes:
            if cls.startswith('sympy') or cls.startswith('numpy') or cls.startswith('scipy') or cls.startswith('tinyarray'):
                return False
            c = t
            while c in self.classes:
                if short == c:
                    return True
                b = self.classes[c]['bases']
                c = b[0].split('.')[-1] if b else ''
            if c == 'UserDict' and short in ('Mapping', 'MutableMapping', 'UserDict'):
                return True
            if c and short == c:
                return True
            return False
        D = {'ndarray': {'ndarray'}, 'list': {'list', 'Sequence', 'Iterable'}, 'tuple': {'tuple', 'Sequence', 'Iterable'}, 'dict': {'dict', 'Mapping', 'MutableMapping'},
             'set': {'set', 'Set'}, 'str': {'str'}, 'none': {'NoneType'}, 'num': {'Number', 'int', 'float', 'complex', 'Integral', 'Real'},
             'bool': {'bool', 'Number', 'int'}, 'sparse': {'spmatrix', 'csr_matrix', 'csc_matrix'}, 'linop': {'LinearOperator'}}
        if t in D:
            if short in D[t]:
                return None if t in ('num', 'sparse') and short not in ('Number', 'spmatrix') else True
            known = set().union(*D.values()) | set(self.classes) | {'Basic', 'Expr', 'MatrixBase', 'Symbol', 'Matrix', 'ImmutableMatrix', 'PrettyList'}
            if t == 'num' and short in ('complex128', 'float64', 'integer', 'generic'):
                return None
            return False if short in known else None
        if t == 'sym':
            return {'Basic': True}.get(short, None if cls.startswith('sympy') or short in ('Number', 'Expr', 'Symbol') else False)
        if t == 'func':
            return False if short != 'Callable' else None
        return None

    def classes_of(self, v):
        """Class names denoted by a value, or None."""
        out = []
        for l in v:
            if l.kind == 'ref' and isinstance(l.extra, tuple) and l.extra[0] in ('cls', 'ext'):
                out.append(l.extra[1])
            elif l.typ and 'tuple' in l.typ and l.kind in ('alloc', 'global'):
                for e in self.el1(l):
                    r = self.classes_of([e])
                    if r is None:
                        return None
                    out += r
            else:
                out.append('?')      # some library or builtin class
        return out

    def isnone(self, l):
        if l.typ is None:
            return None if l.kind in ('param',) or l.kind == 'alloc' else None
        if l.typ == frozenset(['none']):
            return True
        return False if 'none' not in l.typ else None

    def test(self, node, fr):
        """Abstract truth of a condition: True, False or None."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t = self.test(node.operand, fr)
            return None if t is None else not t
        if isinstance(node, ast.BoolOp):
            a = isinstance(node.op, ast.And)
            ts = []
            for v in node.values:
                t = self.test(v, fr)
                ts.append(t)
                if t is (not a):
                    return not a if None not in ts[:-1] or True else None
            return None if None in ts else a
        if isinstance(node, ast.Constant):
            return bool(node.value)
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            v = self.ev(node.left, fr)
            r = {self.isnone(l) for l in v}
            r = r.pop() if len(r) == 1 else None
            return r if r is None or isinstance(node.ops[0], ast.Is) else not r
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            k = self.keyconst(node.left, fr)
            v = self.ev(node.comparators[0], fr)
            self.ev(node.left, fr)
            r = None
            if k and all(l.kind == 'extv' for l in v) and v:
                c = set()
                for l in v:
                    c |= self.read(l, 'k:' + k)
                if c == self.special(('absent',), 'absent'):
                    r = False
                elif not c & self.special(('absent',), 'absent'):
                    r = True
            return r if r is None or isinstance(node.ops[0], ast.In) else not r
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('isinstance', 'issubclass') and len(node.args) == 2:
            v = self.ev(node.args[0], fr)
            c = self.classes_of(self.ev(node.args[1], fr))
            if node.func.id == 'isinstance' and c and v:
                rs = set()
                for l in v:
                    x = [self.isa(l, k) for k in c]
                    rs.add(True if True in x else (False if all(y is False for y in x) else None))
                if len(rs) == 1:
                    return rs.pop()
            return None
        v = self.ev(node, fr)
        if v and all(l.typ == frozenset(['none']) for l in v):
            return False
        if v and all(l.kind == 'imm' and isinstance(l.extra, tuple) and l.extra[0] == 'const' for l in v):
            b = {bool(l.extra[1]) for l in v}
            if len(b) == 1:
                return b.pop()
        return None

    def narrow(self, node, val, fr):
        """Refine variables by the outcome of a condition; False if infeasible."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return self.narrow(node.operand, not val, fr)
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And) == val:
                return all([self.narrow(v, val, fr) for v in node.values])
            return True
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            want = val == isinstance(node.ops[0], ast.Is)
            return self.filt(node.left, lambda l: self.isnone(l) is not (not want), fr)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'isinstance' and len(node.args) == 2:
            c = self.classes_of(self.ev(node.args[1], fr))
            if c:
                def keep(l):
                    x = [self.isa(l, k) for k in c]
                    r = True if True in x else (False if all(y is False for y in x) else None)
                    return r is not (not val)
                return self.filt(node.args[0], keep, fr)
        if isinstance(node, ast.Name):
            return self.filt(node, lambda l: not (val and l.typ == frozenset(['none'])), fr)
        return True

    def filt(self, node, keep, fr):
        if not isinstance(node, ast.Name):
            return True
        f = fr
        while f is not None:
            v = self.S.get(('v', f.id, node.id))
            if v is not None:
                n = frozenset(l for l in v if keep(l))
                if not n and v:
                    return False
                self.S.set(('v', f.id, node.id), n)
                return True
            f = f.parent
        return True

    def keyconst(self, node, fr):
        if isinstance(node, ast.Constant):
            return repr(node.value)
        if isinstance(node, ast.Name) and node.id in ('list', 'tuple', 'dict', 'set', 'str', 'int', 'float', 'complex', 'bool'):
            return node.id
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, node, fr):
        self.steps += 1
        if self.steps > self.budget or not self.steps & 511 and self.deadline and time.time() > self.deadline:
            raise Stop()
        return getattr(self, 'e_' + type(node).__name__, self.e_other)(node, fr)

    def e_other(self, node, fr):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.expr):
                self.ev(c, fr)
        return self.fresh(fr, node)

    def e_Constant(self, node, fr):
        v = node.value
        if v is None:
            return self.imm('none')
        if isinstance(v, bool):
            k = ('const', v)
            if k not in self.allocs:
                self.allocs[k] = Loc('imm', 'bool', repr(v), ('const', v))
            return frozenset([self.allocs[k]])
        if isinstance(v, (int, float, complex)):
            return self.imm('num')
        return self.imm('str')

    def e_JoinedStr(self, node, fr):
        for c in node.values:
            if isinstance(c, ast.FormattedValue):
                self.ev(c.value, fr)
        return self.imm('str')

    def e_Name(self, node, fr):
        return self.name(node.id, fr, node)

    def e_NamedExpr(self, node, fr):
        v = self.ev(node.value, fr)
        self.setname(node.target.id, v, fr)
        return v

    def e_Tuple(self, node, fr):
        return self.seq(node, fr, 'tuple')

    def e_List(self, node, fr):
        return self.seq(node, fr, 'list')

    def e_Set(self, node, fr):
        return self.seq(node, fr, 'set')

    def seq(self, node, fr, typ):
        fields, star, al = {}, False, F0
        for i, e in enumerate(node.elts):
            if isinstance(e, ast.Starred):
                al |= self.elems(self.ev(e.value, fr))
                star = True
            else:
                v = self.ev(e, fr)
                if star or typ == 'set':
                    al |= v
                else:
                    fields['[%d]' % i] = v
        l = self.alloc(fr, node, typ)
        for f in range(0, 12):
            if self.S.get((l, '[%d]' % f)) is not None and '[%d]' % f not in fields:
                self.S.set((l, '[%d]' % f), F0)
        for f, v in fields.items():
            self.S.set((l, f), v)
        self.S.set((l, '[]'), al)
        return frozenset([l])

    def e_Dict(self, node, fr):
        ks, vs = F0, F0
        l = self.alloc(fr, node, 'dict')
        for k, v in zip(node.keys, node.values):
            x = self.ev(v, fr)
            if k is None:
                ks |= self.elems(x)
                vs |= self.values(x)
            else:
                ks |= self.ev(k, fr)
                vs |= x
        self.S.set((l, '{}'), ks)
        self.S.set((l, '[]'), vs)
        return frozenset([l])

    def values(self, v):
        out = F0
        for l in v:
            if l.typ and l.typ & {'Model', 'BlochModel'}:
                for d in self.read(l, 'data'):
                    out |= self.fieldall(d, '[]')
            else:
                out |= self.fieldall(l, '[]')
        return out

    def e_Starred(self, node, fr):
        return self.ev(node.value, fr)

    def e_Lambda(self, node, fr):
        l = self.alloc(fr, node, 'func', 'lambda')
        l.extra = ('closure', Closure(node, fr, fr.mod))
        fr.capture()
        return frozenset([l])

    def e_IfExp(self, node, fr):
        t = self.test(node.test, fr)
        if t is not None:
            return self.ev(node.body if t else node.orelse, fr)

        def one(n, val):
            if not self.narrow(node.test, val, fr):
                self.S.dead = True
                return F0
            return self.ev(n, fr)
        return frozenset().union(*self.branches([lambda: one(node.body, True), lambda: one(node.orelse, False)]))

    def e_BoolOp(self, node, fr):
        out = F0
        for i, v in enumerate(node.values):
            x = self.ev(v, fr)
            if i < len(node.values) - 1 and isinstance(node.op, ast.Or):
                x = frozenset(l for l in x if l.typ != frozenset(['none']))
            out |= x
        return out

    def e_UnaryOp(self, node, fr):
        v = self.ev(node.operand, fr)
        if isinstance(node.op, ast.Not):
            return self.imm('bool')
        r = self.dunder(v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[type(node.op).__name__], [], fr, node)
        if r is not None:
            return r
        return self.opresult([v], fr, node)

    def types(self, v):
        out = set()
        for l in v:
            if l.typ is None:
                return None
            if l.kind == 'elt':
                return None
            out |= l.typ
        return out

    def opresult(self, vs, fr, node, kind=None):
        ts = [self.types(v) for v in vs]
        flat = set().union(*[t for t in ts if t])
        if 'ndarray' in flat:
            return self.fresh(fr, node, 'ndarray', tag='op')
        if any(t is None for t in ts):
            return self.fresh(fr, node, None, tag='op')
        if 'sparse' in flat:
            return self.fresh(fr, node, 'sparse', tag='op')
        for c in ('list', 'tuple', 'set', 'dict'):
            if c in flat:
                l = self.fresh(fr, node, c, tag='op')
                (x,) = l
                self.S.set((x, '[]'), frozenset().union(*[self.values(v) if c == 'dict' else self.elems(v) for v in vs if self.types(v) and c in self.types(v)]))
                return l
        if 'sym' in flat:
            return self.imm('sym')
        if flat <= {'num', 'bool', 'module'}:
            return self.imm('num')
        if 'str' in flat:
            return self.imm('str')
        if 'ta' in flat and flat <= {'ta', 'num', 'bool'}:
            return self.imm('ta')
        return self.fresh(fr, node, None, tag='op')

    OPS = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul', 'Pow': 'pow', 'BitAnd': 'and', 'BitOr': 'or',
           'BitXor': 'xor', 'Mod': 'mod', 'FloorDiv': 'floordiv', 'LShift': 'lshift', 'RShift': 'rshift'}

    def e_BinOp(self, node, fr):
        a, b = self.ev(node.left, fr), self.ev(node.right, fr)
        return self.binop(a, b, self.OPS[type(node.op).__name__], fr, node)

    def binop(self, a, b, op, fr, node):
        self.raise_point()
        ra = frozenset(l for l in a if self.repo_class(l))
        rb = frozenset(l for l in b if self.repo_class(l))
        out = F0
        if ra:
            r = self.dunder(ra, '__%s__' % op, [b], fr, node)
            if r is not None:
                out |= r
                a = a - ra
                if not a:
                    return out
        if rb:
            r = self.dunder(rb, '__r%s__' % op, [a], fr, node)
            if r is not None:
                out |= r
                b = b - rb
                if not b:
                    return out
        return out | self.opresult([a, b], fr, node)

    def repo_class(self, l):
        if l.typ and len(l.typ) == 1:
            (t,) = l.typ
            return t if t in self.classes else None
        return None

    def method(self, cls, name):
        c = cls
        while c in self.classes:
            d = self.classes[c]
            if name in d['methods']:
                return c, d['methods'][name]
            c = d['bases'][0].split('.')[-1] if d['bases'] else ''
        return None

    def groups(self, v):
        """Objects by package class: {class: objects}, others."""
        g, rest = {}, F0
        for l in v:
            c = self.repo_class(l)
            if c:
                g[c] = g.get(c, F0) | {l}
            else:
                rest |= {l}
        return sorted(g.items()), rest

    def dunder(self, v, name, args, fr, node):
        fns, rest = [], False
        g, others = self.groups(v)
        for c, ls in g:
            m = self.method(c, name)
            if m is None:
                rest = True
            else:
                fns.append(lambda ls=ls, m=m: self.callfn(m[1], self.classes[m[0]]['mod'], [ls] + list(args), {}, fr, node, cls=m[0]))
        if not fns:
            return None
        r = frozenset().union(*(self.branches(fns) if len(fns) > 1 else [fns[0]()]))
        if rest or others:
            r |= self.fresh(fr, node, None, tag='op')
        return r

    def e_Compare(self, node, fr):
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self.test(node, fr)
            if r is not None:
                return self.e_Constant(ast.Constant(r), fr)
        v = self.ev(node.left, fr)
        for op, c in zip(node.ops, node.comparators):
            w = self.ev(c, fr)
            n = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'Gt': '__gt__'}.get(type(op).__name__)
            if n:
                self.raise_point()
                r = self.dunder(frozenset(l for l in v if self.repo_class(l)), n, [w], fr, node)
                if n == '__ne__' and r is None:
                    self.dunder(frozenset(l for l in v if self.repo_class(l)), '__eq__', [w], fr, node)
            v = w
        ts = (self.types(self.ev(node.left, fr)) if isinstance(node.left, ast.Name) else set()) or set()
        if 'ndarray' in ts:
            return self.fresh(fr, node, 'ndarray')
        return self.imm('bool')

    def e_Subscript(self, node, fr):
        v = self.ev(node.value, fr)
        self.ev_index(node.slice, fr)
        return self.getitem(v, node.slice, fr, node)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            for x in (s.lower, s.upper, s.step):
                if x is not None:
                    self.ev(x, fr)
            return None
        if isinstance(s, ast.Tuple):
            return [self.ev_index(x, fr) for x in s.elts]
        return self.ev(s, fr)

    def isslice(self, s):
        return isinstance(s, ast.Slice) or isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts)

    def getitem(self, v, s, fr, node):
        out = F0
        key = self.keyconst(s, fr) if not isinstance(s, (ast.Slice, ast.Tuple)) else None
        self.raise_point()
        done = set()
        for l in v:
            c = self.repo_class(l)
            t = l.typ or F0
            if c and self.method(c, '__getitem__'):
                if c in done:
                    continue
                done.add(c)
                m = self.method(c, '__getitem__')
                out |= self.callfn(m[1], self.classes[m[0]]['mod'], [frozenset(x for x in v if self.repo_class(x) == c), self.ev_index(s, fr) if not isinstance(s, (ast.Slice, ast.Tuple)) else self.fresh(fr, node, 'tuple', tag='ix')],
                                   {}, fr, node, cls=m[0])
            elif t & {'ndarray', 'sparse'} or l.kind == 'elt':
                if isinstance(s, ast.Slice) or isinstance(s, ast.Tuple) and all(isinstance(x, (ast.Slice, ast.Constant, ast.UnaryOp)) for x in s.elts) and self.isslice(s):
                    out |= frozenset([l]) if 'ndarray' in t or l.kind == 'elt' else self.fresh(fr, node, 'sparse', tag='sl')
                elif isinstance(s, ast.Constant) or isinstance(s, ast.UnaryOp):
                    out |= frozenset([self.elt(l) if l.kind != 'elt' else l])
                elif self.isslice(s):
                    out |= self.fresh(fr, node, 'ndarray', tag='sl') | self.mixed(l, s, fr)
                else:
                    out |= self.fresh(fr, node, None, tag='ix') | self.mixed(l, s, fr)
            elif isinstance(s, ast.Slice) and t & {'list', 'tuple'}:
                r = self.fresh(fr, node, 'list' if 'list' in t else 'tuple', tag='sl')
                (x,) = r
                self.S.set((x, '[]'), self.el1(l))
                out |= r
            elif t and t <= IMM:
                out |= self.imm('num') if not t & {'sym', 'str', 'ta'} else frozenset([l])
            elif key is not None and key.lstrip('-').isdigit() and not key.startswith('-') and 'dict' not in t:
                out |= self.position(frozenset([l]), int(key))
            elif key is not None and l.kind == 'extv':
                out |= self.read(l, 'k:' + key)
            else:
                out |= self.fieldall(l, '[]')
        return out

    def mixed(self, l, s, fr):
        """Index of unknown kind: a view if the index is an integer loop variable."""
        xs = s.elts if isinstance(s, ast.Tuple) else [s]
        for x in xs:
            if isinstance(x, (ast.Slice, ast.Constant)):
                continue
            if isinstance(x, ast.Name) and self.types(self.ev(x, fr)) == {'num'}:
                continue
            return F0
        return frozenset([l if self.isslice(s) and l.kind != 'elt' else (self.elt(l) if l.kind != 'elt' else l)])

    def e_Attribute(self, node, fr):
        v = self.ev(node.value, fr)
        return self.attr(v, node.attr, fr, node)

    def attr(self, v, a, fr, node):
        out = F0
        for l in v:
            out |= self.attr1(l, a, fr, node)
        return out

    def attr1(self, l, a, fr, node):
        x = l.extra if isinstance(l.extra, tuple) else None
        if l.kind == 'ref' and x:
            if x[0] == 'ext':
                return self.extv(x[1] + '.' + a)
            if x[0] == 'mod':
                g = self.glob(x[1], a)
                return g if g is not None else self.imm('num')
            if x[0] == 'cls':
                m = self.method(x[1], a)
                if m:
                    return self.special(('ufun', m[0], a), 'func', ('ufun', m[0], a))
                if a in ('__name__', '__doc__'):
                    return self.imm('str')
                c = self.classes[x[1]]['consts'].get(a)
                return self.special(('clsattr', x[1], a), 'num') if c is None else self.ev(c, Frame(None, self.classes[x[1]]['mod'], None, ('cls',)))
            return self.imm('num')
        c = self.repo_class(l)
        t = l.typ or F0
        if c:
            m = self.method(c, a)
            if m:
                if any(isinstance(d, ast.Name) and d.id == 'property' for d in m[1].decorator_list):
                    return self.callfn(m[1], self.classes[m[0]]['mod'], [frozenset([l])], {}, fr, node, cls=m[0])
                b = self.alloc(fr, node, 'func', ('bm', l.id, a))
                b.extra = ('bound', frozenset([l]), a)
                return frozenset([b])
            if a == '__class__':
                return self.clsv(c)
            return self.read(l, a)
        if t & {'ndarray', 'sparse'} or l.kind == 'elt':
            if a in VIEWA or a in ('data', 'indices', 'indptr', 'row', 'col') and 'sparse' in t:
                return frozenset([l])
            return self.imm('num')
        if t and t <= IMM:
            return self.imm('sym') if 'sym' in t else (frozenset([l]) if 'ta' in t else self.imm('num'))
        if a in VIEWA and l.typ is None:
            return frozenset([l])
        if a in ('shape', 'size', 'ndim', 'dtype', 'nnz'):
            return self.imm('num')
        return self.read(l, a)

    # ---- comprehensions
    def comp(self, node, fr, parts, typ):
        l = self.alloc(fr, node, typ)
        base = self.S
        self.S = Store(base)

        def gen(i):
            if i == len(node.generators):
                ks = self.ev(parts[0], fr)
                vs = self.ev(parts[1], fr) if len(parts) > 1 else None
                if vs is None:
                    self.S.set((l, '[]'), (self.S.get((l, '[]')) or F0) | ks)
                else:
                    self.S.set((l, '{}'), (self.S.get((l, '{}')) or F0) | ks)
                    self.S.set((l, '[]'), (self.S.get((l, '[]')) or F0) | vs)
                return
            g = node.generators[i]
            self.bind(g.target, self.iterate(g.iter, fr), fr, g)
            for c in g.ifs:
                t = self.test(c, fr)
                if t is False or not self.narrow(c, True, fr):
                    return
            gen(i + 1)
        self.S.set((l, '[]'), F0)
        gen(0)
        d = self.S.delta(base)
        self.S = base
        self.merge(base, [{(l, '[]'): F0, (l, '{}'): F0}, d])
        return frozenset([l])

    def e_ListComp(self, node, fr):
        return self.comp(node, fr, [node.elt], 'list')

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, node, fr):
        return self.comp(node, fr, [node.elt], 'set')

    def e_DictComp(self, node, fr):
        return self.comp(node, fr, [node.key, node.value], 'dict')

    def iterate(self, node, fr):
        return self.elems(self.ev(node, fr))

    def e_Await(self, node, fr):
        return self.ev(node.value, fr)

    def e_Yield(self, node, fr):
        v = self.ev(node.value, fr) if node.value is not None else self.imm('none')
        if fr.ybody is not None:
            fr.ybody(v)
        else:
            fr.yields.append(v)
        return self.imm('none')

    def e_YieldFrom(self, node, fr):
        fr.yields.append(self.elems(self.ev(node.value, fr)))
        return self.imm('none')

    # ------------------------------------------------------------ calls
    def e_Call(self, node, fr):
        self.calls += 1
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'super' and not any(True for _ in [0] if self.S.get(('v', fr.id, 'super')) is not None):
            return self.supercall(node, fr)
        args, kw, star = [], {}, F0
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, fr)
        else:
            fv = self.ev(f, fr)
        for a in node.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, fr)
                n = self.fixedlen(sv)
                if n is not None:
                    args += [self.position(sv, i) for i in range(n)]
                else:
                    star |= self.elems(sv)
            else:
                args.append(self.ev(a, fr))
        dstar = F0
        for k in node.keywords:
            if k.arg is None:
                dv = self.ev(k.value, fr)
                dstar |= self.values(dv)
                for l in dv:
                    for key in list(l.kids):
                        pass
            else:
                kw[k.arg] = self.ev(k.value, fr)
        self.star, self.dstar = star, dstar
        if isinstance(f, ast.Attribute):
            ref = [l for l in recv if l.kind == 'ref' and isinstance(l.extra, tuple) and l.extra[0] in ('ext', 'mod', 'cls')]
            if ref and len(ref) == len(recv):
                fv = self.attr(recv, f.attr, fr, node)
                return self.call(fv, args, kw, fr, node, star, dstar)
            return self.mcall(recv, f.attr, args, kw, fr, node, star, dstar)
        return self.call(fv, args, kw, fr, node, star, dstar)

    def fixedlen(self, v):
        if len(v) != 1:
            return None
        (l,) = v
        if not (l.typ and l.typ & {'tuple', 'list'}) or (self.S.get((l, '[]')) or F0):
            return None
        i = 0
        while self.S.get((l, '[%d]' % i)) is not None:
            i += 1
        return i if i else None

    def call(self, fv, args, kw, fr, node, star=F0, dstar=F0):
        fns, known = [], []
        for l in fv:
            known.append(lambda l=l: self.call1(l, args, kw, fr, node, star, dstar))
        if not known:
            return self.fresh(fr, node)
        if len(known) == 1:
            return known[0]()
        return frozenset().union(*self.branches(known))

    def call1(self, l, args, kw, fr, node, star, dstar):
        x = l.extra if isinstance(l.extra, tuple) else None
        if x is None:
            if self.repo_class(l):
                m = self.method(self.repo_class(l), '__call__')
                if m:
                    return self.callfn(m[1], self.classes[m[0]]['mod'], [frozenset([l])] + args, kw, fr, node, star, dstar, cls=m[0])
            self.raise_point()
            if l.typ == frozenset(['type']):
                return self.fresh(fr, node)
            return self.fresh(fr, node)
        if x[0] == 'fun':
            fn = self.pkg.mods[x[1]]['funcs'][x[2]]
            return self.callfn(fn, x[1], args, kw, fr, node, star, dstar)
        if x[0] == 'closure':
            c = x[1]
            return self.callfn(c.node, c.mod, args, kw, fr, node, star, dstar, parent=c.frame)
        if x[0] == 'bound':
            return self.mcall(x[1], x[2], args, kw, fr, node, star, dstar)
        if x[0] == 'ufun':
            m = self.method(x[1], x[2])
            return self.callfn(m[1], self.classes[m[0]]['mod'], args, kw, fr, node, star, dstar, cls=m[0])
        if x[0] == 'cls':
            return self.construct(x[1], args, kw, fr, node, star, dstar)
        if x[0] == 'partial':
            return self.call(x[1], list(x[2]) + args, dict(x[3], **kw), fr, node, star, dstar)
        if x[0] == 'ext':
            return self.ext(x[1], args, kw, fr, node, star, dstar)
        return self.fresh(fr, node)

    def construct(self, c, args, kw, fr, node, star=F0, dstar=F0):
        m = self.method(c, '__new__')
        if m:
            r = self.callfn(m[1], self.classes[m[0]]['mod'], [self.clsv(c)] + args, kw, fr, node, star, dstar, cls=m[0])
            return r
        l = self.alloc(fr, node, c, 'new:' + c)
        b = self.bases(c)
        if 'UserDict' in b:
            pass
        me = frozenset([l])
        m = self.method(c, '__init__')
        if m:
            self.callfn(m[1], self.classes[m[0]]['mod'], [me] + args, kw, fr, node, star, dstar, cls=m[0])
        elif b & {'list', 'tuple', 'set'}:
            self.S.set((l, '[]'), self.elems(args[0]) if args else F0)
        return me

    def bases(self, c):
        out = set()
        while c in self.classes:
            b = self.classes[c]['bases']
            c = b[0].split('.')[-1] if b else ''
            out.add(c)
        return out

    def supercall(self, node, fr):
        f = fr
        while f is not None and f.cls is None:
            f = f.parent
        if f is None or not f.fn or not f.fn.args.args:
            return self.fresh(fr, node)
        me = self.name(f.fn.args.args[0].arg, f)
        l = self.alloc(fr, node, 'func', 'super')
        l.extra = ('super', f.cls, me)
        return frozenset([l])

    def callfn(self, fn, mod, args, kw, fr, node, star=F0, dstar=F0, parent=None, cls=None):
        name = getattr(fn, 'name', '<lambda>')
        chain = ((fr.chain if fr else ()) + ((id(fn), id(node)),))[-KLIM:]
        # a few documented pure helpers keep the analysis small
        act = sum(1 for f in self.active if f is fn)
        if act >= (2 if name != '__init__' else 3) or len(self.active) > DEPTH:
            self.cut = self.cut + 1
            return self.summary(fn, args, fr, node)
        self.funcs_seen.add('%s.%s%s' % (mod, cls + '.' if cls else '', name))
        f = Frame(fn, mod, parent, chain, cls)
        f.caller = fr
        cachedfn = any('lru_cache' in ast.unparse(d) or ast.unparse(d).split('(')[0].split('.')[-1] == 'cache' for d in getattr(fn, 'decorator_list', []))
        args = [self.collapse(v, fn) if len(v) > 1 else v for v in args]
        kw = {k: self.collapse(v, fn) if len(v) > 1 else v for k, v in kw.items()}
        if cachedfn:
            c = self.cachedcalls.setdefault('%s.%s%s' % (mod, cls + '.' if cls else '', name), {})
            for i, v in enumerate(list(args) + list(kw.values())):
                for l in v:
                    for t in (l.typ or ()):
                        c.setdefault(t, tuple(fr.chain_names()) if fr else ())
        base = self.S
        mk = self.memokey(fn, args, kw, star, dstar) if parent is None and not self.trace else None
        if mk is not None and mk in self.memo:
            v, d, dead = self.memo[mk]
            for k, x in d.items():
                base.set(k, x)
            if dead:
                base.dead = True
            return v
        self.S = Store(base)
        f.top = base
        top0 = base
        cut0 = self.cut
        self.bindargs(fn, f, args, kw, star, dstar, mod)
        self.active.append(fn)
        try:
            if isinstance(fn, ast.Lambda):
                v = self.ev(fn.body, f)
                f.rets.append((v, self.S.delta(top0)))
            else:
                for g in ast.walk(fn):
                    if isinstance(g, ast.Global):
                        f.glob.update(g.names)
                self.body(fn.body, f)
                if not self.S.dead:
                    f.rets.append((self.imm('none'), self.S.delta(top0)))
        finally:
            self.active.pop()
        self.S = base
        if not f.rets:
            base.dead = True
            if mk is not None and self.cut == cut0:
                self.memo[mk] = (F0, {}, True)
            return F0
        if not f.captured:
            f.rets = [(v, {k: x for k, x in d.items() if k[0] != 'v' or k[1] != f.id}) for v, d in f.rets]
        self.merge(base, [d for _, d in f.rets])
        out = frozenset().union(*[v for v, _ in f.rets])
        if f.yields:
            l = self.alloc(fr, node, 'list', 'gen')
            self.S.set((l, '[]'), frozenset().union(*f.yields))
            out = frozenset([l])
        if len(out) > 2:
            out = self.collapse(out, fn)
        if cachedfn:
            out = self.cachedres(fn, mod, out)
        if mk is not None:
            keys = set().union(*[set(d) for _, d in f.rets])
            if f.yields:
                keys.add((l, '[]'))
            keys |= {(l, f) for l in out if l.kind == 'alloc' for f in FIELDS}
            self.memo[mk] = (out, {k: base.d[k] for k in keys if k in base.d}, False)
        return out

    def collapse(self, v, fn, tag='', depth=0):
        """Merge many new objects of one type into a single one with all their contents."""
        g = {}
        for l in v:
            if l.kind == 'alloc' and not isinstance(l.extra, tuple):
                g.setdefault(l.typ, []).append(l)
        out = set(v)
        for t, ls in g.items():
            if len(ls) < 2:
                continue
            k = ('sum', id(fn), t, tag)
            n = self.allocs.get(k)
            if n is None:
                n = self.allocs[k] = Loc('alloc', t, ls[0].path)
            out -= set(ls)
            out.add(n)
            for f in FIELDS:
                x = frozenset().union(*[self.S.get((l, f)) or F0 for l in ls])
                if len(x) > 1 and depth < 3:
                    x = self.collapse(x, fn, f + tag, depth + 1)
                if x - {n}:
                    self.weak(n, f, x)
        return frozenset(out)

    def memokey(self, fn, args, kw, star, dstar):
        """Function, argument objects and the contents reachable from them."""
        seen, snap, own = set(), [], True
        work = [l for v in list(args) + list(kw.values()) + [star, dstar] for l in v]
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            if len(seen) > 60:
                return None
            if l.kind != 'alloc' and not l.imm() and l.kind not in ('imm', 'ref'):
                own = False
            x = l.extra if isinstance(l.extra, tuple) else None
            if x and x[0] in ('closure', 'partial'):
                return None
            if x and x[0] == 'bound':
                work += list(x[1])
            if l.kind in ('imm', 'ref') or l.imm() and not x:
                continue
            if l.kind == 'elt':
                work.append(l.parent)
                continue
            for f in FIELDS:
                v = self.S.get((l, f))
                if v is not None:
                    snap.append((l.id, f, tuple(sorted(y.id for y in v))))
                    work += list(v)
                elif f in l.kids:
                    work += list(l.kids[f])
        if own:
            # nothing but objects created during the analysis: the types of the arguments decide
            ty = lambda v: tuple(sorted({str(sorted(l.typ)) if l.typ else '?' for l in v} | {str(l.extra) for l in v if l.kind == 'ref'}))
            return (id(fn), tuple(ty(v) for v in args), tuple(sorted((k, ty(v)) for k, v in kw.items())), ty(star), ty(dstar), tuple(self.with_ctx), 'own',
                    tuple(sorted({str(sorted(l.typ)) if l.typ else '?' for l in seen})), sum(1 for g in self.active if g is fn))
        snap.sort()
        return (id(fn), tuple(tuple(sorted(l.id for l in v)) for v in args), tuple(sorted((k, tuple(sorted(l.id for l in v))) for k, v in kw.items())),
                tuple(sorted(l.id for l in star)), tuple(sorted(l.id for l in dstar)), tuple(snap), tuple(self.with_ctx),
                sum(1 for g in self.active if g is fn))

    def cachedres(self, fn, mod, v):
        out = set()
        for l in v:
            if l.imm() or l.kind in ('imm', 'ref'):
                out.add(l)
                continue
            k = ('cached', fn.name, l.typ)
            if k not in self.allocs:
                self.allocs[k] = Loc('cached', l.typ, 'result of %s' % fn.name)
            out.add(self.allocs[k])
        return frozenset(out)

    def summary(self, fn, args, fr, node):
        return self.fresh(fr, node, None, tag='rec')

    def bindargs(self, fn, f, args, kw, star, dstar, mod):
        a = fn.args
        pos = a.posonlyargs + a.args
        for i, p in enumerate(pos):
            if i < len(args):
                v = args[i]
            elif p.arg in kw:
                v = kw[p.arg]
            else:
                v = F0
                j = i - (len(pos) - len(a.defaults))
                if j >= 0 and not (star and False):
                    v = self.default(fn, a.defaults[j], mod, f)
                v = v | star | dstar
            self.S.set(('v', f.id, p.arg), v)
        for i, p in enumerate(a.kwonlyargs):
            v = kw.get(p.arg)
            if v is None:
                v = (self.default(fn, a.kw_defaults[i], mod, f) if a.kw_defaults[i] is not None else F0) | dstar
            self.S.set(('v', f.id, p.arg), v)
        if a.vararg:
            l = self.alloc(f, fn, 'tuple', 'vararg')
            ex = args[len(pos):]
            for i, x in enumerate(ex):
                self.S.set((l, '[%d]' % i), x)
            self.S.set((l, '[]'), star)
            self.S.set(('v', f.id, a.vararg.arg), frozenset([l]))
        if a.kwarg:
            l = self.alloc(f, fn, 'dict', 'kwarg')
            names = {p.arg for p in pos + a.kwonlyargs}
            self.S.set((l, '[]'), frozenset().union(dstar, *[v for k, v in kw.items() if k not in names]))
            self.S.set((l, '{}'), self.imm('str'))
            self.S.set(('v', f.id, a.kwarg.arg), frozenset([l]))

    def default(self, fn, node, mod, f):
        if isinstance(node, ast.Constant):
            return self.ev(node, f)
        k = id(node)
        if k not in self.defaults:
            g = Frame(fn, mod, f.parent, ('default', k))
            base, self.S = self.S, Store(self.S)
            v = self.ev(node, g)
            d = self.S.delta(base)
            self.S = base
            out = set()
            for l in v:
                if l.kind == 'alloc' and l.typ and l.typ & {'list', 'dict', 'set', 'ndarray'}:
                    n = Loc('default', l.typ, 'default argument of %s' % getattr(fn, 'name', 'lambda'))
                    n.kids = {fl: vv for (ll, fl), vv in d.items() if ll is l}
                    n.kids.setdefault('[]', F0)
                    out.add(n)
                else:
                    out.add(l)
            self.defaults[k] = (frozenset(out), {kk: v for kk, v in d.items() if isinstance(kk[0], Loc)})
        v, d = self.defaults[k]
        for kk, x in d.items():
            if self.S.get(kk) is None:
                self.S.set(kk, x)
        return v

    # ---- methods
    def mcall(self, recv, name, args, kw, fr, node, star=F0, dstar=F0):
        g, rest = self.groups(recv)
        fns = []
        for c, ls in g:
            m = self.method(c, name)
            if m and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m[1].decorator_list):
                fns.append(lambda ls=ls, m=m: self.callfn(m[1], self.classes[m[0]]['mod'], [ls] + args, kw, fr, node, star, dstar, cls=m[0]))
            else:
                fns += [lambda l=l: self.mcall1(l, name, args, kw, fr, node, star, dstar) for l in ls]
        fns += [lambda l=l: self.mcall1(l, name, args, kw, fr, node, star, dstar) for l in rest]
        if not fns:
            return self.fresh(fr, node)
        if len(fns) == 1:
            return fns[0]()
        return frozenset().union(*self.branches(fns))

    def allv(self, args, kw, star=F0):
        return frozenset().union(star, *args, *kw.values())

    def mcall1(self, l, name, args, kw, fr, node, star, dstar):
        x = l.extra if isinstance(l.extra, tuple) else None
        me = frozenset([l])
        if l.kind == 'ref' and x:
            return self.call(self.attr1(l, name, fr, node), args, kw, fr, node, star, dstar)
        if x and x[0] == 'super':
            c = self.classes[x[1]]['bases']
            b = c[0].split('.')[-1] if c else ''
            m = self.method(b, name)
            if m:
                first = x[2] if not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m[1].decorator_list) else None
                return self.callfn(m[1], self.classes[m[0]]['mod'], ([first] if first is not None else []) + args, kw, fr, node, star, dstar, cls=m[0])
            if name == '__new__':
                n = self.alloc(fr, node, x[1], 'new')
                src = args[1] if len(args) > 1 else F0
                k = self.fixedlen(src)
                for i in range(k or 0):
                    self.S.set((n, '[%d]' % i), self.position(src, i))
                self.S.set((n, '[]'), F0 if k else self.elems(src))
                return frozenset([n])
            if name == '__init__':
                for o in x[2]:
                    if self.repo_class(o):
                        if b in ('UserDict',):
                            d = self.alloc(fr, node, 'dict', 'data')
                            self.S.set((d, '[]'), self.values(args[0]) if args else F0)
                            self.S.set((o, 'data'), frozenset([d]))
                        else:
                            self.S.set((o, '[]'), self.elems(args[0]) if args else F0)
                return self.imm('none')
            return frozenset().union(F0, *[self.contmeth(o, name, args, kw, fr, node, star) or F0 for o in x[2]])
        c = self.repo_class(l)
        if c:
            m = self.method(c, name)
            if m:
                st = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m[1].decorator_list)
                return self.callfn(m[1], self.classes[m[0]]['mod'], ([] if st else [me]) + args, kw, fr, node, star, dstar, cls=m[0])
            v = self.S.get((l, name))
            if v is not None:
                return self.call(v, args, kw, fr, node, star, dstar)
        r = self.contmeth(l, name, args, kw, fr, node, star)
        if r is not None:
            return r
        if l.typ is None:
            cands = sorted({self.method(k, name)[0] for k in self.classes if self.method(k, name)})
            if cands and name not in ('copy', 'conj', 'get', 'pop', 'items', 'keys', 'values', 'subs', 'trace', 'reshape', 'allclose', '__init__', 'T', 'around', 'conjugate'):
                fns = []
                for k in cands:
                    m = self.method(k, name)
                    fns.append(lambda m=m: self.callfn(m[1], self.classes[m[0]]['mod'], [me] + args, kw, fr, node, star, dstar, cls=m[0]))
                return frozenset().union(*(self.branches(fns) if len(fns) > 1 else [fns[0]()]))
            v = self.S.get((l, name))
            if v is not None:
                return self.call(v, args, kw, fr, node, star, dstar)
        self.raise_point()
        # callbacks handed to unknown code are run
        self.callbacks(args, kw, fr, node)
        return self.fresh(fr, node, 'sym' if l.typ and 'sym' in l.typ and name not in ('atoms',) else None)

    def callbacks(self, args, kw, fr, node, params=None):
        out = F0
        for a in list(args) + list(kw.values()):
            for l in a:
                if isinstance(l.extra, tuple) and l.extra[0] in ('closure', 'fun', 'bound', 'partial'):
                    n = 1
                    if l.extra[0] == 'closure':
                        n = len(l.extra[1].node.args.args)
                    elif l.extra[0] == 'fun':
                        n = len(self.pkg.mods[l.extra[1]]['funcs'][l.extra[2]].args.args)
                    elif l.extra[0] == 'partial':
                        n = 0
                    p = params if params is not None else [self.fresh(fr, node, None, tag='cb%d' % i) for i in range(n)]
                    base = self.S
                    out |= frozenset().union(*self.branches([lambda: F0, lambda: self.call1(l, list(p), {}, fr, node, F0, F0)]))
        return out

    def contmeth(self, l, name, args, kw, fr, node, star):
        """Methods of containers, arrays and sparse matrices."""
        t = l.typ or F0
        me = frozenset([l])
        cont = t & {'list', 'dict', 'set', 'tuple', 'Model', 'BlochModel', 'PrettyList', 'BlochCoeff'}
        d = me
        if t & {'Model', 'BlochModel'}:
            d = self.read(l, 'data')
        if t and t <= IMM:
            return None
        if t & {'ndarray', 'sparse'} or l.kind == 'elt':
            if name in MUTM and name not in ('update', 'add', 'remove', 'insert', 'append', 'pop'):
                self.mutate(me, node, fr, 'in-place %s' % name)
                return self.imm('none')
            if 'out' in kw:
                self.mutate(kw['out'], node, fr, 'out= of %s' % name)
                return kw['out']
            if name in VIEWM:
                cp = self.constkw(node, 'copy')
                if cp is True or name == 'getH':
                    return self.fresh(fr, node, 'sparse' if 'sparse' in t else 'ndarray')
                if name.startswith('to') and 'ndarray' in t:
                    return self.fresh(fr, node)
                return me if l.kind != 'elt' else me
            if name == 'astype':
                return me | self.fresh(fr, node, 'ndarray') if self.constkw(node, 'copy') is False else self.fresh(fr, node, 'ndarray' if 'ndarray' in t else 'sparse')
            if name in ('item', 'trace', 'nonzero', 'any', 'all', 'min', 'max', 'argmax', 'argmin'):
                return self.imm('num')
            if name in ('sum', 'mean', 'prod'):
                return self.fresh(fr, node)
            if name == 'tolist':
                return self.fresh(fr, node, 'list')
            if name in ('toarray', 'todense', 'dot', 'conj', 'conjugate', 'copy', 'flatten', 'round', 'repeat', 'take', 'cumsum', 'clip', 'multiply', 'power'):
                if name in ('conj', 'conjugate') and self.constkw(node, 'copy') is False:
                    return me
                return self.fresh(fr, node, 'ndarray' if name in ('toarray', 'todense', 'flatten') or 'ndarray' in t else 'sparse')
            self.raise_point()
            return self.fresh(fr, node)
        if name == 'copy' and (cont or not t):
            return self.shallow(l, fr, node)
        if not cont and t:
            return None
        if not t and name not in MUTM | {'items', 'keys', 'values', 'get'}:
            return None
        a = args[0] if args else F0
        if name == 'items':
            L = self.alloc(fr, node, 'list', 'items')
            T = self.alloc(fr, node, 'tuple', 'item')
            ks = frozenset().union(F0, *[self.fieldall(x, '{}') for x in d])
            vs = frozenset().union(F0, *[self.fieldall(x, '[]') for x in d])
            self.S.set((T, '[0]'), ks or self.imm('sym'))
            self.S.set((T, '[1]'), vs)
            self.S.set((L, '[]'), frozenset([T]))
            return frozenset([L])
        if name == 'values':
            L = self.alloc(fr, node, 'list', 'vals')
            self.S.set((L, '[]'), frozenset().union(F0, *[self.fieldall(x, '[]') for x in d]))
            return frozenset([L])
        if name == 'keys':
            L = self.alloc(fr, node, 'set', 'keys')
            self.S.set((L, '[]'), frozenset().union(F0, *[self.fieldall(x, '{}') for x in d]) or self.imm('sym'))
            return frozenset([L])
        if name == 'get':
            r = frozenset().union(F0, *[self.fieldall(x, '[]') for x in d])
            k = self.keyconst(node.args[0], fr) if isinstance(node, ast.Call) and node.args else None
            if l.kind == 'extv' and k:
                r = self.read(l, 'k:' + k)
                ab = self.special(('absent',), 'absent')
                if r & ab:
                    r = (r - ab) | (args[1] if len(args) > 1 else self.imm('none'))
                return r
            return r | (args[1] if len(args) > 1 else self.imm('none'))
        if name in MUTM:
            if l.kind == 'extv':
                k = self.keyconst(node.args[0], fr) if isinstance(node, ast.Call) and node.args else None
                if name == 'pop' and k:
                    r = self.read(l, 'k:' + k)
                    ab = self.special(('absent',), 'absent')
                    self.S.set((l, 'k:' + k), ab)
                    if r & ab:
                        r = (r - ab) | (args[1] if len(args) > 1 else F0)
                    return r
                if name in ('update', 'clear', 'setdefault', '__setitem__', '__delitem__'):
                    if name == '__setitem__' and k:
                        self.S.set((l, 'k:' + k), args[1])
                    elif name == 'update' and isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Dict):
                        for kk, vv in zip(node.args[0].keys, node.args[0].values):
                            kc = self.keyconst(kk, fr) if kk is not None else None
                            if kc:
                                self.S.set((l, 'k:' + kc), self.ev(vv, fr))
                    else:
                        self.unknown_ext = True
                    return self.imm('none')
            self.mutate(d, node, fr, '.%s()' % name)
            for x in d:
                if name in ('append', 'add', 'appendleft'):
                    self.weak(x, '[]', a)
                elif name == 'insert':
                    self.weak(x, '[]', args[1] if len(args) > 1 else F0)
                elif name in ('extend', 'update'):
                    if 'dict' in (x.typ or F0):
                        self.weak(x, '[]', self.values(a) | self.allv([], kw))
                        self.weak(x, '{}', self.elems(a))
                    else:
                        self.weak(x, '[]', self.elems(a))
                elif name in ('setdefault', '__setitem__'):
                    self.weak(x, '{}', a)
                    self.weak(x, '[]', args[1] if len(args) > 1 else self.imm('none'))
            if name in ('pop', 'popitem', 'setdefault', 'popleft'):
                return frozenset().union(F0, *[self.fieldall(x, '[]') for x in d]) | (args[1] if len(args) > 1 else F0)
            return self.imm('none')
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            L = self.alloc(fr, node, 'set', name)
            self.S.set((L, '[]'), self.elems(me) | (frozenset().union(F0, *[self.elems(x) for x in args]) if name != 'difference' else F0))
            return frozenset([L])
        if name in ('index', 'count', 'issubset', 'issuperset', 'isdisjoint'):
            return self.imm('num')
        if t & {'Model', 'BlochModel'} and name == 'copy':
            return None
        return None

    def weak(self, l, f, v):
        if l is self.allocs.get(('array', 'op?')):
            return
        cur = self.S.get((l, f))
        if cur is None:
            cur = self.look(self.S, (l, f))
        self.S.set((l, f), cur | v)

    def shallow(self, l, fr, node):
        t = l.typ
        c = self.repo_class(l)
        if c:
            m = self.method(c, '__copy__') or self.method(c, 'copy')
            if m:
                return self.callfn(m[1], self.classes[m[0]]['mod'], [frozenset([l])], {}, fr, node, cls=m[0])
        if l.imm() or l.kind == 'imm':
            return frozenset([l])
        n = self.alloc(fr, node, list(t)[0] if t and len(t) == 1 else None, 'copy')
        if t and t & {'ndarray', 'sparse'} or l.kind == 'elt':
            return frozenset([n])
        if t is None:
            return frozenset([n])
        if t & {'list', 'tuple', 'set', 'dict', 'PrettyList'}:
            self.S.set((n, '[]'), self.fieldall(l, '[]'))
            self.S.set((n, '{}'), self.fieldall(l, '{}'))
        elif c:
            for f in ('R', 'U', 'data', 'keep', 'momenta', 'shape', 'format', 'conjugate', 'antisymmetry', '_strict_eq'):
                v = self.look(self.S, (l, f))
                if v:
                    self.S.set((n, f), v)
        return frozenset([n])

    def deep(self, l, fr, node, seen=None):
        seen = {} if seen is None else seen
        if l in seen:
            return frozenset([seen[l]])
        if l.imm() or l.kind in ('imm', 'ref'):
            return frozenset([l])
        n = self.alloc(fr, node, list(l.typ)[0] if l.typ and len(l.typ) == 1 else None, 'deep%d' % len(seen))
        seen[l] = n
        c = self.repo_class(l)
        fs = ['[]', '{}'] + ['[%d]' % i for i in range(3)]
        if c:
            fs += ['R', 'U', 'data', 'keep', 'momenta', 'shape', 'format', 'conjugate', 'antisymmetry', '_strict_eq']
        for f in fs:
            v = self.S.get((l, f))
            if v is None and (l.kind in ('param', 'default', 'cached')) and (not f.startswith('[') or f == '[]'):
                v = self.kid(l, f) if len(seen) < 12 else F0
            if v:
                self.S.set((n, f), frozenset().union(*[self.deep(x, fr, node, seen) for x in v]))
        return frozenset([n])

    def constkw(self, node, name):
        if isinstance(node, ast.Call):
            for k in node.keywords:
                if k.arg == name and isinstance(k.value, ast.Constant):
                    return k.value.value
        return None

    # ---- library functions
    def cont(self, fr, node, typ, elems, tag=''):
        l = self.alloc(fr, node, typ, tag)
        self.S.set((l, '[]'), elems)
        return frozenset([l])

    def ext(self, d, args, kw, fr, node, star=F0, dstar=F0):
        short = d.split('.')[-1]
        b = d.startswith('builtins.')
        a = args[0] if args else (star if star else F0)
        parts = d.split('.')
        if short == 'copy' and len(parts) > 2 and parts[-2].startswith('_clash'):
            return self.fresh(fr, node, 'dict')
        if short in ('update', 'append', 'extend', 'insert', 'setdefault', 'clear', 'pop', 'popitem', 'remove') and len(parts) > 2 and not self.init \
                and parts[0] in ('sympy', 'numpy', 'sys', 'warnings', 'os', 'scipy') and not parts[-2][:1].isupper() \
                and parts[-2] != 'converter':     # judged by the typestate analysis
            self.globcalls.setdefault((d, '%s.py:%s' % (fr.mod, node.lineno)), tuple(fr.chain_names()))
        if d in MUTF and args:
            self.mutate(args[MUTF[d]], node, fr, short)
            return args[MUTF[d]] if d.startswith('operator') else self.imm('none')
        if d.startswith('numpy.random.') and short not in ('RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64') or \
                d in ('numpy.seterr', 'numpy.set_printoptions', 'numpy.seterrcall', 'numpy.setbufsize', 'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings',
                      'sys.setrecursionlimit', 'os.chdir', 'os.putenv', 'sympy.init_printing', 'locale.setlocale', 'random.seed', 'gc.disable',
                      'scipy.special.seterr', 'logging.disable', 'sympy.init_session', 'numpy.set_string_function', 'os.umask', 'signal.signal') or \
                d.startswith('random.') and short in ('random', 'shuffle', 'choice', 'randint', 'sample', 'uniform', 'gauss'):
            if not ('warnings.catch_warnings' in self.with_ctx and d.startswith('warnings.')):
                self.globcalls.setdefault((d, '%s.py:%s' % (fr.mod, node.lineno)), tuple(fr.chain_names()))
        if 'out' in kw and not b:
            self.mutate(kw['out'], node, fr, 'out= of %s' % short)
            return kw['out']
        if b:
            r = self.builtin(short, args, kw, fr, node, star, dstar, a)
            if r is not None:
                return r
        self.raise_point()
        if d in VIEWF:
            if short in ('split', 'array_split', 'hsplit', 'vsplit', 'nditer'):
                return self.cont(fr, node, 'list', a)
            if short in ('asarray', 'asanyarray', 'ascontiguousarray', 'atleast_2d', 'atleast_1d', 'asfortranarray', 'atleast_3d', 'reshape', 'ravel', 'transpose', 'squeeze'):
                al = frozenset(l for l in a if not l.imm() and not (l.typ and l.typ & {'list', 'tuple', 'set'}))
                return al | self.fresh(fr, node, 'ndarray', tag='as') if al != a or not a else (al if all(l.typ and 'ndarray' in l.typ for l in al) else al | self.fresh(fr, node, 'ndarray', tag='as'))
            return a
        if d == 'numpy.array':
            r = self.fresh(fr, node, 'ndarray')
            return (r | a) if self.constkw(node, 'copy') is False else r
        if d in ('copy.copy',):
            out, (g, rest) = F0, self.groups(a)
            for c, ls in g:
                m = self.method(c, '__copy__') or self.method(c, 'copy')
                if m:
                    out |= self.callfn(m[1], self.classes[m[0]]['mod'], [ls], {}, fr, node, cls=m[0])
                else:
                    rest |= ls
            return out.union(*[self.shallow(l, fr, node) for l in rest])
        if d in ('copy.deepcopy',):
            return frozenset().union(F0, *[self.deep(l, fr, node) for l in a])
        if short in SPARSE and d.startswith('scipy'):
            r = self.fresh(fr, node, 'sparse')
            sp = frozenset(l for l in a if (l.typ is None and l.kind != 'alloc') or l.typ and 'sparse' in l.typ)
            return r | sp if sp and self.constkw(node, 'copy') is not True else r
        if d in ('itertools.product', 'itertools.permutations', 'itertools.combinations', 'itertools.combinations_with_replacement'):
            T = self.alloc(fr, node, 'tuple', 'pt')
            if short == 'product' and 'repeat' not in kw:
                for i, x in enumerate(args):
                    self.S.set((T, '[%d]' % i), self.elems(x))
                self.S.set((T, '[]'), self.elems(star) if star else F0)
            else:
                self.S.set((T, '[]'), self.elems(a))
            return self.cont(fr, node, 'list', frozenset([T]), 'pl')
        if d in ('itertools.chain', 'itertools.chain.from_iterable', 'itertools.islice', 'itertools.cycle', 'itertools.takewhile', 'itertools.filterfalse',
                 'itertools.accumulate', 'itertools.dropwhile'):
            if short == 'chain':
                return self.cont(fr, node, 'list', frozenset().union(F0, self.elems(star), *[self.elems(x) for x in args]))
            if short == 'from_iterable':
                return self.cont(fr, node, 'list', self.elems(self.elems(a)))
            self.callbacks(args, kw, fr, node)
            return self.cont(fr, node, 'list', frozenset().union(F0, *[self.elems(x) for x in args]))
        if d == 'itertools.groupby':
            T = self.alloc(fr, node, 'tuple', 'gb')
            G = self.alloc(fr, node, 'list', 'gg')
            self.S.set((G, '[]'), self.elems(a))
            self.S.set((T, '[1]'), frozenset([G]))
            self.S.set((T, '[0]'), self.callbacks(args[1:], kw, fr, node, [self.elems(a)]) or self.elems(a))
            return self.cont(fr, node, 'list', frozenset([T]), 'gl')
        if d == 'functools.reduce' and len(args) >= 2:
            acc = args[2] if len(args) > 2 else self.elems(args[1])
            for _ in range(2):
                acc = acc | self.call(a, [acc, self.elems(args[1])], {}, fr, node)
            return acc
        if d == 'functools.partial' and args:
            l = self.alloc(fr, node, 'func', 'partial')
            l.extra = ('partial', a, tuple(args[1:]), dict(kw))
            return frozenset([l])
        if d in ('operator.mul', 'operator.add', 'operator.sub', 'operator.matmul', 'operator.and_', 'operator.or_', 'operator.xor') and len(args) == 2:
            return self.binop(args[0], args[1], short.rstrip('_'), fr, node)
        if d == 'collections.defaultdict':
            r = self.cont(fr, node, 'dict', self.callbacks(args[:1], {}, fr, node, []) | (self.builtin_default(a, fr, node)))
            return r
        if d in ('collections.OrderedDict', 'collections.deque', 'collections.Counter', 'types.MappingProxyType'):
            return self.cont(fr, node, 'list' if short == 'deque' else 'dict', self.values(a) if short != 'deque' else self.elems(a))
        if d == 'numpy.vectorize':
            l = self.alloc(fr, node, 'func', 'vec')
            l.extra = ('ext', 'numpy.<vectorized>')
            self.callbacks(args, {}, fr, node)
            return frozenset([l])
        if d.startswith('numpy.') or d.startswith('scipy.linalg.'):
            if short in ('sum', 'prod', 'max', 'min', 'amax', 'amin', 'abs', 'sqrt', 'exp', 'cos', 'sin', 'angle', 'round', 'dot', 'trace', 'mean', 'norm', 'real_if_close'):
                return self.fresh(fr, node, None) if short != 'real_if_close' else a | self.fresh(fr, node, None)
            if short in ('isclose', 'allclose', 'array_equal', 'iscomplexobj', 'ndim', 'issubdtype', 'isscalar', 'complex128', 'float64'):
                return self.imm('num')
            if short in ('eigh', 'eig', 'svd', 'qr', 'schur', 'nonzero', 'where', 'unique', 'lu', 'polar', 'slogdet', 'meshgrid', 'lstsq'):
                return self.fresh(fr, node)
            if short == 'ndenumerate':
                T = self.alloc(fr, node, 'tuple', 'nde')
                self.S.set((T, '[0]'), self.imm('num'))
                self.S.set((T, '[1]'), self.elems(a))
                return self.cont(fr, node, 'list', frozenset([T]), 'ndl')
            self.callbacks(args, kw, fr, node)
            return self.fresh(fr, node, 'ndarray')
        if d.startswith('tinyarray.'):
            return self.imm('ta')
        if d.startswith('scipy.sparse.linalg.') and short in ('aslinearoperator', 'LinearOperator'):
            return self.fresh(fr, node, 'linop')
        if d.startswith('scipy.sparse.') and short in ('kron', 'vstack', 'hstack', 'block_diag', 'eye', 'identity', 'diags', 'bmat', 'random'):
            return self.fresh(fr, node, 'sparse')
        if d.startswith('sympy.'):
            self.callbacks(args, kw, fr, node)
            if short in ('Matrix', 'zeros', 'eye', 'ones', 'diag', 'MutableDenseMatrix') or short == 'sympify':
                return self.fresh(fr, node, None)
            if short == 'symbols':
                return self.cont(fr, node, 'tuple', self.imm('sym'))
            if short == 'lambdify':
                return self.fresh(fr, node, None)
            return self.imm('sym')
        self.callbacks(args, kw, fr, node)
        return self.fresh(fr, node)

    def builtin_default(self, a, fr, node):
        for l in a:
            if isinstance(l.extra, tuple) and l.extra[0] == 'ext' and l.extra[1] in ('builtins.list', 'builtins.dict', 'builtins.set'):
                return self.cont(fr, node, l.extra[1].split('.')[1], F0, 'dd')
        return F0

    def builtin(self, n, args, kw, fr, node, star, dstar, a):
        if n in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter'):
            typ = {'sorted': 'list', 'reversed': 'list', 'iter': 'list', 'frozenset': 'set'}.get(n, n)
            if 'key' in kw:
                self.callbacks([], {'key': kw['key']}, fr, node, [self.elems(a)])
            if n == 'iter':
                return a
            if not args:
                return self.cont(fr, node, typ, F0, n)
            r = self.cont(fr, node, typ, self.elems(a), n)
            (x,) = r
            k = self.fixedlen(a)
            if k and n in ('list', 'tuple'):
                for i in range(k):
                    self.S.set((x, '[%d]' % i), self.position(a, i))
                self.S.set((x, '[]'), F0)
            return r
        if n == 'dict':
            l = self.alloc(fr, node, 'dict', 'dict')
            ks, vs = F0, self.allv([], kw) | dstar
            for x in a:
                if x.typ and 'dict' in x.typ or x.typ and x.typ & {'Model', 'BlochModel'}:
                    vs |= self.values(frozenset([x]))
                    ks |= self.elems(frozenset([x]))
                else:
                    for p in self.el1(x):
                        ks |= self.position(frozenset([p]), 0)
                        vs |= self.position(frozenset([p]), 1)
            self.S.set((l, '{}'), ks)
            self.S.set((l, '[]'), vs)
            return frozenset([l])
        if n == 'zip':
            T = self.alloc(fr, node, 'tuple', 'zt')
            for i, x in enumerate(args):
                self.S.set((T, '[%d]' % i), self.elems(x))
            self.S.set((T, '[]'), self.elems(star) if star else F0)
            return self.cont(fr, node, 'list', frozenset([T]), 'zl')
        if n == 'enumerate':
            T = self.alloc(fr, node, 'tuple', 'et')
            self.S.set((T, '[0]'), self.imm('num'))
            self.S.set((T, '[1]'), self.elems(a))
            return self.cont(fr, node, 'list', frozenset([T]), 'el')
        if n == 'map' and args:
            r = self.call(a, [self.elems(x) for x in args[1:]], {}, fr, node)
            return self.cont(fr, node, 'list', r, 'map')
        if n == 'filter' and len(args) > 1:
            self.callbacks(args[:1], {}, fr, node, [self.elems(args[1])])
            return self.cont(fr, node, 'list', self.elems(args[1]), 'filter')
        if n == 'sum':
            el = self.elems(a)
            acc = args[1] if len(args) > 1 else kw.get('start', self.imm('num'))
            for _ in range(2):
                nxt = self.binop(acc, el, 'add', fr, node) if el else F0
                if nxt <= acc:
                    break
                acc = acc | nxt
            return acc
        if n in ('min', 'max'):
            if 'key' in kw:
                self.callbacks([], {'key': kw['key']}, fr, node, [self.elems(a)])
            if len(args) == 1:
                return (self.elems(a) | kw.get('default', F0)) or self.imm('num')
            return self.allv(args, {})
        if n == 'next':
            return self.elems(a) | (args[1] if len(args) > 1 else F0)
        if n in ('range',):
            return self.cont(fr, node, 'list', self.imm('num'), 'range')
        if n in NUMF:
            if n in ('any', 'all'):
                self.elems(a)
            if n == 'abs' and a and not all(l.imm() for l in a):
                return self.opresult([a], fr, node)
            if n == 'hash':
                self.dunder(frozenset(l for l in a if self.repo_class(l)), '__hash__', [], fr, node)
            return self.imm('num')
        if n in ('str', 'repr', 'format'):
            for m in ('__str__', '__repr__'):
                if n == m.strip('_') or n == 'format' and m == '__str__':
                    self.dunder(frozenset(l for l in a if self.repo_class(l)), m, [], fr, node)
            return self.imm('str')
        if n == 'type' and len(args) == 1:
            out = F0
            for l in a:
                c = self.repo_class(l)
                out |= self.clsv(c) if c else self.imm('type')
            return out
        if n == 'getattr' and len(args) >= 2:
            nd = node.args[1]
            if isinstance(nd, ast.Constant):
                return self.attr(a, nd.value, fr, node) | (args[2] if len(args) > 2 else F0)
            return self.fresh(fr, node)
        if n == 'vars':
            return a
        if n in ('print', 'input'):
            return self.imm('none')
        if n in ('globals', 'locals'):
            return self.fresh(fr, node, 'dict')
        if n.endswith('Error') or n in ('Exception', 'Warning', 'RuntimeWarning', 'DeprecationWarning'):
            return self.imm('num')
        return None

    # ------------------------------------------------------------ statements
    def body(self, stmts, fr):
        for s in stmts:
            if self.S.dead:
                return
            m = getattr(self, 's_' + type(s).__name__, None)
            if m:
                m(s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.bind(t, v, fr, s)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, fr), fr, s)

    def bind(self, t, v, fr, node):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, self.cont(fr, x, 'list', self.elems(v)), fr, node)
                else:
                    self.bind(x, self.position(v, i) if not any(isinstance(y, ast.Starred) for y in t.elts[:i]) else self.elems(v), fr, node)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, fr, node)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            for l in o:
                x = l.extra if isinstance(l.extra, tuple) else None
                if l.kind == 'ref':
                    if x and x[0] in ('mod', 'cls', 'ext', 'fun'):
                        self.globcalls.setdefault(('assignment to %s.%s' % (x[-1], t.attr), '%s.py:%s' % (fr.mod, node.lineno)), tuple(fr.chain_names()))
                    continue
                if l.kind == 'param' and l is getattr(self, 'selfloc', None) and getattr(self, 'self_ok', False):
                    pass
                elif l.kind not in ('alloc',):
                    self.mut1(l, node, fr, 'attribute %s' % t.attr)
                self.markdata(l, t.attr, v)
                if l.kind == 'alloc' and len(o) == 1:
                    self.S.set((l, t.attr), v)
                else:
                    self.weak(l, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.ev_index(t.slice, fr)
            self.setitem(o, t.slice, ix, v, fr, node)

    def setitem(self, o, s, ix, v, fr, node):
        self_mut = []
        for l in o:
            c = self.repo_class(l)
            m = self.method(c, '__setitem__') if c else None
            if m:
                if c not in self_mut:
                    self_mut.append(c)
                    ixv = ix if isinstance(ix, frozenset) else self.fresh(fr, node, 'tuple', tag='ix')
                    self.callfn(m[1], self.classes[m[0]]['mod'], [frozenset(x for x in o if self.repo_class(x) == c), ixv, v], {}, fr, node, cls=m[0])
                continue
            if c and 'UserDict' in self.bases(c):
                for d in self.read(l, 'data'):
                    self.setitem(frozenset([d]), s, ix, v, fr, node)
                continue
            t = l.typ or F0
            key = self.keyconst(s, fr) if not isinstance(s, (ast.Slice, ast.Tuple)) else None
            if l.kind == 'extv':
                if key:
                    self.S.set((l, 'k:' + key), v)
                else:
                    self.unknown_ext = True
                continue
            self.mut1(l, node, fr, 'item assignment')
            if t & {'ndarray', 'sparse'} or l.kind == 'elt':
                continue
            if isinstance(s, ast.Slice):
                self.weak(l, '[]', self.elems(v))
                continue
            if key is not None and key.isdigit() and 'dict' not in t and self.S.get((l, '[%s]' % key)) is not None and l.kind == 'alloc':
                self.S.set((l, '[%s]' % key), v)
                continue
            self.weak(l, '[]', v)
            if isinstance(ix, frozenset) and 'dict' in t:
                self.weak(l, '{}', ix)

    def s_AugAssign(self, s, fr):
        val = self.ev(s.value, fr)
        op = self.OPS[type(s.op).__name__]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            self.setname(t.id, self.inplace(cur, val, op, fr, s), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.attr(o, t.attr, fr, t)
            self.bind_attr(o, t.attr, self.inplace(cur, val, op, fr, s), fr, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.ev_index(t.slice, fr)
            cur = self.getitem(o, t.slice, fr, t)
            self.setitem(o, t.slice, ix, self.inplace(cur, val, op, fr, s), fr, s)

    def markdata(self, l, a, v):
        if a == 'data' and l.typ and l.typ & {'Model', 'BlochModel'}:
            for x in v:
                if x.typ and 'dict' in x.typ and x.kind == 'alloc':
                    x.isdata = True
                    c = self.S.get((x, '[]'))
                    if c:
                        self.S.set((x, '[]'), c)

    def bind_attr(self, o, a, v, fr, node):
        for l in o:
            if l.kind == 'ref':
                continue
            if l.kind != 'alloc':
                self.mut1(l, node, fr, 'attribute %s' % a)
            self.markdata(l, a, v)
            if l.kind == 'alloc' and len(o) == 1:
                self.S.set((l, a), v)
            else:
                self.weak(l, a, v)

    def inplace(self, cur, val, op, fr, node):
        out, rest = F0, F0
        for l in cur:
            t = l.typ
            c = self.repo_class(l)
            if c and self.method(c, '__i%s__' % op):
                out |= self.dunder(frozenset([l]), '__i%s__' % op, [val], fr, node)
            elif l.kind == 'elt':
                rest |= frozenset([l])
            elif t and 'ndarray' in t or t and 'sparse' in t and op in ('mul', 'truediv'):
                self.mut1(l, node, fr, 'in-place %s' % op)
                out |= frozenset([l])
            elif t and t & {'list', 'set', 'dict'}:
                self.mut1(l, node, fr, 'in-place %s' % op)
                if 'dict' in t:
                    self.weak(l, '[]', self.values(val))
                elif op in ('add', 'or', 'xor'):
                    self.weak(l, '[]', self.elems(val))
                out |= frozenset([l])
            else:
                rest |= frozenset([l])
        if rest:
            out |= self.binop(rest, val, op, fr, node)
        return out

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                self.ev_index(t.slice, fr)
                key = self.keyconst(t.slice, fr) if not isinstance(t.slice, (ast.Slice, ast.Tuple)) else None
                for l in o:
                    if l.kind == 'extv':
                        if key:
                            self.S.set((l, 'k:' + key), self.special(('absent',), 'absent'))
                        else:
                            self.unknown_ext = True
                        continue
                    if self.repo_class(l) and 'UserDict' in self.bases(self.repo_class(l)):
                        self.mutate(self.read(l, 'data'), s, fr, 'item deletion')
                    else:
                        self.mut1(l, s, fr, 'item deletion')
            elif isinstance(t, ast.Attribute):
                self.mutate(self.ev(t.value, fr), s, fr, 'attribute deletion')

    def s_FunctionDef(self, s, fr):
        l = self.alloc(fr, s, 'func', 'def')
        if self.init:
            l = list(self.funv(fr.mod, s.name))[0]
            return
        l.extra = ('closure', Closure(s, fr, fr.mod))
        fr.capture()
        self.setname(s.name, frozenset([l]), fr)

    def s_ClassDef(self, s, fr):
        pass

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else self.imm('none')
        if not self.S.dead:
            fin = getattr(fr, 'finals', None)
            if fin:
                saved = list(fin)
                while fin:
                    f = fin.pop()
                    self.body(f, fr)
                    if self.S.dead:
                        break
                fin[:] = saved
            if not self.S.dead:
                fr.rets.append((v, self.S.delta(fr.top)))
        self.S.dead = True

    def s_Raise(self, s, fr):
        if s.exc is not None:
            self.ev(s.exc, fr)
        self.raise_point()
        self.S.dead = True

    def s_Assert(self, s, fr):
        self.ev(s.test, fr)
        self.raise_point()
        if not self.narrow(s.test, True, fr):
            self.S.dead = True

    def s_If(self, s, fr):
        t = self.test(s.test, fr)
        if t is not None:
            self.body(s.body if t else s.orelse, fr)
            return

        def one(body, val):
            if not self.narrow(s.test, val, fr):
                self.S.dead = True
                return
            self.body(body, fr)
        self.branches([lambda: one(s.body, True), lambda: one(s.orelse, False)])

    def s_While(self, s, fr):
        def it():
            t = self.test(s.test, fr)
            if t is not False and self.narrow(s.test, True, fr):
                self.body(s.body, fr)
            else:
                self.S.dead = True
        self.loop(it, s.orelse, fr)
        self.test(s.test, fr)

    def s_For(self, s, fr):
        v = self.ev(s.iter, fr)

        def it():
            e = self.elems(v)
            if not e and self.known_empty(v):
                self.S.dead = True
                return
            self.bind(s.target, e, fr, s)
            self.body(s.body, fr)
        self.loop(it, s.orelse, fr)

    def known_empty(self, v):
        return False

    def loop(self, it, orelse, fr):
        base = self.S
        breaks = []
        for _ in range(4):
            before = dict(base.d)
            ctx = {'top': base, 'breaks': breaks, 'conts': []}
            fr.loops.append(ctx)
            self.S = Store(base)
            it()
            ds = [{}] + ctx['conts']
            if not self.S.dead:
                ds.append(self.S.delta(base))
            fr.loops.pop()
            self.S = base
            keys = set().union(*ds)
            old = {k: self.look(base, k) for k in keys}
            self.merge(base, ds)
            if all(self.look(base, k) == old[k] for k in keys):
                break
        self.body(orelse, fr)
        if breaks:
            if base.dead:
                base.dead = False
                self.merge(base, breaks)
            else:
                self.merge(base, [{}] + breaks)

    def s_Break(self, s, fr):
        if fr.loops:
            c = fr.loops[-1]
            c['breaks'].append(self.S.delta(c['top']))
        self.S.dead = True

    def s_Continue(self, s, fr):
        if fr.loops:
            c = fr.loops[-1]
            c['conts'].append(self.S.delta(c['top']))
        self.S.dead = True

    def s_Global(self, s, fr):
        pass

    def s_With(self, s, fr):
        n = 0
        for it in s.items:
            c = it.context_expr
            if isinstance(c, ast.Call):
                f = self.ev(c.func, fr)
                gens = [l for l in f if isinstance(l.extra, tuple) and l.extra[0] == 'fun']
                if len(gens) == 1 and len(f) == 1:
                    fn = self.pkg.mods[gens[0].extra[1]]['funcs'][gens[0].extra[2]]
                    if any('contextmanager' in ast.unparse(d) for d in fn.decorator_list):
                        args = [self.ev(a, fr) for a in c.args]
                        kw = {k.arg: self.ev(k.value, fr) for k in c.keywords if k.arg}
                        self.inline_cm(fn, gens[0].extra[1], args, kw, fr, s, it.optional_vars, s.body)
                        return
                ext = [l.extra[1] for l in f if isinstance(l.extra, tuple) and l.extra[0] == 'ext']
                self.with_ctx += ext
                n += len(ext)
            v = self.ev(c, fr)
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v, fr, s)
        self.body(s.body, fr)
        if n:
            del self.with_ctx[-n:]

    def inline_cm(self, fn, mod, args, kw, fr, node, target, body):
        f = Frame(fn, mod, None, fr.chain + ((id(fn), id(node)),), None)
        f.caller = fr
        f.top = self.S
        self.bindargs(fn, f, args, kw, F0, F0, mod)

        def run(v):
            if target is not None:
                self.bind(target, v, fr, node)
            self.body(body, fr)
        f.ybody = run
        self.body(fn.body, f)

    def s_Try(self, s, fr):
        base = self.S
        self.S = Store(base)
        self.excs.append((base, []))
        fins = fr.finals = getattr(fr, 'finals', [])
        if s.finalbody:
            fins.append(s.finalbody)
        if self.trace:
            self.body(s.body, fr)
        else:
            for x in s.body:
                self.excs[-1][1].append(self.S.delta(base))
                self.body([x], fr)
                if self.S.dead:
                    break
            self.excs[-1][1].append(self.S.delta(base))
        if not self.S.dead:
            self.body(s.orelse, fr)
        _, exc = self.excs.pop()
        ends = [] if self.S.dead else [self.S.delta(base)]
        open_exc = []
        if s.handlers and (exc or True):
            for h in s.handlers:
                self.S = Store(base)
                if exc:
                    self.merge(self.S, exc)
                if h.type is not None:
                    self.ev(h.type, fr)
                if h.name:
                    self.setname(h.name, self.fresh(fr, h), fr)
                self.excs.append((base, [])) if s.finalbody else None
                self.body(h.body, fr)
                if s.finalbody:
                    open_exc += self.excs.pop()[1]
                if not self.S.dead:
                    ends.append(self.S.delta(base))
            if not any(h.type is None or ast.unparse(h.type) in ('Exception', 'BaseException') for h in s.handlers):
                open_exc += exc
        else:
            open_exc += exc
        if s.finalbody:
            fins.pop()
        outs = []
        if s.finalbody and self.trace:
            for d in self.dedupe(open_exc):
                self.S = Store(base)
                self.merge(self.S, [d])
                self.body(s.finalbody, fr)
                if not self.S.dead and self.excs:
                    self.excs[-1][1].append(self.S.delta(self.excs[-1][0]))
        elif open_exc and self.excs and self.trace:
            for d in self.dedupe(open_exc):
                self.S = Store(base)
                self.merge(self.S, [d])
                self.excs[-1][1].append(self.S.delta(self.excs[-1][0]))
        for d in ends:
            self.S = Store(base)
            self.merge(self.S, [d])
            if s.finalbody:
                self.body(s.finalbody, fr)
            if not self.S.dead:
                outs.append(self.S.delta(base))
        self.S = base
        if outs:
            self.merge(base, outs)
        else:
            base.dead = True

    def dedupe(self, ds):
        """Exceptional states that differ in the tracked library objects."""
        out, seen = [], set()
        for d in ds:
            k = tuple(sorted((l.path, f, tuple(sorted(x.id for x in v))) for (l, f), v in
                             ((kk, vv) for kk, vv in d.items() if len(kk) == 2 and isinstance(kk[0], Loc) and kk[0].kind == 'extv')))
            k2 = tuple(sorted((kk[1], kk[2], tuple(sorted(x.id for x in vv))) for kk, vv in d.items() if kk[0] == 'v' and any(x.kind in ('extval',) or x.typ == frozenset(['none']) for x in vv)))
            if (k, k2) in seen:
                continue
            seen.add((k, k2))
            out.append(d)
        return out[:40]

    # ------------------------------------------------------------ entry
    def entry(self, mod, name, params, cls=None, kw=None):
        """Analyse a function with the given parameter objects; returns (result, store)."""
        fn = self.pkg.mods[mod]['classes'][cls]['methods'].get(name) if cls else self.pkg.mods[mod]['funcs'].get(name)
        if fn is None:
            return None
        fr = Frame(None, mod, None, ('entry', mod, name))
        fr.fn = None
        self.steps = 0
        self.S = Store(self.S)
        self.excs = [(self.S, [])]
        args = [frozenset([p]) if isinstance(p, Loc) else p for p in params]
        try:
            if name == '__init__':
                return self.construct(cls, args[1:], kw or {}, fr, fn)
            v = self.callfn(fn, mod, args, kw or {}, fr, fn, cls=cls)
        except Stop:
            return None
        return v

    def reach(self, v, depth=6):
        """Objects reachable from a value."""
        out, work = set(), [(l, 0) for l in v]
        while work:
            l, d = work.pop()
            if l in out:
                continue
            out.add(l)
            if d > depth:
                continue
            s = self.S
            fs = set()
            while s is not None:
                fs |= {k[1] for k in s.d if k[0] is l}
                s = s.base
            fs |= set(l.kids)
            if l.kind == 'param' and isinstance(l.extra, dict):
                fs |= set(l.extra) - {'*'}
            for f in fs:
                for x in self.look(self.S, (l, f)):
                    work.append((x, d + 1))
        return out


def _chain_names(self):
    out, f = [], self
    while f is not None:
        if f.fn is not None:
            out.append('%s:%s' % (f.mod, getattr(f.fn, 'name', '<lambda>')))
        f = getattr(f, 'caller', None)
    return out[::-1]


Frame.chain_names = _chain_names
