"""C10: no public function, method or constructor modifies objects of the caller."""
from .effcommon import sweep, overs

FIELDS = ('R', 'U', 'conjugate', 'antisymmetry', '_strict_eq', 'data', 'keep', 'momenta', 'shape', 'format')


def private(what):
    a = what[10:] if what.startswith('attribute ') else ''
    return a.startswith('_') and a not in FIELDS     # internal memo fields of an object


def run(ck):
    ck.rule('may-alias and modification analysis by abstract inlining from every public entry point: no store, in-place update or mutating library call '
            'reaches an object that existed before the call and is reachable from a parameter (item assignment and deletion act on their own object only)')
    pkg, res = sweep(ck)
    for (mod, cls, name), where, runs in res:
        own = name in ('__setitem__', '__delitem__')

        def bad(r):
            out = []
            for kind, path, site, what, chain in r['mut']:
                if kind not in ('param', 'elt') or private(what):
                    continue
                if own and path.split('[')[0] in ('self.data', 'self'):
                    continue
                out.append(('%s of the argument object %s (%s)' % (what, path, chain), site))
            return out
        overs(ck, '%s%s leaves its arguments as they were' % (cls + '.' if cls else '', name), where, runs, bad)
