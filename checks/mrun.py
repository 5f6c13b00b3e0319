"""Run the Model scenarios of one property."""
from .mcommon import *


def run_scen(ck, tag, aspects, only=None, scens=None):
    from . import mscen
    it = make(ck)
    cache = {}
    for sc in mscen.SCEN if scens is None else scens:
        if tag and tag not in sc.tags or only and not only(sc):
            continue
        key = (sc.cls, sc.method)
        if key not in cache:
            c = it.func('model', sc.cls)
            f = c.lookup(sc.method)
            if f is None:
                raise AnchorMissing('%s.%s' % key)
            cache[key] = '%s:%d %s.%s' % (ck.pkg.modules['model'].path, f.node.lineno, sc.cls, sc.method)

        def go(sc=sc):
            s = Sc(ck, sc.cls)
            v, want = sc.fn(s)
            if not isinstance(want, Want):
                return cmp_value(v, want)
            return cmp_model(v, want, what=aspects(sc) if callable(aspects) else aspects)
        ck.ob(sc.name, cache[key], go)


def cmp_value(v, want):
    voc = {'epow'} | {x.name for x in walk(want) if isinstance(x, Atom)}
    return compare(v, want, voc, 'strict')
