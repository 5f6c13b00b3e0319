"""Obligation bookkeeping, evidence and reports shared by all checks."""
import json
import os
import sys
import time
import traceback
from .terms import *
from .compare import Verdict, compare
from .interp import AnchorMissing, Budget

ROOT = os.environ.get('QSYMM_ROOT', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop):
    """Lines `known: property=<id> construct=<key> ...` of known_findings.txt."""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            if l.startswith('known: property=%s construct=' % prop):
                key, _, what = l[len('known: property=%s construct=' % prop):].strip().partition(' ')
                out[key] = what
    return out


class Obligation:
    def __init__(self, name, kind, why, where, detail=''):
        self.name, self.kind, self.why, self.where, self.detail = name, kind, why, where, detail


# an obligation not decided within LIMIT seconds stays undetermined
# (check.py's main thread interrupts the analysis)
DEADLINE = [None]
LIMIT = int(os.environ.get('SA_LIMIT', '60'))
TOTAL = 600      # afterwards the remaining obligations are left undetermined at once


class Checker:
    def __init__(self, prop, root=ROOT):
        self.prop, self.root = prop, root
        self.t0 = time.time()
        self.obs = []
        self.rules = []
        self.functions = set()
        self.sites = 0
        self.notes = []
        self.known = load_known(prop)
        self._pkg = None

    @property
    def pkg(self):
        if self._pkg is None:
            from .interp import Package
            self._pkg = Package(os.path.join(self.root, 'qsymm'))
        return self._pkg

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    # -- obligations
    def ob(self, name, where, fn, finding=None):
        """fn() -> Verdict. Analysis problems give 'undetermined'."""
        left = TOTAL - (time.time() - self.t0)
        try:
            if left < 1:
                raise Budget('total')
            DEADLINE[0] = time.time() + min(LIMIT, left)
            v = fn()
        except AnchorMissing:
            raise
        except (Budget, RecursionError, MemoryError) as e:
            v = Verdict('unk', 'budget: %s' % type(e).__name__)
        except Exception as e:       # an analyser limitation never raises an alarm
            v = Verdict('unk', 'analysis: %s: %s' % (type(e).__name__, e))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        finally:
            DEADLINE[0] = None
        detail = ''
        if v.kind != 'eq':
            from .compare import show_cube
            detail = 'case: %s\n  found:    %s\n  required: %s' % (
                show_cube(v.cube), clip(v.code), clip(v.spec))
        self.obs.append(Obligation(name, v.kind, v.why, where() if callable(where) else where, detail))
        self.obs[-1].finding = finding
        return v.kind

    def fact(self, name, where, ok, why='', finding=None):
        """ok: True / False / None (undetermined)."""
        kind = {True: 'eq', False: 'ne', None: 'unk'}[ok]
        self.obs.append(Obligation(name, kind, why, where))
        self.obs[-1].finding = finding

    # -- result
    def finish(self):
        bad = [o for o in self.obs if o.kind == 'ne']
        unk = [o for o in self.obs if o.kind == 'unk']
        known, new = [], []
        for o in bad:
            (known if o.finding in self.known and o.finding else new).append(o)
        ev = os.environ.get('SA_EVIDENCE') or os.path.join(HERE, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rep = os.path.join(ev, self.prop + '.violation.txt')
        if new:
            with open(rep, 'w', encoding='utf-8') as f:
                for o in new:
                    f.write('%s\n  at %s\n  %s\n  %s\n\n' % (o.name, o.where, o.why, o.detail))
        elif os.path.exists(rep):
            os.remove(rep)
        data = {
            'property': self.prop,
            'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of %s/qsymm/*.py; nothing of the package is executed. Rules: %s' % (
                    self.root, '; '.join(self.rules)),
                'obligations_total': len(self.obs),
                'obligations_established': len([o for o in self.obs if o.kind == 'eq']),
                'obligations_undetermined': len(unk),
                'obligations_violated': len(bad),
                'functions_analysed': sorted(self.functions),
                'sites_inspected': self.sites,
                'undetermined': [{'name': o.name, 'why': o.why, 'where': o.where} for o in unk][:60],
                'violations': [{'name': o.name, 'where': o.where, 'why': o.why, 'known': o in known} for o in bad][:60],
                'samples': [{'name': o.name, 'where': o.where} for o in self.obs][:40],
                'notes': self.notes,
            },
            'wall_s': round(time.time() - self.t0, 3),
        }
        with open(os.path.join(ev, self.prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(data, f, indent=1, ensure_ascii=False)
            f.write('\n')
        print('property %s: %d obligations, %d established, %d undetermined, %d violated' % (
            self.prop, len(self.obs), len(self.obs) - len(unk) - len(bad), len(unk), len(bad)))
        if os.environ.get('SA_VERBOSE'):
            for o in self.obs:
                print(' [%s] %s @ %s %s' % (o.kind, o.name, o.where, o.why))
                if o.kind != 'eq' and o.detail:
                    print('   ' + o.detail.replace('\n', '\n   '))
        for o in {o.finding: o for o in known}.values():
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, self.known[o.finding] or o.why, o.where))
        for o in new[:10]:
            print('%s\n  at %s\n  %s\n  %s' % (o.name, o.where, o.why, o.detail))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(rep, HERE)))
            return 1
        return 0


def clip(v, n=1500):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def main(argv):
    sys.setrecursionlimit(20000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ImportError, ValueError, OSError):
        pass
    prop = argv[1]
    sys.path.insert(0, HERE)
    import importlib
    try:
        mod = importlib.import_module('checks.' + prop.lower())
    except ImportError as e:
        print('no check for %s: %s' % (prop, e))
        return 2
    ck = Checker(prop)
    try:
        mod.run(ck)
    except AnchorMissing as e:
        print('anchor not found: %s' % e)
        return 2
    except SyntaxError as e:
        print('source does not parse: %s' % e)
        return 2
    return ck.finish()
