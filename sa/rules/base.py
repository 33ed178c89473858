"""Obligations, findings and the analysis context shared by the rules."""
import ast
import os
import sys
import time
import warnings

from ..interp import *
from ..compare import Comparison, Eq, alpha, Budget
from ..dense import Sizes, Arr, agree, NoDense, rows, array

sys.setrecursionlimit(30000)
warnings.simplefilter('ignore')

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'spec')

CHECKS = {}          # property id -> (title, function)


def rule(pid):
    def deco(fn):
        CHECKS.setdefault(pid, []).append(fn)
        return fn
    return deco


class Vanished(Exception):
    """an anchor of a rule is not in the source any more"""


class Finding:
    def __init__(self, rule, construct, where, message):
        self.rule, self.construct, self.where, self.message = rule, construct, where, message

    @property
    def key(self):
        return f"{self.rule}:{self.construct}".replace(' ', '_')

    def __repr__(self):
        return f"{self.key} at {self.where}: {self.message}"


class Ctx:
    def __init__(self, root='/repo', files=None, budget=400):
        self.root, self.files = root, files or {}
        self.findings, self.errors = [], []
        self.obligations = []
        self.functions = set()
        self.loops = 0
        self.bounded = []
        self.deadline = time.time() + budget
        self.t0 = time.time()

    # ------------------------------------------------------------ analysis objects
    def interp(self, *mods, spec=(), opaque=()):
        I = Interp(root=self.root, files=self.files)
        for m in mods:
            I.load(m)
        for s in spec:
            with open(os.path.join(SPEC, s + '.py')) as fh:
                I.load_source('spec.' + s, fh.read())
        I.ctx = self
        for q in opaque:
            I.opaque[q] = summary(q)
        return I

    def done(self, I):
        """account for what an interpreter analysed"""
        for e in I.events:
            if e.fn and not str(e.fn).startswith('spec.'):
                self.functions.add(e.fn)
        self.functions |= {q for q in I.analysed if not q.startswith('spec.')}
        self.loops += len([L for L in I.loops.values() if not L.fn.startswith('spec.')])

    # ------------------------------------------------------------ obligations
    def attempt(self, rule, construct, fn):
        """outcome of an obligation generator without entering it"""
        keep = self.findings, self.errors, self.obligations
        self.findings, self.errors, self.obligations = [], [], []
        try:
            self.guard(rule, construct, fn)
            return self.findings, self.errors, self.obligations
        finally:
            self.findings, self.errors, self.obligations = keep

    def enter(self, out):
        for f in out[0]:
            if not any(g.rule == f.rule and g.construct == f.construct for g in self.findings):
                self.findings.append(f)
        self.errors += out[1]
        self.obligations += out[2]

    def either(self, rule, construct, general, bounded):
        """`general` decides the obligation for every size by congruence of recurrences. Congruence is not complete: code organised differently
        can fail it and still compute the same. Then the obligation is decided by `bounded`, which writes the loops out for every size up to a bound."""
        a = self.attempt(rule, construct, general)
        if not a[0] and not a[1]:
            return self.enter(a)
        b = self.attempt(rule, construct, bounded)
        if not b[0] and not b[1]:
            self.bounded.append(construct)
            return self.enter(b)
        self.enter(b if not b[1] else a if not a[1] or not b[0] else b)

    def check(self, rule, construct, ok, where='', message=''):
        self.obligations.append((rule, construct, bool(ok)))
        if not ok and not any(f.rule == rule and f.construct == construct for f in self.findings):
            self.findings.append(Finding(rule, construct, where, message))
        return ok

    def equal(self, rule, construct, I, got, want, where='', assumed=(), sizes=()):
        """value graphs equal (loops included); `sizes` settles graphs that are not congruent entry by entry"""
        C = Comparison(I, {'value': got}, {'value': want}, assumed=assumed)
        ok = not C.mismatches
        msg = ''
        if not ok and sizes:
            try:
                ok, msg = agree(I, got, want, sizes)
                if ok:
                    self.bounded.append(construct)
            except NoDense as e:
                msg = ''
        if not ok and not msg:
            m = C.mismatches[0]
            where = m.where if m.where not in ('value', '?') else where
            msg = f"{label(m.label)}: found {show(m.got, 5)[:400]}, required {show(m.want, 5)[:400]}"
        return self.check(rule, construct, ok, where, msg)

    def compare(self, rule, I, got, want, keep=None, where='', construct=None, assumed=()):
        """labelled value graphs; `keep(label)` selects the obligations that belong to the rule"""
        C = Comparison(I, got, want, assumed=assumed)
        bad = 0
        seen = set()
        for m in C.mismatches:
            if keep is not None and not keep(m.label):
                continue
            bad += 1
            w = m.where if m.where not in ('?',) and m.where not in got else where
            self.check(rule, f"{construct or ''}{'/' if construct else ''}{label(m.label)}", False, w,
                       f"{m.what}: found {show(m.got, 5)[:400]}, required {show(m.want, 5)[:400]}")
        names = [('root', k) for k in want if keep is None or keep(('root', k))]
        for n in names:
            lb = f"{construct or ''}{'/' if construct else ''}{label(n)}"
            if not any(o[1] == lb for o in self.obligations):
                self.check(rule, lb, True)
        for v in C.specvars:
            if keep is None or keep(v):
                self.check(rule, f"{construct or ''}{'/' if construct else ''}{label(v)}",
                           not any(label(m.label) == label(v) for m in C.mismatches), where)
        return C

    def guard(self, rule, construct, fn):
        """run one obligation generator; analysis limits become errors, a vanished anchor too"""
        try:
            fn()
        except Dead as e:
            # every way through the analysed call raises
            self.check(rule, construct + '/returns a result', False, str(e), f"no path of the analysed call returns ({e})")
        except (Unsupported, Budget, Vanished, NoDense, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            self.errors.append((rule, construct, f"{type(e).__name__}: {e} [{tb[-1].name}:{tb[-1].lineno}]"))


def label(l):
    if l[0] == 'root':
        return str(l[1])
    if len(l) == 3 and l[2] in ('entry', 'next'):
        return f"{l[1]}.{l[2]}"
    if len(l) == 3:
        return f"loop.{l[1] or l[2]}"
    return str(l)


def summary(q):
    """uninterpreted summary of a function analysed by another rule"""
    name = q.rsplit('.', 1)[-1]

    def h(I, f, b):
        return Atom('fun', (name,) + tuple(I.as_term(v) for v in b.values()), 'tensor')
    return h


# ---------------------------------------------------------------- common symbols
def vf(name='f', params=('t', 'x', 'args')):
    return sym(name, 'fn', argspec=params, params=params)


def solver(stepping, isa=(), **attrs):
    a = {'sync_device_dtype': PyFunc('sync', lambda I, a, k: (a[0], a[1])),
         'step': sym('step', 'fn', params=('f', 'x', 't', 'dt', 'k1', 'args'), returns='obj'),
         'order': sym('p', 'num'), 'safety': sym('safety'), 'min_factor': sym('min_factor'), 'max_factor': sym('max_factor', above=(1, 'min_factor')),
         'stepping_class': stepping}
    a.update(attrs)
    return sym('S', 'obj', notnone=True, attrs=a, isa=isa)


def fn_where(I, mod, name):
    try:
        v = I.get(mod, name)
    except Exception:
        return mod
    n = getattr(v, 'node', None)
    return f"{mod}.{name}:{getattr(n, 'lineno', 0)}"


def need(I, mod, name):
    try:
        return I.get(mod, name)
    except Exception:
        raise Vanished(f"{mod}.{name} not found")


def instance(I, mod, name, args=(), kwargs=None):
    return I.call(need(I, mod, name), list(args), kwargs or {})


def method(I, obj, name, args=(), kwargs=None):
    return I.call(I.getattr(obj, name), list(args), kwargs or {})


def calls_of(v, f):
    """calls of the symbolic function f inside v"""
    return [t for t in subterms(v) if isinstance(t, Atom) and t.op == 'call' and same(t.args[0], f)]
