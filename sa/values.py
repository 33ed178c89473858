"""Abstract values that are not terms (callables, classes, heap references) and the abstract heap."""
from .terms import *
from .terms import _h


class Unsupported(Exception):
    """construct outside the analysed language: the obligation cannot be decided"""


class Dead(Exception):
    """no path continues past this point"""


class Ref:
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr

    def sadig(self):
        return f"ref{self.addr}"

    def __repr__(self):
        return f"<ref {self.addr}>"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(('ref', self.addr))


# heap cells are immutable values: an update stores a new cell at the address
class Frame:
    __slots__ = ('vars', 'parent', 'name')

    def __init__(self, vars, parent=None, name=''):
        self.vars, self.parent, self.name = vars, parent, name


class ListCell:
    __slots__ = ('seq',)      # python tuple of items, or an Atom 'seq'

    def __init__(self, seq):
        self.seq = seq


class DictCell:
    __slots__ = ('items', 'base')   # items: {digest: (key, value)}, base: symbolic dictionary it was copied from

    def __init__(self, items, base=None):
        self.items, self.base = items, base


class InstCell:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class FuncVal:
    def __init__(self, node, module, closure, defaults, kwdefaults, name, cls=None):
        self.node, self.module, self.closure = node, module, closure
        self.defaults, self.kwdefaults, self.name, self.cls = defaults, kwdefaults, name, cls
        self.static = self.classm = self.prop = self.nograd = False
        self.memo = self.setter = None      # results of earlier calls (address), setter of a property
        self.cached = False                 # a property computed once per object
        self.py = None        # a Python implementation (models written by rules)

    @property
    def qual(self):
        return f"{self.module}.{self.name}"

    def sadig(self):
        return _h('F', self.qual, getattr(self.node, 'lineno', 0), getattr(self.node, 'col_offset', 0), self.closure)

    def __repr__(self):
        return f"<fn {self.qual}>"


class PyFunc:
    """a callable supplied by a rule: fn(interp, args, kwargs) -> value"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def sadig(self):
        return 'py' + self.name

    def __repr__(self):
        return f"<py {self.name}>"


class BoundMethod:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func

    def sadig(self):
        return _h('BM', dig(self.self_), dig(self.func))

    def __repr__(self):
        return f"<bound {self.func!r}>"


class ClassVal:
    def __init__(self, name, module, bases, frame, node):
        self.name, self.module, self.bases, self.frame, self.node = name, module, bases, frame, node
        self.mro = None

    @property
    def qual(self):
        return f"{self.module}.{self.name}"

    def sadig(self):
        return 'class ' + self.qual + (str(self.frame) if '<locals>' in self.name else '')

    def __repr__(self):
        return f"<class {self.qual}>"


class ModuleVal:
    def __init__(self, name, frame):
        self.name, self.frame = name, frame

    def sadig(self):
        return 'mod ' + self.name


class Ext:
    """something defined outside the analysed package, by dotted name"""

    def __init__(self, name):
        self.name = name

    def sadig(self):
        return 'ext ' + self.name

    def __repr__(self):
        return self.name


class ExtMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def sadig(self):
        return _h('EM', dig(self.obj), self.name)

    def __repr__(self):
        return f"<{show(self.obj)}.{self.name}>"


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def sadig(self):
        return _h('range', dig(self.lo), dig(self.hi), dig(self.step))


class IterVal:
    """zip / enumerate / reversed / map of values, consumed by iteration"""

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, tuple(parts)

    def sadig(self):
        return _h('iter', self.kind, *[dig(p) for p in self.parts])


class SuperVal:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def sadig(self):
        return _h('super', dig(self.cls), dig(self.self_))


class Undef:
    def sadig(self):
        return 'undef'

    def __repr__(self):
        return '<undef>'


UNDEF = Undef()


def sym(name, kind='tensor', **meta):
    return Atom('sym', (name,), kind, meta or None)


# -------------------------------------------------------------- sequences
def item(v):
    return Atom('item', (v,), 'obj')


def mkseq(segs):
    """segs: list of Atoms item / ext / cseg / comp -> tuple when concrete"""
    out = []
    for s in segs:
        if s.op == 'ext' and isinstance(s.args[0], tuple):
            out.extend(item(v) for v in s.args[0])
        elif s.op == 'ext' and isinstance(s.args[0], Atom) and s.args[0].op == 'seq':
            out.extend(s.args[0].args)
        elif s.op == 'cseg' and isinstance(s.args[0], bool):
            if s.args[0]:
                out.extend(segs_of(s.args[1]))
        elif s.op == 'cseg' and s.args[1] == ():
            pass
        else:
            out.append(s)
    if all(s.op == 'item' for s in out):
        return tuple(s.args[0] for s in out)
    if len(out) == 1 and out[0].op == 'ext':
        return Atom('seq', out, 'obj')
    return Atom('seq', out, 'obj')


def segs_of(v):
    if isinstance(v, tuple):
        return [item(x) for x in v]
    if isinstance(v, Atom) and v.op == 'seq':
        return list(v.args)
    return [Atom('ext', (v,), 'obj')]


REBUILD['seq'] = lambda a, k, m: mkseq(list(a))


def _bvheight(v):
    h = 0
    for t in subterms(v):
        if isinstance(t, Atom) and t.op == 'bv':
            h = max(h, t.args[0])
    return h


def mkcomp(idx, n, segs):
    """segs for idx = 0 .. n-1; idx is an atom, renamed canonically when the body does not depend on loop-carried state"""
    body = mkseq(segs)
    if has(body, lambda t: isinstance(t, Atom) and t.op == 'mu'):
        return Atom('comp', (idx, n, body), 'obj')
    h = 1 + _bvheight(body)
    bv = Atom('bv', (h,), 'num')
    nb = replace(body, [(idx, bv)])
    # identity comprehension: [x[i] for i in range(len(x))]
    if isinstance(nb, tuple) and len(nb) == 1:
        e = nb[0]
        if isinstance(e, Atom) and e.op == 'getitem' and e.args[1] == (bv,) and not has(e.args[0], lambda t: t == bv) and \
                same(n, Atom('size', (e.args[0], 0), 'num')):
            return Atom('ext', (e.args[0],), 'obj')
    return Atom('comp', (bv, n, nb), 'obj')
