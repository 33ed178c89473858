"""Precision analysis: the dtype of every value of a graph built in `precise` mode, by the promotion rules of torch.

In that mode the interpreter keeps what it otherwise drops: the dtype given to a tensor when it is created (atom `typed`) and
conversions (atom `cast`), and it notes every operation with its operands (event `typing`).  A type is a set of pairs
(dtype, dimensioned): dtype in w (Python number), i (integral or Boolean tensor), f32, f64, ? (unknown); dimensioned in 0, 1, None."""
from .ops import *
from .values import Undef

W, INT, F32, F64, UNK = 'w', 'i', 'f32', 'f64', '?'
NAMES = {'torch.float64': F64, 'torch.double': F64, 'builtins.float': F64, 'torch.float32': F32, 'torch.float': F32, 'torch.float16': F32, 'torch.half': F32,
         'torch.bfloat16': F32, 'torch.int64': INT, 'torch.long': INT, 'torch.int32': INT, 'torch.int': INT, 'torch.bool': INT, 'builtins.int': INT, 'builtins.bool': INT}
SAME0 = {'getitem', 'reshape', 'flat', 'unsq', 'transpose', 'permute', 'flip', 'setitem', 'detach', 'data', 'squeeze', 'sum', 'mean', 'norm', 'prod', 'cumsum',
         'narrow', 'abs', 'zeros_like', 'param', 'repeat', 'roll', 'maybe', 'triu', 'tril', 'diag', 'sqrt', 'exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'sign'}
REDUCE = {'sum', 'mean', 'norm', 'prod'}
WEAK = {'size', 'numel', 'ndim', 'idx', 'item', 'count', 'shape', 'lit', 'formal', 'int'}
TRUTH = {'isnone', 'lt', 'le', 'eq', 'isclose', 'eq0', 'ge0', 'gt0', 'and', 'or', 'not', 'any', 'all', 'allclose', 'isfinite', 'hasattr', 'isinst', 'xor'}
STRICT = {'isclose', 'allclose', 'matmul', 'mm', 'bmm', 'dot', 'mv', 'einsum', 'linear', '@', 'inner'}
CREATE = {'tensor', 'as_tensor', 'Tensor', 'FloatTensor', 'DoubleTensor', 'zeros', 'ones', 'full', 'eye', 'linspace', 'arange', 'zeros_like', 'ones_like', 'full_like',
          'new_zeros', 'new_ones', 'new_full', 'new_tensor', 'logspace', 'randn', 'rand', 'randn_like', 'rand_like', 'empty', 'empty_like'}
CAST = {'to', 'float', 'double', 'half', 'type_as', 'type'}
ARITH = {'+', '-', '*', '/', '**', '@', '//', '%', 'add', 'sub', 'mul', 'div', 'pow', 'max', 'min', 'maximum', 'minimum', 'fmax', 'fmin', 'where', 'lerp', 'addcmul',
         'addcdiv', 'cat', 'concat', 'concatenate', 'stack', 'hstack', 'vstack', 'true_divide', 'divide', 'multiply', 'subtract', 'clamp', 'clip', 'hypot', 'atan2',
         'add_', 'sub_', 'mul_', 'div_', 'addcmul_', 'lerp_', 'fmod', 'remainder', 'cross', 'outer', 'sum'} | STRICT


def spec_of(name, args, kwargs):
    """how the dtype of a created tensor is determined: ('name', dtype) | ('like', term) | ('data', ...) | ('default',)"""
    d = kwargs.get('dtype')
    if d is not None:
        return ('dtype', d)
    if name == 'DoubleTensor':
        return ('fixed', F64)
    if name in ('FloatTensor', 'Tensor'):
        return ('fixed', F32)
    if name.endswith('_like') or name.startswith('new_'):
        return ('like', args[0])
    if name in ('tensor', 'as_tensor'):
        return ('data', args[0] if args else None)
    if name == 'full':
        return ('default',) if len(args) < 2 or not isinstance(args[1], bool) else ('fixed', INT)
    if name == 'arange':
        return ('arange',)
    return ('default',)


def typed_rank(name, args, r):
    if name in ('tensor', 'as_tensor', 'new_tensor'):
        x = args[-1] if args else None

        def depth(v):
            return 1 + (depth(v[0]) if v else 0) if isinstance(v, tuple) else rank(v)
        return depth(x) if isinstance(x, tuple) and (not x or depth(x[0]) is not None) else rank(x)
    if name in ('linspace', 'arange', 'logspace'):
        return 1
    if name == 'eye':
        return 2
    return rank(r) if isinstance(r, Term) else None


def typed(r, name, args, kwargs):
    s = spec_of(name, args, kwargs)
    return Atom('typed', (r, tuple(s), typed_rank(name, args, r), tuple(a for a in args if isinstance(a, Term))), 'tensor', {'notnone': True})


def promote(ts):
    """result of an elementwise operation on values of the given (dtype, dimensioned) types"""
    tens = [t for t in ts if t[0] != W]
    dims = [c for _, c in ts]
    cat = 1 if 1 in dims else None if None in dims else 0
    if not tens:
        return (W, cat)
    if any(d == UNK for d, _ in tens):
        return (UNK, cat)
    fl = [t for t in tens if t[0] in (F32, F64)]
    if not fl:
        return (INT, cat)
    if len({d for d, _ in fl}) == 1:
        return (fl[0][0], cat)
    if any(c is None for _, c in fl):
        return (UNK, cat)
    top = [d for d, c in fl if c == 1] or [d for d, c in fl]
    return (F64 if F64 in top else F32, cat)


class Types:
    def __init__(self, I):
        self.I = I
        self.vars = {}
        for L in I.loops.values() if isinstance(I.loops, dict) else I.loops:
            for k, m in L.mu.items():
                if isinstance(m, Atom):
                    self.vars[m.dig] = (L.entry.get(k), L.next.get(k), m)
        self.env = {d: frozenset() for d in self.vars}
        for _ in range(12):
            self.memo = {}
            new = {d: self.env[d] | self.ty(e) | self.ty(n) for d, (e, n, _) in self.vars.items()}
            if new == self.env:
                break
            self.env = new
        self.memo = {}

    def ty(self, v):
        if isinstance(v, bool) or isnum(v) or v is None or isinstance(v, str):
            return frozenset({(W, 0)})
        if isinstance(v, tuple):
            return self.join(v, 1)
        if isinstance(v, Undef):
            return frozenset()
        if not isinstance(v, Term):
            return frozenset({(UNK, None)})
        if v.dig not in self.memo:
            self.memo[v.dig] = frozenset({(UNK, None)})
            self.memo[v.dig] = self.fix_rank(v, self.compute(v))
        return self.memo[v.dig]

    def fix_rank(self, v, s):
        if isatom(v, 'mu', 'out', 'ite'):
            return s
        r = rank(v)
        return frozenset((d, c if r is None else int(r > 0)) for d, c in s)

    def join(self, vs, cat=None):
        sets = [self.ty(x) for x in vs]
        if any(not s for s in sets):
            return frozenset()
        acc = {()}
        for s in sets:
            acc = {a + (t,) for a in {tuple(sorted(set(a), key=str)) for a in acc} for t in s}
            if len(acc) > 256:
                return frozenset({(UNK, None)})
        out = frozenset(promote(a) for a in acc) if sets else frozenset()
        return frozenset((d, cat) for d, _ in out) if cat is not None else out

    def compute(self, v):
        if isinstance(v, Poly):
            parts = {a.dig: a for m in v.terms for a, _ in m}
            return self.join(parts.values())
        op, a = v.op, v.args
        if op == 'sym':
            if v.meta and v.meta.get('ty'):
                return frozenset({(v.meta['ty'], None if not isnum(v.meta.get('ndim')) else int(v.meta['ndim'] > 0))})
            return frozenset({(W, 0)}) if v.kind == 'num' else frozenset({(UNK, None)})
        if op == 'mu':
            return self.env.get(v.dig, frozenset({(UNK, None)}))
        if op == 'out':
            e = self.vars.get(a[0].dig) if isinstance(a[0], Atom) else None
            return self.env[a[0].dig] if e else frozenset({(UNK, None)})
        if op == 'typed':
            return self.created(v)
        if op == 'cast':
            return frozenset((d, c) for d in self.dtypes(a[1]) for _, c in self.ty(a[0]))
        if op == 'ite':
            return self.ty(a[1]) | self.ty(a[2])
        if op in ('zeros', 'ones'):
            return frozenset({(W, 1)})
        if op in TRUTH:
            return frozenset({(INT, None)})
        if op in WEAK or v.kind == 'num':
            return frozenset({(W, 0)})
        if op == 'call':
            f = a[0]
            d = (f.meta or {}).get('ty') if isinstance(f, Term) else None
            return frozenset({(d, 1)}) if d else frozenset({(UNK, None)})
        if op in ('vjp', 'vjp1'):
            return self.ty(a[1])
        if op in SAME0 and a:
            s = self.ty(a[0])
            if op == 'getitem' or op in REDUCE:
                return frozenset((d, self.cat_after(v, c)) for d, c in s)
            return s
        if op in ('cat', 'stack', 'hstack', 'vstack', 'tensorize'):
            x = a[0]
            return self.join(x if isinstance(x, tuple) else (x,), 1) if isinstance(x, (tuple, Term)) else frozenset({(UNK, 1)})
        if op == 'seq':
            return self.join(items(v), 1)
        if op in ELEMENTWISE or op in ('pow', 'matmul', 'einsum', 'max', 'min', 'where', 'mod', 'floordiv', 'fdiv', 'pinv'):
            xs = [x for x in a if isinstance(x, Term) or isnum(x)]
            return self.join(xs) if xs else frozenset({(UNK, None)})
        return frozenset({(UNK, None)})

    def cat_after(self, v, c):
        if v.op in REDUCE:
            return 0 if len(v.args) < 2 or v.args[1] is None else c if c == 0 else None
        idx = v.args[1]
        idx = idx if isinstance(idx, tuple) else (idx,)
        if any(k is None for k in idx):
            return 1
        return c if all(isinstance(k, Slice) or k is Ellipsis for k in idx) else None

    def dtypes(self, t):
        """the dtypes a conversion target may denote (empty while they are still being determined)"""
        if isinstance(t, tuple) and t and t[0] == 'fixed':
            return {t[1]}
        if isatom(t, 'attr') and t.args[1] == 'dtype':
            return self.named(t.args[0])
        if isatom(t, 'ext', 'const', 'extref') and isinstance(t.args[0], str):
            return {NAMES.get(t.args[0], UNK)}
        if isatom(t, 'sym') and t.meta and t.meta.get('dtype'):
            return {t.meta['dtype']}
        if isatom(t, 'ite'):
            return self.dtypes(t.args[1]) | self.dtypes(t.args[2])
        if isinstance(t, Term) and t.kind == 'tensor':
            return self.named(t)
        s = str(t.args[0]) if isatom(t, 'ref') else str(t)
        return {NAMES.get(s.split()[-1].strip("'\")>") if s else '', UNK)}

    def named(self, t):
        return {UNK if d == W else d for d, _ in self.ty(t)}

    def created(self, v):
        val, spec, r = v.args[:3]
        c = None if r is None else int(r > 0)
        k = spec[0]
        if k == 'dtype':
            return frozenset((d, c) for d in self.dtypes(spec[1]))
        if k == 'fixed':
            return frozenset({(spec[1], c)})
        if k == 'like':
            return frozenset((d, c) for d, c0 in self.ty(spec[1]))
        if k == 'arange':
            return frozenset({(UNK, c)})
        if k == 'data':
            s = self.ty(spec[1])
            return frozenset((F32 if d == W else d, c) for d, _ in s)
        return frozenset({(F32, c)})

    def inexact(self, v, deep=0):
        """may hold a value that single precision rounds"""
        if isatom(v, 'typed'):
            x = v.args[0]
            if isatom(x, 'zeros', 'ones', 'eye'):
                return False
            if isnum(x):
                return not dyadic(x)
            if isatom(x, 'lit') or isinstance(x, tuple):
                return not all(isnum(e) and dyadic(e) for e in (x.args if isinstance(x, Atom) else x))
            p = pterms(x) if isinstance(x, Poly) else None
            if p and all(dyadic(q) and all(isatom(b, 'ones') for b, _ in m) for m, q in p.items()):
                return False
            return True
        if isinstance(v, Atom) and v.op in SAME0 and v.args and deep < 8:
            return self.inexact(v.args[0], deep + 1)
        if isatom(v, 'ite'):
            return self.inexact(v.args[1], deep + 1) or self.inexact(v.args[2], deep + 1)
        return True

    # ------------------------------------------------------------ judgements
    def loss(self, op, args, strict=True):
        """why the operation loses precision or fails on double precision operands; None when it cannot be shown.  Outside of `strict` code
        (control of step sizes) single precision constants are harmless"""
        flat_ = []
        for x in args:
            flat_ += list(x) if isinstance(x, tuple) else [x]
        ops = [(x, self.ty(x)) for x in flat_ if isinstance(x, Term)]
        for x, s in ops:
            for y, u in ops:
                if x is y:
                    continue
                for d, c in s:
                    for e, g in u:
                        if d == F32 and e == F64:
                            if op in STRICT:
                                return f"{op} of a single and a double precision tensor fails"
                            if c == 1 and g == 0 and not (op in ('cat', 'stack', 'hstack', 'vstack')):
                                return f"the result of {op} is rounded to single precision (a single precision vector meets a double precision scalar)"
                            if strict and self.inexact(x):
                                return f"a single precision quantity enters a double precision computation ({op})"
        return None

    def cast_loss(self, v, target, strict=True):
        if strict and F64 in self.dtypes(target) and any(d == F32 for d, _ in self.ty(v)) and self.inexact(v):
            return 'a quantity rounded to single precision enters a double precision computation'
        if F32 in self.dtypes(target) and any(x == F64 for x, _ in self.ty(v)):
            return 'a double precision value is converted to single precision'
        return None

    def creation_loss(self, v):
        """a tensor computed from double precision values is created in single precision"""
        out = self.ty(v)
        if any(d == F32 for d, _ in out) and isatom(v, 'typed') and v.args[1][0] in ('default', 'dtype', 'fixed', 'arange'):
            for x in v.args[3]:
                if any(d == F64 for d, _ in self.ty(x)):
                    return 'a tensor computed from double precision values is created in single precision'
        return None

    def store_loss(self, base, val):
        if any(d == F32 for d, _ in self.ty(base)) and any(d == F64 for d, _ in self.ty(val)):
            return 'a double precision value is stored in a single precision tensor'
        return None


def items(v):
    """the element terms of a symbolic list"""
    if isinstance(v, tuple):
        return [y for x in v for y in items(x)]
    if isatom(v, 'seq', 'cseg', 'comp', 'item', 'ext'):
        if v.op == 'item':
            return [v.args[0]]
        if v.op == 'ext':
            return [v.args[0]]
        return [y for x in v.args if isinstance(x, (tuple, Atom)) for y in items(x)]
    return []


def dyadic(x):
    """exactly representable in single precision"""
    x = Fraction(x)
    d = x.denominator
    return d & (d - 1) == 0 and abs(x.numerator) < 1 << 24 and d < 1 << 100
