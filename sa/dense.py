"""Entrywise meaning of a value graph at concrete sizes.

A value graph is expanded into arrays of exact scalar expressions: symbolic tensors become arrays of scalar symbols,
uninterpreted functions act on rows of scalars, gradients are taken by the chain rule, and loops over sizes are written
out.  Two graphs that are not congruent still mean the same when their entries agree for the sizes tried.  Nothing is
executed: operands stay symbolic, only shapes are concrete."""
import itertools
from .terms import *
from .values import *
from .ops import *
from . import ops as O


class NoDense(Exception):
    pass


class Shapes(NoDense):
    """an operation whose operands do not fit, at these sizes"""


def prod(s):
    n = 1
    for v in s:
        n *= v
    return n


class Arr:
    __slots__ = ('shape', 'data')

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)
        assert len(self.data) == prod(self.shape), (shape, len(self.data))

    def at(self, idx):
        k = 0
        for i, n in zip(idx, self.shape):
            k = k * n + i
        return self.data[k]

    def __repr__(self):
        return f"Arr{self.shape}[{', '.join(show(d, 4) for d in self.data[:6])}]"


def A(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (list, tuple)):
        return stack_(list(v), 0)
    return Arr((), [v])


def indices(shape):
    return itertools.product(*[range(n) for n in shape])


def bshape(*ss):
    n = max(len(s) for s in ss)
    out = []
    for i in range(n):
        d = 1
        for s in ss:
            j = i - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d not in (1, s[j]):
                    raise Shapes(f"shapes {ss}")
                d = s[j]
        out.append(d)
    return tuple(out)


def bget(a, idx):
    off = len(idx) - len(a.shape)
    return a.at([0 if n == 1 else idx[off + k] for k, n in enumerate(a.shape)])


def emap(f, *xs):
    if all(not isinstance(x, (Arr, list)) for x in xs):
        return f(*xs)
    xs = [A(x) for x in xs]
    sh = bshape(*[x.shape for x in xs])
    return Arr(sh, [f(*[bget(x, i) for x in xs]) for i in indices(sh)])


def axis(d, n):
    d = int(d)
    if not -max(n, 1) <= d < max(n, 1):
        raise Shapes('dimension out of range')
    return d % n if n else 0


def cat_(xs, d):
    xs = [A(x) for x in xs]
    xs = [x for x in xs if x.shape != (0,)] or xs[:1]
    d = axis(d, len(xs[0].shape))
    sh = list(xs[0].shape)
    for x in xs:
        if len(x.shape) != len(sh) or any(x.shape[k] != sh[k] for k in range(len(sh)) if k != d):
            raise Shapes('cat of different shapes')
    sh[d] = sum(x.shape[d] for x in xs)
    out = []
    for i in indices(sh):
        k = i[d]
        for x in xs:
            if k < x.shape[d]:
                break
            k -= x.shape[d]
        out.append(x.at(i[:d] + (k,) + i[d + 1:]))
    return Arr(sh, out)


def stack_(xs, d):
    if not xs:
        return Arr((0,), [])
    xs = [A(x) for x in xs]
    n = len(xs[0].shape) + 1
    d = axis(d, n)
    if any(x.shape != xs[0].shape for x in xs):
        raise Shapes('stack of different shapes')
    return cat_([Arr(x.shape[:d] + (1,) + x.shape[d:], x.data) for x in xs], d)


def perm(x, p):
    sh = [x.shape[k] for k in p]
    inv = {k: j for j, k in enumerate(p)}
    return Arr(sh, [x.at([i[inv[k]] for k in range(len(p))]) for i in indices(sh)])


def reshape_(x, sh):
    sh = [int(s) for s in sh]
    n = prod(x.shape)
    if -1 in sh:
        k = prod([s for s in sh if s != -1])
        sh[sh.index(-1)] = n // k if k else 0
    if prod(sh) != n:
        raise Shapes('reshape')
    return Arr(sh, x.data)


def positions(x, idx):
    """(shape of x[idx], the source positions in order)"""
    if not isinstance(idx, (tuple, list)):
        idx = (idx,)
    out = []
    for k in idx:
        if isinstance(k, Arr) and k.shape and all(isinstance(v, bool) for v in k.data):
            if len(k.shape) != 1:
                raise NoDense('mask of several dimensions')
            out.append(Arr((sum(k.data),), [j for j, v in enumerate(k.data) if v]))
        else:
            out.append(k)
    idx = out
    n = len(x.shape)
    used = len([k for k in idx if k is not None and k is not Ellipsis])
    full = []
    for k in idx:
        if k is Ellipsis:
            full += [slice(None)] * (n - used)
        else:
            full.append(k)
    used = len([k for k in full if k is not None])
    if used > n:
        raise Shapes('too many indices')
    full += [slice(None)] * (n - used)
    dims, shape, src = [], [], 0
    full = [A(k) if isinstance(k, list) else k for k in full]
    adv = [j for j, k in enumerate(full) if isinstance(k, Arr) and k.shape]
    if len(adv) > 1:
        if None in full or adv != list(range(adv[0], adv[0] + len(adv))) or any(len(full[j].shape) != 1 for j in adv):
            raise NoDense('several index tensors')
        m = max(len(full[j].data) for j in adv)
        cols = [full[j].data * (m if len(full[j].data) == 1 else 1) for j in adv]
        if any(len(c) != m for c in cols) or any(not isnum(v) for c in cols for v in c):
            raise NoDense('index tensors')
        ranges = []
        for j, k in enumerate(full):
            if j in adv:
                continue
            if isinstance(k, slice):
                ranges.append(list(range(*k.indices(x.shape[j]))))
            elif isnum(k):
                ranges.append([int(k) % x.shape[j]])
            else:
                raise NoDense('index')
        before = adv[0]
        shape, pos = [], []
        lead, trail = ranges[:before], ranges[before:]
        kept = [isinstance(k, slice) for j, k in enumerate(full) if j not in adv]
        shape = [len(r) for r, kp in zip(lead, kept) if kp] + [m] + [len(r) for r, kp in zip(trail, kept[before:]) if kp]
        for l in itertools.product(*lead):
            for q in range(m):
                for t in itertools.product(*trail):
                    pos.append(tuple(l) + tuple(int(c[q]) % x.shape[adv[z]] for z, c in enumerate(cols)) + tuple(t))
        return tuple(shape), pos
    for k in full:
        if k is None:
            shape.append(1)
            dims.append(('new', None))
            continue
        m = x.shape[src]
        if isinstance(k, slice):
            r = list(range(*k.indices(m)))
            shape.append(len(r))
            dims.append(('many', r))
        elif isinstance(k, Arr) and k.shape:
            if len(k.shape) != 1 or any(not isnum(v) for v in k.data):
                raise NoDense('index tensor')
            r = [int(v) % m for v in k.data]
            shape.append(len(r))
            dims.append(('many', r))
        else:
            if isinstance(k, Arr):
                k = k.data[0]
            if not isnum(k) or isinstance(k, bool):
                raise NoDense('symbolic index')
            k = int(k)
            if not -m <= k < m:
                raise Shapes('index out of range')
            dims.append(('one', k % m))
        src += 1
    pos = []
    for i in indices(shape):
        p, j = [], 0
        for kind, v in dims:
            if kind == 'new':
                j += 1
            elif kind == 'one':
                p.append(v)
            else:
                p.append(v[i[j]])
                j += 1
        pos.append(tuple(p))
    return tuple(shape), pos


def reduce_(x, d, keep, f, start=None):
    x = A(x)
    n = len(x.shape)
    if d is None:
        ds = list(range(n))
    else:
        ds = [axis(k, n) for k in (d if isinstance(d, (tuple, list)) else (d,))] if n else []
    rest = [k for k in range(n) if k not in ds]
    sh = [x.shape[k] for k in rest]
    acc = []
    for i in indices(sh):
        vals = []
        for j in indices([x.shape[k] for k in ds]):
            p = [0] * n
            for k, v in zip(rest, i):
                p[k] = v
            for k, v in zip(ds, j):
                p[k] = v
            vals.append(x.at(p))
        acc.append(f(vals))
    if keep:
        sh = [1 if k in ds else x.shape[k] for k in range(n)]
    return Arr(sh, acc) if sh or keep and n else acc[0]


def total(vals):
    r = 0
    for v in vals:
        r = add(r, v)
    return r


def einsum_(eq, xs):
    eq = eq.replace(' ', '')
    if '->' not in eq:
        raise NoDense('einsum')
    ins, out = eq.split('->')
    ins = ins.split(',')
    xs = [A(x) for x in xs]
    if '...' in eq:                 # leading (broadcast) dimensions, counted from the right
        few = lambda s, k: s.replace('...', ''.join(chr(0x3b1 + i) for i in reversed(range(k))))
        ranks = [len(x.shape) - len(s.replace('...', '')) if '...' in s else 0 for s, x in zip(ins, xs)]
        if min(ranks) < 0:
            raise Shapes('einsum ranks')
        ins = [few(s, k) for s, k in zip(ins, ranks)]
        out = few(out, max(ranks))
    size_ = {}
    for s, x in zip(ins, xs):
        if len(s) != len(x.shape):
            raise NoDense('einsum')
        for c, n in zip(s, x.shape):
            if size_.setdefault(c, n) != n:
                raise NoDense('einsum')
    inner = [c for c in size_ if c not in out]
    acc = []
    for i in indices([size_[c] for c in out]):
        e = dict(zip(out, i))
        t = 0
        for j in indices([size_[c] for c in inner]):
            e.update(zip(inner, j))
            p = 1
            for s, x in zip(ins, xs):
                p = mul(p, x.at([e[c] for c in s]))
            t = add(t, p)
        acc.append(t)
    sh = [size_[c] for c in out]
    return Arr(sh, acc) if sh else acc[0]


def matmul_(a, b):
    a, b = A(a), A(b)
    if not a.shape or not b.shape:
        raise NoDense('matmul of scalars')
    a1, b1 = len(a.shape) == 1, len(b.shape) == 1
    if a1:
        a = Arr((1,) + a.shape, a.data)
    if b1:
        b = Arr(b.shape + (1,), b.data)
    if a.shape[-1] != b.shape[-2]:
        raise Shapes('matmul shapes')
    lead = bshape(a.shape[:-2], b.shape[:-2]) if len(a.shape) > 2 or len(b.shape) > 2 else ()

    def get(x, l, i, j):
        off = len(lead) - (len(x.shape) - 2)
        return x.at([0 if x.shape[k] == 1 else l[off + k] for k in range(len(x.shape) - 2)] + [i, j])
    n, m, q = a.shape[-2], b.shape[-1], a.shape[-1]
    out = []
    for l in indices(lead):
        for i in range(n):
            for j in range(m):
                out.append(total(mul(get(a, l, i, k), get(b, l, k, j)) for k in range(q)))
    r = Arr(tuple(lead) + (n, m), out)
    sh = list(r.shape)
    if b1:
        sh.pop()
    if a1:
        sh.pop(-1 if b1 else -2)
    return Arr(sh, r.data) if sh else r.data[0]


# ------------------------------------------------------------------------------------------- derivatives
def app(name, args, multi=()):
    """value (or partial derivative, `multi` lists argument positions) of an uninterpreted scalar function"""
    return Atom('app', (name, tuple(sorted(multi)), tuple(args)), 'num')


REBUILD['app'] = lambda a, k, m: Atom('app', a, 'num')


def diff(e, v, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(e, Term):
        return 0
    k = e.dig
    if k in memo:
        return memo[k]
    memo[k] = r = _diff(e, v, memo)
    return r


def _diff(e, v, memo):
    if e.dig == v.dig:
        return 1
    if isinstance(e, Poly):
        r = 0
        for m, c in e.terms.items():
            for i, (a, x) in enumerate(m):
                d = diff(a, v, memo)
                if isnum(d) and d == 0:
                    continue
                rest = mk({m[:i] + m[i + 1:]: c * x}, 'num')
                t = mul(rest, mul(power(a, x - 1), d))
                r = add(r, t)
        return r
    if not has(e, lambda t: isinstance(t, Term) and t.dig == v.dig):
        return 0
    op = e.op
    if op == 'app':
        name, multi, args = e.args
        r = 0
        for j, a in enumerate(args):
            d = diff(a, v, memo)
            if not (isnum(d) and d == 0):
                r = add(r, mul(d, app(name, args, multi + (j,))))
        return r
    if op == 'group':
        return diff(e.args[0], v, memo)
    if op == 'pow' and isnum(e.args[1]):
        return mul(mul(e.args[1], powr(e.args[0], e.args[1] - 1)), diff(e.args[0], v, memo))
    if op == 'exp':
        return mul(e, diff(e.args[0], v, memo))
    if op == 'sin':
        return mul(UN['cos'](e.args[0]), diff(e.args[0], v, memo))
    if op == 'cos':
        return neg(mul(UN['sin'](e.args[0]), diff(e.args[0], v, memo)))
    if op == 'tanh':
        return mul(sub(1, power(e, 2)), diff(e.args[0], v, memo))
    if op == 'log':
        return div(diff(e.args[0], v, memo), e.args[0])
    if op == 'ite':
        return ite(e.args[0], diff(e.args[1], v, memo), diff(e.args[2], v, memo))
    if op in ('sign', 'floor', 'detach'):
        return 0
    raise NoDense('derivative of ' + op)


ELEM = {'abs', 'exp', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'log', 'sign', 'relu', 'sigmoid', 'floor', 'ceil', 'round', 'atan', 'softplus'}
SAME = {'item', 'data', 'numpy', 'param', 'group', 'contiguous', 'float', 'double', 'clone', 'to', 'lazy', 'detach'}


class Dense:
    def __init__(self, I, env=None, fields=None, parent=None):
        self.I, self.env, self.fields, self.memo, self.parent = I, dict(env or {}), fields or {}, {}, parent
        self.budget = parent.budget if parent else [200000]
        self.fresh = parent.fresh if parent else [0]

    def child(self, env):
        c = Dense(self.I, self.env, self.fields, self)
        c.env.update(env)
        return c

    # ------------------------------------------------------------------ evaluation
    def num(self, t):
        v = self.ev(t)
        if isinstance(v, Arr) and prod(v.shape) == 1:
            v = v.data[0]
        if not isnum(v):
            raise NoDense(f"size {show(t)[:80]} is not concrete")
        return int(v)

    def ev(self, t):
        if isinstance(t, tuple):
            return [self.ev(x) for x in t]
        if isinstance(t, Slice):
            return slice(*[None if b is None else self.num(b) for b in (t.lo, t.hi, t.step)])
        if not isinstance(t, Term):
            return t
        if t.dig in self.env:
            v = self.env[t.dig]
            if callable(v):
                v = self.env[t.dig] = v()
            return v
        if t.dig in self.memo:
            return self.memo[t.dig]
        self.budget[0] -= 1
        if self.budget[0] < 0:
            raise NoDense('too large')
        r = self.poly(t) if isinstance(t, Poly) else self.atom(t)
        if isinstance(r, Arr) and r.shape == ():
            r = r.data[0]
        self.memo[t.dig] = r
        return r

    def poly(self, t):
        r = 0
        for m, c in t.terms.items():
            p = norm(c)
            for a, e in m:
                v = self.ev(a)
                p = emap(mul, p, v if e == 1 else emap(lambda u: O.powr(u, norm(e)), v))
            r = emap(add, r, p)
        return r

    def seq(self, t):
        """python list of the elements of a sequence"""
        if isinstance(t, tuple):
            return [self.ev(x) for x in t]
        if isatom(t, 'seq'):
            out = []
            for s in t.args:
                out += self.seg(s)
            return out
        v = self.ev(t)
        if isinstance(v, list):
            return v
        if isinstance(v, Arr) and v.shape:
            n = v.shape[0]
            return [self.index(v, (j,)) for j in range(n)]
        raise NoDense(f"sequence {show(t)[:80]}")

    def seg(self, s):
        if s.op == 'item':
            return [self.ev(s.args[0])]
        if s.op == 'ext':
            return self.seq(s.args[0])
        if s.op == 'cseg':
            c = self.ev(s.args[0])
            if not isinstance(c, bool):
                raise NoDense('conditional sequence')
            return self.seq(s.args[1]) if c else []
        if s.op == 'comp':
            i, n, body = s.args
            out = []
            if isatom(i, 'idx') and (has(body, lambda t: isatom(t, 'mu') and t.args[0] == i.args[0]) or isatom(n, 'count')):
                for c in self.run(i.args[0])[:-1]:
                    out += c.seq(body)
                return out
            for k in range(self.num(n)):
                out += self.child({i.dig: k}).seq(body)
            return out
        raise NoDense('sequence ' + s.op)

    def draw(self, t):
        """samples of named distributions: location plus scale times a standard draw"""
        if len(t.args) != 4:
            return None
        kind, a, k = t.args[:3]
        std = lambda what, sh: Arr(sh, [sym(f"{what}{t.args[3]}[{j}]", 'num') for j in range(prod(sh))])
        if kind in ('randn', 'rand') and not k:
            sh = self.as_shape(a[0] if len(a) == 1 and not (isnum(a[0]) or isatom(a[0], 'size')) else a)
            return std('normal' if kind == 'randn' else 'uniform', sh)
        if kind == 'normal_':
            q = dict(zip(('mean', 'std'), a), **dict(k))
            sh = self.as_shape(t.meta['like']) if t.meta and 'like' in t.meta else None
            if sh is None:
                raise NoDense('random value')
            return self.plus(q.get('mean', 0), q.get('std', 1), std('normal', sh))
        if kind == 'sample' and isatom(a[0], 'new') and a[0].args[0].endswith('.Normal'):
            q = dict(zip(('loc', 'scale'), a[0].args[1]), **dict(a[0].args[2]))
            lead = self.as_shape(a[1]) if len(a) > 1 else self.as_shape(dict(k)['sample_shape']) if dict(k) else ()
            loc, sc = A(self.ev(q['loc'])), A(self.ev(q['scale']))
            return self.plus(q['loc'], q['scale'], std('normal', tuple(lead) + tuple(bshape(loc.shape, sc.shape))))
        return None

    def plus(self, m, s, z):
        return emap(lambda p, q, r: add(p, mul(q, r)), A(self.ev(m)), A(self.ev(s)), z)

    def run(self, lid):
        """environments of the iterations of a loop, the last one after its end"""
        if ('run', lid) in self.memo:
            return self.memo['run', lid]
        L = self.I.loops.get(lid)
        if L is None or L.breaks or L.returns:
            raise NoDense('loop with several exits')
        idx = Atom('idx', (lid,), 'num')

        def step(prev, k):
            env = {idx.dig: k}
            c = self.child(env)
            for loc, mu in L.mu.items():
                if prev is None:
                    e = L.entry[loc]
                    c.env[mu.dig] = lambda e=e: self.ev(self.I.as_term(e))
                else:
                    nx = L.next.get(loc, mu)
                    c.env[mu.dig] = lambda nx=nx: prev.ev(self.I.as_term(nx))
            return c
        cs = [step(None, 0)]
        n = None
        if L.count is not None and not isatom(L.count, 'count'):
            n = self.num(L.count)
        while True:
            if n is not None:
                if len(cs) - 1 >= n:
                    break
            else:
                t = cs[-1].ev(self.I.as_term(L.test))
                if isinstance(t, Arr) and prod(t.shape) == 1:
                    t = t.data[0]
                if not isinstance(t, bool):
                    raise NoDense('loop whose end depends on values')
                if not t:
                    break
            if len(cs) > 40:
                raise NoDense('long loop')
            cs.append(step(cs[-1], len(cs)))
        self.memo['run', lid] = cs
        return cs

    def index(self, x, idx):
        if isinstance(x, list):
            if len(idx) == 1 and (isnum(idx[0]) or isinstance(idx[0], slice)):
                try:
                    return x[int(idx[0])] if isnum(idx[0]) else x[idx[0]]
                except IndexError:
                    raise NoDense('index')
            x = A(x)
        x = A(x)
        sh, pos = positions(x, idx)
        return Arr(sh, [x.at(p) for p in pos]) if sh else x.at(pos[0])

    def shape_of(self, t):
        v = self.ev(t)
        if isinstance(v, list):
            return [len(v)] + list(A(v[0]).shape if v and isinstance(v[0], Arr) else [])
        return list(A(v).shape)

    def as_shape(self, s):
        v = self.ev(s) if not isinstance(s, tuple) else [self.ev(x) for x in s]
        if isnum(v):
            v = [v]
        if isinstance(v, Arr):
            v = v.data
        if not isinstance(v, list) or any(not isnum(x) for x in v):
            raise NoDense('symbolic shape')
        return [int(x) for x in v]

    def opaque(self, op, *vals):
        """uninterpreted operation on scalars"""
        flat = []
        for v in vals:
            flat += A(v).data if isinstance(v, (Arr, list)) else [v]
        return app(op, flat)

    def vjp(self, y, x, v):
        X = self.ev(x)
        xa = A(X)
        self.fresh[0] += 1
        fr = [sym(f"${self.fresh[0]}[{j}]", 'num') for j in range(len(xa.data))]
        inner = self.child({x.dig: Arr(xa.shape, fr) if xa.shape else fr[0]})
        Y = A(inner.ev(y))
        if v is None or isnum(v) and v == 1:
            V = Arr(Y.shape, [1] * len(Y.data))
        else:
            V = A(emap(lambda p, q: p, self.ev(v), Arr(Y.shape, [0] * len(Y.data))))
            if V.shape != Y.shape:
                raise Shapes('gradient shapes')
        back = list(zip(fr, xa.data))
        out = []
        for f in fr:
            r = 0
            for yi, vi in zip(Y.data, V.data):
                if isnum(vi) and vi == 0:
                    continue
                r = add(r, mul(vi, diff(yi, f)))
            out.append(replace(r, back) if isinstance(r, Term) else r)
        return Arr(xa.shape, out) if xa.shape else out[0]

    def fun_at(self, f, x):
        """(value of the function term f at fresh arguments shaped like x, fresh symbols, values of x)"""
        X = A(self.ev(x))
        self.fresh[0] += 1
        fr = [sym(f"${self.fresh[0]}[{j}]", 'num') for j in range(len(X.data))]
        a = Arr(X.shape, fr) if X.shape else fr[0]
        if isatom(f, 'lam'):
            formals = [Atom('formal', (d, 0), 'tensor') for d in range(4)]
            used = [g for g in formals if has(f.args[-1], lambda t: isinstance(t, Term) and t.dig == g.dig)]
            Y = self.child({g.dig: a for g in used}).ev(f.args[-1])
        elif f.dig in self.fields:
            Y = self.fields[f.dig](self, [a])
        else:
            raise NoDense('derivative of an unknown function')
        return A(Y), fr, X

    def atom(self, t):
        op, a = t.op, t.args
        ev = self.ev
        if op == 'sym':
            if t.kind == 'num' or (t.meta or {}).get('ndim') == 0:
                return t
            raise NoDense('shape of ' + show(t))
        if op in ('const', 'bv', 'formal'):
            if op == 'const':
                return t
            raise NoDense(op)
        if op == 'call':
            f = a[0]
            if isinstance(f, Term) and f.dig in self.fields:
                return self.fields[f.dig](self, [ev(x) for x in a[1]])
            raise NoDense('call of ' + show(f)[:40])
        if op in ('out', 'mu', 'idx', 'count'):
            m = a[0] if op == 'out' else t
            lid = m.args[0]
            if op == 'out':
                return self.run(lid)[-1].ev(m)
            if op == 'count':
                return len(self.run(lid)) - 1
            raise NoDense('loop value outside its loop')
        if op == 'brk' or op == 'loopret':
            raise NoDense(op)
        if op in SAME:
            return ev(a[0])
        if op in ELEM:
            return emap(UN[op], ev(a[0]))
        if op == 'invert' or op == 'not':
            return emap(lambda v: not_(v), ev(a[0]))
        if op in ('and', 'or'):
            f = and_ if op == 'and' else or_
            vals = []
            for x in a:
                v = ev(x)
                if v is (op == 'or'):
                    return v
                vals.append(v)
            return emap(lambda *q: f(*q), *vals)
        if op == 'gt0':
            return emap(lambda v: gt(v, 0), ev(a[0]))
        if op == 'ge0':
            return emap(lambda v: ge(v, 0), ev(a[0]))
        if op == 'eq0':
            return emap(lambda v: eq(v, 0), ev(a[0]))
        if op == 'bool':
            return ev(a[0])
        if op == 'ite':
            c = ev(a[0])
            if isinstance(c, bool):
                return ev(a[1] if c else a[2])
            return emap(lambda p, q, r: ite(p, q, r), c, ev(a[1]), ev(a[2]))
        if op in ('max', 'min'):
            if len(a) == 1:
                return reduce_(ev(a[0]), None, False, lambda vs: (max_ if op == 'max' else min_)(*vs))
            return emap(lambda *q: (max_ if op == 'max' else min_)(*q), *[ev(x) for x in a])
        if op == 'pow':
            return emap(O.powr, ev(a[0]), ev(a[1]))
        if op == 'bigmul':
            return emap(mul, ev(a[0]), ev(a[1]))
        if op == 'floordiv':
            return emap(floordiv, ev(a[0]), ev(a[1]))
        if op == 'mod':
            return emap(mod, ev(a[0]), ev(a[1]))
        if op == 'int':
            v = ev(a[0])
            if isnum(v):
                return int(v)
            if isinstance(v, Arr) and all(isnum(x) for x in v.data):
                return Arr(v.shape, [int(x) for x in v.data])
            raise NoDense('int')
        if op == 'shape':
            return self.shape_of(a[0])
        if op == 'lset':
            v = list(self.seq(a[0]))
            try:
                v[self.num(a[1])] = ev(a[2])
            except IndexError:
                raise NoDense('index')
            return v
        if op in ('size', 'len'):
            if op == 'size' and isatom(a[0], 'seq') or isinstance(a[0], tuple):
                if a[1] == 0:
                    return len(self.seq(a[0]))
            s = self.shape_of(a[0])
            return s[axis(a[1] if len(a) > 1 else 0, len(s))]
        if op == 'numel':
            v = a[0]
            if isatom(v, 'bcast'):
                return prod(bshape(*[A(ev(x)).shape for x in v.args]))
            return prod(self.shape_of(v))
        if op == 'ndim':
            return len(self.shape_of(a[0]))
        if op == 'zeros' or op == 'ones':
            sh = self.as_shape(a[0])
            return Arr(sh, [0 if op == 'zeros' else 1] * prod(sh))
        if op == 'zeros_like':
            sh = self.shape_of(a[0])
            return Arr(sh, [0] * prod(sh))
        if op == 'eye':
            n = self.num(a[0])
            m = self.num(a[1]) if len(a) > 1 else n
            return Arr((n, m), [int(i == j) for i in range(n) for j in range(m)])
        if op == 'lit':
            return Arr((len(a),), [ev(x) for x in a])
        if op == 'tensorize':
            v = ev(a[0])
            if isinstance(v, (list, tuple)) and all(not isinstance(x, Arr) or x.shape == (1,) for x in v):
                v = [x.data[0] if isinstance(x, Arr) else x for x in v]
            return A(v)
        if op == 'linspace':
            n = self.num(a[2])
            lo, hi = ev(a[0]), ev(a[1])
            return Arr((n,), [lo if n == 1 else add(lo, mul(Fraction(k, n - 1), sub(hi, lo))) for k in range(n)])
        if op == 'rangeidx':
            return list(range(*[self.num(x) for x in a]))
        if op == 'arange':
            lo, hi, st = (self.num(x) for x in a)
            return A([v for v in range(lo, hi, st)])
        if op == 'seq':
            return self.seq(t)
        if op == 'seqsum' or op == 'sum' and isatom(a[0], 'seq'):
            r = 0
            for v in self.seq(a[0]):
                r = emap(add, r, v)
            return r
        if op == 'hstack':
            xs = [A(x) for x in self.seq(a[0])]
            xs = [Arr((1,), x.data) if x.shape == () else x for x in xs]
            return cat_(xs, 0 if len(xs[0].shape) == 1 else 1)
        if op in ('cat', 'stack', 'vstack'):
            xs = self.seq(a[0])
            if op == 'vstack':
                return cat_([x if len(A(x).shape) > 1 else Arr((1,) + A(x).shape, A(x).data) for x in xs], 0)
            return (cat_ if op == 'cat' else stack_)(xs, self.num(a[1]))
        if op == 'vjps':
            return [ev(x) for x in a]
        if op in ('getitem', 'unsq'):
            if op == 'unsq' and isinstance(a[1], tuple) and a[1][:1] == ('dim',):
                x = A(ev(a[0]))
                d = axis(self.num(a[1][1]), len(x.shape) + 1)
                return Arr(x.shape[:d] + (1,) + x.shape[d:], x.data)
            x = self.seq(a[0]) if isatom(a[0], 'seq') or isinstance(a[0], tuple) else ev(a[0])
            return self.index(x, tuple(k if k is None or k is Ellipsis else ev(k) for k in a[1]))
        if op == 'setitem':
            x = A(ev(a[0]))
            sh, pos = positions(x, tuple(k if k is None or k is Ellipsis else ev(k) for k in a[1]))
            v = A(ev(a[2]))
            data = list(x.data)
            strides = []
            for i, p in zip(indices(sh), pos):
                k = 0
                for q, n in zip(p, x.shape):
                    k = k * n + q
                w = v
                while len(w.shape) > len(sh) and w.shape[0] == 1:
                    w = Arr(w.shape[1:], w.data)
                if bshape(w.shape, sh) != tuple(sh):
                    raise Shapes('assignment shapes')
                data[k] = bget(w, i)
            return Arr(x.shape, data)
        if op == 'sum':
            return reduce_(ev(a[0]), None if a[1] is None else ev(a[1]), a[2] is True if len(a) > 2 else False, total)
        if op == 'prod':
            def f(vs):
                r = 1
                for v in vs:
                    r = mul(r, v)
                return r
            return reduce_(ev(a[0]), ev(a[1]) if len(a) > 1 else None, False, f)
        if op == 'cumsum':
            x = A(ev(a[0]))
            d = axis(self.num(a[1]), len(x.shape))
            return Arr(x.shape, [total(x.at(i[:d] + (k,) + i[d + 1:]) for k in range(i[d] + 1)) for i in indices(x.shape)])
        if op in ('any', 'all'):
            return reduce_(ev(a[0]), None, False, lambda vs: (or_ if op == 'any' else and_)(*vs))
        if op == 'reshape':
            return reshape_(A(ev(a[0])), self.as_shape(a[1]))
        if op == 'flat':
            x = A(ev(a[0]))
            return Arr((len(x.data),), x.data)
        if op == 'flatten':
            x = A(ev(a[0]))
            n = len(x.shape)
            lo, hi = axis(self.num(a[1]), n), axis(self.num(a[2]) if len(a) > 2 else -1, n)
            return Arr(x.shape[:lo] + (prod(x.shape[lo:hi + 1]),) + x.shape[hi + 1:], x.data)
        if op == 'transpose':
            x = A(ev(a[0]))
            n = len(x.shape)
            p = list(range(n))
            i, j = (axis(self.num(k), n) for k in a[1:])
            p[i], p[j] = p[j], p[i]
            return perm(x, p)
        if op == 'permute':
            x = A(ev(a[0]))
            return perm(x, [axis(k, len(x.shape)) for k in self.as_shape(a[1])])
        if op in ('T', 'mT'):
            x = A(ev(a[0]))
            p = list(range(len(x.shape)))
            return perm(x, p[:-2] + [p[-1], p[-2]]) if len(p) > 1 else x
        if op == 'flip':
            x = A(ev(a[0]))
            v = ev(a[1])
            ds = [axis(k, len(x.shape)) for k in (v if isinstance(v, list) else [v])]
            return Arr(x.shape, [x.at([n - 1 - k if j in ds else k for j, (k, n) in enumerate(zip(i, x.shape))]) for i in indices(x.shape)])
        if op == 'squeeze':
            x = A(ev(a[0]))
            if len(a) == 1:
                sh = [n for n in x.shape if n != 1]
            else:
                d = axis(self.num(a[1]), len(x.shape))
                sh = [n for j, n in enumerate(x.shape) if not (j == d and n == 1)]
            return Arr(sh, x.data) if sh else x.data[0]
        if op == 'narrow':
            x = A(ev(a[0]))
            d = axis(self.num(a[1]), len(x.shape))
            return self.index(x, (slice(None),) * d + (ev(a[2]),))
        if op == 'splits':
            x = A(ev(a[0]))
            d, n = axis(self.num(a[2]), len(x.shape)), self.num(a[1])
            return [self.index(x, (slice(None),) * d + (slice(j, j + n),)) for j in range(0, x.shape[d], n)]
        if op == 'repeat':
            x = A(ev(a[0]))
            r = []
            for k in a[1:]:
                r += self.as_shape(k)
            while len(x.shape) < len(r):
                x = Arr((1,) + x.shape, x.data)
            for d, n in enumerate(r):
                x = cat_([x] * n, d) if n else x
            return x
        if op == 'matmul':
            return matmul_(ev(a[0]), ev(a[1]))
        if op == 'einsum':
            return einsum_(a[0], [ev(x) for x in a[1:]])
        if op == 'linear':
            x, w = ev(a[0]), A(ev(a[1]))
            r = matmul_(x, perm(w, [1, 0]))
            b = ev(a[2]) if len(a) > 2 else None
            return r if b is None else emap(add, r, b)
        if op in ('diag', 'trace'):
            x = A(ev(a[0]))
            if len(x.shape) == 2 and len(a) == 1:
                d = [x.at((i, i)) for i in range(min(x.shape))]
                return total(d) if op == 'trace' else Arr((len(d),), d)
            if len(x.shape) == 1 and len(a) == 1:
                n = len(x.data)
                return Arr((n, n), [x.data[i] if i == j else 0 for i in range(n) for j in range(n)])
        if op == 'outer':
            x, y = A(ev(a[0])), A(ev(a[1]))
            return Arr(x.shape + y.shape, [mul(p, q) for p in x.data for q in y.data])
        if op == 'pinv':
            x = A(ev(a[0]))
            if x.shape[-2:] == (1, 1):
                return Arr(x.shape, [power(v, -1) for v in x.data])
            n, m = x.shape[-2:]
            lead = x.shape[:-2]
            out = []
            for l in indices(lead):
                row = [x.at(l + i) for i in indices((n, m))]
                out += [app(f"pinv{n}x{m}[{i},{j}]", row) for i in range(m) for j in range(n)]
            return Arr(lead + (m, n), out)
        if op == 'vjp':
            return self.vjp(a[0], a[1], a[2])
        if op == 'jacobian' and len(a) == 2:
            Y, fr, X = self.fun_at(a[0], a[1])
            back = list(zip(fr, X.data))
            return Arr(Y.shape + X.shape, [replace_(diff(y, f), back) for y in Y.data for f in fr])
        if op == 'hessian' and len(a) == 2:
            Y, fr, X = self.fun_at(a[0], a[1])
            if len(Y.data) != 1:
                raise NoDense('hessian')
            back = list(zip(fr, X.data))
            g = [diff(Y.data[0], f) for f in fr]
            return Arr(X.shape + X.shape, [replace_(diff(p, f), back) for p in g for f in fr])
        if op == 'param':
            return ev(a[0])
        if op == 'rand':
            z = self.draw(t)
            if z is not None:
                return z
            sh = None
            for v in reversed(a):
                try:
                    sh = self.as_shape(v if not isinstance(v, tuple) or len(v) != 1 or not isinstance(v[0], tuple) else v[0])
                    break
                except NoDense:
                    continue
            if sh is None:
                raise NoDense('random value')
            return Arr(sh, [sym(f"rand{t.dig}[{j}]", 'num') for j in range(prod(sh))])
        raise NoDense(op)


def replace_(v, pairs):
    return replace(v, pairs) if isinstance(v, Term) else v


# ------------------------------------------------------------------------------------------- set-up
def array(name, shape):
    return Arr(shape, [sym(f"{name}[{','.join(map(str, i))}]", 'num') for i in indices(shape)])


def rows(name, n, which=0):
    """uninterpreted function acting on the last dimension of its argument, with n outputs"""
    def f(D, args):
        x = A(args[which])
        lead = x.shape[:-1]
        out = []
        for l in indices(lead):
            r = [x.at(l + (j,)) for j in range(x.shape[-1])]
            out += [app(f"{name}{k}", r) for k in range(n)]
        return Arr(lead + (n,), out)
    return f


class Sizes:
    """concrete shapes of the symbols and meaning of the functions of an obligation"""

    def __init__(self, shapes, fields=None):
        self.env = {}
        for s, sh in shapes.items():
            self.env[s.dig] = sh if not isinstance(sh, tuple) else array(show(s), sh)
        self.fields = {f.dig: h for f, h in (fields or {}).items()}

    def of(self, I, t):
        return Dense(I, self.env, self.fields).ev(I.as_term(t))


def agree(I, got, want, sizes):
    """(decided, equal, message)"""
    from .compare import Eq
    for S in sizes:
        b = S.of(I, want)
        try:
            a = S.of(I, got)
        except Shapes as e:
            return False, f"operands do not fit: {e}"
        r = agree1(a, b)
        if r:
            return False, r
    return True, ''


def agree1(a, b):
    from .compare import Eq
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{len(a)} values, {len(b)} required"
        for i, (p, q) in enumerate(zip(a, b)):
            r = agree1(p, q)
            if r:
                return f"[{i}] {r}"
        return ''
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return f"shape {a.shape}, required {b.shape}"
    for i, (p, q) in zip(indices(a.shape), zip(a.data, b.data)):
        if not same(p, q) and not Eq(5.0)(p, q):
            return f"entry {list(i)} is {show(p, 6)[:200]}, required {show(q, 6)[:200]}"
    return ''
