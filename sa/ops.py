"""Smart constructors of the tensor operations the analysis understands (everything else stays uninterpreted).

All rewrites are equations of real-valued tensor algebra; they make the value numbering insensitive to the way an
operation is spelled (method / function form, slicing then indexing, norm / mean-square, ...).
"""
from .values import *


def _reg(op):
    def deco(fn):
        REBUILD[op] = lambda a, k, m: fn(*a)
        return fn
    return deco


def isatom(v, *ops):
    return isinstance(v, Atom) and v.op in ops


def lit(vals, dtype=None):
    """1-D tensor literal"""
    return Atom('lit', tuple(vals), 'tensor', {'dtype': dtype} if dtype is not None else None)


REBUILD['lit'] = lambda a, k, m: Atom('lit', a, 'tensor', m)


def lin(v):
    """split a value into (scalar coefficient, rest) when it is a single monomial"""
    if isinstance(v, Poly) and len(v.terms) == 1:
        (m, c), = v.terms.items()
        if c != 1:
            return c, mk({m: Fraction(1)}, v.kind)
    return Fraction(1), v


# ---------------------------------------------------------------- sizes
TENSOR_OPS = set('''lit cat stack abs exp log sin cos tanh setitem sum max min reshape numel size zeros ones matmul einsum
 vjp linspace eye norm sign transpose permute flip rand ext relu floordiv mod pow group zeros_like linear conv2d pinv
 clamp any all arange mean gt0 ge0 eq0 eq not and or isclose floor tan sinh cosh atan round sigmoid'''.split())


def notnone(v):
    """is v certainly not None"""
    if isinstance(v, Poly):
        return True
    if isinstance(v, Atom):
        if v.meta and v.meta.get('notnone'):
            return True
        if v.op == 'sym' and v.kind in ('tensor', 'num', 'bool', 'fn') and not (v.meta and v.meta.get('opt')):
            return True
        if v.op in TENSOR_OPS or v.op in ('seq', 'lam', 'shape', 'idx', 'bv', 'closure'):
            return True
        if v.op == 'getitem' and any(isinstance(i, Slice) for i in v.args[1]):
            return True
        if v.op == 'ite':
            return v.args[1] is not None and v.args[2] is not None and notnone(v.args[1]) and notnone(v.args[2])
        if v.op == 'getitem':
            return notnone(v.args[0]) and not isatom(v.args[0], 'seq', 'vjps', 'call')
        return False
    return v is not None


@_reg('size')
def size(x, d):
    if isatom(x, 'typed', 'cast') and isinstance(x.args[0], (Term, tuple)):
        return size(x.args[0], d)
    if isinstance(x, tuple):
        return len(x) if d == 0 else Atom('size', (x, d), 'num')
    if isatom(x, 'seq') and d == 0:
        n = 0
        for s in x.args:
            if s.op == 'item':
                n = add(n, 1)
            elif s.op == 'ext':
                n = add(n, size(s.args[0], 0))
            elif s.op == 'cseg':
                n = add(n, ite(s.args[0], size(s.args[1], 0), 0))
            elif s.op == 'comp' and isinstance(s.args[2], tuple):
                n = add(n, mul(s.args[1], len(s.args[2])))
            else:
                return Atom('size', (x, d), 'num')
        return n
    if isatom(x, 'lit') and d == 0:
        return len(x.args)
    if isatom(x, 'sym') and x.meta and 'dims' in x.meta and d in x.meta['dims']:
        return x.meta['dims'][d]
    if isatom(x, 'fun') and d in (0, -1) and x.meta and 'len' in x.meta:
        return x.meta['len']
    if isinstance(x, Poly) and d == 0 and len(x.terms) == 1:
        (m, c), = x.terms.items()
        if len(m) == 1 and vector(m[0][0]):
            return size(m[0][0], 0)
    if isatom(x, 'shape') and d in (0, -1):
        if vector(x.args[0]):
            return 1
        r = rank(x.args[0])
        if r is not None:
            return r
    if isatom(x, 'linspace') and d in (0, -1):
        return x.args[2]
    if isatom(x, 'zeros', 'ones', 'rand') and x.op != 'rand' and isinstance(x.args[0], tuple) and isnum(d):
        sh = x.args[0]
        if -len(sh) <= d < len(sh):
            return sh[d]
    if isatom(x, 'zeros', 'ones') and isatom(x.args[0], 'shape'):
        return size(x.args[0].args[0], d)
    if isatom(x, 'cat') and x.args[1] == d and isinstance(x.args[0], tuple):
        n = 0
        for p in x.args[0]:
            n = add(n, size(p, d))
        return n
    if isatom(x, 'stack') and d == 0 and x.args[1] == 0:
        return size(x.args[0], 0)
    if isatom(x, 'flat') and d in (0, -1):
        return numel(x.args[0])
    if isatom(x, 'setitem', 'flip', 'zeros_like'):
        return size(x.args[0], d)
    if isatom(x, 'getitem') and isnum(d) and d >= 0:
        idx = x.args[1]
        if d == 0 and isatom(x.args[0], 'call') and len(idx) == 1 and isnum(idx[0]) and x.args[0].meta and idx[0] in x.args[0].meta.get('lens', ()):
            return x.args[0].meta['lens'][idx[0]]
        if all(isinstance(k, Slice) for k in idx) and d >= len(idx):
            return size(x.args[0], d)
        if all(isinstance(k, Slice) for k in idx) and d < len(idx) and idx[d].step is None:
            n = size(x.args[0], d)
            lo, hi = idx[d].lo, idx[d].hi
            lo = 0 if lo is None else (add(n, lo) if isnum(lo) and lo < 0 else lo)
            hi = n if hi is None else (add(n, hi) if isnum(hi) and hi < 0 else hi)
            return sub(hi, lo)
    return Atom('size', (x, d), 'num')


@_reg('numel')
def numel(x):
    if is_arith(x) and not isinstance(x, Term):
        return 1
    c, r = lin(x)
    lv = bcast_leaves(r, {})
    if not lv:
        return 1
    if len(lv) > 1:
        return Atom('numel', (Atom('bcast', sorted(lv.values(), key=dig)),), 'num')
    x, = lv.values()
    if isatom(x, 'flat', 'reshape', 'abs', 'flip', 'zeros_like', 'permute', 'transpose', 'tanh', 'exp', 'sin', 'cos'):
        return numel(x.args[0])
    if isatom(x, 'setitem'):
        return numel(x.args[0])
    if isatom(x, 'cat') and isinstance(x.args[0], tuple) and all(vector(p) for p in x.args[0]):
        n = 0
        for p in x.args[0]:
            n = add(n, numel(p))
        return n
    if isatom(x, 'lit'):
        return len(x.args)
    if vector(x) and not isatom(x, 'sym'):
        return size(x, 0)
    return Atom('numel', (x,), 'num')


ELEMENTWISE = {'abs', 'max', 'min', 'exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'relu', 'sigmoid', 'detach', 'sign', 'softplus', 'ge0', 'gt0', 'eq0',
               'bcast', 'group', 'pow'}


def bcast_leaves(x, acc):
    """the tensors whose shapes determine, by broadcasting, the shape of an elementwise expression"""
    if isinstance(x, Poly):
        for m in x.terms:
            for a, _ in m:
                bcast_leaves(a, acc)
    elif not isinstance(x, Term) or scalar(x):
        pass
    elif isinstance(x, Atom) and x.op in ELEMENTWISE and not (x.op in ('max', 'min') and len(x.args) < 2):
        for a in x.args:
            bcast_leaves(a, acc)
    elif isatom(x, 'zeros_like', 'setitem'):
        bcast_leaves(x.args[0], acc)
    else:
        acc[x.dig] = x
    return acc


def vector(x):
    """certainly one-dimensional"""
    if isatom(x, 'typed'):
        return x.args[2] == 1
    if isatom(x, 'cast'):
        return vector(x.args[0])
    if isinstance(x, Poly):
        ts = list(bcast_leaves(x, {}).values())
        return bool(ts) and all(vector(t) for t in ts)
    if isatom(x, 'flat', 'lit', 'linspace'):
        return True
    if isatom(x, 'sym', 'fun') and x.meta and x.meta.get('ndim') == 1:
        return True
    if isatom(x, 'zeros', 'ones') and (isinstance(x.args[0], tuple) and len(x.args[0]) == 1 or isatom(x.args[0], 'shape') and vector(x.args[0].args[0])):
        return True
    if isatom(x, 'cat') and isinstance(x.args[0], tuple):
        return any(vector(p) for p in x.args[0])
    if isatom(x, 'stack') and isinstance(x.args[0], tuple):
        return bool(x.args[0]) and scalar(x.args[0][0])
    if isatom(x, 'getitem') and len(x.args[1]) == 1 and isinstance(x.args[1][0], Slice):
        return vector(x.args[0])
    if isatom(x, 'setitem', 'zeros_like', 'flip', 'vec'):
        return x.op == 'vec' or vector(x.args[0])
    if isatom(x, 'ite'):
        return vector(x.args[1]) and vector(x.args[2])
    return False


def scalar(x):
    """certainly zero-dimensional"""
    if isatom(x, 'typed'):
        return x.args[2] == 0
    if isatom(x, 'cast'):
        return scalar(x.args[0])
    if isnum(x) or isinstance(x, bool):
        return True
    if isinstance(x, Term) and x.kind in ('num', 'bool'):
        return True
    if isinstance(x, Poly):
        return all(scalar(a) for m in x.terms for a, _ in m)
    if isatom(x, 'getitem') and len(x.args[1]) == 1 and not isinstance(x.args[1][0], Slice) and is_index(x.args[1][0]):
        return vector(x.args[0])
    if isatom(x, 'matmul'):
        return vector(x.args[0]) and vector(x.args[1])
    if isatom(x, 'sum') and x.args[1] is None:
        return True
    if isatom(x, 'sym') and x.meta and x.meta.get('ndim') == 0:
        return True
    return False


def rank(x, deep=0):
    """the number of dimensions, when it is certain"""
    if isnum(x) or isinstance(x, bool):
        return 0
    if not isinstance(x, Term) or deep > 12:
        return None
    if isatom(x, 'typed'):
        return x.args[2]
    if isatom(x, 'cast'):
        return rank(x.args[0], deep + 1)
    if scalar(x):
        return 0
    if vector(x):
        return 1
    if isinstance(x, Poly) or x.op in ELEMENTWISE and not (x.op in ('max', 'min') and len(x.args) < 2):
        rs = [rank(v, deep + 1) for v in bcast_leaves(x, {}).values()]
        return max(rs) if rs and None not in rs else None
    if x.meta and isnum(x.meta.get('ndim')):
        return x.meta['ndim']
    if x.op in ('setitem', 'zeros_like', 'flip', 'detach', 'data', 'transpose', 'permute'):
        return rank(x.args[0], deep + 1)
    if x.op in ('getitem', 'unsq'):
        r = rank(x.args[0], deep + 1)
        if r is None or not all(k is None or k is Ellipsis or isinstance(k, Slice) or is_index(k) for k in x.args[1]):
            return None
        return r + sum(1 if k is None else -1 if is_index(k) else 0 for k in x.args[1])
    if x.op in ('cat', 'stack') and isinstance(x.args[0], tuple):
        for p in x.args[0]:
            r = rank(p, deep + 1)
            if r is not None:
                return r + (x.op == 'stack')
    if x.op == 'reshape' and isinstance(x.args[1], tuple):
        return len(x.args[1])
    if x.op in ('zeros', 'ones') and isinstance(x.args[0], tuple):
        return len(x.args[0])
    if x.op == 'ite':
        a, b = rank(x.args[1], deep + 1), rank(x.args[2], deep + 1)
        return a if a == b else None
    return None


@_reg('ndim')
def ndim(x):
    r = rank(x)
    return Atom('ndim', (x,), 'num') if r is None else r


def unsqueeze(x, d):
    if not isnum(d):
        return Atom('unsq', (x, ('dim', d)))
    if d < 0:
        r = rank(x)
        if r is not None:
            d += r + 1
    if d >= 0:
        return getitem(x, (Slice(None, None),) * int(d) + (None,))
    return getitem(x, (Ellipsis, None) + (Slice(None, None),) * int(-1 - d))


def is_index(i):
    return isnum(i) or isinstance(i, Term) and i.kind == 'num'


@_reg('flat')
def flat(x):
    if isatom(x, 'flat', 'reshape', 'unsq'):
        return flat(x.args[0])
    if vector(x):
        return x
    if isinstance(x, Term) and scalar(x):
        return stack((x,), 0)
    c, r = lin(x)
    if c != 1:
        return mul(c, flat(r))
    return Atom('flat', (x,))


@_reg('shape')
def shape(x):
    if isatom(x, 'typed', 'cast') and isinstance(x.args[0], Term):
        return shape(x.args[0])
    if isatom(x, 'zeros_like', 'setitem', 'abs', 'flip'):
        return shape(x.args[0])
    if isatom(x, 'reshape'):
        return x.args[1]
    if isatom(x, 'zeros', 'ones'):
        return x.args[0]
    c, r = lin(x)
    if c != 1:
        return shape(r)
    return Atom('shape', (x,), 'obj')


@_reg('reshape')
def reshape(x, sh):
    if isatom(sh, 'shape') and same(sh.args[0], x):
        return x
    if isatom(x, 'reshape', 'flat', 'unsq'):
        return reshape(x.args[0], sh)
    if isatom(sh, 'seq') and len(sh.args) == 1 and sh.args[0].op == 'ext':
        sh = sh.args[0].args[0]
    if isinstance(sh, tuple) and len(sh) == 2 and vector(x):
        n = (numel(x), size(x, 0))
        if sh[1] == 1 and (sh[0] == -1 or any(same(sh[0], k) for k in n)):
            return unsqueeze(x, 1)
        if sh[0] == 1 and (sh[1] == -1 or any(same(sh[1], k) for k in n)):
            return unsqueeze(x, 0)
    if isinstance(sh, tuple) and len(sh) == 1 and (sh[0] == -1 or same(sh[0], numel(x))):
        return flat(x)
    if not isinstance(x, Term):
        return x
    c, r = lin(x)
    if c != 1:
        return mul(c, reshape(r, sh))
    return Atom('reshape', (x, sh))


# ---------------------------------------------------------------- indexing
def canon_index(i):
    if not isinstance(i, tuple):
        i = (i,)
    out = []
    for k in i:
        if isinstance(k, Slice):
            lo = None if isnum(k.lo) and k.lo == 0 else k.lo
            st = None if isnum(k.step) and k.step == 1 else k.step
            k = Slice(lo, k.hi, st)
        out.append(k)
    full = dig(Slice(None, None))
    while len(out) > 1 and isinstance(out[-1], Slice) and dig(out[-1]) == full and not any(o is Ellipsis for o in out):
        out.pop()
    if len(out) > 1 and out[-1] is Ellipsis:
        out.pop()
    return tuple(out)


FULL = dig(Slice(None, None))


def expand_ellipsis(x, idx):
    if sum(k is Ellipsis for k in idx) == 1 and len(idx) > 1:
        r = rank(x)
        if r is not None and r <= 8:
            j = [k is Ellipsis for k in idx].index(True)
            n = int(r) - sum(k is not None and k is not Ellipsis for k in idx)
            if n >= 0:
                return canon_index(idx[:j] + (Slice(None, None),) * n + idx[j + 1:])
    return idx


def getitem(x, idx):
    idx = expand_ellipsis(x, canon_index(idx))
    i = idx[0]
    if len(idx) == 1 and isinstance(i, Slice) and dig(i) == FULL:
        return x
    if len(idx) == 1 and (i is Ellipsis):
        return x
    if isinstance(x, tuple) and len(idx) == 1:
        if isnum(i):
            if -len(x) <= i < len(x):
                return x[int(i)]
            raise Dead('index out of range')
        if isinstance(i, Slice) and all(v is None or isnum(v) for v in (i.lo, i.hi, i.step)):
            f = lambda v: None if v is None else int(v)
            return x[f(i.lo):f(i.hi):f(i.step)]
        if isinstance(i, Atom) and i.op == 'ite':
            return ite(i.args[0], getitem(x, i.args[1]), getitem(x, i.args[2]))
    if isatom(x, 'ite'):
        if isinstance(x.args[1], (tuple,)) or isinstance(x.args[2], tuple) or isatom(x.args[1], 'seq', 'lit', 'stack', 'cat') or \
                isatom(x.args[2], 'seq', 'lit', 'stack', 'cat'):
            return ite(x.args[0], getitem(x.args[1], idx), getitem(x.args[2], idx))
    if isatom(x, 'seq') and len(idx) == 1:
        r = _seq_get(x, i)
        if r is not None:
            return r
    if isatom(x, 'vjps') and len(idx) == 1 and isnum(i):
        return x.args[int(i)]
    if isatom(x, 'splits') and len(idx) == 1 and isnum(i) and i >= 0:
        from .torchlib import slice_dim
        return slice_dim(x.args[0], x.args[2], Slice(mul(x.args[1], i), mul(x.args[1], i + 1)))
    if isatom(x, 'lit') and len(idx) == 1:
        if isnum(i):
            if -len(x.args) <= i < len(x.args):
                return x.args[int(i)]
            raise Dead('index out of range')
        if isinstance(i, Slice) and all(v is None or isnum(v) for v in (i.lo, i.hi, i.step)):
            return Atom('lit', getitem(x.args, i), 'tensor', x.meta)
    if isatom(x, 'shape') and len(idx) == 1 and isnum(i):
        return size(x.args[0], int(i))
    if isatom(x, 'stack') and x.args[1] == 0 and isinstance(x.args[0], (tuple, Atom)):
        if is_index(i):
            try:
                el = getitem(x.args[0], i)
                if not (isatom(el, 'getitem') and same(el.args[0], x.args[0])):
                    return getitem(el, idx[1:]) if len(idx) > 1 else el
            except Dead:
                pass
        if isinstance(i, Slice) and len(idx) == 1 and isinstance(x.args[0], tuple) and \
                all(v is None or isnum(v) for v in (i.lo, i.hi, i.step)):
            return stack(getitem(x.args[0], i), 0)
    if isatom(x, 'cat') and x.args[1] == 0 and len(idx) == 1 and isinstance(x.args[0], tuple):
        r = _cat_get(x.args[0], i)
        if r is not None:
            return r
    if isatom(x, 'cat') and isnum(x.args[1]) and isinstance(x.args[0], tuple) and x.args[1] == len(idx) - 1 and len(idx) > 1 and \
            isinstance(idx[-1], Slice) and all(isinstance(k, Slice) and dig(k) == FULL for k in idx[:-1]):
        r = _cat_get(x.args[0], idx[-1], len(idx) - 1)
        if r is not None:
            return r
    if isatom(x, 'cat') and x.args[1] == -1 and isinstance(x.args[0], tuple) and len(idx) == 2 and idx[0] is Ellipsis and \
            isinstance(idx[1], Slice):
        r = _cat_get(x.args[0], idx[1], -1)
        if r is not None:
            return r
    if isatom(x, 'getitem'):
        r = _compose(x.args[0], x.args[1], idx)
        if r is not None:
            return r
    if isatom(x, 'setitem'):
        r = _get_set(x, idx)
        if r is not None:
            return r
    if isatom(x, 'zeros', 'ones') and isinstance(x.args[0], tuple) and len(idx) <= len(x.args[0]) and all(is_index(k) for k in idx):
        if len(idx) == len(x.args[0]):
            return 0 if x.op == 'zeros' else 1
        return Atom(x.op, (x.args[0][len(idx):],))
    if isatom(x, 'linspace') and len(idx) == 1 and isnum(i) and isnum(x.args[2]):
        n = int(x.args[2])
        k = i if i >= 0 else n + i
        if n == 1 and k == 0:
            return x.args[0]
        if n > 1 and 0 <= k < n:
            return add(x.args[0], mul(div(k, n - 1), sub(x.args[1], x.args[0])))
    if isatom(x, 'zeros', 'ones') and isatom(x.args[0], 'shape') and len(idx) == 1 and isnum(i) and isatom(x.args[0].args[0], 'stack') and \
            x.args[0].args[0].args[1] == 0 and isinstance(x.args[0].args[0].args[0], tuple) and x.args[0].args[0].args[0]:
        return Atom(x.op, (shape(x.args[0].args[0].args[0][0]),))
    c, r = lin(x)
    if c != 1:
        return mul(c, getitem(r, idx))
    if isinstance(x, Poly) and len(idx) == 1 and isnum(i):
        # sum of stacks of as many results of a solve each
        ats = [m[0][0] for m in x.terms if len(m) == 1 and m[0][1] == 1]
        if len(ats) == len(x.terms) and all(isatom(a, 'stack') and a.args[1] == 0 and isinstance(a.args[0], tuple) and
                                            len(a.args[0]) == len(ats[0].args[0]) and all(isatom(r, 'fun') for r in a.args[0]) for a in ats):
            r = 0
            for m, k in x.terms.items():
                r = add(r, mul(k, getitem(m[0][0], idx)))
            return r
    # constant-length slices of a one-dimensional sequence of values are written out
    if len(idx) == 1 and isinstance(i, Slice) and i.step is None and i.hi is not None:
        n = sub(i.hi, i.lo if i.lo is not None else 0)
        lo = i.lo if i.lo is not None else 0
        neg_ = isnum(i.hi) and (i.hi <= 0) or isnum(lo) and lo < 0
        if isnum(n) and 0 < n <= 4 and not neg_ and not isatom(x, 'seq'):
            return stack(tuple(getitem(x, add(lo, j)) for j in range(int(n))), 0)
    if any(k is None for k in idx):
        if len(idx) == 1:
            return stack((x,), 0)
        return Atom('unsq', (x, idx))
    if any(isinstance(k, Slice) and k.hi is not None for k in idx) and all(isinstance(k, Slice) for k in idx):
        # slices reaching the end
        new = canon_index(tuple(Slice(k.lo, None, k.step) if k.hi is not None and same(k.hi, size(x, j)) else k for j, k in enumerate(idx)))
        if dig(new) != dig(idx):
            return getitem(x, new)
    return Atom('getitem', (x, idx), 'tensor' if not isatom(x, 'shape', 'seq') else 'unk')


REBUILD['getitem'] = lambda a, k, m: getitem(a[0], a[1])
REBUILD['unsq'] = lambda a, k, m: getitem(a[0], a[1]) if a[1][:1] != ('dim',) else unsqueeze(a[0], a[1][1])


def _single_comp(x):
    return isatom(x, 'seq') and len(x.args) == 1 and x.args[0].op == 'comp'


def _seq_get(x, i):
    segs = x.args
    if isnum(i):
        k = int(i)
        if k >= 0:
            for s in segs:
                if s.op != 'item':
                    if s.op == 'ext':
                        return getitem(s.args[0], k) if s is segs[-1] else None
                    break
                if k == 0:
                    return s.args[0]
                k -= 1
        else:
            for s in reversed(segs):
                k += 1
                if s.op != 'item':
                    if s.op == 'ext' and s is segs[0]:
                        return getitem(s.args[0], k - 1)
                    break
                if k == 0:
                    return s.args[0]
    if _single_comp(x) and is_index(i) and not (isnum(i) and i < 0):
        idx, n, body = x.args[0].args
        if isinstance(body, tuple) and len(body) == 1 and isatom(idx, 'bv'):
            return replace(body[0], [(idx, i)])
    if isinstance(i, Slice):
        if i.step is None and i.hi is None and isnum(i.lo) and i.lo >= 0:
            k = int(i.lo)
            if k <= len(segs) and all(s.op == 'item' for s in segs[:k]):
                return mkseq(list(segs[k:]))
        if i.step is None and i.lo is None and isnum(i.hi) and i.hi >= 0:
            k = int(i.hi)
            if k <= len(segs) and all(s.op == 'item' for s in segs[:k]):
                return mkseq(list(segs[:k]))
        if i.step is None and i.lo is None and isnum(i.hi) and i.hi < 0:
            k = int(-i.hi)
            if k <= len(segs) and all(s.op == 'item' for s in segs[len(segs) - k:]):
                return mkseq(list(segs[:len(segs) - k]))
    return None


def _plen(p, d=0):
    return numel(p) if d == 0 and vector(p) else size(p, d)


def _cat_get(parts, i, d=0):
    """slice / index a concatenation along its own dimension, by symbolic segment lengths"""
    lens = [_plen(p, d) for p in parts]
    bounds = [0]
    for n in lens:
        bounds.append(add(bounds[-1], n))
    total = bounds[-1]
    neg_bounds = [sub(b, total) for b in bounds]      # distance from the end

    def locate(v, hi):
        if v is None:
            return len(parts) if hi else 0
        for j, b in enumerate(bounds):
            if same(v, b) and not (isnum(b) and b == 0 and hi):
                return j
        for j, b in enumerate(neg_bounds):
            if same(v, b) and j < len(parts):
                return j
        return None
    if isinstance(i, Slice):
        if i.step is not None:
            return None
        lo, hi = locate(i.lo, False), locate(i.hi, True)
        if lo is None or hi is None or hi < lo:
            return None
        if hi == lo:
            return None
        return cat(tuple(parts[lo:hi]), d)
    if is_index(i) and d == 0:
        for j, b in enumerate(bounds[:-1]):
            for bb in (b, neg_bounds[j]):
                off = sub(i, bb)
                if isnum(off) and off >= 0 and isnum(lens[j]) and off < lens[j]:
                    return getitem(parts[j], off)
    return None


def _nonneg(i):
    return i is None or isnum(i) and i >= 0 or isinstance(i, Term)


def _compose(base, outer, idx):
    """base[outer][idx]"""
    if all(is_index(o) for o in outer):
        return getitem(base, outer + idx)
    if len(outer) == 1 and isinstance(outer[0], Slice) and outer[0].step is None:
        s, i = outer[0], idx[0]
        lo = s.lo if s.lo is not None else 0
        if is_index(i):
            if isnum(i) and i < 0:
                if s.hi is None:
                    return getitem(base, (i,) + idx[1:])
                if isnum(s.hi) and s.hi < 0 or isinstance(s.hi, Term):
                    return getitem(base, (add(s.hi, i),) + idx[1:])
            elif not (isnum(lo) and lo < 0):
                return getitem(base, (add(lo, i),) + idx[1:])
        if isinstance(i, Slice) and i.step is None and not (isnum(lo) and lo < 0):
            if _nonneg(i.lo) and (i.hi is None):
                return getitem(base, (Slice(add(lo, i.lo if i.lo is not None else 0), s.hi),) + idx[1:])
            if s.hi is None and isnum(i.hi) and i.hi < 0 and _nonneg(i.lo):
                return getitem(base, (Slice(add(lo, i.lo if i.lo is not None else 0), i.hi),) + idx[1:])
            if s.hi is None and _nonneg(i.lo) and _nonneg(i.hi):
                return getitem(base, (Slice(add(lo, i.lo if i.lo is not None else 0), add(lo, i.hi)),) + idx[1:])
        if isinstance(i, Slice) and dig(i) == FULL and len(idx) > 1:
            return getitem(base, (s,) + idx[1:])
    if len(outer) >= 1 and isinstance(outer[0], Slice) and dig(outer[0]) == FULL and isinstance(idx[0], Slice) and dig(idx[0]) == FULL \
            and len(outer) == 2 and len(idx) == 2 and isinstance(outer[1], Slice) and outer[1].step is None:
        r = _compose(Atom('sym', ('$b',)), (outer[1],), (idx[1],))
        if isatom(r, 'getitem') and isatom(r.args[0], 'sym') and len(r.args[1]) == 1:
            return getitem(base, (outer[0], r.args[1][0]))
    return None


def _get_set(x, idx):
    base, sidx, v = x.args
    if dig(sidx) == dig(idx):
        return v
    if len(sidx) == 1 and is_index(sidx[0]) and is_index(idx[0]):
        if same(sidx[0], idx[0]):
            return getitem(v, idx[1:])
        d = sub(sidx[0], idx[0])
        if isnum(d) and not (isnum(sidx[0]) and isnum(idx[0]) and (sidx[0] < 0) != (idx[0] < 0)):
            return getitem(base, idx)
    return None


@_reg('setitem')
def setitem(x, idx, v):
    idx = expand_ellipsis(x, canon_index(idx))
    if len(idx) == 1:
        i = idx[0]
        if isatom(x, 'cat') and x.args[1] == 0 and isinstance(x.args[0], tuple) and isinstance(i, Slice):
            parts = x.args[0]
            for j in range(len(parts)):
                seg = _cat_get(parts, i)
                if seg is not None and same(seg, parts[j]):
                    bl = cat(parts[:j], 0) if j else None
                    lo = Slice(bl and size(bl, 0), None)
                    # exact segment replacement
                    if _seg_index(parts, i) == j:
                        return cat(parts[:j] + (v,) + parts[j + 1:], 0)
            j = _seg_index(parts, i)
            if j is not None:
                return cat(parts[:j] + (v,) + parts[j + 1:], 0)
        if isatom(x, 'setitem') and dig(x.args[1]) == dig(idx):
            return setitem(x.args[0], idx, v)
        if isatom(x, 'stack', 'zeros', 'zeros_like', 'ones', 'ones_like') and not (isatom(x, 'stack') and (x.args[1] != 0 or not isinstance(x.args[0], tuple))):
            # few rows: written out
            n = size(x, 0)
            if isnum(n) and 0 < n <= 8:
                rows = list(x.args[0]) if x.op == 'stack' else [getitem(x, j) for j in range(int(n))]
                if isnum(i) and -n <= i < n:
                    rows[int(i)] = v
                    return stack(tuple(rows), 0)
                if isinstance(i, Slice) and i.step is None and all(b is None or isnum(b) for b in (i.lo, i.hi)):
                    js = range(int(n))[slice(None if i.lo is None else int(i.lo), None if i.hi is None else int(i.hi))]
                    if isatom(v, 'stack') and v.args[1] == 0 and isinstance(v.args[0], tuple) and len(v.args[0]) == len(js):
                        for j, r in zip(js, v.args[0]):
                            rows[j] = r
                        return stack(tuple(rows), 0)
                    if isnum(v):
                        for j in js:
                            rows[j] = v if len(js) else rows[j]
                        return stack(tuple(rows), 0) if all(not isnum(r) for r in rows) else Atom('setitem', (x, idx, v))
    elif isatom(x, 'stack') and x.args[1] == 0 and isinstance(x.args[0], tuple) and isnum(idx[0]) and -len(x.args[0]) <= idx[0] < len(x.args[0]):
        rows = list(x.args[0])
        rows[int(idx[0])] = setitem(rows[int(idx[0])], idx[1:], v)
        return stack(tuple(rows), 0)
    return Atom('setitem', (x, idx, v))


def _seg_index(parts, i):
    lens = [_plen(p) for p in parts]
    b = [0]
    for n in lens:
        b.append(add(b[-1], n))
    tot = b[-1]
    for j in range(len(parts)):
        los = [b[j], sub(b[j], tot)]
        his = [b[j + 1], sub(b[j + 1], tot)]
        lo = i.lo if i.lo is not None else 0
        okl = any(same(lo, q) for q in los)
        okh = (i.hi is None and j == len(parts) - 1) or (i.hi is not None and any(same(i.hi, q) for q in his))
        if okl and okh:
            return j
    return None


# ---------------------------------------------------------------- joining
@_reg('cat')
def cat(parts, d):
    if isatom(parts, 'seq'):
        ps = parts
        if len(ps.args) == 1 and ps.args[0].op == 'ext' and isatom(ps.args[0].args[0], 'tuple'):
            pass
        return Atom('cat', (parts, d))
    if not isinstance(parts, tuple):
        return Atom('cat', (parts, d))
    out = []
    for p in parts:
        if isatom(p, 'cat') and p.args[1] == d and isinstance(p.args[0], tuple):
            out.extend(p.args[0])
        elif d == -1 and isatom(p, 'cat') and p.args[1] == 0 and isinstance(p.args[0], tuple) and vector(p):
            out.extend(p.args[0])
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    if d == -1 and out and all(vector(p) for p in out):
        d = 0
    # adjacent slices of one tensor
    if isnum(d) and d >= 0 and any(isatom(p, 'getitem') for p in out):
        k = 0
        while k + 1 < len(out):
            m = _adjacent(out[k], out[k + 1], int(d))
            if m is None:
                k += 1
            else:
                out[k:k + 2] = [m]
        if len(out) == 1:
            return out[0]
    if d == 0 and out and all(isatom(p, 'stack') and p.args[1] == 0 and isinstance(p.args[0], tuple) for p in out):
        return stack(tuple(e for p in out for e in p.args[0]), 0)
    return Atom('cat', (tuple(out), d))


def _adjacent(p, q, d):
    if isatom(p, 'getitem') and isatom(q, 'getitem') and len(p.args[1]) == len(q.args[1]) == d + 1 and same(p.args[0], q.args[0]):
        a, b = p.args[1][-1], q.args[1][-1]
        if all(isinstance(k, Slice) and k.step is None for k in (a, b)) and dig(p.args[1][:-1]) == dig(q.args[1][:-1]) and \
                all(isinstance(k, Slice) for k in p.args[1]) and a.hi is not None and b.lo is not None and same(a.hi, b.lo):
            return getitem(p.args[0], p.args[1][:-1] + (Slice(a.lo, b.hi),))
    return None


@_reg('stack')
def stack(parts, d):
    if isinstance(parts, tuple):
        if d == 0 and len(parts) == 1 and isinstance(parts[0], Term) is False and not isnum(parts[0]):
            pass
        if d == 0 and len(parts) > 1 and all(isatom(p, 'getitem') and len(p.args[1]) == 1 for p in parts):
            b = parts[0].args[0]
            n = size(b, 0)
            if isnum(n) and n == len(parts) and all(same(p.args[0], b) and p.args[1] == (k,) for k, p in enumerate(parts)):
                return b
    if isatom(parts, 'seq') and len(parts.args) == 1 and parts.args[0].op == 'ext' and d == 0:
        return Atom('stack', (parts.args[0].args[0], d))
    return Atom('stack', (parts, d))


# ---------------------------------------------------------------- elementwise and reductions
def unary(op):
    @_reg(op)
    def f(x):
        if isnum(x):
            if op == 'abs':
                return abs(x)
            if x == 0:
                return {'exp': 1, 'sin': 0, 'cos': 1, 'tanh': 0}.get(op, Atom(op, (x,), 'num'))
        if op == 'abs':
            c, r = lin(x)
            if isinstance(r, Poly):
                if _lead(r) < 0:
                    r = neg(r)
            if isatom(r, 'abs'):
                return mul(abs(c), r)
            if c != 1 or r is not x:
                return mul(norm(abs(c)), Atom('abs', (r,), r.kind if isinstance(r, Term) else 'num')) if isinstance(r, Term) else mul(abs(c), abs(r))
        if op in ('sin', 'tanh') and isinstance(x, Poly) and _lead(x) < 0:
            return neg(f(neg(x)))
        if op == 'cos' and isinstance(x, Poly) and _lead(x) < 0:
            return f(neg(x))
        return Atom(op, (x,), x.kind if isinstance(x, Term) and x.kind in ('num', 'tensor') else 'tensor')
    return f


from .terms import _lead
abs_ = unary('abs')
exp_ = unary('exp')
UN = {n: unary(n) for n in ('sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'log', 'sign', 'relu', 'sigmoid', 'floor', 'ceil',
                            'round', 'atan', 'detach', 'item', 'int', 'pinv', 'softplus', 'invert', 'isfinite', 'data', 'numpy')}
UN['abs'], UN['exp'] = abs_, exp_

_power0 = power


def powr(a, e):
    """power with the tensor-specific rewrites"""
    if isnum(e) and isatom(a, 'abs') and Fraction(e).denominator == 1 and int(e) % 2 == 0:
        return power(a.args[0], e)
    if isinstance(a, Poly) and isnum(e) and Fraction(e).denominator == 1 and int(e) % 2 == 0 and len(a.terms) == 1:
        (m, c), = a.terms.items()
        r = norm(c ** int(e))
        for at, ex in m:
            b = at.args[0] if at.op == 'abs' and (ex * e).denominator == 1 and int(ex * e) % 2 == 0 else at
            r = mul(r, power(b, ex * Fraction(e)))
        return r
    if isatom(a, 'exp') :
        return exp_(mul(a.args[0], e))
    if isatom(a, 'const') and a.args[0] == 'e':
        return exp_(e)
    if isatom(a, 'lit') and isnum(e):
        return Atom('lit', [power(x, e) for x in a.args], 'tensor', a.meta)
    return power(a, e)


def sum_(x, dim=None, keepdim=False):
    if isinstance(x, bool) or isnum(x):
        return x
    if isinstance(x, tuple):
        r = 0
        for v in x:
            r = add(r, v)
        return r
    if isatom(x, 'lit') and dim in (None, 0, -1):
        r = 0
        for v in x.args:
            r = add(r, v)
        return r
    c, r = lin(x)
    if c != 1:
        return mul(c, sum_(r, dim, keepdim))
    if dim is None and isatom(x, 'reshape', 'flat'):
        return sum_(x.args[0])
    if dim is None and isinstance(x, Poly) and len(x.terms) == 1:
        # the sum of a product of equally shaped factors does not depend on the common shape
        (m, _), = x.terms.items()
        ts = [a for a, e in m if not scalar(a)]
        if any(isatom(a, 'flat', 'reshape') for a in ts) and len({dig(a.args[1]) for a in ts if isatom(a, 'reshape')}) <= 1:
            r = 1
            for a, e in m:
                r = mul(r, power(a.args[0] if isatom(a, 'flat', 'reshape') else a, e))
            return sum_(r)
    if isinstance(dim, tuple) and len(dim) == 1:
        dim = dim[0]
    if dim == -1 and vector(x) or dim == 0 and vector(x):
        if not keepdim:
            dim = None
    # a sum over a dimension of a literal stack
    if isatom(x, 'stack') and isinstance(x.args[0], tuple) and dim == x.args[1] == 0:
        return sum_(x.args[0])
    return Atom('sum', (x, dim, keepdim))


REBUILD['sum'] = lambda a, k, m: sum_(*a)


def mean_(x, dim=None, keepdim=False):
    if dim is None:
        return div(sum_(x), numel(x))
    return div(sum_(x, dim, keepdim), size(x, dim) if isnum(dim) else Atom('size', (x, dim), 'num'))


def norm_(x, p=2, dim=None, keepdim=False):
    if isnum(p) and p == 2 or p == 'fro':
        return powr(sum_(powr(x, 2), dim, keepdim), Fraction(1, 2))
    if isnum(p) and p == 1:
        return sum_(abs_(x), dim, keepdim)
    return Atom('norm', (x, p, dim, keepdim))


def _ext(op, args):
    flatargs, nums = [], []
    for a in args:
        if isatom(a, op):
            flatargs.extend(a.args)
        elif isnum(a):
            nums.append(a)
        else:
            flatargs.append(a)
    if nums:
        flatargs.append(max(nums) if op == 'max' else min(nums))
    u, seen = [], set()
    for a in flatargs:
        if dig(a) not in seen:
            seen.add(dig(a))
            u.append(a)
    if len(u) == 1:
        return u[0]
    k = 'tensor' if any(isinstance(a, Term) and a.kind == 'tensor' for a in u) else 'num'
    return Atom(op, sorted(u, key=dig), k)


def known_le(a, b):
    """a <= b holds for every input: numbers, or symbols declared as ordered"""
    if isnum(a) and isnum(b):
        return a <= b
    if isatom(a, 'ite'):
        return known_le(a.args[1], b) and known_le(a.args[2], b)
    low = (b.meta or {}).get('above', ()) if isatom(b, 'sym') else ()
    if isatom(a, 'ones') or a == 1:
        return 1 in low
    return isatom(a, 'sym') and a.args[0] in low


def max_(*a):
    r = _ext('max', a)
    if isatom(r, 'max') and len(r.args) > 1:
        for m in r.args:
            if isatom(m, 'min') and len(m.args) > 1:
                rest = [x for x in r.args if x is not m]
                for b in m.args:
                    if all(known_le(x, b) for x in rest):
                        return min_(b, max_(min_(*[y for y in m.args if y is not b]), *rest))
    return r


def min_(*a):
    return _ext('min', a)


REBUILD['max'] = lambda a, k, m: max_(*a)
REBUILD['min'] = lambda a, k, m: min_(*a)


@_reg('matmul')
def matmul(a, b):
    ca, a = lin(a)
    cb, b = lin(b)
    c = ca * cb
    if vector(a) and vector(b):
        return mul(norm(c), sum_(mul(a, b)))
    r = Atom('matmul', (a, b))
    return mul(norm(c), r) if c != 1 else r


def _canon_einsum(eq, ops):
    eq = eq.replace(' ', '')
    if '->' in eq:
        ins, out = eq.split('->')
    else:
        ins, out = eq, None
    ins = ins.split(',')
    # product is commutative: order operands by digest, then rename indices by first occurrence
    order = sorted(range(len(ops)), key=lambda i: (dig(ops[i]), ins[i]))
    ops = [ops[i] for i in order]
    ins = [ins[i] for i in order]
    names = {}

    def ren(s):
        r = ''
        i = 0
        while i < len(s):
            if s[i:i + 3] == '...':
                r += '...'
                i += 3
                continue
            names.setdefault(s[i], 'abcdefghijklmnopqrstuvwxyz'[len(names)])
            r += names[s[i]]
            i += 1
        return r
    if out is None:
        return None, None
    ins = [ren(s) for s in ins]
    return ','.join(ins) + '->' + ren(out), ops


def einsum(eq, ops):
    if isinstance(eq, str):
        c = Fraction(1)
        o2 = []
        for o in ops:
            k, r = lin(o)
            c *= k
            o2.append(r)
        e, o = _canon_einsum(eq, o2)
        if e is not None:
            r = Atom('einsum', (e,) + tuple(o))
            return mul(norm(c), r) if c != 1 else r
    return Atom('einsum', (eq,) + tuple(ops))


REBUILD['einsum'] = lambda a, k, m: einsum(a[0], a[1:])


def vjp(y, x, v, graph=None):
    """vector-Jacobian product v^T dy/dx; linear in v and in a scalar factor of y"""
    if isnum(v) and v == 0 and not isinstance(v, bool):
        return 0
    c, r = lin(v) if is_arith(v) else (Fraction(1), v)
    cy, ry = lin(y) if is_arith(y) else (Fraction(1), y)
    if v is None:
        c, r = Fraction(1), 1
    a = Atom('vjp', (ry, x, r))
    c = c * cy
    return mul(norm(c), a) if c != 1 else a


REBUILD['vjp'] = lambda a, k, m: vjp(*a)


@_reg('flip')
def flip(x, d):
    if isatom(x, 'stack') and x.args[1] == 0 and d in (0, (0,)) and isinstance(x.args[0], tuple):
        return stack(tuple(reversed(x.args[0])), 0)
    if isatom(x, 'flip') and same(x.args[1], d):
        return x.args[0]
    if isinstance(d, tuple) and len(d) == 1:
        d = d[0]
    return Atom('flip', (x, d))


def transpose(x, a, b):
    if isnum(a) and isnum(b) and a > b:
        a, b = b, a
    if isatom(x, 'transpose') and x.args[1:] == (a, b):
        return x.args[0]
    return Atom('transpose', (x, a, b))


REBUILD['transpose'] = lambda a, k, m: transpose(*a)


def zeros(shape):
    if isnum(shape) or isinstance(shape, Term) and shape.kind == 'num':
        shape = (shape,)
    return Atom('zeros', (shape,))


def ones(shape):
    if isnum(shape) or isinstance(shape, Term) and shape.kind == 'num':
        shape = (shape,)
    return Atom('ones', (shape,))


def linspace(a, b, n):
    if isnum(a) and isnum(b) and n == 2:
        return lit((a, b))
    return Atom('linspace', (a, b, n))


def floordiv(a, b):
    if isnum(b) and b > 0 and isinstance(a, Poly) and integral(a):
        # whole multiples of the divisor come out
        whole = {m: c for m, c in a.terms.items() if c % b == 0}
        if whole and len(whole) == len(a.terms):
            return div(a, b)
    if isnum(a) and isnum(b) and b != 0:
        return norm(Fraction(a) // Fraction(b))
    return Atom('floordiv', (a, b), 'num' if not any(isinstance(v, Term) and v.kind == 'tensor' for v in (a, b)) else 'tensor')


REBUILD['floordiv'] = lambda a, k, m: floordiv(*a)


def mod(a, b):
    if isnum(a) and isnum(b) and b != 0:
        return norm(Fraction(a) % Fraction(b))
    return Atom('mod', (a, b), 'num')


REBUILD['mod'] = lambda a, k, m: mod(*a)


def strip_shape(v):
    """forget singleton reshapes: x[None], x.reshape(..), stack((x,)) -> x"""
    def f(t):
        if isatom(t, 'stack') and isinstance(t.args[0], tuple) and len(t.args[0]) == 1:
            return subst(t.args[0][0], f)
        if isatom(t, 'reshape', 'unsq', 'flat'):
            return subst(t.args[0], f)
        return None
    return subst(v, f)
