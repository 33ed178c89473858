"""Model of the external library functions (torch, numpy, math) by their algebraic meaning."""
from .ops import *

# parameter names, for keyword normalisation
SIG = {
    'cat': ('tensors', 'dim'), 'concat': ('tensors', 'dim'), 'concatenate': ('tensors', 'dim'), 'stack': ('tensors', 'dim'),
    'sum': ('input', 'dim', 'keepdim'), 'mean': ('input', 'dim', 'keepdim'), 'prod': ('input', 'dim', 'keepdim'),
    'norm': ('input', 'p', 'dim', 'keepdim'), 'max': ('input', 'other'), 'min': ('input', 'other'),
    'maximum': ('input', 'other'), 'minimum': ('input', 'other'),
    'pow': ('input', 'exponent'), 'clamp': ('input', 'min', 'max'), 'where': ('condition', 'input', 'other'),
    'flatten': ('input', 'start_dim', 'end_dim'), 'unsqueeze': ('input', 'dim'), 'squeeze': ('input', 'dim'),
    'transpose': ('input', 'dim0', 'dim1'), 'chunk': ('input', 'chunks', 'dim'), 'split': ('tensor', 'split_size_or_sections', 'dim'),
    'isclose': ('input', 'other', 'rtol', 'atol'), 'allclose': ('input', 'other', 'rtol', 'atol'),
    'linspace': ('start', 'end', 'steps'), 'arange': ('start', 'end', 'step'), 'narrow': ('input', 'dim', 'start', 'length'),
    'tensor': ('data',), 'as_tensor': ('data',), 'zeros': ('size',), 'ones': ('size',), 'full': ('size', 'fill_value'),
    'eye': ('n',), 'add': ('input', 'other', 'alpha'), 'sub': ('input', 'other', 'alpha'), 'mul': ('input', 'other'),
    'div': ('input', 'other'), 'matmul': ('input', 'other'), 'select': ('input', 'dim', 'index'), 'any': ('input', 'dim'),
    'all': ('input', 'dim'), 'lerp': ('input', 'end', 'weight'), 'addcmul': ('input', 'tensor1', 'tensor2'),
    'flip': ('input', 'dims'), 'index_select': ('input', 'dim', 'index'), 'sqrt': ('input',), 'square': ('input',),
    'einsum': ('equation',), 'dot': ('input', 'other'), 'mv': ('input', 'other'), 'mm': ('input', 'other'), 'bmm': ('input', 'other'),
    'randn': ('size',), 'rand': ('size',), 'cumsum': ('input', 'dim'), 'diff': ('input',), 'numel': ('input',), 'zeros_like': ('input',),
    'ones_like': ('input',), 'full_like': ('input', 'fill_value'), 'addcdiv': ('input', 'tensor1', 'tensor2'),
    'sub_': ('input', 'other', 'alpha'), 'add_': ('input', 'other', 'alpha'),
}
DROP = {'dtype', 'device', 'out', 'generator', 'requires_grad', 'memory_format', 'non_blocking', 'copy', 'layout', 'pin_memory'}
ALIAS = {'axis': 'dim', 'dims': 'dims', 'keepdims': 'keepdim', 'repeats': 'repeats'}
RANDOM = {'randn', 'rand', 'randn_like', 'rand_like', 'randint', 'normal', 'sample', 'rsample', 'randperm', 'bernoulli', 'empty'}
IDENT_METHODS = {'to', 'contiguous', 'float', 'double', 'cpu', 'cuda', 'clone', 'type_as', 'half', 'type', 'requires_grad_', 'view_as_real', 'squeeze_'}


def norm_kwargs(name, args, kwargs):
    kw = {}
    for k, v in kwargs.items():
        k = ALIAS.get(k, k) if k != 'dims' else k
        if k not in DROP:
            kw[k] = v
    sig = SIG.get(name)
    args = list(args)
    if sig and kw:
        while True:
            n = len(args)
            if n < len(sig) and sig[n] in kw:
                args.append(kw.pop(sig[n]))
            elif n < len(sig) and kw and any(k in sig[n:] for k in kw):
                args.append(None)
            else:
                break
    return args, kw


def size_args(args):
    if len(args) == 1 and not (is_index(args[0]) or isnum(args[0])):
        return args[0]
    return tuple(args)


def seqval(v):
    """unwrap a symbolic sequence of a single foreign iterable"""
    if isatom(v, 'seq') and len(v.args) == 1 and v.args[0].op == 'ext':
        return v.args[0].args[0]
    return v


def tensor_op(name, args, kw):
    """value of torch-like operation `name`; NotImplemented when uninterpreted.  Sequences arrive as tuples / seq atoms."""
    dtype = kw.get('dtype')
    a, k = norm_kwargs(name, args, kw)
    if k and not set(k) <= {'keepdim', 'alpha', 'value', 'p', 'dim', 'rounding_mode', 'equal_nan', 'fill_value', 'step'}:
        return NotImplemented
    n = len(a)
    x = a[0] if a else None

    def arg(i, d=None):
        return a[i] if n > i and a[i] is not None else d
    if name in ('cat', 'concat', 'concatenate'):
        return cat(seqval(x) if isinstance(x, (tuple, Atom)) else x, arg(1, 0))
    if name == 'hstack':
        return Atom('hstack', (seqval(x) if isinstance(x, (tuple, Atom)) else x,))
    if name == 'append' and n == 2 and not k:
        return Atom('hstack', ((flat(a[0]), flat(a[1])),))
    if name == 'stack':
        return stack(seqval(x), arg(1, 0))
    if name == 'vstack':
        return Atom('vstack', (x,))
    if name in ('tensor', 'as_tensor', 'Tensor', 'array', 'asarray', 'FloatTensor'):
        if name == 'Tensor' and (n > 1 or is_index(x)):
            return Atom('rand', ('uninit', size_args(a)))
        if isinstance(x, tuple):
            if all(isnum(v) or isinstance(v, Term) and (v.kind == 'num') for v in x):
                return Atom('lit', x, 'tensor', {'dtype': dtype} if dtype is not None else None)
            if all(isinstance(v, Term) for v in x):
                return Atom('tensorize', (x,))
            return Atom('tensorize', (x,))
        if isnum(x):
            return x
        if isinstance(x, Term):
            return Atom('tensorize', (x,)) if x.kind == 'tensor' and name in ('tensor', 'Tensor') and not isatom(x, 'seq') else x
        return NotImplemented
    if name in ('zeros', 'ones', 'new_zeros', 'new_ones'):
        if name.startswith('new_'):
            a = a[1:]
        sh = size_args(a)
        return (zeros if name.endswith('zeros') else ones)(sh)
    if name in ('full', 'new_full'):
        if name == 'new_full':
            a = a[1:]
        return mul(a[1], ones(a[0])) if is_arith(a[1]) else NotImplemented
    if name == 'zeros_like':
        return Atom('zeros', (shape(x),))
    if name == 'ones_like':
        return Atom('ones', (shape(x),))
    if name == 'full_like':
        return mul(a[1], Atom('ones', (shape(x),)))
    if name in ('new_tensor',):
        return tensor_op('tensor', a[1:], {})
    if name in ('expand', 'broadcast_to'):
        sh = size_args(a[1:])
        return mul(x, ones(sh)) if is_arith(x) else NotImplemented
    if name == 'expand_as':
        return mul(x, ones(shape(a[1])))
    if name in ('zero_',):
        return 0
    if name == 'eye':
        return Atom('eye', tuple(a))
    if name == 'linspace':
        return linspace(a[0], a[1], arg(2, 100))
    if name == 'arange':
        if n == 1:
            lo, hi, st = 0, a[0], 1
        else:
            lo, hi, st = a[0], a[1], arg(2, 1)
        if all(isnum(v) for v in (lo, hi, st)) and abs((hi - lo) / Fraction(st)) <= 64:
            vals, v = [], lo
            while (st > 0 and v < hi) or (st < 0 and v > hi):
                vals.append(norm(Fraction(v)))
                v += st
            return lit(vals)
        return Atom('arange', (lo, hi, st))
    if not a:
        return NotImplemented
    # the operations below need a tensor / number
    if isatom(x, 'lit') and n <= 1 and name in ('abs', 'neg'):
        return Atom('lit', [abs(v) if name == 'abs' else neg(v) for v in x.args], 'tensor', x.meta)
    if name in ('abs', 'absolute'):
        return UN['abs'](x)
    if name in ('exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'sign', 'relu', 'sigmoid', 'floor', 'ceil', 'sinh', 'cosh', 'softplus',
                'detach', 'isfinite', 'numpy'):
        return UN[name](x) if n == 1 else NotImplemented
    if name in ('relu_', 'tanh_'):
        return UN[name[:-1]](x)
    if name == 'item':
        return UN['item'](x)
    if name in ('pinverse', 'pinv'):
        return UN['pinv'](x)
    if name in ('int', 'long'):
        return x if isnum(x) and Fraction(x).denominator == 1 else UN['int'](x)
    if name == 'sqrt':
        return powr(x, Fraction(1, 2))
    if name == 'rsqrt':
        return powr(x, Fraction(-1, 2))
    if name == 'square':
        return powr(x, 2)
    if name == 'reciprocal':
        return powr(x, -1)
    if name in ('neg', 'negative'):
        return neg(x)
    if name in ('positive',):
        return x
    if name in ('pow', 'power', 'float_power'):
        return powr(x, a[1])
    if name in ('add', 'subtract', 'sub', 'add_', 'sub_'):
        y = a[1]
        al = k.get('alpha', arg(2, 1))
        y = mul(al, y) if not (isnum(al) and al == 1) else y
        return arith('+' if name.startswith('add') else '-', x, y)
    if name in ('mul', 'multiply', 'mul_'):
        return arith('*', x, a[1])
    if name in ('div', 'true_divide', 'divide', 'div_'):
        if k.get('rounding_mode'):
            return floordiv(x, a[1])
        return arith('/', x, a[1])
    if name == 'floor_divide':
        return floordiv(x, a[1])
    if name == 'addcmul':
        return add(x, mul(k.get('value', 1), mul(a[1], a[2])))
    if name == 'addcdiv':
        return add(x, mul(k.get('value', 1), div(a[1], a[2])))
    if name == 'lerp':
        return add(x, mul(a[2], sub(a[1], x)))
    if name in ('matmul', 'dot', 'mv', 'mm', 'bmm', 'inner'):
        return matmul(x, a[1])
    if name == 'einsum':
        ops = a[1:]
        if len(ops) == 1 and isinstance(ops[0], tuple):
            ops = ops[0]
        return einsum(x, tuple(ops))
    if name in ('sum', 'nansum'):
        dim = arg(1)
        if isinstance(x, Atom) and x.op == 'seq':
            return Atom('sum', (x, dim, False))
        return sum_(x, dim, k.get('keepdim', arg(2, False)))
    if name == 'mean':
        return mean_(x, arg(1), k.get('keepdim', arg(2, False)))
    if name in ('norm', 'vector_norm'):
        p = arg(1, k.get('p', 2))
        return norm_(x, p, arg(2, k.get('dim')), k.get('keepdim', arg(3, False)))
    if name in ('max', 'amax', 'min', 'amin', 'maximum', 'minimum', 'fmax', 'fmin'):
        big = 'max' in name
        if n == 1 and not k:
            if isinstance(x, tuple):
                return (max_ if big else min_)(*x)
            return Atom('max' if big else 'min', (x,))
        if n == 2 and name in ('max', 'min') and isnum(a[1]):
            return NotImplemented
        if n == 2 and not k:
            return (max_ if big else min_)(x, a[1])
        return NotImplemented
    if name in ('clamp', 'clip'):
        r = x
        lo, hi = arg(1), arg(2)
        if lo is not None:
            r = max_(r, lo)
        if hi is not None:
            r = min_(r, hi)
        return r
    if name == 'clamp_min':
        return max_(x, a[1])
    if name == 'clamp_max':
        return min_(x, a[1])
    if name == 'where' and n == 3:
        return ite(a[0], a[1], a[2])
    if name in ('flatten', 'ravel'):
        if n == 1 or (a[1:] == [0] or a[1:] == [0, -1]):
            return flat(x)
        return NotImplemented
    if name in ('reshape', 'view'):
        sh = size_args(a[1:])
        return reshape(x, sh)
    if name in ('reshape_as', 'view_as'):
        return reshape(x, shape(a[1]))
    if name == 'unsqueeze':
        if a[1] == 0 or (a[1] == -1 and scalar(x)):
            return stack((x,), 0)
        return unsqueeze(x, a[1])
    if name == 'squeeze':
        if isatom(x, 'stack') and x.args[1] == 0 and isinstance(x.args[0], tuple) and len(x.args[0]) == 1 and (n == 1 and scalar(x.args[0][0]) or n == 2 and a[1] == 0):
            return x.args[0][0]
        return Atom('squeeze', tuple(a))
    if name in ('flip',):
        d = size_args(a[1:])
        return flip(x, d)
    if name in ('transpose', 'swapaxes') and n == 3:
        return transpose(x, a[1], a[2])
    if name == 't' and n == 1:
        return transpose(x, 0, 1)
    if name == 'permute':
        d = size_args(a[1:])
        if isinstance(d, tuple) and len(d) >= 2 and all(isnum(v) for v in d):
            sw = [i for i, v in enumerate(d) if i != v]
            if not sw:
                return x
            if len(sw) == 2:
                return transpose(x, sw[0], sw[1])
        return Atom('permute', (x, d))
    if name in ('size',):
        return size(x, a[1]) if n > 1 else shape(x)
    if name == 'numel':
        return numel(x)
    if name in ('dim', 'ndimension'):
        return ndim(x)
    if name in ('chunk', 'split', 'tensor_split') and n >= 2:
        d = arg(2, k.get('dim', 0))
        if name == 'chunk' and isnum(a[1]):
            m = int(a[1])
            szs = size(x, d) if isnum(d) else Atom('size', (x, d), 'num')
            step = floordiv(szs, m)
            out = []
            for j in range(m):
                lo = mul(step, j) if j else None
                hi = mul(step, j + 1) if j < m - 1 else None
                out.append(slice_dim(x, d, Slice(lo, hi)))
            return tuple(out)
        if name == 'split' and isinstance(a[1], tuple):
            out, pos = [], 0
            for j, s in enumerate(a[1]):
                nxt = add(pos, s)
                out.append(slice_dim(x, d, Slice(pos if j else None, nxt if j < len(a[1]) - 1 else None)))
                pos = nxt
            return tuple(out)
        if name == 'split' and is_index(a[1]):
            return Atom('splits', (x, a[1], d), 'obj', {'notnone': True})
        return NotImplemented
    if name == 'narrow':
        return slice_dim(x, a[1], Slice(a[2], add(a[2], a[3])))
    if name == 'select':
        return slice_dim(x, a[1], a[2])
    if name == 'isclose':
        return Atom('isclose', (a[0], a[1], arg(2, k.get('rtol')), arg(3, k.get('atol'))), 'tensor')
    if name in ('any', 'all') and n == 1 and not k:
        if isinstance(x, tuple):
            return or_(*x) if name == 'any' else and_(*x)
        if isatom(x, 'and' if name == 'all' else 'or'):
            return (and_ if name == 'all' else or_)(*[Atom(name, (y,), 'bool') for y in x.args])
        return Atom(name, (x,), 'bool')
    if name in ('eq', 'ne', 'gt', 'lt', 'ge', 'le', 'greater', 'less', 'greater_equal', 'less_equal') and n == 2:
        return compare({'eq': '==', 'ne': '!=', 'gt': '>', 'lt': '<', 'ge': '>=', 'le': '<=', 'greater': '>', 'less': '<',
                        'greater_equal': '>=', 'less_equal': '<='}[name], a[0], a[1])
    if name in ('logical_and', 'bitwise_and'):
        return and_(a[0], a[1])
    if name in ('logical_or', 'bitwise_or'):
        return or_(a[0], a[1])
    if name in ('logical_not', 'bitwise_not'):
        return not_(x)
    if name == 'diff' and n == 1:
        return sub(getitem(x, Slice(1, None)), getitem(x, Slice(None, -1)))
    if name in ('repeat', 'tile', 'repeat_interleave', 'cumsum', 'prod', 'argmax', 'argmin', 'std', 'var', 'numpy', 'type', 'bool',
                'index_select', 'softmax', 'conv2d', 'roll', 'triu', 'tril', 'diag', 'trace', 'outer', 'exponential_', 'get_device'):
        return Atom(name, tuple(a) + tuple((kk, v) for kk, v in sorted(k.items())))
    if name == 'linear':
        return Atom('linear', (x, a[1], arg(2)))
    return NotImplemented


def slice_dim(x, d, s):
    if isnum(d) and d >= 0:
        return getitem(x, tuple([Slice(None, None)] * int(d)) + (s,))
    if isnum(d) and d < 0:
        r = rank(x)
        return slice_dim(x, d + r, s) if r is not None and d + r >= 0 else getitem(x, (Ellipsis, s) + (Slice(None, None),) * int(-1 - d))
    return Atom('narrow', (x, d, s))


def arith(op, a, b):
    if isatom(a, 'lit') or isatom(b, 'lit'):
        if isatom(a, 'lit') and isatom(b, 'lit') and len(a.args) == len(b.args):
            return Atom('lit', [arith(op, p, q) for p, q in zip(a.args, b.args)], 'tensor', a.meta)
        if isatom(a, 'lit') and isnum(b):
            return Atom('lit', [arith(op, p, b) for p in a.args], 'tensor', a.meta)
        if isatom(b, 'lit') and isnum(a):
            return Atom('lit', [arith(op, a, p) for p in b.args], 'tensor', b.meta)
        # a one-element vector broadcasts like a scalar
        if isatom(a, 'lit') and len(a.args) == 1 and isinstance(b, Term):
            a = a.args[0]
        if isatom(b, 'lit') and len(b.args) == 1 and isinstance(a, Term):
            b = b.args[0]
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*':
        # x * zeros-like stays symbolic; 0 * x is 0
        return mul(a, b)
    if op == '/':
        return div(a, b)
    if op == '**':
        return powr(a, b)
    if op == '//':
        return floordiv(a, b)
    if op == '%':
        return mod(a, b)
    if op == '@':
        return matmul(a, b)
    raise Unsupported(op)


def compare(op, a, b):
    if op == '==':
        return eq(a, b)
    if op == '!=':
        return not_(eq(a, b))
    if op == '>':
        return gt(a, b)
    if op == '<':
        return gt(b, a)
    if op == '>=':
        return ge(a, b)
    if op == '<=':
        return ge(b, a)
    raise Unsupported(op)
