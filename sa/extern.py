"""Models of the functions and methods defined outside the analysed package."""
from .interp import *
from .interp import canon_ext

INT_NAMES = {'builtins.float', 'builtins.int'}
SEQ_OPS = {'cat', 'concat', 'concatenate', 'stack', 'hstack', 'vstack', 'max', 'min', 'sum', 'any', 'all', 'tensor', 'as_tensor', 'array',
           'asarray', 'block_diag', 'meshgrid', 'cartesian_prod', 'einsum'}
SILENT = {'warnings.warn', 'builtins.print', 'torch.manual_seed', 'torch.cuda.synchronize'}
TENSOR_CLASSES = {'torch.Tensor', 'torch.FloatTensor'}
UNINIT = {'torch.empty', 'torch.empty_like', 'numpy.empty'}


def call(I, name, args, kwargs):
    base = name.split('.')[-1]
    if name in I.extern:
        r = I.extern[name](I, args, kwargs)
        if r is not NotImplemented:
            return r
    if name.startswith('builtins.'):
        return builtin(I, base, args, kwargs)
    if name in SILENT or name.startswith('matplotlib') or name.startswith('pylab'):
        return None
    if name in ('torch.no_grad', 'torch.inference_mode', 'torch.autograd.no_grad'):
        if args and isinstance(args[0], FuncVal):
            args[0].nograd = True
            return args[0]
        if args and args[0] is False:
            return Atom('ctx', ('grad', None), 'obj')
        return Atom('ctx', ('grad', False), 'obj')
    if name == 'torch.enable_grad':
        return Atom('ctx', ('grad', True), 'obj')
    if name == 'torch.set_grad_enabled':
        return Atom('ctx', ('grad', I.truth(args[0])), 'obj')
    if name == 'torch.is_tensor':
        return isinst(I, args[0], Ext('torch.Tensor'))
    if name == 'torch.is_floating_point' and isinstance(args[0], Term):
        return Atom('isfloat', (args[0],), 'bool')
    if name == 'torch.is_grad_enabled':
        return Atom('gradmode', (I.st.loops,), 'bool')
    if name in ('functools.lru_cache', 'functools.cache'):
        if args and isinstance(args[0], FuncVal):
            return I.memoised(args[0])
        return PyFunc('lru_cache', lambda It, a, k: It.memoised(a[0]) if isinstance(a[0], FuncVal) else a[0])
    if name == 'functools.wraps':
        return PyFunc('wraps', lambda It, a, k: a[0])
    if name == 'functools.partial':
        f = args[0]
        a, k = list(args[1:]), dict(kwargs)
        return PyFunc('partial', lambda It, aa, kk: It.call(f, a + aa, {**k, **kk}))
    if name in ('inspect.getfullargspec', 'inspect.getargspec', 'inspect.signature'):
        return argspec(I, args[0], name)
    if name in ('torch.nn.Parameter', 'torch.nn.parameter.Parameter'):
        v = args[0] if args else kwargs.get('data')
        fixed = (args[1] if len(args) > 1 else kwargs.get('requires_grad', True)) is False
        return Atom('param', (I.as_term(v),) + (('fixed',) if fixed else ()), 'tensor', {'notnone': True})
    if name in ('torch.autograd.grad',):
        return autograd(I, args, kwargs)
    if name in ('torch.autograd.functional.jacobian', 'torch.autograd.functional.hessian', 'torch.func.jacrev', 'torch.func.jacfwd'):
        kk = tuple((k, I.as_term(v)) for k, v in sorted(kwargs.items()) if k not in ('create_graph', 'vectorize', 'strict'))
        I.log('autodiff', {'name': base, 'args': args, 'kwargs': kwargs})
        return Atom(base, tuple(I.as_term(a) for a in args) + kk, 'tensor')
    if name in ('torch.nn.Sequential',):
        return Atom('new', (name, tuple(I.as_term(a) for a in args), ()), 'obj', {'notnone': True, 'seqargs': list(args)})
    if name == 'collections.namedtuple':
        return namedtuple(I, args, kwargs)
    if name == 'attr.ib':
        return Atom('attrib', (), 'obj')
    if name.startswith('attr.') or name.startswith('typing.') or name.startswith('abc.'):
        return Ext(name)
    if base in RANDOM and (name.startswith('torch.') or name.startswith('numpy.')) or name.startswith('numpy.random') or name.startswith('random.'):
        return random_value(I, name, args, kwargs)
    if name in ('torch.jit.script', 'torch.compile', 'copy.deepcopy', 'copy.copy'):
        return I.fresh(args[0]) if isinstance(args[0], Term) else args[0]
    if name in ('torch.Size',):
        return I.as_seq(args[0]) if args else ()
    if name in ('torch.device', 'torch.dtype'):
        return Atom('ext', (name,) + tuple(I.as_term(a) for a in args), 'obj')
    if name in ('torch.jvp', 'torch.autograd.functional.jvp', 'torch.autograd.functional.vjp'):
        return Atom(base, tuple(I.as_term(a) for a in args), 'obj')
    if name in ('itertools.chain',):
        out = []
        for a in args:
            out += segs_of(I.as_seq(a))
        return mkseq(out)
    if name.startswith(('torch.', 'numpy.', 'math.', 'torchcde.')):
        short = base
        if name.startswith(('torch.nn.', 'torch.optim.', 'torch.utils.', 'torch.distributions.', 'torch.Generator')):
            if name.startswith('torch.nn.init.'):
                if args and isinstance(args[0], Term):
                    I.log('init', {'tensor': args[0], 'fn': base})
                return args[0] if args else None
            r = new_obj(I, name, args, kwargs)
            if name.startswith('torch.optim.') and args:
                ps = I.as_seq(args[0])
                r.meta['optparams'] = list(ps) if isinstance(ps, tuple) else None
            return r
        if short in ('tensor', 'as_tensor', 'arange', 'zeros', 'ones', 'full', 'eye', 'empty', 'linspace'):
            I.log('newtensor', {'name': short, 'dtype': kwargs.get('dtype'), 'args': args})
        a, k = norm_args(I, short, args, kwargs)
        if short == 'linalg' or 'linalg' in name.split('.'):
            pass
        try:
            r = tensor_op(short, a, k)
        except ZeroDivisionError:
            raise Dead('division by zero')
        if r is NotImplemented:
            if short[:1].isupper():
                return new_obj(I, name, args, kwargs)
            if name == 'torch.' + short and a and isinstance(a[0], Term) and a[0].kind == 'tensor':
                return Atom('mcall', (a[0], short) + tuple(I.as_term(x) for x in a[1:]) + tuple((kk, v) for kk, v in sorted(k.items())), 'tensor')
            return Atom('ext', (name,) + tuple(I.as_term(x) for x in a) + tuple((kk, I.as_term(v)) for kk, v in sorted(k.items())
                                                                              if kk not in DROP), ext_kind(name))
        if isinstance(r, Term) and (any(r is x for x in a)) and r.kind == 'tensor':
            r = I.fresh(r)
        return r
    # an exception class, a module class or an unknown library function
    if base[:1].isupper():
        return new_obj(I, name, args, kwargs)
    return Atom('ext', (name,) + tuple(I.as_term(a) for a in args) + tuple((k, I.as_term(v)) for k, v in sorted(kwargs.items())), 'obj')


def ext_kind(name):
    return 'num' if name.startswith('math.') else 'tensor'


def new_obj(I, name, args, kwargs):
    return Atom('new', (name, tuple(I.as_term(a) for a in args), tuple((k, I.as_term(v)) for k, v in sorted(kwargs.items()))), 'obj',
                {'notnone': True})


def random_value(I, name, args, kwargs):
    n = I.next_rand
    I.next_rand += 1
    a = tuple(I.as_term(x) for x in args)
    k = tuple((kk, I.as_term(v)) for kk, v in sorted(kwargs.items()) if kk not in DROP)
    base = name.split('.')[-1]
    at = Atom('rand', (base, a, k, n) + tuple(x for x in I.st.loops), 'tensor', {'notnone': True})
    I.log('random', {'name': name, 'args': a, 'value': at})
    return at


def norm_args(I, name, args, kwargs):
    a = []
    for x in args:
        if isinstance(x, (RangeVal, IterVal)) or isinstance(x, Ref):
            x = I.as_term(x)
        elif isinstance(x, (FuncVal, BoundMethod, Ext, ExtMethod, ClassVal, PyFunc)):
            x = I.as_term(x)
        elif isinstance(x, tuple):
            x = I.as_term(x)
        if isinstance(x, Term) and x.kind == 'unk' and False:
            pass
        a.append(x)
    k = {kk: I.as_term(v) for kk, v in kwargs.items()}
    return a, k


def autograd(I, args, kwargs):
    names = ['outputs', 'inputs', 'grad_outputs', 'retain_graph', 'create_graph', 'only_inputs', 'allow_unused']
    kw = dict(kwargs)
    for n, v in zip(names, args):
        kw[n] = v
    y, x, v = kw.get('outputs'), kw.get('inputs'), kw.get('grad_outputs')
    I.log('autograd', dict(kw))
    ys = I.as_seq(y) if isinstance(y, Ref) else y
    if isinstance(ys, tuple) and len(ys) == 1:
        ys = ys[0]
    vs = I.as_seq(v) if isinstance(v, Ref) else v
    if isinstance(vs, tuple) and len(vs) == 1:
        vs = vs[0]
    unused = kw.get('allow_unused', False) is True
    if kw.get('materialize_grads', False) is True:
        unused = 'zero'
    xs = I.as_seq(x) if not isinstance(x, Term) or isatom(x, 'seq') else x
    if isinstance(xs, tuple):
        out = []
        for e in xs:
            out.append(vjp1(I, ys, e, vs, unused))
        return Atom('vjps', out, 'obj', {'notnone': True})
    if isatom(xs, 'seq'):
        segs = []
        for sg in xs.args:
            segs.append(seg_map(sg, lambda e: vjp1(I, ys, e, vs, unused)))
        return mkseq(segs)
    return Atom('vjps', [vjp1(I, ys, xs, vs, unused)], 'obj', {'notnone': True})


def seg_map(sg, f):
    if sg.op == 'item':
        return item(f(sg.args[0]))
    if sg.op == 'ext':
        k = Atom('bv', (50,), 'num')
        return mkcomp(k, size(sg.args[0], 0), [item(f(getitem(sg.args[0], k)))])
    if sg.op == 'comp' and isinstance(sg.args[2], tuple):
        return Atom('comp', (sg.args[0], sg.args[1], tuple(f(e) for e in sg.args[2])), 'obj')
    raise Unsupported('gradient with respect to a symbolic sequence')


def vjp1(I, y, x, v, unused):
    y, x, v = I.as_term(y), I.as_term(x), I.as_term(v)
    r = vjp(y, x, v)
    if unused == 'zero' and isinstance(r, Term):
        m = Atom('maybe', (r,), 'tensor', {'wrt': x})
        return ite(isnone(m), tensor_op('zeros_like', [x], {}), m)
    if unused and isinstance(r, Term):
        return Atom('maybe', (r,), 'tensor', {'wrt': x})
    return r


def argspec(I, f, name):
    bound = False
    if isinstance(f, BoundMethod):
        bound = True
        f = f.func
    if isinstance(f, Ref):
        m = I.lookup(I.cell(f).cls, '__call__') or I.lookup(I.cell(f).cls, 'forward')
        f, bound = m, True
    if isinstance(f, FuncVal):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        if name.endswith('signature') and bound:
            names = names[1:]
        spec = tuple(names)
        return Atom('argspec', (spec,), 'obj', {'notnone': True, 'attrs': {'args': I.new_list(spec), 'varargs': a.vararg.arg if a.vararg else None,
                                                          'varkw': a.kwarg.arg if a.kwarg else None,
                                                          'parameters': I.new_list(spec), 'defaults': tuple(f.defaults) or None,
                                                          'kwonlyargs': I.new_list(tuple(p.arg for p in a.kwonlyargs))}})
    t = I.as_term(f)
    if isinstance(t, Atom) and t.meta and 'argspec' in t.meta:
        sp = tuple(t.meta['argspec'])
        return Atom('argspec', (sp,), 'obj', {'notnone': True, 'attrs': {'args': I.new_list(sp), 'varargs': t.meta.get('varargs'),
                                                        'varkw': t.meta.get('varkw'), 'parameters': I.new_list(sp), 'kwonlyargs': I.new_list(()), 'defaults': None}})
    u = Atom('argspec', (t,), 'obj', {'notnone': True})
    return u


def namedtuple(I, args, kwargs):
    fields = I.as_seq(args[1])
    if isinstance(fields, str):
        fields = tuple(x for x in fields.replace(',', ' ').split())
    tname = args[0]

    def make(It, a, k):
        vals = list(a)
        for f in fields[len(vals):]:
            if f in k:
                vals.append(k[f])
            else:
                It.log('callerror', {'fn': tname, 'why': f"missing field {f}"})
                raise Dead('namedtuple')
        return Atom('ntuple', (tname,) + tuple(It.as_term(v) for v in vals), 'obj',
                    {'notnone': True, 'attrs': dict(zip(fields, vals)), 'vals': tuple(vals)})
    return PyFunc('namedtuple ' + tname, make)


# ---------------------------------------------------------------- builtins
PYTYPE = {'tensor': ('torch.Tensor',), 'num': ('builtins.float', 'builtins.int'), 'bool': ('builtins.bool',)}


def type_names(c):
    if isinstance(c, tuple):
        out = []
        for x in c:
            out += type_names(x)
        return out
    if isinstance(c, Ext):
        return [c.name]
    if isinstance(c, ClassVal):
        return [c]
    if isatom(c, 'ref'):
        return type_names(c.meta['val'])
    if isatom(c, 'ext'):
        return [c.args[0]]
    return [None]


def py_class(I, v):
    """name of the class of a value, or None when unknown"""
    if isinstance(v, bool):
        return 'builtins.bool'
    if isnum(v):
        return 'builtins.int' if Fraction(v).denominator == 1 else 'builtins.float'
    if isinstance(v, str):
        return 'builtins.str'
    if v is None:
        return 'builtins.NoneType'
    if isinstance(v, tuple):
        return 'builtins.tuple'
    if isinstance(v, Ref):
        c = I.cell(v)
        return {'ListCell': 'builtins.list', 'DictCell': 'builtins.dict'}.get(type(c).__name__, c)
    if isinstance(v, (FuncVal, BoundMethod, PyFunc)):
        return 'builtins.function'
    if isinstance(v, RangeVal):
        return 'builtins.range'
    if isinstance(v, (ClassVal, Ext)):
        return 'builtins.type'
    if isatom(v, 'lam'):
        return 'builtins.function'
    if isatom(v, 'new'):
        return v.args[0]
    if isatom(v, 'fstring', 'strcat'):
        return 'builtins.str'
    if isatom(v, 'seq'):
        return 'builtins.list'
    if isatom(v, 'dict'):
        return 'builtins.dict'
    if isatom(v, 'argspec', 'ntuple'):
        return 'builtins.tuple'
    if isatom(v, 'ref'):
        return py_class(I, v.meta['val'])
    if isatom(v, 'inst'):
        return I.cell(v.meta['ref'])
    if isinstance(v, Atom) and v.meta and 'pytype' in v.meta:
        return v.meta['pytype']
    if isatom(v, 'param'):
        return 'torch.nn.Parameter'
    if isinstance(v, Term) and v.kind == 'tensor':
        return 'torch.Tensor'
    if isinstance(v, Term) and v.kind == 'bool':
        return 'builtins.bool'
    return None


NN_MODULES = ('torch.nn.Sequential', 'torch.nn.Linear', 'torch.nn.ModuleList')


def subclass(I, cls, want):
    """is class `cls` (name, ClassVal or InstCell) a subclass of `want` (name or ClassVal): True / False / None"""
    if isinstance(cls, InstCell):
        cls = cls.cls
    if isinstance(cls, ClassVal):
        for k in cls.mro:
            if k is want or dig(k) == (dig(want) if not isinstance(want, str) else None):
                return True
            if isinstance(k, Ext) and (k.name == want):
                return True
            if isinstance(k, Ext) and k.name == 'pytorch_lightning.LightningModule' and want in ('torch.nn.Module',):
                return True
        return False
    if isinstance(want, ClassVal):
        return None if cls is None else False
    if cls == want:
        return True
    if want in ('torch.Tensor',) and cls == 'torch.nn.Parameter':
        return True
    if want == 'torch.nn.Module' and isinstance(cls, str) and cls.startswith('torch.nn.') and cls != 'torch.nn.Parameter':
        return True
    if want == 'builtins.int' and cls == 'builtins.bool':
        return True
    if want in ('typing.Callable', 'collections.abc.Callable', 'types.FunctionType'):
        return cls in ('builtins.function', 'builtins.type') or isinstance(cls, str) and cls.startswith('torch.nn.')
    if want in ('typing.Iterable', 'collections.abc.Iterable', 'typing.List', 'typing.Sequence'):
        return cls in ('builtins.list', 'builtins.tuple')
    if want == 'builtins.object':
        return True
    return False


def all_tensor(v):
    """every element of a sequence is a tensor"""
    for g in segs_of(v):
        if g.op == 'item':
            x = g.args[0]
            if not (isinstance(x, Term) and x.kind == 'tensor'):
                return False
        elif g.op in ('comp', 'cseg'):
            if not all_tensor(g.args[-1]):
                return False
        else:
            return False
    return True


def isinst(I, v, cls):
    if isatom(v, 'getitem') and isatom(v.args[0], 'seq') and len(v.args[1]) == 1 and all_tensor(v.args[0]):
        return 'torch.Tensor' in [n for n in type_names(cls)]
    if isatom(v, 'ite') and v.kind not in ('tensor', 'num'):
        return ite_bool(v.args[0], isinst(I, v.args[1], cls), isinst(I, v.args[2], cls))
    if isatom(v, 'sym') and v.meta and v.meta.get('isa') is not None:
        return any((n.qual if isinstance(n, ClassVal) else n) in v.meta['isa'] for n in type_names(cls))
    if isatom(v, 'getitem', 'sym', 'attr', 'mcall', 'mu', 'out', 'call') and v.kind in ('obj', 'unk', 'fn') and not (v.meta and 'pytype' in v.meta):
        names = type_names(cls)
        return I.decide(or_(*[Atom('isinst', (v, dig(n) if isinstance(n, ClassVal) else n), 'bool') for n in names]))
    names = type_names(cls)
    c = py_class(I, v)
    if isinstance(v, Term) and v.kind == 'num':
        r = [n for n in names if n in ('builtins.float', 'builtins.int')]
        if r:
            return True if len(r) == 2 else I.decide(Atom('isinst', (v, r[0]), 'bool'))
        return False
    res = []
    for n in names:
        if c is None or n is None:
            res.append(Atom('isinst', (I.as_term(v), dig(n) if isinstance(n, ClassVal) else n), 'bool'))
            continue
        r = subclass(I, c, n)
        res.append(Atom('isinst', (I.as_term(v), dig(n) if isinstance(n, ClassVal) else n), 'bool') if r is None else r)
    return I.decide(or_(*res))


def ite_bool(c, a, b):
    return or_(and_(c, a), and_(not_(c), b))


def type_of(I, v):
    c = py_class(I, v)
    if isinstance(c, InstCell):
        return c.cls
    if isatom(v, 'ite') and v.kind not in ('tensor', 'num'):
        return ite(v.args[0], I.as_term(type_of(I, v.args[1])), I.as_term(type_of(I, v.args[2])))
    if c is None:
        if isatom(v, 'sym') and v.meta and v.meta.get('attrs') is not None:
            return Ext('class of ' + v.args[0])      # an unknown class: none of the builtin ones
        return Atom('typeof', (I.as_term(v),), 'obj', {'notnone': True})
    return Ext(c) if isinstance(c, str) else c


def to_seq(I, v):
    if isinstance(v, (RangeVal, IterVal)):
        return I.as_seq(v)
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, InstCell):
            raise Unsupported('iterating an instance')
        return I.as_seq(v)
    if isinstance(v, str):
        return tuple(v)
    if isatom(v, 'shape'):
        return v
    if isatom(v, 'ntuple'):
        return v.meta['vals']
    if isinstance(v, Term) and not isatom(v, 'seq'):
        s = I.as_seq(v)
        if isinstance(s, Term) and not isatom(s, 'seq'):
            return mkseq([Atom('ext', (s,), 'obj')])
        return s
    return I.as_seq(v)


def length(I, v):
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, DictCell):
            if c.base is None:
                return len(c.items)
            return Atom('len', (I.as_term(v),), 'num')
        if isinstance(c, InstCell):
            m = I.lookup(c.cls, '__len__')
            if m is not None:
                return I.call(BoundMethod(v, m), [], {})
            raise Dead('len')
    if isinstance(v, RangeVal):
        d = I.iter_desc(v)
        return len(d[1]) if d[0] == 'concrete' else d[1]
    if isinstance(v, IterVal):
        v = I.as_seq(v)
    if isatom(v, 'ite') and v.kind in ('obj', 'unk'):
        return I.over_ite(v, lambda x: length(I, x))
    if isatom(v, 'ntuple'):
        return len(v.args) - 1
    s = I.as_seq(v)
    if isnum(s) or s is None or isinstance(s, bool):
        I.log('typeerror', {'value': s})
        raise Dead('len of a number')
    if isatom(s, 'dict', 'argspec'):
        return Atom('len', (s,), 'num')
    return size(s, 0)


def builtin(I, name, args, kwargs):
    a0 = args[0] if args else None
    if name == 'len':
        return length(I, a0)
    if name == 'range':
        lo, hi, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
        for v in (lo, hi, st):
            if isinstance(v, (Ref, tuple)) or v is None:
                I.log('typeerror', {'value': v})
                raise Dead('range')
        return RangeVal(lo, hi, st)
    if name == 'zip':
        return IterVal('zip', args)
    if name == 'enumerate':
        return IterVal('enumerate', [a0, args[1] if len(args) > 1 else kwargs.get('start', 0)])
    if name == 'reversed':
        return IterVal('reversed', args)
    if name == 'map':
        v = IterVal('map', args)
        s = I.map_iter(IterVal('zip', args[1:]) if len(args) > 2 else args[1],
                       lambda x: [item(I.call(a0, list(x) if len(args) > 2 else [x], {}))])
        return mkseq(s)
    if name == 'filter':
        def body(x):
            c = I.truth(I.call(a0, [x], {}) if a0 is not None else x)
            return [] if c is False else ([item(x)] if c is True else [Atom('cseg', (c, (x,)), 'obj')])
        return mkseq(I.map_iter(a0 if len(args) < 2 else args[1], body))
    if name in ('tuple',):
        return to_seq(I, a0) if args else ()
    if name in ('list', 'set', 'frozenset', 'sorted'):
        s = to_seq(I, a0) if args else ()
        if name in ('sorted', 'set', 'frozenset') and isinstance(s, tuple) and all(isinstance(x, str) for x in s):
            s = tuple(sorted(set(s) if name != 'sorted' else s))
        elif name == 'sorted' and not (isinstance(s, tuple) and len(s) < 2):
            s = tuple(sorted(s)) if isinstance(s, tuple) and all(isnum(x) for x in s) else mkseq([Atom('ext', (Atom('sorted', (I.as_term(s),), 'obj'),), 'obj')])
        return I.new_list(s)
    if name == 'dict':
        pairs = list((k, v) for k, v in kwargs.items())
        if args:
            if isinstance(a0, Ref) and isinstance(I.cell(a0), DictCell):
                c = I.cell(a0)
                r = Ref(I.alloc(DictCell(dict(c.items), c.base)))
                for k, v in pairs:
                    I.store_sub(r, k, v, None, None)
                return r
            s = to_seq(I, a0)
            if isinstance(s, tuple):
                pairs = [(I.as_seq(p)[0], I.as_seq(p)[1]) for p in s] + pairs
            elif isinstance(a0, Term):
                r = I.new_dict(pairs)
                I.st.heap[r.addr] = DictCell(I.cell(r).items, a0)
                return r
        return I.new_dict(pairs)
    if name in ('sum', 'max', 'min', 'any', 'all'):
        if name in ('max', 'min') and len(args) >= 2:
            for x in args:
                I.num(x)
            return (max_ if name == 'max' else min_)(*[I.num(x) for x in args])
        s = a0
        if isinstance(s, (Ref, RangeVal, IterVal)):
            s = I.as_seq(s)
        if isinstance(s, tuple):
            if name in ('max', 'min'):
                if not s:
                    I.log('callerror', {'fn': name, 'why': 'empty sequence'})
                    raise Dead(name + ' of nothing')
                s = tuple(I.num(x) for x in s)
                return (max_ if name == 'max' else min_)(*s) if len(s) > 1 else s[0]
            if name == 'sum':
                r = args[1] if len(args) > 1 else kwargs.get('start', 0)
                for x in s:
                    r = I.binop('+', r, x)
                return r
            return (or_ if name == 'any' else and_)(*[I.truth(x) for x in s]) if s else (name == 'all')
        if name in ('any', 'all'):
            return Atom(name, (I.as_term(s),), 'bool')
        if name == 'sum' and isatom(s, 'seq'):
            r = Atom('seqsum', (s,), 'tensor')
            st = args[1] if len(args) > 1 else 0
            return add(st, r) if is_arith(st) else r
        if isatom(s, 'seq') and name in ('min', 'max'):
            r = _extreme_of_selected(s, name)
            if r is not None:
                return r
        return Atom('seq' + name, (I.as_term(s),), 'tensor')
    if name == 'abs':
        return UN['abs'](I.num(a0))
    if name in ('float',):
        if isinstance(a0, str):
            return Atom('const', (a0,), 'num')
        v = I.num(a0) if args else 0
        if isinstance(v, Term) and v.kind == 'tensor':
            return UN['item'](v)
        return v
    if name == 'int':
        v = I.num(a0) if args else 0
        if isinstance(v, bool) or isinstance(v, Term) and v.kind == 'bool':
            return ite(v, 1, 0)
        if isnum(v):
            return int(v)
        if isinstance(v, Term) and v.kind == 'num' and is_integral(v):
            return v
        return Atom('int', (v,), 'num')
    if name == 'bool':
        return I.truth(a0) if args else False
    if name == 'round':
        return Atom('round', tuple(args), 'num') if not isnum(a0) else norm(Fraction(round(a0)))
    if name == 'pow':
        return I.binop('**', a0, args[1])
    if name == 'str' or name == 'repr' or name == 'format':
        if isinstance(a0, str):
            return a0
        if isnum(a0) and Fraction(a0).denominator == 1:
            return str(int(a0))
        return Atom('fstring', (I.as_term(a0) if args else '',), 'obj', {'notnone': True})
    if name == 'isinstance':
        return isinst(I, a0, args[1])
    if name == 'issubclass':
        names = type_names(args[1])
        r = [subclass(I, a0 if isinstance(a0, ClassVal) else getattr(a0, 'name', None), n) for n in names]
        if None in r:
            return Atom('issub', (I.as_term(a0), I.as_term(args[1])), 'bool')
        return any(r)
    if name == 'type':
        return type_of(I, a0)
    if name == 'hasattr':
        return hasattr_(I, a0, args[1])
    if name == 'getattr':
        if not isinstance(args[1], str):
            t = I.as_term(a0)
            r = Atom('getattr', (t, I.as_term(args[1])), 'unk')
            I.log('dyngetattr', {'obj': a0, 'name': args[1]})
            return r
        if len(args) > 2:
            h = hasattr_(I, a0, args[1])
            if h is True:
                return I.getattr(a0, args[1])
            if h is False:
                return args[2]
            return I.getattr(a0, args[1], default=args[2])
        return I.getattr(a0, args[1])
    if name == 'setattr':
        if isinstance(args[1], str):
            I.setattr(a0, args[1], args[2])
        else:
            I.log('dynsetattr', {'obj': a0, 'name': args[1], 'value': args[2]})
        return None
    if name == 'delattr':
        return None
    if name == 'print':
        return None
    if name == 'callable':
        if isinstance(a0, (FuncVal, BoundMethod, PyFunc, ClassVal, Ext, ExtMethod)):
            return True
        if isinstance(a0, (str, tuple)) or isnum(a0) or a0 is None:
            return False
        if isinstance(a0, Ref):
            c = I.cell(a0)
            return isinstance(c, InstCell) and (I.lookup(c.cls, '__call__') is not None or I.lookup(c.cls, 'forward') is not None or bool(I.ext_bases(c.cls)))
        if isinstance(a0, Term) and a0.kind in ('tensor', 'num', 'bool'):
            return False
        return Atom('callable', (I.as_term(a0),), 'bool')
    if name == 'id':
        return Atom('id', (I.as_term(a0),), 'num')
    if name == 'iter':
        return a0
    if name == 'next':
        s = I.as_seq(a0)
        if isatom(s, 'seq') and all(g.op == 'cseg' and isinstance(g.args[1], tuple) and len(g.args[1]) == 1 for g in s.args):
            vals = [(g.args[1][0], g.args[0]) for g in s.args]
            if len(args) > 1:
                vals.append((args[1], True))
            return first_present(vals)
        return getitem(s, 0)
    if name == 'slice':
        if len(args) == 1:
            return Slice(None, args[0], None)
        return Slice(*(list(args) + [None])[:3])
    if name == 'vars':
        return I.getattr(a0, '__dict__')
    if name == 'divmod':
        return (I.binop('//', a0, args[1]), I.binop('%', a0, args[1]))
    if name == 'object':
        return sym('object', 'obj', notnone=True)
    if name in ('property', 'staticmethod', 'classmethod'):
        return a0
    if name[:1].isupper():
        return Atom('new', ('builtins.' + name, tuple(I.as_term(a) for a in args), ()), 'obj', {'notnone': True})
    raise Unsupported('builtin ' + name)


def _extreme_of_selected(s, name):
    """smallest / largest of numbers each of which is present under a condition (one of them is present)"""
    vals = []
    for g in s.args:
        if g.op == 'item' and isnum(g.args[0]):
            vals.append((g.args[0], True))
        elif g.op == 'cseg' and isinstance(g.args[1], tuple) and all(isnum(v) for v in g.args[1]):
            vals += [(v, g.args[0]) for v in g.args[1]]
        else:
            return None
    vals.sort(key=lambda p: p[0], reverse=name == 'max')
    return first_present(vals)


def first_present(vals):
    r = vals[-1][0]
    for v, c in reversed(vals[:-1]):
        r = ite(c, v, r)
    return r


def is_integral(v):
    """is a number-kind term certainly an integer"""
    if isnum(v):
        return Fraction(v).denominator == 1
    if isinstance(v, Poly):
        return all(Fraction(c).denominator == 1 and all(is_integral(a) and e.denominator == 1 and e >= 0 for a, e in m) for m, c in v.terms.items())
    if isinstance(v, Atom):
        return v.op in ('size', 'numel', 'idx', 'bv', 'count', 'len', 'floordiv', 'ndim', 'int') or (v.meta or {}).get('int', False)
    return False


def hasattr_(I, o, name):
    if isinstance(o, Ref):
        c = I.cell(o)
        if isinstance(c, InstCell):
            if name in c.attrs and c.attrs[name] is not UNDEF:
                return True
            if I.lookup(c.cls, name) is not None:
                return True
            return name in MODULE_ATTRS and bool(I.ext_bases(c.cls))
        return name in ('append', 'extend', '__len__', '__iter__') if isinstance(c, ListCell) else name in ('keys', 'items', 'values', 'get')
    if isinstance(o, Term):
        if isatom(o, 'ite') and o.kind not in ('tensor', 'num'):
            return ite_bool(o.args[0], hasattr_(I, o.args[1], name), hasattr_(I, o.args[2], name))
        if isatom(o, 'ref'):
            return hasattr_(I, o.meta['val'], name)
        if isatom(o, 'inst'):
            return hasattr_(I, o.meta['ref'], name)
        ov = I.st.heap[OVERLAY].items.get(dig((o, name)))
        if ov is not None:
            return True
        if isinstance(o, Atom) and o.meta:
            if name in o.meta.get('attrs', {}) or name in o.meta.get('methods', {}):
                return True
            if name in o.meta.get('noattrs', ()):
                return False
        if o.kind in ('tensor', 'num'):
            if name in ('shape', 'dtype', 'device', 'dim', 'size', 'requires_grad', 'backward'):
                return o.kind == 'tensor'
            return False
        return I.decide(Atom('hasattr', (o, name), 'bool'))
    if isinstance(o, (FuncVal, BoundMethod, PyFunc)):
        if isinstance(o, FuncVal) and I.st.heap[OVERLAY].items.get(dig((o, name))) is not None:
            return True
        return name in ('__name__', '__call__', '__defaults__', '__code__')
    if isinstance(o, ClassVal):
        return I.lookup(o, name) is not None
    return False


# ---------------------------------------------------------------- methods
LISTM = {'append', 'extend', 'insert', 'pop', 'copy', 'reverse', 'clear', 'index', 'remove', 'sort', 'count'}


def method(I, o, name, args, kwargs):
    if isinstance(o, SuperVal):
        if name == '__init__':
            return None
        if name in ('forward', '__call__'):
            raise Unsupported('super().' + name)
        if name in ('parameters', 'named_parameters', 'modules', 'children'):
            return Atom('mcall', (I.as_term(o.self_), name, ()), 'obj')
        if name == '__setattr__':
            I.setattr(o.self_, args[0], args[1])
            return None
        return Atom('mcall', (I.as_term(o.self_), 'super.' + name) + tuple(I.as_term(a) for a in args), 'unk')
    if isinstance(o, ClassVal):
        if name == 'apply':
            return autograd_apply(I, o, args, kwargs)
        if name == '__init__':
            return None
        m = [b for b in I.ext_bases(o)]
        return Atom('ext', (dig(o) + '.' + name,) + tuple(I.as_term(a) for a in args), 'unk')
    if isinstance(o, Ref):
        c = I.cell(o)
        if isinstance(c, ListCell):
            return list_method(I, o, c, name, args, kwargs)
        if isinstance(c, DictCell):
            return dict_method(I, o, c, name, args, kwargs)
        if isinstance(c, InstCell):
            return inst_method(I, o, c, name, args, kwargs)
    if isinstance(o, str):
        if all(isinstance(a, str) or isnum(a) for a in args) and name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace', 'format', 'join', 'title', 'lstrip', 'rstrip'):
            r = getattr(o, name)(*args)
            return I.new_list(tuple(r)) if isinstance(r, list) else r
        return Atom('fstring', (o, name) + tuple(I.as_term(a) for a in args), 'obj', {'notnone': True})
    if isinstance(o, tuple):
        if name == 'index':
            for i, x in enumerate(o):
                if I.equal(x, args[0]) is True:
                    return i
        if name == 'count':
            return sum(1 for x in o if I.equal(x, args[0]) is True)
        if name == 'numel':
            r = 1
            for x in o:
                r = mul(r, x)
            return r
        raise Unsupported('tuple method ' + name)
    if isnum(o) or isinstance(o, bool):
        if name in ('item', 'to', 'float', 'clone', 'detach', 'double', 'abs', 'sqrt', 'pow', 'type', 'type_as', 'requires_grad_', 'reshape', 'view', 'unsqueeze',
                    'expand', 'repeat', 'mean', 'sum', 'max', 'min', 'contiguous', 'cpu', 'cuda', 'numpy', 'exp', 'log', 'reciprocal', 'squeeze',
                    'flatten', 'int', 'long', 'norm', 'mul', 'add', 'sub', 'div', 'add_', 'mul_', 'sub_', 'div_', 'clamp', 'neg', 'is_integer', 'expand_as'):
            if name in ('reshape', 'view', 'unsqueeze', 'contiguous', 'flatten', 'squeeze', 'item'):
                return o
            return tensor_method(I, o, name, args, kwargs)
        I.log('attrerror', {'cls': 'number', 'attr': name})
        raise Dead('number method ' + name)
    if isinstance(o, (FuncVal, PyFunc, BoundMethod)):
        if name == '__call__':
            return I.call(o, args, kwargs)
        if name in ('parameters', 'named_parameters'):
            I.log('attrerror', {'cls': 'function', 'attr': name})
            raise Dead('function has no parameters')
        raise Unsupported('function attribute ' + name)
    if isinstance(o, (IterVal, RangeVal)):
        raise Unsupported('iterator method ' + name)
    if isinstance(o, ExtMethod):
        o = I.as_term(o)
    if isinstance(o, Term):
        if isatom(o, 'ref'):
            return method(I, o.meta['val'], name, args, kwargs)
        if isatom(o, 'inst'):
            return I.call(I.getattr(o.meta['ref'], name), args, kwargs)
        if isatom(o, 'seq') and name in LISTM | {'numel'}:
            if name == 'numel':
                return Atom('numel', (o,), 'num')
            raise Unsupported('method on a symbolic sequence')
        if isatom(o, 'ite') and o.kind in ('obj', 'unk'):
            return I.over_ite(o, lambda x: method(I, x, name, args, kwargs))
        if isatom(o, 'dict') and name in ('items', 'keys', 'values', 'get'):
            return Atom('mcall', (o, name) + tuple(I.as_term(a) for a in args), 'obj')
        if o.kind in ('obj', 'fn') and not isatom(o, 'getitem', 'out', 'mu', 'shape') or isatom(o, 'attr') and o.kind == 'unk':
            return obj_method(I, o, name, args, kwargs)
        return tensor_method(I, o, name, args, kwargs)
    if o is None:
        I.log('attrerror', {'cls': 'None', 'attr': name})
        raise Dead('None')
    raise Unsupported(f"method {name} of {type(o).__name__}")


OBJ_KIND = {'parameters': 'obj', 'named_parameters': 'obj', 'modules': 'obj', 'named_modules': 'obj', 'children': 'obj', 'named_children': 'obj',
            'items': 'obj', 'keys': 'obj', 'values': 'obj', 'sample': 'tensor', 'rsample': 'tensor', 'log_prob': 'tensor', 'evaluate': 'tensor',
            'derivative': 'tensor'}


def located(I, o):
    """a distribution with the location and scale it has now"""
    if not isatom(o, 'new') or not o.args[0].endswith('.Normal'):
        return o
    q = {**dict(zip(('loc', 'scale'), o.args[1])), **dict(o.args[2])}
    if set(q) != {'loc', 'scale'}:
        return o
    for nm in q:
        ov = I.st.heap[OVERLAY].items.get(dig((o, nm)))
        if ov is not None:
            q[nm] = I.as_term(ov[1])
    return Atom('new', (o.args[0], (), tuple(sorted(q.items()))), 'obj', o.meta)


def obj_method(I, o, name, args, kwargs):
    if name in ('to', 'cuda', 'cpu', 'float', 'double', 'train', 'eval', 'requires_grad_', 'half', 'type'):
        I.log('objcall', {'obj': o, 'name': name, 'args': args})
        return o
    if name == 'forward' or name == '__call__':
        return I.call(o, args, kwargs)
    if isatom(o, 'new') and o.meta and o.meta.get('optparams') and name == 'step' and args:
        return optimise(I, o, args[0])
    if name in ('sample', 'rsample'):
        n = I.next_rand
        I.next_rand += 1
        if 'sample_shape' in kwargs and not args:
            args = [kwargs['sample_shape']]
        at = Atom('rand', (name, (located(I, o),) + tuple(I.as_term(a) for a in args), (), n) + tuple(I.st.loops), 'tensor', {'notnone': True})
        I.log('random', {'name': name, 'args': args, 'value': at, 'obj': o})
        return at
    a = tuple(I.as_term(x) for x in args)
    k = tuple((kk, I.as_term(v)) for kk, v in sorted(kwargs.items()))
    r = Atom('mcall', (o, name, a) + ((k,) if k else ()), OBJ_KIND.get(name, 'unk'))
    I.log('objcall', {'obj': o, 'name': name, 'args': args, 'kwargs': kwargs, 'value': r})
    return r


def optimise(I, o, closure):
    """an optimizer step with a closure leaves its parameters at a minimiser of the closure's value.
    The closure is analysed at a symbolic iterate; result: argmin(initial values, objective, gradients handed to the optimizer, optimizer)"""
    ps = o.meta['optparams']
    n = I.next_rand
    I.next_rand += 1
    us = [Atom('sym', (f"iterate{n}.{i}",), 'tensor', {'notnone': True, 'attrs': {}}) for i in range(len(ps))]
    for p, u in zip(ps, us):
        I.replace_obj(p, u, False)
    val = I.call(closure, [], {})
    grads = []
    for u in us:
        g = I.st.heap[OVERLAY].items.get(dig((u, 'grad')))
        grads.append(I.as_term(g[1] if isinstance(g, tuple) else g) if g is not None else None)
    bvs = [Atom('bv', (900 + i,), 'tensor') for i in range(len(us))]
    obj, gr = replace((I.as_term(val), tuple(grads)), list(zip(us, bvs)))
    for i, (p, u) in enumerate(zip(ps, us)):
        r = Atom('argmin', (p, i, obj, gr, (o.args[0], o.args[2])), 'tensor', {'notnone': True})
        I.replace_obj(u, r, False)
        o.meta['optparams'][i] = r
    I.log('optimise', {'opt': o, 'objective': obj, 'grads': gr})
    return val


def autograd_apply(I, cls, args, kwargs):
    fwd = I.lookup(cls, 'forward')
    ctx = sym('ctx:' + cls.qual + f":{len(I.events)}", 'obj', notnone=True)
    saved = {}

    def save(It, a, k):
        It.setattr(ctx, 'saved_tensors', tuple(a))
        return None
    ctx = Atom('sym', (f"ctx:{cls.qual}:{I.next_addr}",), 'obj', {'notnone': True, 'methods': {'save_for_backward': save}})
    I.next_addr += 1
    I.log('apply', {'cls': cls, 'args': args, 'kwargs': kwargs, 'ctx': ctx})
    if cls.qual in I.opaque:
        return I.opaque[cls.qual](I, cls, {'args': args, 'ctx': ctx})
    modes = I.st.modes
    I.st.modes = modes + (('grad', False),)
    r = I.call(fwd, [ctx] + list(args), kwargs)
    I.st.modes = modes
    return r


def list_method(I, o, c, name, args, kwargs):
    heap = I.st.heap
    if name in ('append', 'clear', 'insert', 'pop', 'reverse', 'sort', 'remove'):
        I.writes(o, name)
    if name == 'append':
        heap[o.addr] = ListCell(mkseq(segs_of(c.seq) + [item(args[0])]))
        return None
    if name == 'extend':
        I.list_extend(o, args[0])
        return None
    if name in ('copy', '__copy__'):
        return I.new_list(c.seq)
    if name == 'clear':
        heap[o.addr] = ListCell(())
        return None
    if name == 'insert':
        if isinstance(c.seq, tuple) and isnum(args[0]):
            l = list(c.seq)
            l.insert(int(args[0]), args[1])
            heap[o.addr] = ListCell(tuple(l))
            return None
        if args[0] == 0:
            heap[o.addr] = ListCell(mkseq([item(args[1])] + segs_of(c.seq)))
            return None
    if name == 'pop':
        i = args[0] if args else -1
        if isinstance(c.seq, tuple) and isnum(i) and c.seq:
            l = list(c.seq)
            v = l.pop(int(i))
            heap[o.addr] = ListCell(tuple(l))
            return v
        if isatom(c.seq, 'seq'):
            sg = list(c.seq.args)
            j = 0 if i == 0 else (-1 if i == -1 else None)
            if j is not None and sg[j].op == 'item':
                v = sg.pop(j).args[0]
                heap[o.addr] = ListCell(mkseq(sg))
                return v
            if j is not None:
                t = c.seq
                heap[o.addr] = ListCell(getitem(t, Slice(1, None) if j == 0 else Slice(None, -1)))
                return getitem(t, i)
        I.log('keyerror', {'key': i})
        raise Dead('pop')
    if name == 'reverse':
        heap[o.addr] = ListCell(tuple(reversed(c.seq)) if isinstance(c.seq, tuple) else I.as_term(IterVal('reversed', [o])))
        return None
    if name == 'index' and isinstance(c.seq, tuple):
        vals = []
        for i, x in enumerate(c.seq):
            e = I.equal(x, args[0])
            if e is not False:
                vals.append((i, e))
            if e is True:
                break
        if not vals:
            I.log('callerror', {'fn': 'index', 'why': 'the list has no such element'})
            raise Dead('index')
        if all(isinstance(e, bool) or isinstance(e, Term) for _, e in vals):
            return first_present(vals)
        return Atom('index', (I.as_term(o), I.as_term(args[0])), 'num')
    if name in ('index', 'count'):
        return Atom(name, (I.as_term(o), I.as_term(args[0])), 'num')
    if name == 'sort':
        heap[o.addr] = ListCell(mkseq([Atom('ext', (Atom('sorted', (I.as_term(o),), 'obj'),), 'obj')]))
        return None
    if name not in LISTM:
        I.log('attrerror', {'cls': 'list', 'attr': name})
        raise Dead('list method ' + name)
    raise Unsupported('list method ' + name)


def dict_method(I, o, c, name, args, kwargs):
    if name in ('pop', 'update', 'clear', 'popitem') or name == 'setdefault' and dig(args[0]) not in c.items:
        I.writes(o, name)
    if name == 'items':
        if c.base is not None:
            return Atom('mcall', (I.as_term(o), 'items', ()), 'obj')
        return IterVal('items', [o])
    if name == 'keys':
        return tuple(k for k, _ in c.items.values())
    if name == 'values':
        return tuple(v for _, v in c.items.values())
    if name in ('get', 'pop', 'setdefault'):
        d = dig(args[0])
        dflt = args[1] if len(args) > 1 else None
        if d in c.items:
            v = c.items[d][1]
            if name == 'pop':
                I.st.heap[o.addr] = DictCell({k: x for k, x in c.items.items() if k != d}, c.base)
            return v
        if c.base is not None or isinstance(args[0], Term) and c.items:
            return Atom('mcall', (I.as_term(o), 'get', I.as_term(args[0]), I.as_term(dflt)), 'unk')
        if name == 'pop' and len(args) < 2:
            I.log('keyerror', {'key': args[0]})
            raise Dead('key')
        if name == 'setdefault':
            I.store_sub(o, args[0], dflt, None, None)
        return dflt
    if name == 'update':
        src = dict(c.items)
        base = c.base
        if args:
            if isinstance(args[0], Ref) and isinstance(I.cell(args[0]), DictCell):
                src.update(I.cell(args[0]).items)
                base = I.cell(args[0]).base or base
            elif isinstance(args[0], Term):
                base = args[0]
        for k, v in kwargs.items():
            src[dig(k)] = (k, v)
        I.st.heap[o.addr] = DictCell(src, base)
        return None
    if name == 'copy':
        return Ref(I.alloc(DictCell(dict(c.items), c.base)))
    raise Unsupported('dict method ' + name)


def inst_params(I, o):
    return Atom('mcall', (I.as_term(o), 'parameters', ()), 'obj', {'notnone': True})


def is_module(I, v):
    """True, False, 'param' or None (not known)"""
    if isatom(v, 'ref'):
        v = v.meta['val']
    elif isatom(v, 'inst'):
        v = v.meta['ref']
    if isinstance(v, Ref):
        c = I.cell(v)
        return isinstance(c, InstCell) and any(isinstance(b, Ext) and b.name in MODULE_LIKE for b in I.ext_bases(c.cls))
    if isinstance(v, Atom):
        m = v.meta or {}
        if v.op == 'new':
            n = v.args[0]
            if n == 'torch.nn.Parameter' or n == 'torch.nn.parameter.Parameter':
                return 'param'
            return n.startswith('torch.nn.')
        if m.get('isa') is not None:
            return 'param' if 'torch.nn.Parameter' in m['isa'] else 'torch.nn.Module' in m['isa']
        if v.kind in ('tensor', 'num', 'bool', 'fn'):
            return False
        return None
    if isinstance(v, Term) and v.kind not in ('tensor', 'num', 'bool'):
        return None
    return False


MODULE_LIKE = {'torch.nn.Module', 'pytorch_lightning.LightningModule', 'torch.nn.modules.module.Module'}


def module_walk(I, o, what):
    """parameters or modules of an instance whose attributes are all known; None when something is not"""
    named = what.startswith('named_')
    kind = what[6:] if named else what
    out, seen, good = [], set(), [True]

    def attrs(v):
        c = I.cell(v)
        if not any(isinstance(b, Ext) and b.name in MODULE_LIKE for b in I.ext_bases(c.cls)):
            return None
        reg = c.attrs.get('__registered__', ())
        return [(n, a, 'param' if n in reg else is_module(I, a)) for n, a in c.attrs.items() if a is not UNDEF and not (n in reg and a is None)]

    def add(prefix, v):
        d = dig(I.as_term(v))
        if d in seen:
            return False
        seen.add(d)
        out.append((prefix, v) if named else v)
        return True

    def visit(prefix, v):
        if isatom(v, 'ref'):
            v = v.meta['val']
        elif isatom(v, 'inst'):
            v = v.meta['ref']
        if isinstance(v, Ref):
            a = attrs(v)
            if a is None or any(k is None for _, _, k in a):
                good[0] = False
                return
            if kind == 'modules' and not add(prefix, v):
                return
            j = prefix + '.' if prefix else ''
            if kind == 'parameters':
                for n, x, k in a:
                    if k == 'param':
                        add(j + n, x)
            for n, x, k in a:
                if k is True:
                    if kind == 'children':
                        add(n, x)
                    else:
                        visit(j + n, x)
            return
        ms = (v.meta or {}).get('methods', {})
        ov = I.st.heap[OVERLAY].items.get(dig((v, 'parameters'))) if kind == 'parameters' else None
        if kind in ms and ov is None and not (named and kind == 'parameters'):
            xs = I.as_seq(ms[kind](I, [], {}))
            if not isinstance(xs, tuple):
                good[0] = False
                return
            for x in xs:
                add(prefix, x)
        elif 'named_' + kind in ms:
            for q, x in I.as_seq(ms['named_' + kind](I, [], {})):
                add(prefix + ('.' + q if prefix and q else q), x)
        else:
            good[0] = False
    if not isinstance(o, Ref) or not isinstance(I.cell(o), InstCell):
        return None
    if kind == 'children':
        a = attrs(o)
        if a is None or any(k is None for _, _, k in a):
            return None
    visit('', o)
    return tuple(out) if good[0] else None


def inst_method(I, o, c, name, args, kwargs):
    if name in ('to', 'cuda', 'cpu', 'float', 'double', 'train', 'eval', 'requires_grad_', 'half', 'type', 'zero_grad'):
        return o
    if name == '__init__':
        return None
    if name in ('register_parameter', 'register_buffer', 'register_module', 'add_module'):
        if isinstance(args[0], str):
            I.setattr(o, args[0], args[1] if len(args) > 1 else kwargs.get('param', kwargs.get('tensor')))
            if name == 'register_parameter':
                I.setattr(o, '__registered__', tuple(I.cell(o).attrs.get('__registered__', ())) + (args[0],))
            I.log('register', {'obj': o, 'kind': name, 'name': args[0], 'value': args[1] if len(args) > 1 else None})
        return None
    if name in ('parameters', 'named_parameters', 'modules', 'named_modules', 'children', 'named_children', 'state_dict'):
        r = module_walk(I, o, name) if not args and not kwargs and name != 'state_dict' else None
        if r is not None:
            return I.new_list(r)
        return Atom('mcall', (I.as_term(o), name, ()), 'obj', {'notnone': True})
    if name in ('forward', '__call__'):
        I.log('attrerror', {'cls': c.cls.qual, 'attr': name})
        raise Dead('no forward')
    if name in ('log', 'log_dict', 'save_hyperparameters'):
        return None
    return Atom('mcall', (I.as_term(o), name) + tuple(I.as_term(a) for a in args), 'unk')


def tensor_method(I, o, name, args, kwargs):
    if isatom(o, 'maybe') and I.equal(o, None) is not False:
        I.log('nonegrad', {'value': o, 'wrt': (o.meta or {}).get('wrt'), 'attr': name})
    if isinstance(o, Atom) and o.meta and name in o.meta.get('methods', {}):
        return o.meta['methods'][name](I, args, kwargs)
    if name in IDENT_METHODS:
        if name == 'requires_grad_':
            flag = args[0] if args else kwargs.get('requires_grad', True)
            I.log('requires_grad', {'tensor': o, 'flag': flag})
            return o
        if isinstance(o, Term) and name in ('clone', 'contiguous'):
            r = I.fresh(o)
            if name == 'clone':
                I.log('clone', {'tensor': o, 'value': r})
            return r
        if name == 'type' and not args:
            return Atom('fstring', (o,), 'obj', {'notnone': True})
        return o
    if name == 'backward':
        I.log('backward', {'tensor': o, 'args': args})
        return None
    if name == 'size':
        a, k = norm_args(I, name, args, kwargs)
        d = a[0] if a else k.get('dim')
        return size(o, d) if d is not None else shape(o)
    if name in ('tolist',):
        return I.new_list(mkseq([Atom('ext', (o,), 'obj')]))
    if name in ('clone_', 'copy_', 'fill_', 'zero_', 'add_', 'sub_', 'mul_', 'div_', 'clamp_', 'abs_', 'neg_', 'exp_', 'sqrt_', 'pow_', 'addcmul_', 'lerp_',
                'squeeze_', 'unsqueeze_', 'normal_', 'uniform_', 'detach_', 'relu_', 'tanh_', 'sigmoid_', 'masked_fill_', 'scatter_', 'transpose_', 'addcdiv_', 't_',
                'index_add_', 'index_copy_', 'round_', 'floor_'):
        if name == 'detach_':
            new = UN['detach'](o)
        elif name == 'copy_':
            new = I.num(args[0])
        elif name == 'fill_':
            new = I.num(args[0])
        elif name == 'zero_':
            new = 0
        elif name in ('normal_', 'uniform_'):
            new = random_value(I, 'torch.' + name, args, kwargs)
            if isinstance(o, Term):
                new = Atom('rand', new.args, 'tensor', {**new.meta, 'like': shape(o)})
        else:
            new = tensor_method(I, o, name[:-1], args, kwargs)
        if isinstance(o, Term):
            if isnum(new):
                new = mul(new, Atom('ones', (shape(o),))) if new != 0 else Atom('zeros', (shape(o),))
            return I.inplace(o, new, I.node)
        return new
    if name == '__getitem__':
        return I.subscript(o, args[0])
    if name in ('exponential_',):
        return random_value(I, 'torch.' + name, args, kwargs)
    if name == 'register_hook':
        return None
    if name == 'item' and isinstance(o, Term) and getattr(I, 'plain_items', False):
        return o
    if name == 'item' and isinstance(o, Term):
        return UN['item'](o)
    if name == 'norm' and isatom(o, 'seq', 'new'):
        pass
    a, k = norm_args(I, name, args, kwargs)
    x = o
    if isinstance(o, Atom) and o.kind == 'unk':
        pass
    try:
        r = tensor_op(name, [x] + a, k)
    except ZeroDivisionError:
        raise Dead('division by zero')
    if r is NotImplemented:
        r = Atom('mcall', (I.as_term(o), name) + tuple(a) + tuple((kk, v) for kk, v in sorted(k.items())), 'tensor' if isinstance(o, Term) and o.kind == 'tensor' else 'unk')
    if isinstance(r, Term) and r is o and r.kind == 'tensor':
        r = I.fresh(r)
    return r


# ---------------------------------------------------------------- precise mode
def precise_call(I, name, args, kwargs, r):
    """creation of tensors and operations, with their dtypes (see dtypes.py)"""
    from . import dtypes
    base = name.split('.')[-1]
    if not name.startswith('torch.'):
        return r
    if base in dtypes.CREATE and (name == 'torch.' + base):
        a, k = norm_args(I, base, args, kwargs)
        if base == 'as_tensor' and a and isinstance(a[0], Term) and a[0].kind == 'tensor' and 'dtype' not in k:
            return r
        if isnum(r) or isinstance(r, Term):
            sig = {'full': ('size', 'fill_value'), 'linspace': ('start', 'end', 'steps'), 'tensor': ('data',), 'as_tensor': ('data',)}.get(base, ())
            a = list(a) + [k[n] for n in sig[len(a):] if n in k]
            v = dtypes.typed(r, base, a, k)
            I.log('typing', {'op': 'create', 'args': (v,), 'name': base})
            return v
        return r
    if base in dtypes.ARITH:
        a, k = norm_args(I, base, args, kwargs)
        I.log('typing', {'op': base, 'args': tuple(a) + tuple(k.values())})
    return r


def precise_method(I, o, name, args, kwargs, r):
    from . import dtypes
    if isinstance(o, Ref) or not (isinstance(o, Term) and o.kind == 'tensor'):
        return r
    if name in dtypes.CAST:
        a, k = norm_args(I, name, args, kwargs)
        t = ('fixed', dtypes.F64) if name == 'double' else ('fixed', dtypes.F32) if name in ('float', 'half') else k.get('dtype', k.get('other'))
        t = next((b for b in a if not isinstance(b, (str, bool)) and not (isatom(b, 'attr') and b.args[1] == 'device')), None) if t is None else t
        if t is None or isinstance(t, str) or isatom(t, 'attr') and t.args[1] == 'device':
            return r
        I.log('typing', {'op': 'cast', 'args': (o, t)})
        return Atom('cast', (o, t), 'tensor')
    if name in dtypes.CREATE and name.startswith('new_'):
        a, k = norm_args(I, name, args, kwargs)
        return dtypes.typed(r, name, [o] + a, k)
    if name in dtypes.ARITH:
        a, k = norm_args(I, name, args, kwargs)
        I.log('typing', {'op': name, 'args': (o,) + tuple(a) + tuple(k.values())})
    return r
