"""Rules about the benchmark systems."""
from .base import *

SY = 'torchdyn.numerics.systems'
t, ts = sym('t', ndim=0), sym('ts', ndim=1)
PLAIN = {'Lorenz': ('lorenz', 3), 'VanDerPol': ('van_der_pol', 2), 'ODEProblem2': ('growth', 2), 'ODEProblem3': ('decay', 2), 'ODEProblem4': ('rabinovich_fabrikant', 3), 'SineSystem': ('sine', 2)}
SERIES = ('FourierSystem', 'StiffFourierSystem', 'CoupledFourierSystem')


@rule('C33')
def equations(ctx):
    for c, (name, n) in PLAIN.items():
        def go(c=c, name=name, n=n):
            for shape in ((n,), (2, n), (2, 2, n)):
                I = ctx.interp(SY, spec=('systems',))
                w = fn_where(I, SY, c)
                x = sym('x', ndim=len(shape))
                mu = sym('mu', 'num')
                o = instance(I, SY, c, [mu] if c == 'VanDerPol' else [])
                got = I.call(o, [t, x], {})
                want = I.call(I.get('spec.systems', name), [t, x] + ([mu] if c == 'VanDerPol' else []), {})
                ctx.equal('C33', f"{c}/right-hand side, {len(shape)} dimensions", I, I.as_term(got), I.as_term(want), w, sizes=[Sizes({x: shape, t: ()})])
                # called by a solver: time, state and extra arguments by name
                if c in ('Lorenz', 'VanDerPol'):
                    again = I.call(o, [t, x], {'args': sym('args', 'obj')})
                    ctx.equal('C33', f"{c}/same with extra arguments, {len(shape)} dimensions", I, I.as_term(again), I.as_term(got), w)
                ctx.done(I)
        ctx.guard('C33', c, go)


@rule('C33')
def series(ctx):
    for c in SERIES:
        def go(c=c):
            I = ctx.interp(SY, spec=('systems',))
            w = fn_where(I, SY, c)
            d, h = 2, 3
            o = instance(I, SY, c, [], {'dim': d})
            ps = {k: sym(k, ndim=3) for k in ('A', 'w', 'phi')}
            drawn = {k: I.as_term(I.getattr(o, k)) for k in ps}
            for k, v in ps.items():
                I.setattr(o, k, v)
            M = sym('MIX', 'fn', params=('x',))
            if c.startswith('Coupled'):
                I.setattr(o, 'mixing_l', M)
            mix = (lambda v: I.call(M, [v], {})) if c.startswith('Coupled') else (lambda v: v)
            x = sym('x', ndim=2)
            q = [ps['A'], ps['w'], ps['phi']]
            for n in (None, 1, 3):
                tt = t if n is None else ts
                S = [Sizes({x: (1, d), tt: () if n is None else (n,), **{v: (d, h, 2) for v in q}}, {M: rows('MIX', d)})]
                got = I.call(o, [tt, x], {})
                want = I.call(I.get('spec.systems', 'harmonics' if n is None else 'series'), [tt] + q, {})
                ctx.equal('C33', f"{c}/value at {'one time' if n is None else f'each of {n} times'}", I, I.as_term(got), I.as_term(mix(want)), w, sizes=S)
            method(I, o, 'randomize_parameters', [])
            for k in ps:
                new = I.as_term(I.getattr(o, k))
                ctx.check('C33', f"{c}/{k} is drawn again as at first", isatom(new, 'rand') and isatom(drawn[k], 'rand') and same(new.args[1], drawn[k].args[1]) and new.args[-1] != drawn[k].args[-1], w,
                          f"{k} becomes {show(new, 4)[:200]}, at first {show(drawn[k], 4)[:200]}")
            ctx.done(I)
        ctx.guard('C33', c, go)


@rule('C33')
def networks(ctx):
    for c in ('LTISystem', 'MatMulSystem', 'MatMulBoundedSystem'):
        def go(c=c):
            I = ctx.interp(SY)
            w = fn_where(I, SY, c)
            o = instance(I, SY, c, [], {'dim': 3})
            x = sym('x', ndim=2)
            got = I.as_term(I.call(o, [t, x], {}))
            net = I.as_term(I.getattr(o, 'l' if c == 'LTISystem' else 'net'))
            ctx.equal('C33', f"{c}/is its network, whatever the time", I, got, I.as_term(I.call(net, [x], {})), w)
            lin = [q for q in subterms(got) if isatom(q, 'new') and q.args[0] == 'torch.nn.Linear']
            flat = []

            def chain(v):
                if isatom(v, 'new') and v.args[0] == 'torch.nn.Sequential':
                    for q in v.args[1]:
                        chain(q)
                else:
                    flat.append(v)
            chain(net)
            dims = [tuple(q.args[1]) for q in flat if isatom(q, 'new') and q.args[0] == 'torch.nn.Linear']
            ctx.check('C33', f"{c}/state dimension is kept", bool(dims) and dims[0][0] == 3 and dims[-1][1] == 3 and all(a[1] == b[0] for a, b in zip(dims, dims[1:])), w,
                      f"layer sizes {dims}")
            if c == 'MatMulBoundedSystem':
                ctx.check('C33', f"{c}/is bounded", isatom(flat[-1], 'new') and flat[-1].args[0] in ('torch.nn.Tanh', 'torch.nn.Sigmoid', 'torch.nn.Softsign'), w, 'the last layer is not bounded')
            ctx.done(I)
        ctx.guard('C33', c, go)
