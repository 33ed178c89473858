"""Rules about parallel-in-time (multiple shooting) solvers and fixed-step drivers of several grids."""
from .base import *
from .drivers import refusals

ODE = 'torchdyn.numerics.solvers.ode'
OD = 'torchdyn.numerics.odeint'
TP = 'torchdyn.numerics.solvers.templates'
f = vf()
x, B, T = sym('x'), sym('B', ndim=3), sym('T', ndim=1)
fs, mi = sym('fine', 'num', int=True), sym('maxiter', 'num', int=True)


def abstract_solve(I):
    def run(It, a, k):
        b = dict(zip(('f', 'x', 't_span', 'solver', 'save_at', 'args'), a), **k)
        v = Atom('fun', ('solve', It.as_term(b['f']), It.as_term(b['x']), It.as_term(b['t_span']), It.as_term(b['solver'])), 'tensor', {'notnone': True})
        return sym('times'), v
    return PyFunc('solve', run)


def concrete_solve(full=False):
    """solve function that works on every row of a stack of states separately"""
    def one(It, slv, y, q):
        rest = (It.as_term(q['f']), It.as_term(q['t_span'])) if full else ()
        return Atom('fun', ('run', slv, It.as_term(y)) + rest, 'tensor', {'notnone': True})

    def run(It, a, k):
        q = dict(zip(('f', 'x', 't_span', 'solver', 'save_at', 'args'), a), **k)
        v = It.as_term(q['x'])
        slv = It.as_term(q['solver'])
        rows = rows_of(It, v)
        r = one(It, slv, v, q) if rows is None else tensor('stack', tuple(one(It, slv, y, q) for y in rows))
        return sym('times'), tensor('stack', (sym('inner'), r))
    return PyFunc('solve', run)


CO, FI = (sym(n, 'obj', notnone=True, isa=(), pytype='torchdyn.Solver', attrs={'sync_device_dtype': PyFunc('sync', lambda I, a, k: (a[0], a[1]))}) for n in ('COARSE', 'FINE'))


@rule('C13')
def sweeps(ctx):
    for c, name in (('MSZero', 'parareal'), ('MSBackward', 'newton')):
        def go(c=c, name=name):
            I = ctx.interp(ODE, spec=('shooting',))
            w = fn_where(I, ODE, c)
            s = instance(I, ODE, c, [CO, FI])
            got = method(I, s, 'root_solve', [abstract_solve(I), f, x, T, B, fs, mi])
            methods = [CO, FI] if c == 'MSZero' else [FI]
            want = I.call(I.get('spec.shooting', name), [abstract_solve(I)] + methods + [f, B, T, fs, mi], {})
            ctx.compare('C13', I, {'shooting values': got}, {'shooting values': want}, None, w, construct=c)
            ctx.done(I)

        def small(c=c, name=name):
            for n in (2, 3, 4):
                for it in range(n):
                    I = ctx.interp(ODE, spec=('shooting',))
                    w = fn_where(I, ODE, c)
                    s = instance(I, ODE, c, [CO, FI])
                    b = tensor('stack', tuple([x] + [sym(f"b{i}") for i in range(1, n)]))
                    grid = tensor('stack', tuple(sym(f"t{i}", ndim=0) for i in range(n)))
                    run = concrete_solve(True)
                    got = I.as_term(method(I, s, 'root_solve', [run, f, x, grid, b, fs, it]))
                    methods = [CO, FI] if c == 'MSZero' else [FI]
                    want = I.as_term(I.call(I.get('spec.shooting', name), [run] + methods + [f, b, grid, fs, it], {}))
                    for i in range(n):
                        ctx.equal('C13', f"{c}, {n} times, {it} iterations/shooting value {i}", I, getitem(got, i), getitem(want, i), w)
                    ctx.done(I)
        ctx.either('C13', c, go, small)


@rule('C13')
def exact(ctx):
    """with as many sweeps as subintervals the result is the sequential fine solution"""
    for c in ('MSZero', 'MSBackward'):
        for n in (2, 3, 4):
            def go(c=c, n=n):
                I = ctx.interp(ODE)
                w = fn_where(I, ODE, c)
                s = instance(I, ODE, c, [CO, FI])
                b = [x] + [sym(f"b{i}") for i in range(1, n)]
                got = I.as_term(method(I, s, 'root_solve', [concrete_solve(), f, x, tensor('stack', tuple(sym(f"t{i}", ndim=0) for i in range(n))), tensor('stack', tuple(b)), fs, n]))
                want = [x]
                for i in range(1, n):
                    want.append(Atom('fun', ('run', FI, want[-1]), 'tensor', {'notnone': True}))
                for i in range(n):
                    ctx.equal('C13', f"{c}, {n - 1} subintervals/shooting value {i} is the sequential fine solution", I, getitem(got, i), want[i], w)
                ctx.done(I)
            ctx.guard('C13', f"exact {c} {n}", go)


def rows_of(I, v):
    s = I.as_term(v)
    if isatom(s, 'stack') and isinstance(s.args[0], tuple):
        return list(s.args[0])
    return None


def tensor(op, *a):
    from ..torchlib import tensor_op
    return tensor_op(op, list(a), {})


@rule('C13')
def entry(ctx):
    def go():
        for guess in (True, False):
            I = ctx.interp(OD)
            w = OD + '.odeint_mshooting'
            seen, coarse = [], []
            S = sym('MS', 'obj', notnone=True, isa=(), pytype='torchdyn.Solver', attrs={
                'coarse_method': CO, 'fine_method': FI, 'sync_device_dtype': PyFunc('sync', lambda I_, a, k: (a[0], a[1])),
                'root_solve': PyFunc('root_solve', lambda I_, a, k: seen.append((list(a), dict(k))) or sym('ROOT'))})
            I.opaque[OD + '.odeint'] = lambda I_, f_, b: coarse.append(dict(b)) or (sym('ct'), sym('GUESS'))
            r = I.call(need(I, OD, 'odeint_mshooting'), [f, x, T, S], dict({'fine_steps': fs, 'maxiter': mi}, **({'B0': B} if guess else {})))
            name = 'guess given' if guess else 'no guess'
            ctx.equal('C13', f"odeint_mshooting, {name}/result", I, r, (T, sym('ROOT')), w)
            ctx.check('C13', f"odeint_mshooting, {name}/one root search", len(seen) == 1, w, f"{len(seen)} root searches")
            if len(seen) == 1:
                a = seen[0][0] + list(seen[0][1].values())
                want = [f, x, T, B if guess else sym('GUESS'), fs, mi]
                for n, g, v in zip(('field', 'state', 'grid', 'guess', 'fine steps', 'iterations'), a[1:], want):
                    ctx.equal('C13', f"odeint_mshooting, {name}/{n} of the root search", I, I.as_term(g), v, w)
            if not guess:
                ok = len(coarse) == 1 and all(same(I.as_term(coarse[0][k]), v) for k, v in (('f', f), ('x', x), ('t_span', T), ('solver', CO)))
                ctx.check('C13', 'odeint_mshooting, no guess/guess is the coarse solution', ok, w, 'the first guess is not the coarse solution of the problem on the grid')
            ctx.done(I)
    ctx.guard('C13', 'odeint_mshooting', go)

    def names():
        I = ctx.interp(OD)
        I.opaque[OD + '.odeint'] = lambda I_, f_, b: (sym('ct'), sym('GUESS'))
        got = []
        I.opaque[ODE + '.str_to_ms_solver'] = lambda I_, f_, b: got.append(list(b.values())) or sym('MS', 'obj', notnone=True, attrs={
            'coarse_method': CO, 'sync_device_dtype': PyFunc('sync', lambda I_, a, k: (a[0], a[1])), 'root_solve': PyFunc('root_solve', lambda I_, a, k: sym('ROOT'))})
        I.call(need(I, OD, 'odeint_mshooting'), [f, x, T, 'mszero'], {})
        ctx.check('C13', 'odeint_mshooting/solver by name', len(got) == 1 and got[0][0] == 'mszero', OD + '.odeint_mshooting', 'the named solver is not looked up')
        ctx.done(I)
    ctx.guard('C13', 'names', names)


@rule('C13')
def grids(ctx):
    for fn, spec in (('_shifted_fixed_odeint', 'shifted'), ('_jagged_fixed_odeint', 'jagged')):
        def go(fn=fn, spec=spec):
            I = ctx.interp(OD, spec=('ode',))
            S = solver('fixed')
            if spec == 'shifted':
                TS = sym('T', ndim=2)
                a = lambda: [f, sym('x', ndim=3), TS, S]
            else:
                segs = tuple(sym(f"T{i}", ndim=1) for i in range(2))
                a = lambda: [f, tensor('stack', (sym('xa', ndim=2), sym('xb', ndim=2))), I.new_list(segs), S]
            got = I.call(need(I, OD, fn), a(), {})
            want = I.call(I.get('spec.ode', spec), a(), {})
            ctx.compare('C13', I, {'solution': got}, {'solution': want}, None, OD + '.' + fn, construct=fn)
            ctx.done(I)
        ctx.guard('C13', fn, go)
