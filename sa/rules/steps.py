"""Rules about special steps: implicit, leapfrog and hypersolver steps, and the dense-output polynomial."""
from fractions import Fraction
from .base import *
from .solvers import ODE, HYP, f, x, t, dt, butcher, order_conditions, size_, NotRK, parts
from .drivers import OD, IP

U = Atom('bv', (900,), 'tensor')


def optimised(ctx, rule_, name, I, v, want, w):
    """v is a minimiser of `want(u)`, computed to tight tolerances"""
    ok = isatom(v, 'argmin')
    ctx.check(rule_, f"{name}/result is the optimised iterate", ok, w, f"the new state {show(v, 4)[:160]} is not the result of the optimisation")
    if not ok:
        return
    start, i, obj, gr, (cls, opts) = v.args
    o = dict(opts)
    ctx.equal(rule_, f"{name}/objective is the squared residual", I, obj, want(U), w)
    g = gr[0]
    if g is not None:
        ctx.check(rule_, f"{name}/gradient given to the optimizer", same(g, vjp(obj, U, 1)), w, f"gradient is {show(g, 5)[:300]}")
    for k in ('tolerance_grad', 'tolerance_change'):
        ctx.check(rule_, f"{name}/{k}", not isnum(o.get(k, 0)) or float(o.get(k, 1e-7 if k == 'tolerance_grad' else 1e-9)) <= 1e-9, w,
                  f"{k} is {show(o.get(k))}: the implicit equation is left unsolved")
    ctx.check(rule_, f"{name}/iterations", not isnum(o.get('max_iter', 20)) or o.get('max_iter', 20) >= 100, w, f"only {show(o.get('max_iter', 20))} iterations are allowed")


@rule('C10')
def implicit(ctx):
    def step():
        I = ctx.interp(ODE, spec=('steps',))
        w = fn_where(I, ODE, 'ImplicitEuler')
        s = instance(I, ODE, 'ImplicitEuler')
        for k1 in (None, sym('K1')):
            r = method(I, s, 'step', [f, x, t, dt], {'k1': k1} if k1 is not None else {})
            P = parts(I, r)
            optimised(ctx, 'C10', 'ImplicitEuler' + (', first stage supplied' if k1 is not None else ''), I, P[1],
                      lambda u: I.call(I.get('spec.steps', 'implicit_residual'), [f, x, t, dt, u], {}), w)
        ctx.check('C10', 'ImplicitEuler/stepping class and order', I.getattr(s, 'stepping_class') == 'fixed' and I.getattr(s, 'order') == 1, w,
                  'implicit Euler is a first order fixed-step method')
        ctx.done(I)

    def par():
        I = ctx.interp(ODE, spec=('steps',))
        w = fn_where(I, ODE, 'ParallelImplicitEuler')
        s = instance(I, ODE, 'ParallelImplicitEuler')
        T, B = sym('T', ndim=1), sym('B', ndim=3)
        r = I.as_term(method(I, s, 'root_solve', [sym('odeint', 'fn'), f, x, T, B, sym('fine', 'num', int=True), sym('maxiter', 'num', int=True)]))
        optimised(ctx, 'C10', 'ParallelImplicitEuler', I, r,
                  lambda u: I.call(I.get('spec.steps', 'parallel_implicit_residual'), [f, x, u, T], {}), w)
        ctx.done(I)
    ctx.guard('C10', 'ImplicitEuler', step)
    ctx.guard('C10', 'ParallelImplicitEuler', par)


@rule('C11')
def leapfrog(ctx):
    def go():
        I = ctx.interp(ODE, spec=('steps',))
        w = fn_where(I, ODE, 'AsynchronousLeapfrog')
        s = instance(I, ODE, 'AsynchronousLeapfrog')
        z = sym('z')
        for k1 in (None, sym('K1')):
            r = method(I, s, 'step', [f, z, t, dt], {'k1': k1} if k1 is not None else {})
            want = I.call(I.get('spec.steps', 'leapfrog'), [f, z, t, dt], {})
            ctx.equal('C11', 'AsynchronousLeapfrog/step' + (', first stage supplied' if k1 is not None else ''), I, parts(I, r)[1], want, w)
        ctx.check('C11', 'AsynchronousLeapfrog/order', I.getattr(s, 'order') == 2, w, f"declares order {show(I.getattr(s, 'order'))}")
        # the step is its own inverse under dt -> -dt: undone from (x', v') at t + dt, with the two halves of the state as separate symbols
        X, V = sym('X', ndim=2), sym('V', ndim=2)

        def half(st):
            return I.as_term(st)
        p = want
        ok = isatom(p, 'cat') and isinstance(p.args[0], tuple) and len(p.args[0]) == 2
        if ok:
            n = I.binop('//', size(z, -1), 2)
            a, b = p.args[0]
            P = parts(I, method(I, s, 'step', [f, z, t, dt]))[1]
            if isatom(P, 'cat') and len(P.args[0]) == 2:
                zx, zv = getitem(z, (Ellipsis, Slice(None, n, None))), getitem(z, (Ellipsis, Slice(n, None, None)))
                x2, v2 = P.args[0]
                back = replace(P, [(zx, sym('X')), (zv, sym('V')), (t, add(t, dt)), (dt, neg(dt))])
                back = replace(back, [(sym('X'), x2), (sym('V'), v2)])
                ctx.equal('C11', 'AsynchronousLeapfrog/a step back undoes a step', I, back, cat_of(I, zx, zv), w)
        ctx.done(I)
    ctx.guard('C11', 'leapfrog', go)

    def driver(stepping, forder):
        def go():
            I = ctx.interp(OD, spec=('ode',))
            S = solver(stepping)
            F = sym('f', 'fn', argspec=('t', 'x'), params=('t', 'x'), attrs={'order': forder})
            T = sym('T', ndim=1)
            atol, rtol = sym('atol', 'num'), sym('rtol', 'num')
            from .drivers import results, with_attempt
            if stepping == 'fixed':
                SA = sym('SA', ndim=1)
                got = results(I, I.call(need(I, OD, 'odeint_symplectic'), [F, x, T, S], {'save_at': SA}))
                want = results(I, I.call(I.get('spec.ode', 'odeint_symplectic_fixed'), [F, x, T, S, SA], {}))
            else:
                kw = dict(atol=atol, rtol=rtol, return_all_eval=sym('all', 'bool'))
                got = results(I, I.call(need(I, OD, 'odeint_symplectic'), [F, x, T, S], dict(kw)))
                want = results(I, I.call(I.get('spec.ode', 'odeint_symplectic_adaptive'), [F, x, T, S], dict(kw)))
            ctx.done(I)
            ctx.compare('C11', I, with_attempt(I, got, S), with_attempt(I, want, S), None, OD + '.odeint_symplectic', construct=f"symplectic driver, {stepping} steps, system of order {forder}")
        return go
    for st in ('fixed', 'adaptive'):
        for fo in (1, 2):
            ctx.guard('C11', f"symplectic driver {st} {fo}", driver(st, fo))


def cat_of(I, a, b):
    from ..torchlib import tensor_op
    return tensor_op('cat', [(a, b), -1], {})


@rule('C12')
def hyper(ctx):
    net = sym('net', 'fn', params=('t', 'x'), argspec=('t', 'x'))
    for name, base, p in (('HyperEuler', 'Euler', 1), ('HyperMidpoint', 'Midpoint', 2), ('HyperRungeKutta4', 'RungeKutta4', 4)):
        def go(name=name, base=base, p=p):
            I = ctx.interp(HYP, ODE)
            w = fn_where(I, HYP, name)
            s, b = instance(I, HYP, name, [net]), instance(I, ODE, base)
            for k1 in (None, sym('K1')):
                kw = {'k1': k1} if k1 is not None else {}
                got = parts(I, method(I, s, 'step', [f, x, t, dt], dict(kw)))[1]
                ref = parts(I, method(I, b, 'step', [f, x, t, dt], dict(kw)))[1]
                want = add(ref, mul(power(dt, p + 1), I.as_term(I.call(net, [t, x], {}))))
                ctx.equal('C12', f"{name}/step is the {base} step plus dt^{p + 1} times the hypersolver network" + (', first stage supplied' if k1 is not None else ''),
                          I, got, want, w)
            ctx.check('C12', f"{name}/order", I.getattr(s, 'order') == p, w, f"declares order {show(I.getattr(s, 'order'))}")
            ctx.check('C12', f"{name}/fixed steps", I.getattr(s, 'stepping_class') == 'fixed', w, 'hypersolvers are fixed-step methods')
            at = I.cell(s).attrs.get('hypernet')
            ctx.check('C12', f"{name}/network is a submodule of the solver", at is not None and same(I.as_term(at), net), w,
                      'the hypersolver network is not stored on the solver module, so it cannot be trained through it')
            ctx.done(I)
        ctx.guard('C12', name, go)


@rule('C07')
def polynomial(ctx):
    def fit():
        I = ctx.interp(IP, spec=('steps',))
        w = fn_where(I, IP, 'FourthOrder')
        ip = instance(I, IP, 'FourthOrder', [Ext('torch.float32')])
        h, f0, f1, x0, x1, xm = [sym(n) for n in ('h', 'f0', 'f1', 'x0', 'x1', 'xm')]
        co = method(I, ip, 'fit', [h, f0, f1, x0, x1, xm])
        cs = I.as_seq(co)
        ctx.check('C07', 'fit/five coefficients', isinstance(cs, tuple) and len(cs) == 5, w, 'a fourth order fit has five coefficients')
        t0, tau = sym('t0', ndim=0), sym('tau', ndim=0)

        def at(s):
            return I.as_term(method(I, ip, 'evaluate', [co, t0, add(t0, h), add(t0, mul(s, h))]))
        ctx.equal('C07', 'interpolant/value at the start of the step', I, at(0), x0, w)
        ctx.equal('C07', 'interpolant/value at the end of the step', I, at(1), x1, w)
        ctx.equal('C07', 'interpolant/value at the middle of the step', I, at(norm(Fraction(1, 2))), xm, w)
        if isinstance(cs, tuple) and len(cs) == 5:
            ctx.equal('C07', 'interpolant/slope at the start of the step', I, cs[1], mul(h, f0), w)
            sl = 0
            for i, c in enumerate(cs):
                sl = add(sl, mul(i, I.as_term(c)))
            ctx.equal('C07', 'interpolant/slope at the end of the step', I, sl, mul(h, f1), w)
        g = [sym(f"c{i}") for i in range(5)]
        a, b = sym('a', ndim=0), sym('b', ndim=0)
        got = I.as_term(method(I, ip, 'evaluate', [I.new_list(tuple(g)), a, b, tau]))
        want = I.call(I.get('spec.steps', 'polynomial'), [I.new_list(tuple(g)), a, b, tau], {})
        ctx.equal('C07', 'evaluate/polynomial in the relative position', I, got, want, fn_where(I, IP, 'Interpolator'))
        ctx.done(I)

    def mid():
        I = ctx.interp(IP, ODE)
        w = 'torchdyn.numerics.solvers._constants.construct_4th'
        ip = I.call(need(I, IP, 'str_to_interp'), ['4th'], {})
        s = instance(I, ODE, 'DormandPrince45')
        P = parts(I, method(I, s, 'step', [f, x, t, dt]))
        bm = I.getattr(ip, 'bmid')
        stages = P[3]
        mid = x
        for i in range(len(stages)):
            mid = add(mid, mul(dt, mul(I.as_term(I.subscript(bm, i)), I.as_term(stages[i]))))
        order, st, b, _ = butcher(mid)
        for tr, _ in [(tr, 0) for tr, _ in order_conditions(order, st, b, 4)]:
            pass
        # the mid-point is reached with half the step: weights of tree tr equal 1 / (gamma * 2^|tr|)
        from .solvers import weight, gamma, trees
        A = {k: {j: Fraction(c) for j, (_, c) in st[k][1].items()} for k in order}
        for n in range(1, 5):
            for tr in trees(n):
                lhs = sum((Fraction(c) * weight(tr, A, k, {}) for k, (_, c) in b.items()), Fraction(0))
                r = float(lhs - Fraction(1, gamma(tr) * 2 ** n))
                ctx.check('C07', f"mid-point weights/order condition of tree {tr}", abs(r) < 1e-8, w, f"order-{n} condition of the mid-point violated by {r:.3g}")
        # synchronisation with the state keeps the weights
        before = I.as_term(I.getattr(ip, 'bmid'))
        T = sym('T', ndim=1)
        y = method(I, ip, 'sync_device_dtype', [x, T])
        ctx.equal('C07', 'mid-point weights survive device and dtype synchronisation', I, I.getattr(ip, 'bmid'), before, w)
        ctx.equal('C07', 'interpolator synchronisation returns state and grid', I, y, (x, T), w)
        ctx.done(I)

    def named():
        # a scheme given by name is the one the driver uses
        I = ctx.interp(OD)
        from .drivers import results, with_attempt
        S = solver('adaptive')
        T = sym('T', ndim=1)
        a = results(I, I.call(need(I, OD, 'odeint'), [f, x, T, S], {'interpolator': '4th'}))
        ip = instance(I, IP, 'FourthOrder', [Ext('torch.float32')])
        b = results(I, I.call(need(I, OD, 'odeint'), [f, x, T, S], {'interpolator': ip}))
        ctx.compare('C07', I, a, b, None, OD + '.odeint', construct='interpolator given by name')
        ctx.done(I)
    ctx.guard('C07', 'fit', fit)
    ctx.guard('C07', 'mid-point', mid)
    ctx.guard('C07', 'named', named)
