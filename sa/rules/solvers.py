"""Rules about single steps: Runge-Kutta tableaux, error estimates, implicit, symplectic and hyper steps."""
from fractions import Fraction
from .base import *

ODE = 'torchdyn.numerics.solvers.ode'
HYP = 'torchdyn.numerics.solvers.hyper'

f, x, t, dt = vf(), sym('x'), sym('t', ndim=0), sym('dt', ndim=0)
TOL = 1e-10


# ------------------------------------------------------------------ stage graphs
def coeffs(v, base):
    """v = base + dt * sum c_k k  ->  {k: c}; None when v has another shape"""
    d = sub(v, base)
    out = {}
    for m, c in pterms(d).items():
        rest = [(a, e) for a, e in m]
        dts = [p for p in rest if same(p[0], dt)]
        oth = [p for p in rest if not same(p[0], dt)]
        if len(dts) != 1 or dts[0][1] != 1 or len(oth) != 1 or oth[0][1] != 1:
            return None
        if isatom(oth[0][0], 'zeros', 'zeros_like'):
            continue
        out[oth[0][0].dig] = (oth[0][0], c)
    return out


class NotRK(Exception):
    pass


def butcher(v, base=x):
    """Butcher tableau read off the value graph of a step: stages in evaluation order, nodes, matrix, weights"""
    stages, order = {}, []

    def visit(k):
        if k.dig in stages:
            return
        if not (isinstance(k, Atom) and k.op == 'call' and same(k.args[0], f)) or len(k.args[1]) != 2:
            raise NotRK(f"{show(k, 4)[:120]} is not an evaluation of the vector field at (time, state)")
        tt, xx = k.args[1]
        c = pterms(sub(tt, t))
        cd = {m: w for m, w in c.items()}
        node = 0
        for m, w in cd.items():
            if len(m) == 1 and same(m[0][0], dt) and m[0][1] == 1:
                node += w
            else:
                raise NotRK(f"stage time {show(tt, 4)[:120]} is not t + c*dt")
        row = coeffs(xx, base)
        if row is None:
            raise NotRK(f"stage state {show(xx, 4)[:160]} is not x + dt * (combination of stages)")
        for kk, _ in row.values():
            visit(kk)
        stages[k.dig] = (node, row)
        order.append(k.dig)
    b = coeffs(v, base)
    if b is None:
        raise NotRK(f"{show(v, 4)[:200]} is not x + dt * (combination of stages)")
    for kk, _ in b.values():
        visit(kk)
    return order, stages, b, visit


# ------------------------------------------------------------------ rooted trees
def trees(n, memo={}):
    """rooted trees with n vertices, as sorted tuples of subtrees"""
    if n in memo:
        return memo[n]
    if n == 1:
        r = [()]
    else:
        r = []

        def parts(total, mx):
            if total == 0:
                yield []
                return
            for k in range(min(total, mx), 0, -1):
                for rest in parts(total - k, k):
                    yield [k] + rest
        seen = set()
        for p in parts(n - 1, n - 1):
            acc = [()]
            for k in p:
                acc = [a + (s,) for a in acc for s in trees(k)]
            for a in acc:
                key = tuple(sorted(a, key=repr))
                if key not in seen:
                    seen.add(key)
                    r.append(key)
    memo[n] = r
    return r


def size_(tr):
    return 1 + sum(size_(s) for s in tr)


def gamma(tr):
    g = size_(tr)
    for s in tr:
        g *= gamma(s)
    return g


def weight(tr, A, k, memo):
    """elementary weight of stage k"""
    key = (tr, k)
    if key not in memo:
        r = Fraction(1)
        for s in tr:
            r *= sum((a * weight(s, A, j, memo) for j, a in A[k].items()), Fraction(0))
        memo[key] = r
    return memo[key]


def order_conditions(order, stages, b, p):
    """[(tree, residual)] for every rooted tree with at most p vertices"""
    A = {k: {j: Fraction(c) for j, (_, c) in stages[k][1].items()} for k in order}
    memo = {}
    for n in range(1, p + 1):
        for tr in trees(n):
            lhs = sum((Fraction(c) * weight(tr, A, k, memo) for k, (_, c) in b.items()), Fraction(0))
            yield tr, lhs - Fraction(1, gamma(tr))


def run_step(ctx, mod, name, args=(), k1=None, kwargs=None, d=None):
    I = ctx.interp(mod)
    s = instance(I, mod, name, args, kwargs or {})
    r = method(I, s, 'step', [f, x, t, dt if d is None else d] + ([k1] if k1 is not None else []))
    return I, s, r


def parts(I, r):
    """components of the tuple a step returns"""
    if not isinstance(r, tuple):
        raise Vanished('step does not return a tuple')
    return [I.as_term(v) for v in r]


EXPLICIT = [('Euler', 1), ('Midpoint', 2), ('RungeKutta4', 4), ('DormandPrince45', 5), ('Tsitouras45', 5)]
EMBEDDED = ['DormandPrince45', 'Tsitouras45']


@rule('C01')
def rk_order(ctx):
    for name, p in EXPLICIT:
        def go(name=name, p=p):
            I, s, r = run_step(ctx, ODE, name)
            w = fn_where(I, ODE, name)
            P = parts(I, r)
            sol = P[1]
            ctx.check('C01', f"{name}/declared order", I.getattr(s, 'order') == p, w,
                      f"declares order {show(I.getattr(s, 'order'))}, the method is of order {p}")
            try:
                order, stages, b, _ = butcher(sol)
            except NotRK as e:
                ctx.check('C01', f"{name}/Runge-Kutta form", False, w, str(e))
                return
            ctx.check('C01', f"{name}/Runge-Kutta form", True)
            for i, k in enumerate(order):
                c, row = stages[k]
                rs = sum((v for _, v in row.values()), Fraction(0))
                ctx.check('C01', f"{name}/stage {i + 1} time", abs(float(c - rs)) < TOL, w,
                          f"stage {i + 1} is evaluated at t + {float(c):.6g}*dt on a state advanced by {float(rs):.6g}*dt")
            for tr, res in order_conditions(order, stages, b, p):
                ctx.check('C01', f"{name}/order condition of tree {tr}", abs(float(res)) < TOL, w,
                          f"order-{size_(tr)} condition violated by {float(res):.3g}")
            ctx.done(I)
        ctx.guard('C01', name, go)
    # the state dtype conversion keeps the coefficients
    def sync():
        I = ctx.interp(ODE)
        for name, _ in EXPLICIT:
            s = instance(I, ODE, name)
            before = method(I, s, 'step', [f, x, t, dt])
            y, tt = I.as_seq(method(I, s, 'sync_device_dtype', [x, sym('T', ndim=1)]))
            ctx.equal('C01', f"{name}/coefficients survive device and dtype synchronisation", I,
                      method(I, s, 'step', [f, x, t, dt]), before, fn_where(I, ODE, name))
            ctx.equal('C01', f"{name}/synchronisation returns the caller's state and grid", I, (y, tt), (x, sym('T', ndim=1)), fn_where(I, ODE, name))
        ctx.done(I)
    ctx.guard('C01', 'sync', sync)


@rule('C02')
def embedded(ctx):
    for name in EMBEDDED:
        def go(name=name):
            I, s, r = run_step(ctx, ODE, name)
            w = fn_where(I, ODE, name)
            P = parts(I, r)
            ctx.check('C02', f"{name}/result", len(P) == 4, w, f"step returns {len(P)} values instead of (derivative, state, error, stages)")
            if len(P) != 4:
                return
            sol, err, stg = P[1], P[2], P[3]
            try:
                order, stages, b, visit = butcher(sol)
            except NotRK as e:
                ctx.check('C02', f"{name}/Runge-Kutta form", False, w, str(e))
                return
            e = coeffs(err, 0)
            ctx.check('C02', f"{name}/error form", e is not None and len(e) > 0, w, 'error estimate is not dt * (combination of stages)')
            if not e:
                return
            try:
                for k, _ in e.values():
                    visit(k)
            except NotRK as ex:
                ctx.check('C02', f"{name}/error stages", False, w, str(ex))
                return
            ctx.check('C02', f"{name}/error stages", True)
            tot = float(sum(c for _, c in e.values()))
            ctx.check('C02', f"{name}/error weights sum to zero", abs(tot) < 1e-9, w, f"weights of the error estimate sum to {tot:.3g}")
            bh = {}
            for k in set(b) | set(e):
                a = (b.get(k) or e.get(k))[0]
                bh[k] = (a, (b[k][1] if k in b else 0) - (e[k][1] if k in e else 0))
            for sgn, who in ((1, 'companion'),):
                worst = max((abs(float(res)), tr) for tr, res in order_conditions(order, stages, bh, 4)) if order else (1, ())
                # the sign of the estimate is irrelevant: accept either orientation
                alt = {k: (a, 2 * (b[k][1] if k in b else 0) - c) for k, (a, c) in bh.items()}
                worst2 = max((abs(float(res)), tr) for tr, res in order_conditions(order, stages, alt, 4))
                best = min(worst, worst2)
                ctx.check('C02', f"{name}/companion solution has order 4", best[0] < 1e-9, w,
                          f"the solution the error is measured against violates the order-{size_(best[1])} condition by {best[0]:.3g}")
                five = [abs(float(res)) for tr, res in order_conditions(order, stages, bh if best is worst else alt, 5) if size_(tr) == 5]
                ctx.check('C02', f"{name}/error is of fifth order and not identically zero", max(five) > 1e-6, w, 'error estimate is identically zero to fifth order')
            st = I.as_term(stg)
            ctx.check('C02', f"{name}/reported stages", isinstance(st, tuple) and [dig(v) for v in st] == order_with(order, st), w,
                      'the stages handed to the interpolant are not the stages of the step in evaluation order')
            ctx.done(I)
        ctx.guard('C02', name, go)


def order_with(order, st):
    """the stages by increasing dependency: k1 first, each one after those it uses"""
    ds = [dig(v) for v in st]
    return ds if set(ds) == set(order) and all(order.index(a) < order.index(b) for a, b in zip(ds, ds[1:])) else None


@rule('C03')
def fsal_step(ctx):
    K = sym('K1')
    for name, _ in EXPLICIT:
        def go(name=name):
            I, s, r0 = run_step(ctx, ODE, name)
            w = fn_where(I, ODE, name)
            k1 = I.as_term(I.call(f, [t, x], {}))
            r1 = method(I, s, 'step', [f, x, t, dt], {'k1': K})
            a, b = I.as_term(r1), I.as_term(r0)
            ctx.equal('C03', f"{name}/supplied first stage replaces f(t, x)", I, replace_any(a, K, k1), b, w)
            ctx.check('C03', f"{name}/supplied first stage is used", not has(a, lambda u: same(u, k1)), w,
                      'f(t, x) is evaluated although the first stage is supplied')
            if name in EMBEDDED:
                P = parts(I, r0)
                fn, sol = P[0], P[1]
                ok = isinstance(fn, Atom) and fn.op == 'call' and same(fn.args[0], f) and len(fn.args[1]) == 2
                ctx.check('C03', f"{name}/returned derivative is an evaluation of f", ok, w, f"found {show(fn, 4)[:160]}")
                if ok:
                    tt, xx = fn.args[1]
                    ctx.check('C03', f"{name}/returned derivative is at the end of the step", same(tt, add(t, dt)), w, f"time argument is {show(tt)}")
                    d = sub(xx, sol)
                    big = max([abs(float(c)) for c in pterms(d).values()] or [0])
                    ctx.check('C03', f"{name}/returned derivative is at the new state", big < 1e-9, w,
                              f"state argument differs from the new state by {show(d, 4)[:200]}")
            ctx.done(I)
        ctx.guard('C03', name, go)


def replace_any(v, a, b):
    return replace(v, [(a, b)])
