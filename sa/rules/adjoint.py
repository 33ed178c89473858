"""Rules about continuous adjoint sensitivities: dynamics, injection of incoming gradients, configuration and gradient slots."""
from .base import *

SE = 'torchdyn.numerics.sensitivity'
OI = 'torchdyn.numerics.odeint'
SOLVE = OI + '.odeint'
GATHER = {'adjoint': '_gather_odefunc_adjoint', 'interpolated_adjoint': '_gather_odefunc_interp_adjoint'}
P = (sym('p0'), sym('p1'))
NAMES = ['solver', 'atol', 'rtol', 'interpolator', 'solver_adjoint', 'atol_adjoint', 'rtol_adjoint', 'integral_loss', 'problem_type', 'maxiter', 'fine_steps']
SPLINE = sym('spline', 'obj', notnone=True)


class Case:
    """one analysed forward + backward pass with the integrations kept abstract"""

    def __init__(self, ctx, kind, loss=False, save=True, mode='standard', params=P, increasing=True, keep=True):
        self.kind, self.ctx = kind, ctx
        self.w = SE + '.' + GATHER[kind]
        I = self.I = ctx.interp(SE, spec=('adjoint',))
        self.F = sym('vf', 'fn', params=('t', 'x'), argspec=('t', 'x'), methods={'parameters': lambda It, a, k: params})
        self.loss = sym('loss', 'fn', params=('t', 'x')) if loss else None
        self.given = {'solver': sym('S', 'obj', notnone=True), 'atol': sym('atol', 'num'), 'rtol': sym('rtol', 'num'), 'interpolator': sym('ITP', 'obj', notnone=True),
                      'solver_adjoint': sym('SADJ', 'obj', notnone=True), 'atol_adjoint': sym('atol_adj', 'num'), 'rtol_adjoint': sym('rtol_adj', 'num'),
                      'integral_loss': self.loss, 'problem_type': mode, 'maxiter': sym('maxiter', 'num', int=True), 'fine_steps': sym('fine', 'num', int=True)}
        self.vp, self.x, self.t_span, self.B, self.SA = sym('vp'), sym('x'), sym('t_span', ndim=1), sym('B'), sym('save_at', ndim=1)
        self.sol, self.times = sym('sol', ndim=3), sym('t_sol', ndim=1)
        self.forward, self.backward = [], []
        self.splines = []
        self.phase = self.forward

        def integrate(I_, f, b):
            self.phase.append((f.qual, dict(b)))
            if self.phase is self.forward:
                return self.times, self.sol
            return sym('adj_t'), self.solved(I_.as_term(b['x']), I_.as_term(b['t_span']))
        I.opaque[SOLVE] = integrate
        I.opaque[OI + '.odeint_mshooting'] = integrate

        def spline(It, args, kwargs):
            kw = dict(zip(('coeffs', 't'), args), **kwargs)
            self.splines.append(kw)
            return sym('spline', 'obj', notnone=True, methods={'evaluate': lambda J, a, k: Atom('fun', ('spline', J.as_term(a[0] if a else k['t'])), 'tensor')})
        I.extern['torchcde.CubicSpline'] = spline
        I.extern['torchcde.natural_cubic_coeffs'] = lambda It, a, k: (Atom('fun', ('coeffs', It.as_term(k.get('t', a[0] if a else None)), It.as_term(k.get('x', a[1] if len(a) > 1 else None))), 'obj', {'notnone': True}))
        cls = I.call(need(I, SE, GATHER[kind]), [self.F, self.vp] + [self.given[n] for n in NAMES], {})
        self.sa = self.SA if save else ()
        if kind == 'interpolated_adjoint':
            c = I.as_term(I.compare1(ast.Gt(), getitem(self.times, -1), getitem(self.times, 0)))
            I.st.assumed = tuple(I.st.assumed) + (c if increasing else not_(c),)
        self.out = I.call(I.getattr(cls, 'apply'), [self.vp, self.x, self.t_span, self.B, self.sa], {})
        ap = [e for e in I.events if e.kind == 'apply']
        bwd = I.lookup(cls, 'backward')
        if not ap or bwd is None:
            raise Vanished('autograd function of ' + GATHER[kind])
        self.ctx_sym = ap[0].data['ctx']
        self.phase = self.backward
        self.Gt, self.Gx = sym('Gt', ndim=1), sym('Gx', ndim=3)
        g = I.call(bwd, [self.ctx_sym, self.Gt, self.Gx], {})
        self.grads = I.as_seq(g)
        ctx.done(I)

    def solved(self, A, span):
        """integration of the adjoint system over an interval: first and last value, the last one made of the components"""
        last, lam, nx, nl = self.sizes()
        nm = size_of(self.I, flat_params(self.I))
        lens = ([('state', nx)] if self.kind == 'adjoint' else []) + [('adjoint', nl), ('parameters', nm)] + ([('time', 1)] if self.kind == 'adjoint' else [])
        end = cat(tuple(Atom('fun', ('solved ' + nm_, A, span), 'tensor', {'notnone': True, 'ndim': 1, 'len': n}) for nm_, n in lens), 0)
        return stack((A, end), 0)

    def dynamics(self, A, t):
        if not self.backward:
            raise Vanished('adjoint integration')
        return self.I.as_term(self.I.call(self.backward[0][1]['f'], [t, A], {}))

    def sizes(self):
        last, lam = getitem(self.sol, -1), getitem(self.Gx, -1)
        return last, lam, size_of(self.I, last), size_of(self.I, lam)


def flat_params(I):
    return cat(tuple(I.as_term(I.call(I.getattr(p, 'flatten'), [], {})) for p in P), 0)


def size_of(I, v):
    return I.as_term(I.call(I.getattr(v, 'numel'), [], {}))


@rule('C16')
def dynamics(ctx):
    for kind in GATHER:
        for loss in (False, True):
            for d in (0, 1):
                name = f"{kind}{', integral loss' if loss else ''}, time of {d} dimensions"

                def go(kind=kind, loss=loss, d=d, name=name):
                    c = Case(ctx, kind, loss)
                    I = c.I
                    A, t = sym('A', ndim=1), sym('t', ndim=d)
                    last, lam, nx, nl = c.sizes()
                    got = c.dynamics(A, t)
                    nm = size_of(I, flat_params(I))
                    sh = [I.getattr(v, 'shape') for v in (last, lam)]
                    if kind == 'adjoint':
                        rate = I.call(I.get('spec.adjoint', 'augmented'), [c.F, P, c.loss, sh[0], sh[1], nx, nl, nm], {})
                        got = tail_dropped(got)
                    else:
                        sp = sym('spline', 'obj', notnone=True, methods={'evaluate': lambda J, a, k: Atom('fun', ('spline', J.as_term(a[0])), 'tensor')})
                        rate = I.call(I.get('spec.adjoint', 'interpolated'), [c.F, P, c.loss, sp, sh[1], nl], {})
                    want = I.as_term(I.call(rate, [t, A], {}))
                    g, w_ = pieces(got), pieces(want)
                    labels = (['state'] if kind == 'adjoint' else []) + ['adjoint'] + [f"parameter {i}" for i in range(len(P))]
                    ctx.check('C16', f"{name}/components", len(g) == len(w_), c.w, f"the adjoint system has {len(g)} components, required {len(w_)}")
                    for lb, a, b in zip(labels, g, w_):
                        ctx.equal('C16', f"{name}/rate of change of the {lb}", I, a, b, c.w)
                    bad = [e for e in I.events if e.kind == 'nonegrad' and any(same(e.data['wrt'], p) for p in P)]
                    ctx.check('C16', f"{name}/parameters the field does not depend on", not bad, bad[0].where() if bad else c.w,
                              'a parameter without influence on the vector field has no gradient, which the dynamics do not allow for')
                    ctx.done(I)
                ctx.guard('C16', name, go)


def pieces(v):
    return list(v.args[0]) if isatom(v, 'cat') and isinstance(v.args[0], tuple) else [v]


def tail_dropped(v):
    """without the time component, which feeds nothing"""
    ps = pieces(v)
    return Atom('cat', (tuple(ps[:-1]), 0)) if len(ps) > 1 else v


def reference_sweep(c):
    I = c.I

    def solve(It, a, k):
        return c.solved(It.as_term(a[0]), It.as_term(a[1]))
    if c.kind == 'adjoint':
        return I.call(I.get('spec.adjoint', 'sweep'), [PyFunc('solve', solve), c.F, P, c.sol, c.times, c.t_span, c.Gt, c.Gx], {})
    return I.call(I.get('spec.adjoint', 'sweep_interpolated'), [PyFunc('solve', solve), P, c.sol, c.times, c.Gx], {})


@rule('C17')
def injection(ctx):
    for kind in GATHER:
        def go(kind=kind):
            c = Case(ctx, kind)
            I = c.I
            want = I.as_seq(reference_sweep(c))
            names = ('parameters', 'initial state') + (('end times',) if kind == 'adjoint' else ())
            ctx.compare('C17', I, dict(zip(names, c.grads)), dict(zip(names, want)), None, c.w, construct=kind)
            ctx.done(I)
        ctx.guard('C17', kind, go)


@rule('C17')
def trajectory(ctx):
    """the interpolated adjoint follows the spline through the stored forward points, in increasing time"""
    for inc in (True, False):
        def go(inc=inc):
            c = Case(ctx, 'interpolated_adjoint', increasing=inc)
            I = c.I
            name = 'interpolated_adjoint, ' + ('increasing' if inc else 'decreasing') + ' time'
            ok = len(c.splines) == 1
            ctx.check('C17', f"{name}/one spline", ok, c.w, f"{len(c.splines)} splines are fitted")
            if ok:
                k = c.splines[0]
                X = c.sol if inc else tensor('flip', c.sol, 0)
                tt = c.times if inc else tensor('flip', c.times, 0)
                ctx.equal('C17', f"{name}/knots of the spline", I, k.get('t'), tt, c.w)
                co = I.as_term(k.get('coeffs'))
                ctx.equal('C17', f"{name}/spline fitted at the stored times", I, co.args[1], tt, c.w)
                ctx.equal('C17', f"{name}/spline fitted to the stored states", I, strip_detach(co.args[2]), strip_detach(I.as_term(I.call(I.getattr(X, 'permute'), [1, 0, 2], {}))), c.w)
            ctx.done(I)
        ctx.guard('C17', f"trajectory {inc}", go)


def tensor(op, *a):
    from ..torchlib import tensor_op
    return tensor_op(op, list(a), {})


def strip_detach(v):
    return subst(v, lambda t: strip_detach(t.args[0]) if isatom(t, 'detach') else None)


@rule('C18')
def configuration(ctx):
    for kind in GATHER:
        for mode in ('standard', 'multiple_shooting'):
            name = f"{kind}, {mode}"

            def go(kind=kind, mode=mode, name=name):
                c = Case(ctx, kind, mode=mode)
                I = c.I
                G = c.given
                ctx.check('C18', f"{name}/one forward integration", len(c.forward) == 1, c.w, f"{len(c.forward)} forward integrations")
                q, b = c.forward[0]
                want = {'f': c.F, 'x': c.x, 't_span': c.t_span, 'solver': G['solver']}
                if mode == 'standard':
                    want.update(atol=G['atol'], rtol=G['rtol'], interpolator=G['interpolator'], save_at=c.SA,
                                return_all_eval=kind == 'interpolated_adjoint')
                else:
                    want.update(B0=c.B, fine_steps=G['fine_steps'], maxiter=G['maxiter'])
                ctx.check('C18', f"{name}/forward routine", q.endswith('.odeint' if mode == 'standard' else '.odeint_mshooting'), c.w, f"forward pass runs {q}")
                for k, v in want.items():
                    if k in b:
                        ctx.equal('C18', f"{name}/forward {k}", I, I.as_term(b[k]), I.as_term(v), c.w)
                    else:
                        ctx.check('C18', f"{name}/forward {k}", False, c.w, f"{k} is not passed to the forward integration")
                for n, (lb, v) in enumerate((('times', c.times), ('solution', c.sol))):
                    ctx.equal('C18', f"{name}/returned {lb}", I, I.subscript(c.out, n), v, c.w)
                ctx.check('C18', f"{name}/adjoint integrations", len(c.backward) >= 1, c.w, 'no adjoint integration')
                last, lam, nx, nl = c.sizes()
                for n, (q, b) in enumerate(c.backward):
                    for k, v in (('solver', G['solver_adjoint']), ('atol', G['atol_adjoint']), ('rtol', G['rtol_adjoint'])):
                        ctx.equal('C18', f"{name}/adjoint integration {n} {k}", I, I.as_term(b[k]), v, c.w)
                    ctx.equal('C18', f"{name}/adjoint integration {n} uses one field", I, I.as_term(b['f']), I.as_term(c.backward[0][1]['f']), c.w)
                    sn = I.as_seq(b['seminorm'])
                    if sn[0] is not False:
                        ctx.check('C18', f"{name}/adjoint integration {n} seminorm covers state and adjoint", sn[0] is True and kind == 'adjoint' and same(sn[1], add(nx, nl)), c.w,
                                  f"error control looks at {show(I.as_term(sn[1]), 5)} components of the adjoint system")
                g = c.grads
                ctx.check('C18', f"{name}/gradient slots", isinstance(g, tuple) and len(g) >= 5, c.w, 'one gradient slot per input is needed')
                for n in range(3, len(g)):
                    ctx.check('C18', f"{name}/slot {n} has no gradient", g[n] is None, c.w, 'an input without gradient receives one')
                ctx.check('C18', f"{name}/gradients of parameters and initial state", g[0] is not None and g[1] is not None, c.w, 'a gradient is missing')
                ctx.done(I)
            ctx.guard('C18', name, go)
