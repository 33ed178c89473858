"""C27: solutions carry gradients to the initial state and to everything the field depends on"""
from .base import *
from .solvers import ODE, HYP, run_step, parts, f, x, t, dt
from .drivers import OD, T, A, atol, rtol, interp_sym, callback, STAGES, direction
from .sde import SD, SI, ITO, equation, stepper, bm
from . import shooting
from .hygiene import Recorder

CUT = ('detach', 'data', 'item', 'numpy', 'tensorize', 'tolist')
# arguments that carry time or step size: the controller of the step size is not differentiated
TIME = {'t', 'dt', 't0', 't1', 'theta', 'ta', 'tb', 't_span'}


class Tracking(Ctx):
    """analyses that follow which values are computed without gradients"""

    def __init__(self, parent):
        super().__init__(parent.root, parent.files)
        self.parent = parent

    def interp(self, *a, **k):
        I = self.parent.interp(*a, **k)
        I.ctx = self
        I.cuts = True
        return I

    def done(self, I):
        self.parent.done(I)


def params_of(fn):
    return (fn.meta or {}).get('params') if isinstance(fn, Atom) else None


class Walk:
    """ways along which a value depends on the state, the field and its parameters"""

    def __init__(self, I):
        self.I = I
        self.time = set()
        self.found = []
        self.seen = set()

    def carriers(self, v, deep=True):
        """step sizes and times: everything in a time argument of a step"""
        for q in subterms(v):
            if isatom(q, 'call'):
                ps = params_of(q.args[0]) or ()
                for n, a in zip(ps, q.args[1]):
                    if n in TIME:
                        self.mark(a)

    def mark(self, a):
        if not isinstance(a, Term) or a.dig in self.time:
            return
        self.time.add(a.dig)
        if isinstance(a, Poly):
            for m in a.terms:
                for q, _ in m:
                    self.mark(q)
        elif isatom(a, 'ite'):
            self.mark(a.args[1])
            self.mark(a.args[2])
        elif isatom(a, 'detach', 'item', 'data', 'unsq', 'getitem', 'min', 'max', 'mul', 'neg'):
            for q in a.args:
                self.mark(q)

    def loop_values(self, m):
        for L in self.I.loops.values():
            for k, q in L.mu.items():
                if isinstance(q, Term) and q.dig == m.dig:
                    yield from (w for w in (L.entry.get(k), L.next.get(k)) if w is not None)

    def all_graphs(self, roots):
        todo, seen = list(roots), set()
        while todo:
            v = todo.pop()
            for q in subterms(v):
                if isatom(q, 'mu') and q.dig not in seen:
                    seen.add(q.dig)
                    todo += [self.I.as_term(w) for w in self.loop_values(q)]
            yield v

    def run(self, v, F=None):
        v = self.I.deep(self.I.as_term(v))
        for g in self.all_graphs([v]):
            self.carriers(g)
        self.go(v)
        return self.found

    def go(self, v):
        if isinstance(v, (Ref, IterVal, RangeVal)):
            v = self.I.deep(self.I.as_term(v))
        if isinstance(v, tuple):
            for w in v:
                self.go(w)
            return
        if not isinstance(v, Term) or v.dig in self.seen or v.dig in self.time or v.kind in ('num', 'bool') and not isatom(v, 'item'):
            return
        self.seen.add(v.dig)
        if isinstance(v, Poly):
            for m in v.terms:
                for q, _ in m:
                    self.go(q)
            return
        op = v.op
        if op in CUT:
            if self.carries(v):
                self.found.append(v)
            return
        if op == 'call':
            ps = params_of(v.args[0]) or ()
            for i, a in enumerate(v.args[1]):
                if not (i < len(ps) and ps[i] in TIME):
                    self.go(a)
            return
        if op == 'ite':
            self.go(v.args[1])
            self.go(v.args[2])
        elif op in ('mu', 'out'):
            for w in self.loop_values(v if op == 'mu' else v.args[0]):
                self.go(w)
        elif op in ('comp', 'cseg'):
            self.go(v.args[-1])
        elif op == 'seq':
            for a in v.args:
                for b in a.args if isatom(a, 'item') else (a,):         # an element of a list
                    self.go(b)
        elif op == 'getitem':
            self.go(v.args[0])
        elif op == 'lam':
            self.go(v.args[1])
        else:
            for a in v.args:
                self.go(a)

    def carries(self, v):
        return any(isatom(q, 'call', 'mu', 'formal', 'fun') or isatom(q, 'sym') and q.kind in ('tensor', 'obj') and q.dig not in self.time for q in subterms(v) if q.dig not in self.time)


def flows(ctx, name, I, v, w):
    W = Walk(I)
    W.time |= {t.dig, dt.dig}
    bad = W.run(v)
    ctx.check('C27', name, not bad, w, f"{show(bad[0], 4)[:160]} is computed without gradients" if bad else '')


@rule('C27')
def steps(ctx):
    trk = Tracking(ctx)
    for name in ('Euler', 'Midpoint', 'RungeKutta4', 'AsynchronousLeapfrog', 'DormandPrince45', 'Tsitouras45'):
        for k1 in (None, sym('K1')):
            def go(name=name, k1=k1):
                I, s, r = run_step(trk, ODE, name, k1=k1)
                w = fn_where(I, ODE, name)
                P = parts(I, r)
                nm = f"{name}.step{', first stage supplied' if k1 is not None else ''}"
                flows(ctx, nm + '/new state', I, P[1], w)
                if P[0] is not None:
                    flows(ctx, nm + '/derivative at the new state', I, P[0], w)
                if len(P) > 3:
                    for i, k in enumerate(I.as_seq(r[3])):
                        flows(ctx, f"{nm}/stage {i + 1}", I, I.as_term(k), w)
                ctx.done(I)
            ctx.guard('C27', name, go)
    net = sym('net', 'fn', params=('t', 'x'), argspec=('t', 'x'))
    for name in ('HyperEuler', 'HyperMidpoint', 'HyperRungeKutta4'):
        def go(name=name):
            I, s, r = run_step(trk, HYP, name, [net])
            flows(ctx, f"{name}.step/new state", I, parts(I, r)[1], fn_where(I, HYP, name))
            ctx.done(I)
        ctx.guard('C27', name, go)
    for name, kind in ITO.items():
        def go(name=name, kind=kind):
            I = trk.interp(SD)
            s = instance(I, SD, name, [equation(kind, 'diagonal'), bm])
            r = I.as_seq(method(I, s, 'step', [x, t, dt]))
            flows(ctx, f"{name}.step/new state", I, r[1], fn_where(I, SD, name))
            ctx.done(I)
        ctx.guard('C27', name, go)

    def dense():
        I = trk.interp('torchdyn.numerics.interpolators')
        IT = 'torchdyn.numerics.interpolators'
        it = I.call(need(I, IT, 'str_to_interp'), ['4th', sym('dtype', 'obj')], {})
        a = [dt] + [sym(n) for n in ('f0', 'f1', 'x0', 'x1', 'xm')]
        co = method(I, it, 'fit', a)
        flows(ctx, '4th.fit/coefficients', I, I.as_term(co), fn_where(I, IT, 'FourthOrder'))
        flows(ctx, '4th.evaluate/value', I, method(I, it, 'evaluate', [I.new_list(tuple(sym(f"c{i}") for i in range(5))), sym('t0', 'num'), sym('t1', 'num'), sym('tq', 'num')]),
              fn_where(I, IT, 'Interpolator'))
        ctx.done(I)
    ctx.guard('C27', 'interpolation', dense)


@rule('C27')
def drivers(ctx):
    trk = Tracking(ctx)
    F1 = sym('f', 'fn', argspec=('t', 'x', 'args'), params=('t', 'x', 'args'), attrs={'order': 1})
    F2 = sym('f', 'fn', argspec=('t', 'x', 'args'), params=('t', 'x', 'args'), attrs={'order': 2})
    adaptive = lambda: solver('adaptive', step=sym('step', 'fn', params=('f', 'x', 't', 'dt', 'k1', 'args'), returns='obj', retmeta={'lens': {3: STAGES}}))
    J = sym('J', 'num')
    tol = dict(atol=atol, rtol=rtol)
    cases = {}
    for way in (True, False):
        d = '' if way else ', reversed time'
        cases['odeint, fixed steps' + d] = (way, 'odeint', lambda I: ([f, x, T, solver('fixed')], dict(args=A)))
        cases['odeint, adaptive steps' + d] = (way, 'odeint', lambda I: ([f, x, T, adaptive()], dict(tol, args=A, return_all_eval=sym('all', 'bool'), seminorm=(sym('semi', 'bool'), sym('sdim', 'num', int=True)))))
        cases['odeint, dense output' + d] = (way, 'odeint', lambda I: ([f, x, T, adaptive()], dict(tol, args=A, interpolator=interp_sym())))
        cases['odeint_symplectic, fixed steps' + d] = (way, 'odeint_symplectic', lambda I: ([F1, x, T, solver('fixed')], {}))
        cases['odeint_symplectic, adaptive steps' + d] = (way, 'odeint_symplectic', lambda I: ([F2, x, T, solver('adaptive')], dict(tol)))
    cases['odeint, fixed steps, requested times'] = (True, 'odeint', lambda I: ([f, x, T, solver('fixed')], dict(save_at=sym('SA', ndim=1))))
    cases['odeint_hybrid'] = (None, 'odeint_hybrid', lambda I: ([f, x, T, J, solver('adaptive'), I.new_list((callback('cb0'), callback('cb1')))], dict(tol, event_tol=sym('event_tol', 'num'), priority='jump')))
    cases['_shifted_fixed_odeint'] = (None, '_shifted_fixed_odeint', lambda I: ([f, sym('x', ndim=3), sym('T', ndim=2), solver('fixed')], {}))
    for name, (way, fn, mk) in cases.items():
        def go(name=name, way=way, fn=fn, mk=mk):
            I = trk.interp(OD)
            I.plain_items = True
            if way is not None:
                direction(I, way)
            a, k = mk(I)
            r = I.call(need(I, OD, fn), a, k)
            sol = r if fn.startswith('_') else I.subscript(r, 1)
            flows(ctx, name + '/solution', I, sol, f"{OD}.{fn}")
            # the field handed to the steps
            step = I.getattr(a[3] if fn != 'odeint_hybrid' else a[4], 'step')
            fields = {}
            for g in Walk(I).all_graphs([I.deep(I.as_term(sol))]):
                for c in calls_of(g, step):
                    fields[c.args[1][0].dig if isinstance(c.args[1][0], Term) else str(c.args[1][0])] = c.args[1][0]
            for g in fields.values():
                v = I.call(g, [sym('tq', ndim=0), sym('xq')], {})
                flows(ctx, name + '/field of the steps', I, v, f"{OD}.{fn}")
            ctx.done(I)
        ctx.guard('C27', name, go)

    def sde():
        for nm, sa in (('all times', lambda I: ()), ('requested times', lambda I: sym('SA', ndim=1))):
            I = trk.interp(SI)
            r = I.call(need(I, SI, 'sdeint'), [equation('ito'), sym('x', ndim=2, pytype='torch.Tensor'), T, stepper(), bm], {'save_at': sa(I)})
            flows(ctx, f"sdeint, {nm}/solution", I, I.subscript(r, 1), SI + '.sdeint')
            ctx.done(I)
    ctx.guard('C27', 'sdeint', sde)

    def shoot():
        I = trk.interp(ODE)
        s = instance(I, ODE, 'MSZero', [shooting.CO, shooting.FI])
        v = method(I, s, 'root_solve', [shooting.abstract_solve(I), f, x, T, sym('B'), sym('fine', 'num', int=True), sym('maxiter', 'num', int=True)])
        flows(ctx, 'MSZero/shooting values', I, v, fn_where(I, ODE, 'MSZero'))
        ctx.done(I)
    ctx.guard('C27', 'MSZero', shoot)


class Flowing(Recorder):
    """runs the analyses of other rules and follows gradients through every value they look at"""

    def __init__(self, parent):
        super().__init__(parent)
        self.results = []

    def interp(self, *a, **k):
        I = super().interp(*a, **k)
        I.cuts = True
        return I

    def equal(self, rule, construct, I, got, want, where='', sizes=None):
        wanted = {v.dig for v in Walk(I).run(I.as_term(want))} if want is not None else set()
        bad = [v for v in Walk(I).run(I.as_term(got)) if v.dig not in wanted]
        self.results.append((construct, where, bad))
        return True


# problems and layers, layer inputs, fields, augmentation and control, flows, energies, Galerkin layers and bases
NETS = ('C19', 'C20', 'C23', 'C24', 'C25', 'C26', 'C29', 'C30')


@rule('C27')
def networks(ctx):
    for pid in NETS:
        fl = Flowing(ctx)
        for fn in CHECKS[pid]:
            fl.guard(pid, fn.__name__, lambda: fn(fl))
        for I in fl.kept:
            ctx.done(I)
        for construct, w, bad in fl.results:
            ctx.check('C27', f"{construct}/gradients", not bad, w, f"{show(bad[0], 4)[:160]} is computed without gradients" if bad else '')
        ctx.errors += fl.errors
