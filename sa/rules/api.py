"""Rules about the public classes: registries, option plumbing, vector field wrappers, preparation of an integration."""
from .base import *

ODE = 'torchdyn.numerics.solvers.ode'
SDEM = 'torchdyn.numerics.solvers.sde'
TPL = 'torchdyn.numerics.solvers.templates'
HYP = 'torchdyn.numerics.solvers.hyper'
IPM = 'torchdyn.numerics.interpolators'
CST = 'torchdyn.numerics.solvers._constants'
PR = 'torchdyn.core.problems'
ND = 'torchdyn.core.neuralde'
DF = 'torchdyn.core.defunc'
UTL = 'torchdyn.core.utils'
SOLVE = 'torchdyn.numerics.odeint.odeint'
MSOLVE = 'torchdyn.numerics.odeint.odeint_mshooting'
SSOLVE = 'torchdyn.numerics.sdeint.sdeint'
GATHER = {'adjoint': 'torchdyn.numerics.sensitivity._gather_odefunc_adjoint',
          'interpolated_adjoint': 'torchdyn.numerics.sensitivity._gather_odefunc_interp_adjoint'}
P = (sym('p0'), sym('p1'))


def module(name, spec=('t', 'x', 'args'), mods=None, params=P, pytype=None, **attrs):
    """an arbitrary torch module used as vector field"""
    ms = {'parameters': lambda It, a, k: params}
    at = dict(attrs)
    at['forward'] = sym(name + '.forward', 'fn', argspec=('self',) + tuple(spec))
    m = {'params': tuple(spec), 'argspec': ('self',) + tuple(spec), 'isa': ('torch.nn.Module',), 'attrs': at, 'methods': ms, 'notnone': True}
    r = Atom('sym', (name,), 'obj', m)
    ms['named_modules'] = lambda It, a, k: tuple((f"m{i}", v) for i, v in enumerate([r] + list(mods or ())))
    ms['modules'] = lambda It, a, k: (r,) + tuple(mods or ())
    return r


def plain(name, spec=('t', 'x', 'args')):
    return Atom('sym', (name,), 'fn', {'params': tuple(spec), 'argspec': tuple(spec), 'isa': (), 'pytype': 'builtins.function', 'notnone': True})


# ------------------------------------------------------------------------------------------------ C15
SOLVERS = {'euler': 'Euler', 'midpoint': 'Midpoint', 'rk4': 'RungeKutta4', 'rk-4': 'RungeKutta4', 'RungeKutta4': 'RungeKutta4', 'dopri5': 'DormandPrince45',
           'DormandPrince45': 'DormandPrince45', 'DormandPrince5': 'DormandPrince45', 'tsit5': 'Tsitouras45', 'Tsitouras45': 'Tsitouras45',
           'Tsitouras5': 'Tsitouras45', 'ieuler': 'ImplicitEuler', 'implicit_euler': 'ImplicitEuler', 'alf': 'AsynchronousLeapfrog',
           'AsynchronousLeapfrog': 'AsynchronousLeapfrog'}
SHOOTING = {'mszero': 'MSZero', 'zero': 'MSZero', 'parareal': 'MSZero', 'msbackward': 'MSBackward', 'backward': 'MSBackward', 'discrete-adjoint': 'MSBackward',
            'ieuler': 'ParallelImplicitEuler', 'parallel-implicit-euler': 'ParallelImplicitEuler'}
STOCH = {'euler': 'EulerMaruyama', 'eulerHeun': 'EulerHeun', 'milstein_ito': 'MilesteinIto', 'milstein_stratonovich': 'MilesteinStratonovich'}
CONTRACT = {'Euler': (1, 'fixed'), 'Midpoint': (2, 'fixed'), 'RungeKutta4': (4, 'fixed'), 'AsynchronousLeapfrog': (2, 'fixed'), 'DormandPrince45': (5, 'adaptive'),
            'Tsitouras45': (5, 'adaptive'), 'ImplicitEuler': (1, 'fixed')}


def cls_name(I, v):
    c = I.cell(v) if isinstance(v, Ref) else None
    return c.cls.name if isinstance(c, InstCell) else show(v)[:60]


@rule('C15')
def registries(ctx):
    D = Ext('torch.float64')

    def solvers():
        I = ctx.interp(ODE)
        w = fn_where(I, ODE, 'str_to_solver')
        for n, c in SOLVERS.items():
            s = I.call(need(I, ODE, 'str_to_solver'), [n], {'dtype': D})
            ctx.check('C15', f"solver {n}/class", cls_name(I, s) == c, w, f"name '{n}' builds {cls_name(I, s)}, documented {c}")
            ctx.check('C15', f"solver {n}/dtype", dig(I.getattr(s, 'dtype')) == dig(D), w, 'the requested dtype is not handed to the solver')
        for c, (order, stepping) in CONTRACT.items():
            s = instance(I, ODE, c, [], {'dtype': D})
            ctx.check('C15', f"{c}/order", I.getattr(s, 'order') == order, fn_where(I, ODE, c), f"declares order {show(I.getattr(s, 'order'))}, required {order}")
            ctx.check('C15', f"{c}/stepping class", I.getattr(s, 'stepping_class') == stepping, fn_where(I, ODE, c), f"declares {show(I.getattr(s, 'stepping_class'))} steps")
        s = instance(I, ODE, 'AsynchronousLeapfrog', [], {'stepping_class': 'adaptive'})
        ctx.check('C15', 'AsynchronousLeapfrog/stepping class on request', I.getattr(s, 'stepping_class') == 'adaptive', fn_where(I, ODE, 'AsynchronousLeapfrog'), 'requested stepping class ignored')
        ctx.done(I)

    def shooting():
        I = ctx.interp(ODE)
        w = fn_where(I, ODE, 'str_to_ms_solver')
        for n, c in SHOOTING.items():
            s = I.call(need(I, ODE, 'str_to_ms_solver'), [n], {})
            ctx.check('C15', f"parallel solver {n}/class", cls_name(I, s) == c, w, f"name '{n}' builds {cls_name(I, s)}, documented {c}")
        for c, fine in (('MSZero', 'RungeKutta4'), ('MSBackward', 'RungeKutta4'), ('ParallelImplicitEuler', 'Euler')):
            s = instance(I, ODE, c)
            got = cls_name(I, I.getattr(s, 'coarse_method')), cls_name(I, I.getattr(s, 'fine_method'))
            ctx.check('C15', f"{c}/default methods", got == ('Euler', fine), fn_where(I, ODE, c), f"default methods are {got}")
            a, b = sym('COARSE', 'obj', notnone=True, isa=(), pytype='torchdyn.Solver'), sym('FINE', 'obj', notnone=True, isa=(), pytype='torchdyn.Solver')
            s = instance(I, ODE, c, [a, b])
            ctx.check('C15', f"{c}/given methods", same(I.as_term(I.getattr(s, 'coarse_method')), a) and same(I.as_term(I.getattr(s, 'fine_method')), b), fn_where(I, ODE, c),
                      'coarse or fine method given by the user is not used')
            s = instance(I, ODE, c, ['midpoint', 'rk4'])
            got = cls_name(I, I.getattr(s, 'coarse_method')), cls_name(I, I.getattr(s, 'fine_method'))
            ctx.check('C15', f"{c}/methods by name", got == ('Midpoint', 'RungeKutta4'), fn_where(I, ODE, c), f"methods by name give {got}")
        ctx.done(I)

    def stochastic():
        I = ctx.interp(SDEM)
        w = fn_where(I, SDEM, 'sde_str_to_solver')
        for n, c in STOCH.items():
            bm = sym('BM', 'fn')
            sde = sym('SDE', 'obj', notnone=True, attrs={'sde_type': 'stratonovich' if n in ('eulerHeun', 'milstein_stratonovich') else 'ito', 'noise_type': 'diagonal'})
            s = I.call(need(I, SDEM, 'sde_str_to_solver'), [n, sde, bm], {'dtype': D})
            ctx.check('C15', f"stochastic solver {n}/class", cls_name(I, s) == c, w, f"name '{n}' builds {cls_name(I, s)}, documented {c}")
            ctx.check('C15', f"stochastic solver {n}/equation, noise and dtype", same(I.as_term(I.getattr(s, 'sde')), sde) and same(I.as_term(I.getattr(s, 'bm')), bm) and dig(I.getattr(s, 'dtype')) == dig(D), w,
                      'equation, Brownian motion or dtype is not handed to the solver')
            ctx.check('C15', f"stochastic solver {n}/fixed steps", I.getattr(s, 'stepping_class') == 'fixed', w, 'stochastic solvers step on the grid')
        ctx.done(I)

    def interpolators():
        I = ctx.interp(IPM)
        w = fn_where(I, IPM, 'str_to_interp')
        s = I.call(need(I, IPM, 'str_to_interp'), ['4th', D], {})
        ctx.check('C15', 'interpolator 4th/class', cls_name(I, s) == 'FourthOrder', w, f"name '4th' builds {cls_name(I, s)}")
        ctx.check('C15', 'interpolator 4th/order', I.getattr(s, 'order') == 4, w, 'the fourth order scheme declares another order')
        ctx.done(I)

    def unknown():
        for mod, fn, args in ((ODE, 'str_to_solver', []), (ODE, 'str_to_ms_solver', []), (SDEM, 'sde_str_to_solver', [sym('SDE', 'obj', notnone=True, attrs={'sde_type': 'ito', 'noise_type': 'diagonal'}), sym('BM', 'fn')]), (IPM, 'str_to_interp', [D])):
            I = ctx.interp(mod)
            f = need(I, mod, fn)
            w = fn_where(I, mod, fn)
            try:
                r = I.call(f, ['no such name'] + args, {})
                ok, what = False, cls_name(I, r)
            except Dead:
                ok, what = True, ''
            ctx.check('C15', f"{fn}/unknown names are refused", ok, w, f"an unknown name builds {what}")
            ctx.done(I)

    def constants():
        """the coefficients are created in the requested precision"""
        for mod, fn, used in ((ODE, 'construct_rk4', ('RungeKutta4', 'AsynchronousLeapfrog')), (ODE, 'construct_dopri5', ('DormandPrince45',)),
                              (ODE, 'construct_tsit5', ('Tsitouras45',)), (IPM, 'construct_4th', ('FourthOrder',))):
            I = ctx.interp(mod)
            need(I, CST, fn)
            lost = []

            def make(It, args, kw):
                dt = kw.get('dtype')
                if dig(dt) == dig(D) if dt is not None else False:
                    return NotImplemented
                v = I.as_seq(args[0]) if args else None
                if not isinstance(v, tuple) or all(isnum(e) and dyadic(e) for e in v):
                    return NotImplemented
                lost.append(It.events[-1].where() if It.events else fn)
                return tensor('tensor', tuple(e if isnum(e) and dyadic(e) else sym(f"imprecise{len(lost)}_{i}", 'num') for i, e in enumerate(v)))
            for n in ('tensor', 'as_tensor'):
                I.extern['torch.' + n] = make
            r = I.as_term(I.deep(I.call(I.get(CST, fn), [D], {})))
            bad = [a for a in subterms(r) if isatom(a, 'sym') and str(a.args[0]).startswith('imprecise')]
            ctx.check('C15', f"{fn}/coefficients in the requested precision", not bad, fn_where(I, CST, fn), 'a coefficient is created in another precision than requested')
            for c in used:
                J = ctx.interp(mod)
                seen = []
                J.opaque[CST + '.' + fn] = lambda I_, f_, b: seen.append(b.get('dtype')) or tuple(sym(f"{fn}{i}") for i in range(4))
                instance(J, mod, c, [], {'dtype': D})
                ctx.check('C15', f"{c}/coefficients requested in the precision of the solver", len(seen) == 1 and dig(seen[0]) == dig(D), fn_where(J, mod, c),
                          'the tableau is not built in the precision asked for')
                ctx.done(J)
            ctx.done(I)

    def templates():
        I = ctx.interp(TPL, ODE)
        mf, Mf, sf = sym('mf', 'num'), sym('Mf', 'num'), sym('sf', 'num')
        for mod, c in ((TPL, 'DiffEqSolver'), (ODE, 'SolverTemplate'), (TPL, 'BaseExplicit'), (TPL, 'BaseImplicit')):
            w = fn_where(I, mod, c)
            s = instance(I, mod, c, [sym('p', 'num')], {'min_factor': mf, 'max_factor': Mf, 'safety': sf})
            for n, v in (('order', sym('p', 'num')), ('min_factor', mf), ('max_factor', Mf), ('safety', sf)):
                got = I.as_term(I.getattr(s, n))
                got = getitem(got, 0) if n != 'order' else got
                ctx.equal('C15', f"{c}/{n}", I, got, v, w)
            s = instance(I, mod, c, [sym('p', 'num')])
            for n, v in (('min_factor', Fraction_('0.2')), ('max_factor', 10), ('safety', Fraction_('0.9'))):
                g = I.as_term(I.getattr(s, n))
                g = getitem(g, 0)
                ctx.check('C15', f"{c}/default {n}", isnum(g) and abs(float(g) - float(v)) < 1e-6, w, f"default {n} is {show(g)}, documented {v}")
            if c != 'SolverTemplate':
                s = instance(I, mod, c, [1], {'stepping_class': 'adaptive'})
                ctx.check('C15', f"{c}/stepping class", I.getattr(s, 'stepping_class') == 'adaptive', w, 'the stepping class asked for is not the one of the solver')
            # synchronisation returns state and grid
            x, T = sym('x'), sym('T', ndim=1)
            r = method(I, s, 'sync_device_dtype', [x, T])
            ctx.equal('C15', f"{c}/synchronisation keeps state and grid", I, r, (x, T), w)
        ctx.done(I)
    for n, fn in (('solvers', solvers), ('parallel solvers', shooting), ('stochastic solvers', stochastic), ('interpolators', interpolators), ('unknown', unknown), ('constants', constants), ('templates', templates)):
        ctx.guard('C15', n, fn)


def dyadic(v):
    """exactly representable in single precision"""
    import struct
    return struct.unpack('f', struct.pack('f', float(v)))[0] == v


def Fraction_(s):
    from fractions import Fraction
    return Fraction(s)


# ------------------------------------------------------------------------------------------------ C19
X, T, SA = sym('x'), sym('T', ndim=1), sym('sa', ndim=1)


class Plumb:
    """calls that reach the numerical routines, with every option symbolic"""

    def __init__(self, ctx):
        self.ctx = ctx
        I = self.I = ctx.interp(ND, PR)
        self.calls = []
        self.applied = []
        te, so = self.out = sym('TE', ndim=1), sym('SOL')

        def h(name):
            def g(I_, f, b):
                self.calls.append((name, dict(b)))
                return te, so
            return g
        for q, n in ((SOLVE, 'odeint'), (MSOLVE, 'mshooting'), (SSOLVE, 'sdeint')):
            I.opaque[q] = h(n)

        def gather(kind):
            def g(I_, f, b):
                self.calls.append((kind, dict(b)))
                return sym('AF', 'obj', notnone=True, methods={'apply': lambda It, a, k: self.applied.append((list(a), dict(k))) or (te, so)})
            return g
        for k, q in GATHER.items():
            I.opaque[q] = gather(k)

    def take(self):
        c, a = self.calls[:], self.applied[:]
        del self.calls[:], self.applied[:]
        return c, a


OPTS = {'atol': sym('atol', 'num'), 'rtol': sym('rtol', 'num'), 'atol_adjoint': sym('atol_adj', 'num'), 'rtol_adjoint': sym('rtol_adj', 'num'),
        'interpolator': sym('ITP', 'obj', notnone=True, isa=(), pytype='torchdyn.Interpolator'), 'integral_loss': sym('LOSS', 'fn', params=('t', 'x')), 'solver_adjoint': sym('SADJ', 'obj', notnone=True, isa=(), pytype='torchdyn.Solver')}
SOLVER = sym('SOLVER', 'obj', notnone=True, isa=(), pytype='torchdyn.Solver')


def expect(ctx, pl, name, w, calls, want):
    """exactly one call, with the wanted arguments"""
    ok = len(calls) == 1
    ctx.check('C19', f"{name}/one call", ok, w, f"{len(calls)} numerical calls are made")
    if not ok:
        return
    kind, b = calls[0]
    for k, v in want.items():
        if k == '':
            ctx.check('C19', f"{name}/routine", kind == v, w, f"calls {kind}, required {v}")
        elif k not in b:
            ctx.check('C19', f"{name}/{k}", False, w, f"{k} is not handed over")
        else:
            ctx.equal('C19', f"{name}/{k}", pl.I, pl.I.as_term(b[k]), pl.I.as_term(v), w)


@rule('C19')
def problems(ctx):
    for cname, mod in (('ODEProblem', PR), ('NeuralODE', ND)):
        for sens in ('autograd', 'adjoint', 'interpolated_adjoint'):
            def go(cname=cname, mod=mod, sens=sens):
                pl = Plumb(ctx)
                I = pl.I
                w = fn_where(I, mod, cname)
                F = module('VF')
                o = dict(OPTS)
                if cname == 'NeuralODE':
                    o['return_t_eval'] = True
                p = instance(I, mod, cname, [F, SOLVER], dict(o, sensitivity=sens))
                f = I.getattr(p, 'vf')
                args = sym('ARGS', 'obj', notnone=True)
                for how, kw in (('called', {}),) + ((('odeint', {}),) if cname == 'ODEProblem' else ()):
                    name = f"{cname}, {sens}" + ('' if how == 'called' else ', ' + how)
                    fn = p if how == 'called' else I.getattr(p, how)
                    r = I.call(fn, [X, T], {'save_at': SA, 'args': args})
                    c, ap = pl.take()
                    if sens == 'autograd':
                        expect(ctx, pl, name, w, c, {'': 'odeint', 'f': f, 'x': X, 't_span': T, 'solver': SOLVER, 'atol': o['atol'], 'rtol': o['rtol'],
                                                     'interpolator': o['interpolator'], 'save_at': SA, 'args': args})
                    else:
                        expect(ctx, pl, name, w, c, {'': sens, 'vf': f, 'solver': SOLVER, 'atol': o['atol'], 'rtol': o['rtol'], 'interpolator': o['interpolator'],
                                                     'solver_adjoint': o['solver_adjoint'], 'atol_adjoint': o['atol_adjoint'], 'rtol_adjoint': o['rtol_adjoint'],
                                                     'integral_loss': o['integral_loss'], 'problem_type': 'standard'})
                        flat = I.as_term(I.getattr(p, 'vf_params'))
                        ctx.check('C19', f"{name}/differentiable inputs", len(ap) == 1 and len(ap[0][0]) >= 3 and same(ap[0][0][1], X) and same(ap[0][0][2], T)
                                  and same(I.as_term(ap[0][0][0]), flat) and I.as_term(ap[0][0][3]) is None and same(I.as_term(ap[0][0][4]), SA), w,
                                  'parameters, state, grid, shooting guess and requested times must reach the autograd function in this order')
                    ctx.equal('C19', f"{name}/result", I, r, pl.out, w)
                ctx.done(I)
            ctx.guard('C19', f"{cname}, {sens}", go)


@rule('C19')
def defaults(ctx):
    def go():
        pl = Plumb(ctx)
        I = pl.I
        F = module('VF')
        for cname, mod, dflt, tol in (('ODEProblem', PR, None, ('0.0001', '0.0001', '0.000001', '0.000001')), ('NeuralODE', ND, 'Tsitouras45', ('0.001', '0.001', '0.0001', '0.0001'))):
            w = fn_where(I, mod, cname)
            p = instance(I, mod, cname, [F, SOLVER])
            ctx.check('C19', f"{cname}/adjoint solver defaults to the forward solver", same(I.as_term(I.getattr(p, 'solver_adjoint')), SOLVER), w, 'another solver is used for the adjoint system')
            for n, v in zip(('atol', 'rtol', 'atol_adjoint', 'rtol_adjoint'), tol):
                ctx.check('C19', f"{cname}/default {n}", isnum(I.getattr(p, n)) and abs(float(I.getattr(p, n)) / float(v) - 1) < 1e-9, w, f"default {n} is {show(I.getattr(p, n))}, documented {v}")
            ctx.check('C19', f"{cname}/default sensitivity", I.getattr(p, 'sensitivity') == 'autograd' == I.getattr(p, 'sensalg'), w, 'documented default sensitivity is autograd')
            p = instance(I, mod, cname, [F, 'rk4'], {'solver_adjoint': 'dopri5'})
            ctx.check('C19', f"{cname}/solvers by name", cls_name(I, I.getattr(p, 'solver')) == 'RungeKutta4' and cls_name(I, I.getattr(p, 'solver_adjoint')) == 'DormandPrince45', w, 'solver names are resolved wrongly')
            if dflt:
                p = instance(I, mod, cname, [F])
                ctx.check('C19', f"{cname}/default solver", cls_name(I, I.getattr(p, 'solver')) == dflt, w, f"default solver is {cls_name(I, I.getattr(p, 'solver'))}")
        ctx.done(I)
    ctx.guard('C19', 'defaults', go)


@rule('C19')
def shooting(ctx):
    for cname, mod in (('MultipleShootingProblem', PR), ('MultipleShootingLayer', ND)):
        for sens in ('autograd', 'adjoint', 'interpolated_adjoint'):
            def go(cname=cname, mod=mod, sens=sens):
                pl = Plumb(ctx)
                I = pl.I
                w = fn_where(I, mod, cname)
                F, B = module('VF'), sym('B0')
                mi, fs = sym('MAXITER', 'num', int=True), sym('FINE', 'num', int=True)
                o = {k: OPTS[k] for k in ('solver_adjoint', 'atol_adjoint', 'rtol_adjoint', 'integral_loss')}
                p = instance(I, mod, cname, [F, SOLVER], dict(o, sensitivity=sens, maxiter=mi, fine_steps=fs))
                f = I.getattr(p, 'vf')
                r = I.call(p, [X, T], {'B0': B})
                c, ap = pl.take()
                name = f"{cname}, {sens}"
                if sens == 'autograd':
                    expect(ctx, pl, name, w, c, {'': 'mshooting', 'f': f, 'x': X, 't_span': T, 'solver': SOLVER, 'B0': B, 'fine_steps': fs, 'maxiter': mi})
                else:
                    expect(ctx, pl, name, w, c, {'': sens, 'vf': f, 'solver': SOLVER, 'solver_adjoint': o['solver_adjoint'], 'atol_adjoint': o['atol_adjoint'],
                                                 'rtol_adjoint': o['rtol_adjoint'], 'integral_loss': o['integral_loss'], 'problem_type': 'multiple_shooting',
                                                 'maxiter': mi, 'fine_steps': fs})
                    ctx.check('C19', f"{name}/differentiable inputs", len(ap) == 1 and len(ap[0][0]) >= 4 and same(ap[0][0][1], X) and same(ap[0][0][2], T) and same(ap[0][0][3], B), w,
                              'parameters, state, grid and shooting guess must reach the autograd function in this order')
                ctx.equal('C19', f"{name}/result", I, r, pl.out, w)
                ctx.done(I)
            ctx.guard('C19', f"{cname}, {sens}", go)


@rule('C19')
def stochastic(ctx):
    def go():
        pl = Plumb(ctx)
        I = pl.I
        w = fn_where(I, PR, 'SDEProblem')
        D, BM = sym('SDE', 'obj', notnone=True), sym('BM', 'fn')
        o = {k: OPTS[k] for k in ('atol', 'rtol', 'interpolator')}
        p = instance(I, PR, 'SDEProblem', [D, SOLVER], dict(o))
        args = sym('ARGS', 'obj', notnone=True)
        r = I.call(p, [X, T, BM], {'save_at': SA, 'args': args})
        c, _ = pl.take()
        expect(ctx, pl, 'SDEProblem', w, c, {'': 'sdeint', 'sde': D, 'x': X, 't_span': T, 'solver': SOLVER, 'bm': BM, 'atol': o['atol'], 'rtol': o['rtol'],
                                             'interpolator': o['interpolator'], 'save_at': SA, 'args': args})
        ctx.equal('C19', 'SDEProblem/result', I, r, pl.out, w)
        w = fn_where(I, ND, 'NeuralSDE')
        drift, diff = module('DRIFT', ('t', 'x')), module('DIFF', ('t', 'x'))
        for flag in (True, False):
            q = instance(I, ND, 'NeuralSDE', [drift, diff], dict(o, solver=SOLVER, noise_type='NT', sde_type='ST', bm=BM, return_t_eval=flag))
            r = I.call(q, [X, T], {'save_at': SA, 'args': args})
            c, _ = pl.take()
            name = f"NeuralSDE, {'times and solution' if flag else 'solution only'}"
            expect(ctx, pl, name, w, c, {'': 'sdeint', 'sde': I.getattr(q, 'defunc'), 'x': X, 't_span': T, 'solver': SOLVER, 'bm': BM, 'atol': o['atol'], 'rtol': o['rtol'],
                                         'interpolator': o['interpolator'], 'save_at': SA, 'args': args})
            ctx.equal('C19', f"{name}/result", I, r, pl.out if flag else pl.out[1], w)
            r = method(I, q, 'trajectory', [X, T])
            c, _ = pl.take()
            expect(ctx, pl, name + ', trajectory', w, c, {'': 'sdeint', 'sde': I.getattr(q, 'defunc'), 'x': X, 't_span': T, 'solver': SOLVER, 'bm': BM, 'atol': o['atol'], 'rtol': o['rtol']})
            ctx.equal('C19', f"{name}, trajectory/result", I, r, pl.out[1], w)
            d = I.getattr(q, 'defunc')
            for a, v in (('noise_type', 'NT'), ('sde_type', 'ST'), ('f_func', drift), ('g_func', diff)):
                ctx.equal('C19', f"NeuralSDE/equation {a}", I, I.as_term(I.getattr(d, a)), v, w)
        ctx.done(I)
    ctx.guard('C19', 'SDE', go)


@rule('C19')
def neural(ctx):
    def go():
        pl = Plumb(ctx)
        I = pl.I
        w = fn_where(I, ND, 'NeuralODE')
        for flag in (True, False):
            p = instance(I, ND, 'NeuralODE', [module('VF'), SOLVER], {'return_t_eval': flag, 'atol': OPTS['atol'], 'rtol': OPTS['rtol']})
            r = I.call(p, [X, T], {})
            ctx.equal('C19', f"NeuralODE/result {'with' if flag else 'without'} times", I, r, pl.out if flag else pl.out[1], w)
            pl.take()
            r = method(I, p, 'trajectory', [X, T])
            c, _ = pl.take()
            expect(ctx, pl, f"NeuralODE, trajectory{'' if flag else ' (solution only)'}", w, c, {'': 'odeint', 'f': I.getattr(p, 'vf'), 'x': X, 't_span': T, 'solver': SOLVER, 'atol': OPTS['atol'], 'rtol': OPTS['rtol']})
            ctx.equal('C19', f"NeuralODE, trajectory/result{'' if flag else ' (solution only)'}", I, r, pl.out[1], w)
        ctx.done(I)
    ctx.guard('C19', 'neural', go)


# ------------------------------------------------------------------------------------------------ C23
@rule('C23')
def wrappers(ctx):
    t, x = sym('t', ndim=0), sym('x', ndim=2)
    AR = sym('ARGS', 'obj', notnone=True)

    def standard():
        I = ctx.interp(UTL)
        fn = need(I, UTL, 'standardize_vf_call_signature')
        w = fn_where(I, UTL, 'standardize_vf_call_signature')
        for kind, mk in (('module', module), ('function', plain)):
            for spec in (('t', 'x', 'args'), ('x',)):
                v = mk('VF', spec)
                timed = 't' in spec
                for wrap in (False, True):
                    name = f"{kind} {'with' if timed else 'without'} time{', wrapped' if wrap else ''}"
                    s = I.call(fn, [v], {'order': 1, 'defunc_wrap': wrap})
                    got = I.as_term(I.call(s, [t, x], {'args': AR}))
                    want = I.as_term(I.call(v, [t, x, AR] if timed else [x], {}))
                    ctx.equal('C23', f"{name}/calls the field with what it takes", I, got, want, w)
                    if wrap:
                        ctx.check('C23', f"{name}/wrapper", cls_name(I, s) == 'DEFunc', w, f"the field is wrapped as {cls_name(I, s)}")
                s = I.call(fn, [v], {'order': 3, 'defunc_wrap': True})
                ctx.check('C23', f"{kind} {'with' if timed else 'without'} time/order", I.getattr(s, 'order') == 3, w, 'the order of the system is lost')
        ctx.done(I)

    def forward(order, loss, sens, ldim):
        def go():
            I = ctx.interp(DF)
            w = fn_where(I, DF, 'DEFunc')
            timed = sym('DC', 'obj', notnone=True, attrs={'t': sym('stale')})
            other = sym('LIN', 'obj', notnone=True, attrs={})
            other.meta['noattrs'] = ('t',)
            F = module('VF', mods=[timed, other])
            F.meta['noattrs'] = ('t',)
            name = f"order {order}" + (f", loss of {ldim} dimensions, {sens}" if loss else '')
            d = instance(I, DF, 'DEFunc', [F, order])
            L = []
            if loss:
                I.setattr(d, 'integral_loss', PyFunc('loss', lambda It, a, k: L.append(tuple(a)) or sym('dl', ndim=ldim)))
            I.setattr(d, 'sensitivity', sens)
            # the state holds as many blocks as the order says, and the accumulated loss before them
            x = sym('x', ndim=2, dims={1: add(mul(order, sym('n', 'num', int=True)), 1 if loss and sens == 'autograd' else 0)})
            n0 = I.getattr(d, 'nfe')
            r = I.as_term(I.call(d, [t, x], {'args': AR}))
            lossy = loss and sens == 'autograd'
            xd = getitem(x, (Slice(None, None, None), Slice(1, None, None))) if lossy else x
            calls = []

            def field(y):
                c = I.as_term(I.call(F, [t, y, AR], {}))
                return c
            body = field(xd)
            if order > 1:
                n = I.binop('//', size(xd, 1), order)
                body = tensor('cat', tuple([getitem(xd, (Slice(None, None, None), Slice(mul(n, i), mul(n, i + 1), None))) for i in range(1, order)] + [body]), 1)
            want = body
            if lossy:
                dl = sym('dl', ndim=ldim)
                want = tensor('cat', (getitem(dl, (Slice(None, None, None), None)) if ldim == 1 else dl, body), 1)
            ctx.equal('C23', f"{name}/derivative", I, argless(r, F), argless(want, F), w)
            if not lossy and order == 1:
                cs = calls_of(r, F)
                ctx.check('C23', f"{name}/arguments reach the field", len(cs) == 1 and any(same(a, AR) for a in cs[0].args[1]) or any(kv[1] is AR for c in cs for kv in c.args[2]), w,
                          'the dictionary of extra arguments does not reach the field')
            if lossy:
                ctx.check('C23', f"{name}/loss evaluated on time and state", len(L) == 1 and same(I.as_term(L[0][0]), t) and same(I.as_term(L[0][1]), xd), w,
                          'the integral loss is evaluated elsewhere than at the current time and state')
            ctx.equal('C23', f"{name}/evaluations are counted", I, I.as_term(I.getattr(d, 'nfe')), add(I.as_term(n0), 1), w)
            ctx.equal('C23', f"{name}/time reaches time-dependent submodules", I, I.as_term(I.getattr(timed, 't')), t, w)
            ctx.done(I)
        return go

    def any_order():
        I = ctx.interp(DF, spec=('models',))
        w = fn_where(I, DF, 'DEFunc')
        F = module('VF')
        F.meta['noattrs'] = ('t',)
        k, n = sym('k', 'num', int=True, notnone=True), sym('n', 'num', int=True)
        for b in (1, 2):
            I.st.assumed = tuple(I.st.assumed) + (I.compare1(ast.Gt(), k, b),)
        d = instance(I, DF, 'DEFunc', [F, k])
        I.setattr(d, 'sensitivity', 'autograd')
        x = sym('x', ndim=2, dims={1: mul(k, n)})
        r = I.as_term(I.call(d, [t, x], {'args': AR}))
        want = I.as_term(I.call(I.get('spec.models', 'higher_order'), [PyFunc('F', lambda It, a, kw: I.call(F, [t, a[0], AR], {})), x, k], {}))
        ctx.equal('C23', 'every order/derivative', I, argless(r, F), argless(want, F), w)
        ctx.done(I)

    def base():
        I = ctx.interp(DF)
        w = fn_where(I, DF, 'DEFuncBase')
        F = module('VF')
        for flag in (True, False):
            d = instance(I, DF, 'DEFuncBase', [F], {'has_time_arg': flag})
            n0 = I.as_term(I.getattr(d, 'nfe'))
            r = I.as_term(I.call(d, [t, x], {'args': AR}))
            want = I.as_term(I.call(F, [t, x, AR] if flag else [x], {}))
            ctx.equal('C23', f"DEFuncBase {'with' if flag else 'without'} time/call", I, r, want, w)
            ctx.equal('C23', f"DEFuncBase {'with' if flag else 'without'} time/evaluations are counted", I, I.as_term(I.getattr(d, 'nfe')), add(n0, 1), w)
        ctx.done(I)
    ctx.guard('C23', 'standardize', standard)
    ctx.guard('C23', 'base', base)
    ctx.guard('C23', 'every order', any_order)
    for order in (1, 2, 3, 4, 5, 6, 7, 8, 12):
        for loss, sens, ldim in ((False, 'autograd', 0), (True, 'autograd', 1), (True, 'autograd', 2), (True, 'adjoint', 1)):
            ctx.guard('C23', f"DEFunc {order} {loss} {sens} {ldim}", forward(order, loss, sens, ldim))


def argless(v, F):
    """extra arguments of the field are not compared"""
    def f(t):
        if isatom(t, 'call') and same(t.args[0], F):
            return Atom('call', (F, tuple(argless(a, F) for a in t.args[1][:2]), ()), t.kind)
        return None
    return subst(v, f)


def tensor(op, *a):
    from ..torchlib import tensor_op
    return tensor_op(op, list(a), {})


# ------------------------------------------------------------------------------------------------ C24
ALL = Slice(None, None, None)


def control(name):
    r = sym(name, 'obj', notnone=True, attrs={'_control': None}, isa=('torch.nn.Module',), noattrs=('trace_estimator', 't', 'nfe', 'integral_loss', 'sensitivity', 'noise_dist', 'noise'))
    return r


def estimator(name, dist):
    return sym(name, 'obj', notnone=True, isa=('torch.nn.Module',), attrs={'trace_estimator': sym('TR', 'fn', notnone=True), 'noise_dist': dist, 'noise': None}, noattrs=('_control', 't'))


def attached(v):
    return subst(v, lambda a: attached(a.args[0]) if isatom(a, 'detach', 'data') else None)


def severed(v, x):
    left = subst(v, lambda a: sym('cut') if isatom(a, 'detach', 'data', 'size', 'shape') else None)
    return not any(same(a, x) for a in subterms(left))


@rule('C24')
def prepare(ctx):
    X2 = sym('x', ndim=2)
    LOSS = OPTS['integral_loss']

    def made(I, mods, loss, sens, **o):
        F = module('VF', mods=mods)
        F.meta['noattrs'] = ('t', '_control', 'trace_estimator', 'noise_dist', 'noise', 'integral_loss')
        return instance(I, ND, 'NeuralODE', [F, SOLVER], dict({'integral_loss': LOSS if loss else None, 'sensitivity': sens}, **o))

    def grid():
        for given, own in ((True, False), (True, True), (False, True), (False, False)):
            for how in ('__call__', 'trajectory'):
                pl = Plumb(ctx)
                I = pl.I
                w = fn_where(I, ND, 'NeuralODE')
                p = made(I, [], False, 'autograd')
                OWN = sym('OWN', ndim=1, notnone=True)
                if own:
                    I.setattr(p, 't_span', OWN)
                r = I.call(p if how == '__call__' else I.getattr(p, how), [X2] + ([T] if given or how == 'trajectory' else []), {}) if given or how == '__call__' else \
                    I.call(I.getattr(p, how), [X2, None], {})
                c, _ = pl.take()
                name = f"{'call' if how == '__call__' else how}, grid {'given' if given else 'not given'}{', own grid set' if own else ''}"
                want = T if given else OWN if own else tensor('linspace', 0, 1, 2)
                ctx.check('C24', f"{name}/one solve", len(c) == 1, w, f"{len(c)} solves are made")
                if len(c) == 1:
                    ctx.equal('C24', f"{name}/integration interval", I, I.as_term(c[0][1]['t_span']), I.as_term(want), w)
                    ctx.equal('C24', f"{name}/initial state", I, I.as_term(c[0][1]['x']), X2, w)
                ctx.done(I)

    def aux(loss, sens, n_before, n_after, how):
        def go():
            pl = Plumb(ctx)
            I = pl.I
            w = fn_where(I, ND, 'NeuralODE')
            drawn = []
            sample = lambda It, a, k: drawn.append(tuple(a) + tuple(k.values())) or sym(f"NOISE{len(drawn)}")
            D = sym('DIST', 'obj', notnone=True, methods={'sample': sample})
            before = [estimator(f"E{i}", D if i == 0 else None) for i in range(n_before)]
            after = [estimator(f"E{i + n_before}", D if i == 0 else None) for i in range(n_after)]
            C = control('DC')
            p = made(I, before + [C] + after, loss, sens)
            r = I.call(p, [X2, T], {}) if how == 'call' else method(I, p, 'trajectory', [X2, T])
            skip = n_before + (1 if loss and sens == 'autograd' else 0)
            name = f"{how}, {'integral loss, ' if loss else ''}{sens}, {n_before} trace modules before and {n_after} after the control"
            want = X2 if skip == 0 else getitem(X2, (ALL, Slice(skip, None, None)))
            got = I.as_term(I.getattr(C, '_control'))
            ctx.equal('C24', f"{name}/control is the data part of the initial state", I, attached(got), want, w)
            ctx.check('C24', f"{name}/control carries no gradient", severed(got, X2), w, 'gradients flow from the control into the initial state')
            ctx.check('C24', f"{name}/controlled", I.getattr(p, 'controlled') is True, w, 'the model does not record that it is controlled')
            withnoise = (n_before > 0) + (n_after > 0)
            ctx.check('C24', f"{name}/noise drawn once per solve and distribution", len(drawn) == withnoise, w, f"{len(drawn)} samples are drawn, required {withnoise}")
            for i, d in enumerate(drawn):
                ctx.equal('C24', f"{name}/noise has one row per sample of the batch", I, I.as_term(d), ((size(X2, 0),),), w)
            k = 0
            for j, e in enumerate(before + after):
                if e.meta['attrs']['noise_dist'] is None:
                    continue
                k += 1
                ctx.equal('C24', f"{name}/noise reaches the trace estimator", I, I.as_term(I.getattr(e, 'noise')), sym(f"NOISE{k}"), w)
            vf_ = I.getattr(p, 'vf')
            ctx.equal('C24', f"{name}/sensitivity of the wrapped field", I, I.getattr(vf_, 'sensitivity'), sens, w)
            got = I.as_term(I.getattr(vf_, 'integral_loss'))
            ctx.check('C24', f"{name}/integral loss of the wrapped field", same(got, LOSS) if loss else got is None, w, 'the wrapped field integrates another loss than asked for')
            ctx.done(I)
        return go

    def order():
        pl = Plumb(ctx)
        I = pl.I
        w = fn_where(I, ND, 'NeuralODE')
        for n in (1, 2, 3):
            p = made(I, [], False, 'autograd', order=n)
            ctx.equal('C24', f"order {n}/wrapped field", I, I.getattr(I.getattr(p, 'vf'), 'order'), n, w)
            ctx.equal('C24', f"order {n}/model", I, I.getattr(p, 'order'), n, w)
        ctx.done(I)

    def params():
        for cname, mod in (('ODEProblem', PR), ('NeuralODE', ND), ('MultipleShootingProblem', PR)):
            for kind in ('own', 'given', 'none'):
                for sens in ('adjoint', 'interpolated_adjoint'):
                    pl = Plumb(ctx)
                    I = pl.I
                    w = fn_where(I, mod, cname)
                    if kind == 'given' and cname == 'MultipleShootingProblem':
                        continue
                    reg = []
                    F = module('VF', params=P if kind == 'own' else ())
                    F.meta['noattrs'] = ('t', '_control', 'trace_estimator', 'integral_loss', 'noise_dist')
                    F.meta['methods']['parameters'] = lambda It, a, k, reg=reg, kind=kind: (P if kind == 'own' else ()) + tuple(r[1] for r in reg)
                    F.meta['methods']['register_parameter'] = lambda It, a, k, reg=reg: reg.append((a[0], a[1]))
                    q = [sym('q0'), sym('q1'), sym('q2')]
                    kw = {'sensitivity': sens}
                    if kind == 'given':
                        kw['optimizable_params'] = I.new_list(tuple(q))
                    p = instance(I, mod, cname, [F, SOLVER], kw)
                    I.call(p, [X2, T], {})
                    c, ap = pl.take()
                    f = I.getattr(p, 'vf')
                    name = f"{cname}, {sens}, parameters {kind}"
                    ctx.check('C24', f"{name}/one solve", len(c) == 1 and len(ap) == 1, w, 'the adjoint is not applied once')
                    if not (len(c) == 1 and len(ap) == 1):
                        continue
                    direct = reg + [(e.data['name'], e.data['value']) for e in I.events if e.kind == 'register']
                    if kind == 'own':
                        want = P
                    elif kind == 'given':
                        ctx.check('C24', f"{name}/registered once each", same(tuple(r[1] for r in direct), tuple(q)) and len({r[0] for r in direct}) == len(q), w,
                                  'parameters to optimise are not registered with the vector field')
                        want = tuple(q)
                    else:
                        ctx.check('C24', f"{name}/placeholder registered", len(direct) == 1, w, 'no placeholder parameter is registered for a field without parameters')
                        want = tuple(r[1] for r in direct)
                    flat = tensor('cat', tuple(tensor('flatten', I.as_term(v)) for v in want))
                    ctx.equal('C24', f"{name}/all parameters reach the adjoint, flattened in order", I, I.as_term(ap[0][0][0]), flat, w)
                    if kind == 'own':
                        # the parameters were replaced in between (fine-tuning, another device): the current ones count
                        now = (sym('r0'), sym('r1'), sym('r2'))
                        F.meta['methods']['parameters'] = lambda It, a, k, now=now: now
                        I.call(p, [X2, T], {})
                        c, ap = pl.take()
                        flat = tensor('cat', tuple(tensor('flatten', v) for v in now))
                        ctx.check('C24', f"{name}/later solves flatten the parameters anew", len(ap) == 1 and same(I.as_term(ap[0][0][0]), flat), w,
                                  'a later solve differentiates with respect to parameters flattened earlier')
                    ctx.done(I)

    def stochastic():
        for given, own in ((True, False), (False, True), (False, False)):
            for how in ('call', 'trajectory'):
                pl = Plumb(ctx)
                I = pl.I
                w = fn_where(I, ND, 'NeuralSDE')
                C = control('DC')
                drift = module('DRIFT', ('t', 'x'), mods=[C])
                drift.meta['noattrs'] = ('_control', 't')
                drift.meta['attrs'].pop('_control', None)
                diff = module('DIFF', ('t', 'x'))
                OWN = sym('OWN', ndim=1, notnone=True)
                q = instance(I, ND, 'NeuralSDE', [drift, diff], {'solver': SOLVER, 't_span': OWN if own else None})
                dfn = I.getattr(q, 'defunc')
                I.setattr(dfn, 'named_modules', PyFunc('named_modules', lambda It, a, k: (('a', drift), ('b', C))))
                I.setattr(dfn, 'modules', PyFunc('modules', lambda It, a, k: (drift, C)))
                r = I.call(q, [X2] + ([T] if given else []), {}) if how == 'call' else method(I, q, 'trajectory', [X2, T if given else None])
                c, _ = pl.take()
                name = f"NeuralSDE {how}, grid {'given' if given else 'own' if own else 'default'}"
                ctx.check('C24', f"{name}/one solve", len(c) == 1, w, f"{len(c)} solves are made")
                if len(c) == 1:
                    want = T if given else OWN if own else tensor('linspace', 0, 1, 2)
                    ctx.equal('C24', f"{name}/integration interval", I, I.as_term(c[0][1]['t_span']), I.as_term(want), w)
                    ctx.equal('C24', f"{name}/initial state", I, I.as_term(c[0][1]['x']), X2, w)
                got = I.as_term(I.getattr(C, '_control'))
                ctx.equal('C24', f"{name}/control is the initial state", I, attached(got), X2, w)
                ctx.check('C24', f"{name}/control carries no gradient", severed(got, X2), w, 'gradients flow from the control into the initial state')
                ctx.done(I)

    def refuse():
        for n in (2, 3):
            I = ctx.interp(ND)
            w = fn_where(I, ND, 'NeuralSDE')
            need(I, ND, 'NeuralSDE')
            try:
                instance(I, ND, 'NeuralSDE', [module('DRIFT', ('t', 'x')), module('DIFF', ('t', 'x'))], {'order': n})
                ok = False
            except Dead:
                ok = True
            ctx.check('C24', f"NeuralSDE order {n}/refused", ok, w, 'a higher-order stochastic system is accepted although it is not implemented')
        ctx.done(I)
    ctx.guard('C24', 'grid', grid)
    ctx.guard('C24', 'order', order)
    ctx.guard('C24', 'parameters', params)
    ctx.guard('C24', 'SDE', stochastic)
    ctx.guard('C24', 'refusal', refuse)
    for loss, sens in ((False, 'autograd'), (True, 'autograd'), (True, 'adjoint'), (True, 'interpolated_adjoint'), (False, 'adjoint')):
        for nb, na in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1)):
            for how in ('call', 'trajectory'):
                ctx.guard('C24', f"aux {loss} {sens} {nb} {na} {how}", aux(loss, sens, nb, na, how))
