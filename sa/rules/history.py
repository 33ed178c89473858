"""Results do not depend on earlier calls: the value graph of a call made after other calls against that of the same call made first."""
from .base import *
from ..torchlib import tensor_op

OD = 'torchdyn.numerics.odeint'
SI = 'torchdyn.numerics.sdeint'
ODE = 'torchdyn.numerics.solvers.ode'
CHANGES = ('everything', 'state', 'grid', 'field')


def replay(ctx, name, mods, build, where, changes=CHANGES, objects=True):
    """build(I) makes the objects and returns call(I, what) -> {name: value}; what(input) names the version of an input"""
    def go():
        I = ctx.interp(*mods)
        I.plain_items = True
        for m in mods:
            I.load(m)
        zero = I.st
        I.st = zero.fork()
        run = build(I)
        start = I.st
        I.st = start.fork()
        first = lambda p: 'B'
        want = values(I, run(I, first))
        for c in changes:
            I.st = start.fork()
            run(I, lambda p: 'A' if c in ('everything', p) else 'B')
            if I.st is None:
                raise Unsupported('the first call never returns')
            I.st.pc, I.st.assumed = start.pc, start.assumed
            got = values(I, run(I, first))
            ctx.compare('C36', I, got, want, None, where, construct=f"{name}, after a call with another {c}" if c != 'everything' else f"{name}, after an unrelated call")
        if objects:
            I.st = zero.fork()
            build(I)(I, lambda p: 'A')
            I.st.pc, I.st.assumed = zero.pc, zero.assumed
            got = values(I, build(I)(I, first))
            ctx.compare('C36', I, got, want, None, where, construct=f"{name}, after other objects were made and used")
        ctx.done(I)
    ctx.guard('C36', name, go)


def values(I, r):
    return {k: I.as_term(v) for k, v in r.items()}


def field(v):
    return vf('f' + v)


def state(v, **m):
    return sym('x' + v, **m)


def grid(v, **m):
    return sym('T' + v, ndim=1, **m)


def pair(I, r, names=('times', 'solution')):
    return {n: I.subscript(r, i) for i, n in enumerate(names)}


@rule('C36')
def solvers(ctx):
    for s in ('euler', 'midpoint', 'rk4', 'dopri5', 'tsit5', 'ieuler', 'alf'):
        for inst in (True, False):
            def build(I, s=s, inst=inst):
                S = I.call(I.get(ODE, 'str_to_solver'), [s], {}) if inst else s
                fn = need(I, OD, 'odeint')
                return lambda I, v: pair(I, I.call(fn, [field(v('field')), state(v('state')), grid(v('grid')), S], {}))
            replay(ctx, f"odeint, {s} {'instance' if inst else 'by name'}", (OD, ODE), build, OD + '.odeint', CHANGES if inst else CHANGES[:1])
    def dense(I):
        S = I.call(I.get(ODE, 'str_to_solver'), ['dopri5'], {})
        J = I.call(I.get(OD, 'str_to_interp'), ['4th'], {})
        return lambda I, v: pair(I, I.call(need(I, OD, 'odeint'), [field(v('field')), state(v('state')), grid(v('grid')), S], {'interpolator': J}))
    replay(ctx, 'odeint, dopri5 and interpolator instances', (OD, ODE), dense, OD + '.odeint', ('everything', 'grid'))

    def saved(I):
        S = I.call(I.get(ODE, 'str_to_solver'), ['rk4'], {})
        return lambda I, v: pair(I, I.call(need(I, OD, 'odeint'), [field(v('field')), state(v('state')), grid(v('grid')), S], {'save_at': sym('SA' + v('requested times'), ndim=1)}))
    replay(ctx, 'odeint, rk4 instance, requested times', (OD, ODE), saved, OD + '.odeint', ('everything', 'requested times', 'grid'))
    for c in ('HyperEuler', 'HyperMidpoint', 'HyperRungeKutta4'):
        def hyper(I, c=c):
            S = I.call(need(I, HY, c), [sym('H', 'fn', params=('t', 'x'))], {})
            return lambda I, v: pair(I, I.call(need(I, OD, 'odeint'), [field(v('field')), state(v('state')), grid(v('grid')), S], {}))
        replay(ctx, f"odeint, {c} instance", (OD, HY), hyper, fn_where_(HY, c))


def fn_where_(mod, name):
    return f"{mod}.{name}"


HY = 'torchdyn.numerics.solvers.hyper'
IP = 'torchdyn.numerics.interpolators'
RT = 'torchdyn.numerics.solvers.root'
SE = 'torchdyn.numerics.sensitivity'
PR = 'torchdyn.core.problems'
ND = 'torchdyn.core.neuralde'


@rule('C36')
def steps(ctx):
    """single steps taken with one solver object, as users who write their own loops take them"""
    X = lambda v: sym('x' + v, ndim=2, notnone=True)
    z = lambda n, v: sym(n + v, ndim=0, notnone=True)
    for s in ('euler', 'midpoint', 'rk4', 'dopri5', 'tsit5', 'ieuler', 'alf'):
        for kept in (False, True):
            def build(I, s=s, kept=kept):
                S = I.call(I.get(ODE, 'str_to_solver'), [s], {})

                def run(I, v):
                    k = [sym('k' + v('field'), ndim=2, notnone=True)] if kept else []
                    r = method(I, S, 'step', [sym('f' + v('field'), 'fn', params=('t', 'x'), notnone=True), X(v('state')), z('t', v('time')), z('dt', v('step'))] + k)
                    return {f"part {i} of the result": I.as_term(u) for i, u in enumerate(r) if u is not None}
                return run
            replay(ctx, f"step of {s}{', first stage given' if kept else ''}", (ODE,), build, ODE + '.step', ('everything', 'field', 'state', 'step'))
    from .sde import SD
    for s, kind in (('euler', 'ito'), ('eulerHeun', 'stratonovich'), ('milstein_ito', 'ito'), ('milstein_stratonovich', 'stratonovich')):
        def sde(I, s=s, kind=kind):
            eq = sym('SDE', 'obj', notnone=True, isa=(), attrs={'f': sym('f', 'fn', params=('t', 'x')), 'g': sym('g', 'fn', params=('t', 'x')), 'sde_type': kind, 'noise_type': 'diagonal'})
            S = I.call(I.get(SD, 'sde_str_to_solver'), [s, eq, sym('W', 'fn', params=('t0', 't1'))], {})

            def run(I, v):
                r = method(I, S, 'step', [X(v('state')), z('t', v('time')), z('dt', v('step'))])
                return {f"part {i} of the result": I.as_term(u) for i, u in enumerate(r) if u is not None} if isinstance(r, tuple) else {'result': r}
            return run
        replay(ctx, f"step of stochastic {s}", (SD,), sde, SD + '.step', ('everything', 'state', 'time', 'step'))


@rule('C36')
def integrations(ctx):
    """the other integration routines, with solver objects that are used again"""
    for s in ('rk4', 'dopri5', 'alf'):
        def symplectic(I, s=s):
            S = I.call(I.get(ODE, 'str_to_solver'), [s], {})
            F = lambda v: sym('f' + v, 'fn', params=('t', 'x'), argspec=('t', 'x'), attrs={'order': 1 if s == 'alf' else 2})
            return lambda I, v: pair(I, I.call(need(I, OD, 'odeint_symplectic'), [F(v('field')), state(v('state'), ndim=2), grid(v('grid')), S], {}))
        replay(ctx, f"odeint_symplectic, {s} instance", (OD, ODE), symplectic, OD + '.odeint_symplectic')
    for s in ('dopri5', 'tsit5'):
        def hybrid(I, s=s):
            from .drivers import callback
            S = I.call(I.get(ODE, 'str_to_solver'), [s], {})
            cbs = I.new_list((callback('cb0'), callback('cb1')))
            J = sym('J', 'num')
            return lambda I, v: pair(I, I.call(need(I, OD, 'odeint_hybrid'), [field(v('field')), state(v('state')), grid(v('grid')), J, S, cbs], {}))
        replay(ctx, f"odeint_hybrid, {s} instance", (OD, ODE), hybrid, OD + '.odeint_hybrid')
    for s in ('zero', 'backward', 'ieuler'):
        def shooting(I, s=s):
            S = I.call(I.get(ODE, 'str_to_ms_solver'), [s], {})
            return lambda I, v: pair(I, I.call(need(I, OD, 'odeint_mshooting'), [field(v('field')), state(v('state'), ndim=2), grid(v('grid')), S], {'maxiter': 2, 'fine_steps': 4}))
        replay(ctx, f"odeint_mshooting, {s} instance", (OD, ODE), shooting, OD + '.odeint_mshooting')
    for fn in ('_shifted_fixed_odeint', '_jagged_fixed_odeint'):
        def segments(I, fn=fn):
            S = I.call(I.get(ODE, 'str_to_solver'), ['rk4'], {})

            def run(I, v):
                T = sym('T' + v('grid'), ndim=2) if fn[1] == 's' else I.new_list((sym('T0' + v('grid'), ndim=1), sym('T1' + v('grid'), ndim=1)))
                return {'result': I.call(need(I, OD, fn), [field(v('field')), tensor_op('stack', [tuple(sym(f"x{i}{v('state')}", ndim=2) for i in range(2))], {}), T, S], {})}
            return run
        replay(ctx, f"{fn}, rk4 instance", (OD, ODE), segments, f"{OD}.{fn}")
    from .sde import SD
    for s, kind in (('euler', 'ito'), ('eulerHeun', 'stratonovich'), ('milstein_ito', 'ito'), ('milstein_stratonovich', 'stratonovich')):
        for inst in (True, False):
            def sde(I, s=s, kind=kind, inst=inst):
                def equation(v):
                    return sym('SDE' + v, 'obj', notnone=True, isa=(), attrs={'f': sym('f' + v, 'fn', params=('t', 'x')), 'g': sym('g' + v, 'fn', params=('t', 'x')), 'sde_type': kind, 'noise_type': 'diagonal'})
                bm = sym('W', 'fn', params=('t0', 't1'))
                S = I.call(I.get(SD, 'sde_str_to_solver'), [s, equation('B'), bm], {}) if inst else s
                return lambda I, v: pair(I, I.call(need(I, SI, 'sdeint'), [equation(v('field')), state(v('state'), ndim=2), grid(v('grid')), S, bm], {}))
            replay(ctx, f"sdeint, {s} {'instance' if inst else 'by name'}", (SI, SD), sde, SI + '.sdeint', ('state', 'grid') if inst else CHANGES[:1])


@rule('C36')
def models(ctx):
    """problems and models: later calls of the same object"""
    from .api import module
    for cname, mod, s, kw in (('ODEProblem', PR, 'rk4', {}), ('ODEProblem', PR, 'dopri5', {}), ('NeuralODE', ND, 'tsit5', {'return_t_eval': True}), ('NeuralODE', ND, 'rk4', {'return_t_eval': False}),
                              ('ODEProblem', PR, 'dopri5', {'interpolator': '4th'})):
        dense = 'interpolator' in kw
        for how in ('call',) if dense else ('call', 'trajectory') if cname == 'NeuralODE' else ('call', 'odeint'):
            def build(I, cname=cname, mod=mod, s=s, kw=kw, how=how):
                p = instance(I, mod, cname, [module('VF'), s], dict(kw, sensitivity='autograd'))
                fn = p if how == 'call' else I.getattr(p, how)
                two = how == 'odeint' or how == 'call' and kw.get('return_t_eval', True)

                def run(I, v):
                    r = I.call(fn, [state(v('state'), ndim=2), grid(v('grid'))], {})
                    return pair(I, r) if two else {'solution': r}
                return run
            replay(ctx, f"{cname}, {s}{', dense output' if 'interpolator' in kw else ''}, {how}{'' if kw.get('return_t_eval', True) else ', solution only'}", (ND, PR, OD), build, fn_where_(mod, cname), ('everything',) if dense else ('everything', 'state', 'grid'))
    for cname, mod in (('MultipleShootingProblem', PR), ('MultipleShootingLayer', ND)):
        for s in ('zero', 'backward'):
            def ms(I, cname=cname, mod=mod, s=s):
                p = instance(I, mod, cname, [module('VF'), s], {'sensitivity': 'autograd', 'maxiter': 2, 'fine_steps': 4})
                return lambda I, v: pair(I, I.call(p, [state(v('state'), ndim=2), grid(v('grid'))] + ([sym('B' + v('guess'), ndim=3)] if v('guess') == 'A' else []), {}))
            replay(ctx, f"{cname}, {s}", (ND, PR, OD), ms, fn_where_(mod, cname), ('everything', 'state', 'grid', 'guess'))

    def default_grid(I):
        from .api import control
        C = control('DC')
        F = module('VF', mods=[C])
        F.meta['noattrs'] = ('_control', 't', 'trace_estimator')
        F.meta['attrs'].pop('_control', None)
        p = instance(I, ND, 'NeuralODE', [F, 'rk4'], {'sensitivity': 'autograd'})

        def run(I, v):
            r = I.call(p, [state(v('state'), ndim=2)] + ([grid('A')] if v('grid') == 'A' else []), {})
            return dict(pair(I, r), control=I.getattr(C, '_control'))
        return run
    replay(ctx, 'NeuralODE with a control, no grid given', (ND, PR, OD), default_grid, fn_where_(ND, 'NeuralODE'), ('everything', 'state', 'grid'))

    def nsde(I):
        q = instance(I, ND, 'NeuralSDE', [module('DRIFT', ('t', 'x')), module('DIFF', ('t', 'x'))], {'solver': 'euler', 'bm': sym('W', 'fn', params=('t0', 't1')), 'noise_type': 'diagonal', 'sde_type': 'ito', 'return_t_eval': True})
        return lambda I, v: pair(I, I.call(q, [state(v('state'), ndim=2)] + ([grid(v('grid'))] if v('given') == given else []), {}))
    for given in 'AB':
        replay(ctx, f"NeuralSDE, euler{'' if given == 'B' else ', no grid given'}", (ND, PR, SI), nsde, fn_where_(ND, 'NeuralSDE'), ('everything', 'state', 'grid', 'given'))


@rule('C36')
def backward(ctx):
    """continuous adjoints: other solves before, between the two passes, and the backward pass taken twice"""
    from .adjoint import GATHER
    P = (sym('p0'), sym('p1'))
    for kind, fn in GATHER.items():
        for loss in (False, True):
            def go(kind=kind, fn=fn, loss=loss):
                I = ctx.interp(SE, OD)
                I.plain_items = True
                I.opaque[OD + '.odeint'] = lambda It, f_, b: (Atom('fun', ('times', It.as_term(b['x']), It.as_term(b['t_span'])), 'tensor', {'notnone': True, 'ndim': 1}),
                                                             Atom('fun', ('solution', It.as_term(b['f']), It.as_term(b['x']), It.as_term(b['t_span'])), 'tensor', {'notnone': True, 'ndim': 3}))
                I.extern['torchcde.natural_cubic_coeffs'] = lambda It, a, k: Atom('fun', ('coeffs', It.as_term(k.get('t', a[0] if a else None)), It.as_term(k.get('x', a[1] if len(a) > 1 else None))), 'obj', {'notnone': True})

                def spline(It, a, k):
                    q = [It.as_term(u) for u in list(a) + [k[n] for n in ('coeffs', 't') if n in k]]
                    return Atom('sym', ('spline', dig(tuple(q))), 'obj', {'notnone': True, 'methods': {'evaluate': lambda J, b, w: Atom('fun', ('spline', J.as_term(b[0] if b else w['t'])) + tuple(q), 'tensor', {'notnone': True})}})
                I.extern['torchcde.CubicSpline'] = spline
                F = sym('vf', 'fn', params=('t', 'x'), argspec=('t', 'x'), methods={'parameters': lambda It, a, k: P})
                L = sym('loss', 'fn', params=('t', 'x')) if loss else None
                vp = sym('vp', ndim=1)
                S = sym('S', 'obj', notnone=True)
                cls = I.call(need(I, SE, fn), [F, vp, S, sym('atol', 'num'), sym('rtol', 'num'), None, S, sym('atol_a', 'num'), sym('rtol_a', 'num'), L, 'standard', 4, 4], {})
                bwd = I.lookup(cls, 'backward')
                start = I.st

                def forward(v):
                    r = I.call(I.getattr(cls, 'apply'), [vp, sym('x' + v, ndim=2), grid(v), None, ()], {})
                    return r, [e for e in I.events if e.kind == 'apply'][-1].data['ctx']

                def back(c, v):
                    g = I.as_seq(I.call(bwd, [c[1], sym('Gt' + v, ndim=1), sym('Gx' + v, ndim=3)], {}))
                    return {n: u for n, u in zip(('gradient of the parameters', 'gradient of the state', 'gradient of the grid'), g) if u is not None}
                I.st = start.fork()
                want = back(forward('B'), 'B')
                w = f"{SE}.{fn}"
                nm = kind + (', integral loss' if loss else '')

                def judge(how, got):
                    ctx.compare('C36', I, got, want, None, w, construct=f"{nm}, {how}")
                    I.st = start.fork()
                I.st = start.fork()
                back(forward('A'), 'A')
                judge('after another solve and its backward pass', back(forward('B'), 'B'))
                c = forward('B')
                forward('A')
                judge('another solve between the two passes', back(c, 'B'))
                c, d = forward('B'), forward('A')
                back(d, 'A')
                judge('backward passes in reverse order of the solves', back(c, 'B'))
                c = forward('B')
                back(c, 'B')
                judge('second backward pass of one solve', back(c, 'B'))
                ctx.done(I)
            ctx.guard('C36', f"{kind} {loss}", go)


@rule('C36')
def parts(ctx):
    """building blocks called again: layers, models, bases, interpolators, root search"""
    from .models import net, NL, GA, EN, CN
    N, H, J = net('NET'), net('H'), net('J')
    X = lambda v: sym('x' + v, ndim=2, notnone=True)

    def layer(name, mods, where, make, arg=X, pre=None):
        def build(I):
            m = make(I)

            def run(I, v):
                if pre:
                    pre(I, m, v('setting'))
                return {'value': I.call(m, [arg(v('input'))], {})}
            return run
        replay(ctx, name, mods, build, where, ('everything', 'input') + (('setting',) if pre else ()))
    for n in ('GNF', 'HNN', 'LNN', 'ConservativeLinearSNF'):
        layer(n, (EN,), fn_where_(EN, n), lambda I, n=n: instance(I, EN, n, [H] + ([J] if n[0] == 'C' else [])))
    layer('CNF', (CN,), fn_where_(CN, 'CNF'), lambda I: instance(I, CN, 'CNF', [N]))
    layer('CNF, stochastic trace', (CN,), fn_where_(CN, 'CNF'), lambda I: instance(I, CN, 'CNF', [N, I.get(CN, 'hutch_trace'), sym('DIST', 'obj', notnone=True)]),
          pre=lambda I, m, v: I.setattr(m, 'noise', sym('noise' + v, ndim=2, notnone=True)))
    layer('Augmenter by zeros', (NL,), fn_where_(NL, 'Augmenter'), lambda I: instance(I, NL, 'Augmenter', [], {'augment_dims': 2}))
    layer('Augmenter by a function', (NL,), fn_where_(NL, 'Augmenter'), lambda I: instance(I, NL, 'Augmenter', [], {'augment_func': N}))
    layer('DepthCat', (NL,), fn_where_(NL, 'DepthCat'), lambda I: instance(I, NL, 'DepthCat', [], {'idx_cat': 1}), pre=lambda I, m, v: I.setattr(m, 't', sym('t' + v, ndim=0, notnone=True)))
    layer('DataControl', (NL,), fn_where_(NL, 'DataControl'), lambda I: instance(I, NL, 'DataControl'), pre=lambda I, m, v: I.setattr(m, '_control', sym('u' + v, ndim=2, notnone=True)))
    for n in ('Fourier', 'Polynomial', 'Chebychev', 'GaussianRBF', 'VanillaRBF', 'MultiquadRBF'):
        def bas(I, n=n):
            b = instance(I, GA, n, [3])
            return lambda I, v: {'value': I.call(b, [tensor_op('arange', [3], {}), sym('s' + v('argument'), ndim=0, notnone=True)], {})}
        replay(ctx, n, (GA,), bas, fn_where_(GA, n), ('argument',))
        layer(f"GalLinear, {n}", (GA,), fn_where_(GA, 'GalLinear'), lambda I, n=n: instance(I, GA, 'GalLinear', [2, 3], {'expfunc': instance(I, GA, n, [3])}))
    layer('GalConv2d', (GA,), fn_where_(GA, 'GalConv2d'), lambda I: instance(I, GA, 'GalConv2d', [2, 3], {'kernel_size': 2}), arg=lambda v: sym('x' + v, ndim=4, notnone=True))

    def interp(I):
        q = I.call(need(I, IP, 'str_to_interp'), ['4th'], {'dtype': Ext('torch.float32')})
        t = lambda n, v: sym(n + v, ndim=0, notnone=True)

        def run(I, v):
            c = method(I, q, 'fit', [t('dt', v('interval'))] + [sym(n + v('values')) for n in ('f0', 'f1', 'x0', 'x1', 'xm')])
            r = {'value': method(I, q, 'evaluate', [c, t('t0', v('interval')), t('t1', v('interval')), t('t', v('time'))])}
            r['value again'] = method(I, q, 'evaluate', [c, t('t0', v('interval')), t('t1', v('interval')), t('t', v('time'))])
            method(I, q, 'fit', [t('dt', 'C')] + [sym(n + 'C') for n in ('f0', 'f1', 'x0', 'x1', 'xm')])
            r['value after another fit'] = method(I, q, 'evaluate', [c, t('t0', v('interval')), t('t1', v('interval')), t('t', v('time'))])
            ctx.equal('C36', 'interpolator, coefficients evaluated twice', I, r['value again'], r['value'], fn_where_(IP, 'FourthOrder'))
            ctx.equal('C36', 'interpolator, coefficients evaluated after another fit', I, r['value after another fit'], r['value'], fn_where_(IP, 'FourthOrder'))
            return r
        return run
    replay(ctx, 'interpolator', (IP,), interp, fn_where_(IP, 'FourthOrder'), ('everything', 'interval', 'values', 'time'))

    for meth in ('broyden', 'broyden_fast'):
        for how in ('none', 'naive', 'armijo'):
            def root(I, meth=meth, how=how):
                return lambda I, v: {'root': I.subscript(I.call(need(I, RT, 'root_find'), [sym('g' + v('function'), 'fn', params=('z',)), sym('z' + v('guess'), ndim=2)],
                                                                {'method': meth, 'search_method': how, 'maxiters': sym('maxiters', 'num', int=True)}), 0)}
            replay(ctx, f"root_find, {meth}, {how} search", (RT,), root, fn_where_(RT, 'root_find'), ('everything', 'function', 'guess'))
