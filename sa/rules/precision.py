"""Double-precision problems are solved in double precision: promotion of dtypes over the value graph of every integration."""
from .base import *
from ..dtypes import Types, F32, F64, UNK, INT

OD = 'torchdyn.numerics.odeint'
SI = 'torchdyn.numerics.sdeint'
SE = 'torchdyn.numerics.sensitivity'
ODE = 'torchdyn.numerics.solvers.ode'
HY = 'torchdyn.numerics.solvers.hyper'
PR = 'torchdyn.core.problems'
CONTROL = ('adapt_step', 'init_step', 'hairer_norm')
DRIVERS = ('_adaptive_odeint', 'odeint', 'odeint_hybrid', 'odeint_symplectic')
TORCH = {F64: 'torch.float64', F32: 'torch.float32'}


def strict(frames):
    """computes the solution itself; elsewhere the size of the next step is chosen, and any size is as good"""
    names = [q.split('.')[-1] for q in frames]
    if any(n in CONTROL for n in names):
        return False
    return '.solvers.' in ' '.join(frames) or '.interpolators.' in ' '.join(frames) or not any(n in ('_adaptive_odeint', 'odeint_hybrid') for n in names)


def tensor(name, ty, **meta):
    v = sym(name, 'tensor', ty=ty, **meta)
    v.meta.setdefault('attrs', {})['dtype'] = Atom('ext', (TORCH[ty],), 'obj')
    v.meta.setdefault('pytype', 'torch.Tensor')
    return v


def field(name='f', ty=F64, **meta):
    F = sym(name, 'fn', params=('t', 'x'), argspec=('t', 'x'), **meta)
    F.meta['ty'] = ty
    return F


def problems(I, t):
    """(location, function, message) of every operation of the analysed code which loses precision"""
    out = []
    for e in I.events:
        if e.kind != 'typing' or str(e.fn).startswith('spec.'):
            continue
        op, a, s = e.data['op'], e.data['args'], strict(e.data['frames'])
        if op == 'cast':
            m = t.cast_loss(*a, strict=s)
        elif op == 'create':
            m = t.creation_loss(a[0])
        elif op == 'store':
            m = t.store_loss(*a)
        else:
            m = t.loss(op, a, s)
        if m:
            out.append((e.where(), e.fn, m))
    return out


def judge(ctx, name, I, result=None, ty=F64, where=OD, every=True):
    t = Types(I)
    fns = sorted({e.fn for e in I.events if e.kind == 'typing' and not str(e.fn).startswith('spec.') and e.fn != '?'})
    if every:
        bad = {}
        for w, fn, m in problems(I, t):
            bad.setdefault(fn, (w, m))
        for fn in fns:
            w, m = bad.get(fn, (fn, ''))
            ctx.check('C35', f"{name}/{fn.split('.', 1)[1]}", fn not in bad, w, m)
    if result is not None:
        ds = {d for d, _ in t.ty(I.as_term(result))}
        other = F32 if ty == F64 else F64
        ctx.check('C35', f"{name}/precision of the solution", other not in ds, where,
                  'the solution is in single precision although the initial state is in double precision' if ty == F64 else 'the solution is not in the precision of the initial state')
    ctx.done(I)


def setup(ctx, *mods):
    I = ctx.interp(*mods)
    I.precise = True
    return I


NAMES = ('euler', 'midpoint', 'rk4', 'dopri5', 'tsit5', 'ieuler', 'alf')


@rule('C35')
def named(ctx):
    """solvers given by name"""
    for s in NAMES:
        for itp in (None, '4th') if s == 'dopri5' else (None,):
            def go(s=s, itp=itp):
                I = setup(ctx, OD)
                r = I.call(need(I, OD, 'odeint'), [field(), tensor('x', F64, ndim=2), tensor('T', F64, ndim=1), s], {'interpolator': itp} if itp else {})
                judge(ctx, f"odeint, {s}" + (', dense output' if itp else ''), I, I.subscript(r, 1), F64, OD + '.odeint')
            ctx.guard('C35', f"{s} {itp}", go)

            def kept(s=s, itp=itp):
                for tx, tt in ((F32, F32), (F64, F32), (F32, F64))[:1 if itp else 3]:
                    I = setup(ctx, OD)
                    r = I.call(need(I, OD, 'odeint'), [field(ty=tx), tensor('x', tx, ndim=2), tensor('T', tt, ndim=1), s], {'interpolator': itp} if itp else {})
                    judge(ctx, f"odeint, {s}" + (', dense output' if itp else '') + f", {TORCH[tx][6:]} state on a {TORCH[tt][6:]} grid", I, I.subscript(r, 1), tx, OD + '.odeint', every=False)
            ctx.guard('C35', f"{s} {itp} kept", kept)


def system(ty=F64):
    F = field(ty=ty)
    F.meta.setdefault('attrs', {})['order'] = 1
    return F


@rule('C35')
def options(ctx):
    """given grids, requested times and initial step sizes of other types"""
    def saved():
        I = setup(ctx, OD)
        r = I.call(need(I, OD, 'odeint'), [field(), tensor('x', F64, ndim=2), tensor('T', F64, ndim=1), 'rk4'], {'save_at': I.new_list((Fraction(1, 10), Fraction(3, 10)))})
        judge(ctx, 'odeint, rk4, list of requested times', I, I.subscript(r, 1), F64, OD + '.odeint')
    ctx.guard('C35', 'requested times', saved)
    for s in ('alf', 'rk4', 'dopri5'):
        def go(s=s):
            I = setup(ctx, OD)
            F = system()
            if s != 'alf':
                F.meta['attrs']['order'] = 2
            r = I.call(need(I, OD, 'odeint_symplectic'), [F, tensor('x', F64, ndim=2), tensor('T', F64, ndim=1), s], {})
            judge(ctx, f"odeint_symplectic, {s}", I, I.subscript(r, 1), F64, OD + '.odeint_symplectic')
        ctx.guard('C35', 'symplectic ' + s, go)
    for s in ('dopri5', 'tsit5'):
        def hyb(s=s):
            from .drivers import callback
            I = setup(ctx, OD)
            cb = sym('cb0', 'obj', notnone=True, methods={'check_event': lambda It, a, k: Atom('fun', ('check', It.as_term(a[0]), It.as_term(a[1])), 'bool'),
                                                           'jump_map': lambda It, a, k: Atom('typed', (Atom('fun', ('jump', It.as_term(a[0]), It.as_term(a[1])), 'tensor'), ('fixed', F64), 2, ()), 'tensor', {'notnone': True})})
            r = I.call(need(I, OD, 'odeint_hybrid'), [field(), tensor('x', F64, ndim=2), tensor('T', F64, ndim=1), sym('J', 'num'), s, I.new_list((cb,))], {})
            judge(ctx, f"odeint_hybrid, {s}", I, I.subscript(r, 1), F64, OD + '.odeint_hybrid')
        ctx.guard('C35', 'hybrid ' + s, hyb)


@rule('C35')
def parallel(ctx):
    for s in ('zero', 'backward', 'ieuler'):
        def go(s=s):
            I = setup(ctx, OD)
            r = I.call(need(I, OD, 'odeint_mshooting'), [field(), tensor('x', F64, ndim=2), tensor('T', F64, ndim=1), s], {'maxiter': 2, 'fine_steps': 4})
            judge(ctx, f"odeint_mshooting, {s}", I, I.subscript(r, 1), F64, OD + '.odeint_mshooting')
        ctx.guard('C35', 'mshooting ' + s, go)
    for fn in ('_shifted_fixed_odeint', '_jagged_fixed_odeint'):
        def seg(fn=fn):
            I = setup(ctx, OD)
            S = I.call(I.get(ODE, 'str_to_solver'), ['rk4'], {})
            T = tensor('T', F64, ndim=2) if fn[1] == 's' else I.new_list((tensor('T0', F64, ndim=1), tensor('T1', F64, ndim=1)))
            I.call(need(I, OD, fn), [field(), tensor('x', F64, ndim=3, dims={0: 2}), T, S], {})
            judge(ctx, fn, I)
        ctx.guard('C35', fn, seg)


@rule('C35')
def hyper(ctx):
    for c in ('HyperEuler', 'HyperMidpoint', 'HyperRungeKutta4'):
        def go(c=c):
            I = setup(ctx, OD, HY)
            S = I.call(need(I, HY, c), [field('H')], {'dtype': Atom('ext', ('torch.float64',), 'obj')})
            r = I.call(need(I, OD, 'odeint'), [field(), tensor('x', F64, ndim=2), tensor('T', F64, ndim=1), S], {})
            judge(ctx, f"odeint, {c}", I, I.subscript(r, 1), F64, OD + '.odeint')
        ctx.guard('C35', c, go)


@rule('C35')
def stochastic(ctx):
    from .sde import SD
    for s, kind in (('euler', 'ito'), ('eulerHeun', 'stratonovich'), ('milstein_ito', 'ito'), ('milstein_stratonovich', 'stratonovich')):
        def go(s=s, kind=kind):
            I = setup(ctx, SI, SD)
            e = sym('SDE', 'obj', notnone=True, isa=(), attrs={'f': field('f'), 'g': field('g'), 'sde_type': kind, 'noise_type': 'diagonal'})
            bm = field('W')
            r = I.call(need(I, SI, 'sdeint'), [e, tensor('x', F64, ndim=2), tensor('T', F64, ndim=1), s, bm], {})
            judge(ctx, f"sdeint, {s}", I, I.subscript(r, 1), F64, SI + '.sdeint')
        ctx.guard('C35', 'sde ' + s, go)


@rule('C35')
def problems_by_name(ctx):
    """problems that resolve the name of their solver when they are built"""
    from .api import module, ND
    from .base import instance
    for cname, mod, kw in (('ODEProblem', PR, {'sensitivity': 'autograd'}), ('NeuralODE', ND, {'sensitivity': 'autograd', 'return_t_eval': True}),
                           ('ODEProblem', PR, {'sensitivity': 'adjoint'}), ('ODEProblem', PR, {'sensitivity': 'interpolated_adjoint'})):
        for s in ('rk4', 'dopri5'):
            if s == 'dopri5' and 'adjoint' in kw['sensitivity']:
                continue

            def go(cname=cname, mod=mod, kw=kw, s=s):
                I = setup(ctx, ND, PR, OD)
                F = module('VF')
                F.meta['ty'] = F64
                p = instance(I, mod, cname, [F, s], dict(kw))
                x, T = tensor('x', F64, ndim=2), tensor('T', F64, ndim=1)
                r = I.call(p, [x, T], {})
                judge(ctx, f"{cname}, {s}, {kw['sensitivity']}", I, I.subscript(r, 1), F64, fn_where(I, mod, cname))
            ctx.guard('C35', f"{cname} {s} {kw['sensitivity']}", go)
    for cname, mod in (('MultipleShootingProblem', PR), ('MultipleShootingLayer', ND)):
        def ms(cname=cname, mod=mod):
            I = setup(ctx, ND, PR, OD)
            F = module('VF')
            F.meta['ty'] = F64
            p = instance(I, mod, cname, [F, 'zero'], {'sensitivity': 'autograd', 'maxiter': 2, 'fine_steps': 4})
            r = I.call(p, [tensor('x', F64, ndim=2), tensor('T', F64, ndim=1)], {})
            judge(ctx, f"{cname}, zero", I, I.subscript(r, 1), F64, fn_where(I, mod, cname))
        ctx.guard('C35', cname, ms)


@rule('C35')
def backward(ctx):
    """the backward pass of both continuous adjoints, with the adjoint system integrated by named solvers"""
    from .adjoint import GATHER
    for kind, fn in GATHER.items():
        for s in ('rk4', 'dopri5'):
            def go(kind=kind, fn=fn, s=s):
                I = setup(ctx, SE, OD)
                P = tuple(tensor(f"p{i}", F64) for i in range(2))
                F = field('vf', methods={'parameters': lambda It, a, k: P})
                x, T, vp = tensor('x', F64, ndim=2), tensor('T', F64, ndim=1), tensor('vp', F64, ndim=1)
                I.extern['torchcde.natural_cubic_coeffs'] = lambda It, a, k: Atom('fun', ('coeffs', It.as_term(k.get('t', a[0] if a else None)), It.as_term(k.get('x', a[1] if len(a) > 1 else None))), 'obj', {'notnone': True})
                I.extern['torchcde.CubicSpline'] = lambda It, a, k: sym('spline', 'obj', notnone=True, methods={'evaluate': lambda J, b, q: Atom('typed', (Atom('fun', ('spline', J.as_term(b[0] if b else q['t'])), 'tensor'), ('fixed', F64), 2, ()), 'tensor', {'notnone': True})})
                cls = I.call(need(I, SE, fn), [F, vp, s, Fraction(1, 1000), Fraction(1, 1000), None, s, Fraction(1, 1000), Fraction(1, 1000), None, 'standard', 4, 4], {})
                I.call(I.getattr(cls, 'apply'), [vp, x, T, None, ()], {})
                ap = [e for e in I.events if e.kind == 'apply']
                bwd = I.lookup(cls, 'backward')
                if not ap or bwd is None:
                    raise Vanished('autograd function of ' + fn)
                g = I.as_seq(I.call(bwd, [ap[0].data['ctx'], tensor('Gt', F64, ndim=1), tensor('Gx', F64, ndim=3)], {}))
                judge(ctx, f"{kind}, {s}", I, None, F64, SE + '.' + fn)
                t = Types(I)
                for n, v in zip(('parameters', 'state', 'grid'), g):
                    if isinstance(v, Term):
                        ctx.check('C35', f"{kind}, {s}/precision of the gradient of the {n}", not any(d == F32 for d, _ in t.ty(v)), SE + '.' + fn,
                                  'the gradient is in single precision although the problem is in double precision')
            ctx.guard('C35', f"{kind} {s}", go)
