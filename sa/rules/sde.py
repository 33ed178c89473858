"""Rules about stochastic differential equations: step formulas, guards, driver and equation wrapper."""
from .base import *
from .api import module, plain, STOCH, cls_name
from .drivers import refusals

SD = 'torchdyn.numerics.solvers.sde'
SI = 'torchdyn.numerics.sdeint'
DF = 'torchdyn.core.defunc'
x, t, dt = sym('x'), sym('t', ndim=0), sym('dt', ndim=0)
T = sym('T', ndim=1)
f, g, bm = (sym(n, 'fn', params=('t', 'x')) for n in 'fgW')
NOISE = ('general', 'diagonal', 'scalar', 'additive')
ITO = {'EulerMaruyama': 'ito', 'EulerHeun': 'stratonovich', 'MilesteinIto': 'ito', 'MilesteinStratonovich': 'stratonovich'}


def equation(kind, noise='diagonal', **extra):
    return sym('SDE', 'obj', notnone=True, isa=(), attrs=dict({'f': f, 'g': g, 'sde_type': kind, 'noise_type': noise}, **extra))


@rule('C20')
def steps(ctx):
    for c, kind in ITO.items():
        for noise in NOISE:
            def go(c=c, kind=kind, noise=noise):
                I = ctx.interp(SD, spec=('sde',))
                w = fn_where(I, SD, c)
                s = instance(I, SD, c, [equation(kind, noise), bm])
                r = I.as_seq(method(I, s, 'step', [x, t, dt]))
                ok = isinstance(r, tuple) and len(r) == 3
                ctx.check('C20', f"{c}, {noise} noise/result", ok, w, 'a step returns derivative, state and error')
                if ok:
                    name = {'EulerMaruyama': 'euler_maruyama', 'EulerHeun': 'euler_heun'}.get(c, 'milstein')
                    want = I.call(I.get('spec.sde', name), [f, g, bm, x, t, dt] + ([kind == 'ito'] if name == 'milstein' else []), {})
                    ctx.equal('C20', f"{c}, {noise} noise/new state", I, r[1], want, w)
                    incs = calls_of(I.as_term(r[1]), bm)
                    ctx.check('C20', f"{c}, {noise} noise/Brownian increment over the step", len(incs) == 1 and same(incs[0].args[1][0], t) and same(I.as_term(incs[0].args[1][1]), add(t, dt)), w,
                              'the noise of a step is not one increment of the given Brownian motion over exactly the step')
                    rnd = [e for e in I.events if e.kind == 'random']
                    ctx.check('C20', f"{c}, {noise} noise/no other source of randomness", not rnd, rnd[0].where() if rnd else w, 'a step draws random numbers besides the Brownian motion')
                ctx.done(I)
            ctx.guard('C20', f"{c} {noise}", go)

    def limits():
        """without noise every scheme is the Euler step of the drift"""
        for c, kind in ITO.items():
            I = ctx.interp(SD)
            z = PyFunc('zero', lambda It, a, k: 0)
            e = sym('SDE', 'obj', notnone=True, isa=(), attrs={'f': f, 'g': z, 'sde_type': kind, 'noise_type': 'diagonal'})
            s = instance(I, SD, c, [e, bm])
            r = I.as_seq(method(I, s, 'step', [x, t, dt]))
            ctx.equal('C20', f"{c}/Euler step of the drift without noise", I, r[1], add(x, mul(dt, I.as_term(I.call(f, [t, x], {})))), fn_where(I, SD, c))
            ctx.done(I)
    ctx.guard('C20', 'limits', limits)


def accepted(ctx, make):
    try:
        I = make()
        pcs = [e for e in I.events if e.kind == 'raise' or e.kind == 'assert' and e.data['cond'] is not True]
        ctx.done(I)
        return not pcs
    except Dead:
        return False


@rule('C21')
def guards(ctx):
    for c, own in ITO.items():
        def go(c=c, own=own):
            w = SD + '.' + c
            for kind in ('ito', 'stratonovich', 'other', None):
                for noise in NOISE + ('unheard of', None):
                    def make(kind=kind, noise=noise):
                        I = ctx.interp(SD)
                        need(I, SD, c)
                        instance(I, SD, c, [equation(kind, noise), bm])
                        return I
                    ok = accepted(ctx, make)
                    want = kind == own and noise in NOISE
                    ctx.check('C21', f"{c}/equation of type {kind} with {noise} noise", ok == want, w,
                              ('accepted' if ok else 'refused') + f" although the scheme is for {own} equations" + ('' if noise in NOISE else ' with known noise'))
        ctx.guard('C21', c, go)

    def named():
        for n, c in STOCH.items():
            for kind in ('ito', 'stratonovich'):
                def make(n=n, kind=kind):
                    I = ctx.interp(SI)
                    need(I, SI, 'sdeint')
                    I.call(I.get(SI, 'sdeint'), [equation(kind), x, T, n, bm], {})
                    return I
                ok = accepted_call(ctx, make)
                want = kind == ITO[c]
                ctx.check('C21', f"sdeint, solver {n}/equation of type {kind}", ok == want, SI + '.sdeint', ('accepted' if ok else 'refused') + f" although the scheme is for {ITO[c]} equations")
    ctx.guard('C21', 'named', named)


def accepted_call(ctx, make):
    try:
        ctx.done(make())
        return True
    except Dead:
        return False


def stepper():
    return sym('S', 'obj', notnone=True, pytype='torchdyn.Solver', isa=(), attrs={'stepping_class': 'fixed', 'sync_device_dtype': PyFunc('sync', lambda I, a, k: (a[0], a[1])),
               'step': sym('step', 'fn', params=('x', 't', 'dt'), returns='obj')})


@rule('C22')
def driver(ctx):
    cfg = {'save_at given': lambda I: sym('SA', ndim=1), 'save_at omitted': lambda I: (), 'save_at list': lambda I: I.new_list((sym('s0', 'num'), sym('s1', 'num')))}
    for name, sa in cfg.items():
        def go(name=name, sa=sa):
            I = ctx.interp(SI, spec=('sde',))
            S = stepper()
            xs = sym('x', ndim=2, pytype='torch.Tensor')
            e0 = len(I.events)
            base0 = I.st.assumed
            got = I.call(need(I, SI, 'sdeint'), [equation('ito'), xs, T, S, bm], {'save_at': sa(I)})
            r_got = refusals(I, e0)
            I.st.assumed = base0
            e0 = len(I.events)
            want = I.call(I.get('spec.sde', 'fixed'), [xs, T, S, sa(I)], {})
            r_want = refusals(I, e0)
            ctx.done(I)
            g_, w_ = ({n: I.subscript(r, i) for i, n in enumerate(('times', 'solution'))} for r in (got, want))
            ctx.compare('C22', I, g_, w_, None, SI + '._fixed_sdeint', construct='driver, ' + name)
            if 'list' not in name:
                ctx.equal('C22', f"driver, {name}/requested times must lie on the grid", I, r_got, r_want, SI + '._fixed_sdeint')
        ctx.guard('C22', name, go)

    def refuse():
        for what, T2, S in (('adaptive stepping', T, sym('S', 'obj', notnone=True, isa=(), pytype='torchdyn.Solver', attrs={'stepping_class': 'adaptive', 'sync_device_dtype': PyFunc('sync', lambda I, a, k: (a[0], a[1]))})),
                            ('a grid per sample', sym('T', ndim=2), stepper())):
            def make():
                I = ctx.interp(SI)
                need(I, SI, 'sdeint')
                I.call(I.get(SI, 'sdeint'), [equation('ito'), x, T2, S, bm], {})
                return I
            ctx.check('C22', f"{what}/refused", not accepted_call(ctx, make), SI + '.sdeint', 'accepted although it is not implemented')
    ctx.guard('C22', 'refusals', refuse)

    def handed():
        """the equation, Brownian motion and precision reach the solver named"""
        I = ctx.interp(SI)
        seen = []

        def mk(I_, f_, b):
            seen.append(dict(b))
            return stepper()
        I.opaque[SD + '.sde_str_to_solver'] = mk
        e = instance(I, DF, 'SDEFunc', [plain('F', ('t', 'x')), plain('G', ('t', 'x'))], {'noise_type': 'diagonal', 'sde_type': 'ito'})
        xs = sym('x', ndim=2)
        I.call(need(I, SI, 'sdeint'), [e, xs, T, 'euler', bm], {})
        w = SI + '.sdeint'
        ctx.check('C22', 'named solver/one solver is built', len(seen) == 1, w, f"{len(seen)} solvers are built")
        if len(seen) == 1:
            b = list(seen[0].values())
            ctx.equal('C22', 'named solver/name', I, I.as_term(b[0]), 'euler', w)
            ctx.check('C22', 'named solver/equation', same(I.as_term(b[1]), I.as_term(e)), w, 'another equation reaches the solver')
            ctx.equal('C22', 'named solver/Brownian motion', I, I.as_term(b[2]), bm, w)
            ctx.equal('C22', 'named solver/precision of the state', I, I.as_term(b[3]), I.as_term(I.getattr(xs, 'dtype')), w)
        ctx.done(I)
    ctx.guard('C22', 'handed', handed)


@rule('C22')
def wrapping(ctx):
    def check():
        I = ctx.interp(SI)
        fn = need(I, SI, 'check_sde')
        w = fn_where(I, SI, 'check_sde')
        e = instance(I, DF, 'SDEFunc', [plain('F', ('t', 'x')), plain('G', ('t', 'x'))])
        ctx.check('C22', 'equation/wrapped equations are used as they are', same(I.as_term(I.call(fn, [e], {})), I.as_term(e)), w, 'a wrapped equation is replaced')
        u = equation('KIND', 'NOISE')
        r = I.call(fn, [u], {})
        ctx.check('C22', 'equation/plain equations are wrapped', cls_name(I, r) == 'SDEFunc', w, f"wrapped as {cls_name(I, r)}")
        for n, v in (('f_func', f), ('g_func', g), ('noise_type', 'NOISE'), ('sde_type', 'KIND')):
            ctx.equal('C22', f"equation/{n} of the wrapped equation", I, I.as_term(I.getattr(r, n)), v, w)
        ctx.done(I)
        for miss in ('f', 'g', 'noise_type', 'sde_type'):
            def make():
                J = ctx.interp(SI)
                v = equation('ito')
                v = sym('SDE', 'obj', notnone=True, isa=(), attrs={k: a for k, a in v.meta['attrs'].items() if k != miss}, noattrs=(miss,))
                J.call(need(J, SI, 'check_sde'), [v], {})
                return J
            ctx.check('C22', f"equation/without {miss} refused", not accepted_call(ctx, make), w, 'an incomplete equation is accepted')
    ctx.guard('C22', 'check_sde', check)

    def dispatch():
        I = ctx.interp(DF)
        w = fn_where(I, DF, 'SDEFunc')
        for kind, mk in (('module', module), ('function', plain)):
            for fa in (('t', 'x'), ('x',), ('x', 't')):
                for ga in (('t', 'x'), ('x',)):
                    F, G = mk('DRIFT', fa), mk('DIFFUSION', ga)
                    e = instance(I, DF, 'SDEFunc', [F, G])
                    n0 = I.as_term(I.getattr(e, 'nfe'))
                    for n, fun, ar in (('f', F, fa), ('g', G, ga)):
                        if ar == ('x', 't'):
                            continue
                        got = I.as_term(method(I, e, n, [t, x]))
                        want = I.as_term(I.call(fun, [t, x] if 't' in ar else [x], {}))
                        ctx.equal('C22', f"{'drift' if n == 'f' else 'diffusion'} given as {kind} of {', '.join(ar)}/value", I, got, want, w)
                        n1 = I.as_term(I.getattr(e, 'nfe'))
                        ctx.equal('C22', f"{'drift' if n == 'f' else 'diffusion'} given as {kind} of {', '.join(ar)}/evaluations are counted", I, n1, add(n0, 1), w)
                        n0 = n1
        ctx.done(I)
    ctx.guard('C22', 'dispatch', dispatch)
