"""Rules about the integration drivers: step control, acceptance, output times, fixed grids, reversal, events."""
from .base import *

OD = 'torchdyn.numerics.odeint'
UT = 'torchdyn.numerics.utils'
IP = 'torchdyn.numerics.interpolators'

f, x, T, A = vf(), sym('x'), sym('T', ndim=1), sym('A', 'obj', notnone=True)
atol, rtol = sym('atol', 'num'), sym('rtol', 'num')


STAGES = 7     # of the only method with dense output


def interp_sym(I=None):
    return sym('ITP', 'obj', notnone=True, isa=(), attrs={
        'bmid': lit([sym(f'bmid{i}') for i in range(STAGES)]), 'fit': sym('fit', 'fn', params=('dt', 'f0', 'f1', 'x0', 'x1', 'x_mid'), returns='obj'),
        'evaluate': sym('evaluate', 'fn', params=('coefs', 't0', 't1', 't')),
        'sync_device_dtype': PyFunc('sync', lambda I, a, k: (a[0], a[1]))})


def results(I, r, names=('times', 'solution')):
    return {n: I.subscript(r, i) for i, n in enumerate(names)}


def attempts(I, roots, S):
    """arguments of the trial step inside the loops reachable from the roots: {'attempt.dt': ...}"""
    C = Comparison.__new__(Comparison)
    C.I, C.assumed = I, []
    loops, vs = C.side([alpha(C.prep(v, None)) for v in roots.values()])
    step = I.getattr(S, 'step')
    found = {}
    for v in vs.values():
        for c in calls_of(v.next, step):
            found[c.dig] = c
    return list(found.values())


def with_attempt(I, roots, S):
    at = attempts(I, roots, S)
    if len(at) == 1:
        for n, v in zip(('field', 'state', 'time', 'step', 'k1', 'args'), at[0].args[1]):
            roots['attempt.' + n] = v
    return roots


def adaptive_pair(ctx, itp, assumed=None, tsit=False):
    I = ctx.interp(OD, spec=('ode',))
    I.plain_items = True
    S = solver('adaptive', isa=('torchdyn.numerics.solvers.ode.Tsitouras45',) if tsit else (),
               step=sym('step', 'fn', params=('f', 'x', 't', 'dt', 'k1', 'args'), returns='obj', retmeta={'lens': {3: STAGES}}))
    kw = dict(atol=atol, rtol=rtol, args=A, interpolator=itp, return_all_eval=sym('all', 'bool'),
              seminorm=(sym('semi', 'bool'), sym('sdim', 'num', int=True)))
    got = results(I, I.call(need(I, OD, 'odeint'), [f, x, T, S], dict(kw)))
    if tsit:
        kw['interpolator'] = None
    want = results(I, I.call(I.get('spec.ode', 'odeint_adaptive'), [f, x, T, S], dict(kw)))
    ctx.done(I)
    return I, with_attempt(I, got, S), with_attempt(I, want, S)


def nm(l):
    return l[1] if len(l) > 1 else None


def keep_names(*names):
    def k(l):
        return l[0] == 'root' and l[1] in names or l[0] != 'root' and l[1] in names or 'loop' in names and len(l) == 3 and l[2] in ('control', 'loop')
    return k


W = OD + '._adaptive_odeint'


def adaptive_rule(ctx, pid, *names, modes=('plain', 'interp')):
    for mode in modes:
        def go(mode=mode):
            I, got, want = adaptive_pair(ctx, None if mode == 'plain' else interp_sym())
            ctx.compare(pid, I, got, want, keep_names(*names), W, construct='adaptive driver, ' + ('dense output' if mode == 'interp' else 'checkpoints'))
        ctx.guard(pid, 'adaptive ' + mode, go)


@rule('C03')
def fsal_driver(ctx):
    adaptive_rule(ctx, 'C03', 'k1', 'attempt.k1')


@rule('C04')
def controller(ctx):
    adaptive_rule(ctx, 'C04', 'dt', 'whole', 'cut')

    def fn(name, args):
        def go():
            I = ctx.interp(UT, spec=('ode',))
            I.plain_items = True
            got = I.call(need(I, UT, name), list(args), {})
            want = I.call(I.get('spec.ode', name), list(args), {})
            ctx.equal('C04', name, I, got, want, fn_where(I, UT, name))
            ctx.done(I)
        ctx.guard('C04', name, go)
    fn('hairer_norm', [sym('v')])
    fn('adapt_step', [sym('dt'), sym('ratio'), sym('safety'), sym('minf'), sym('maxf', above=(1, 'minf')), sym('p', 'num')])
    fn('init_step', [f, sym('k1'), x, sym('t'), sym('p', 'num'), atol, rtol])


@rule('C05')
def acceptance(ctx):
    adaptive_rule(ctx, 'C05', 'x', 't', 'loop', 'attempt.state', 'attempt.time', 'attempt.field')


@rule('C06')
def outputs(ctx):
    adaptive_rule(ctx, 'C06', 'times', 'solution', 'n', 't', 'loop', 'attempt.step', modes=('plain',))
    def tsit():
        I, got, want = adaptive_pair(ctx, interp_sym(), tsit=True)
        ctx.compare('C06', I, got, want, keep_names('times', 'solution', 'n', 't', 'loop', 'attempt.step'), W,
                    construct='adaptive driver, scheme without dense output')
    ctx.guard('C06', 'tsit', tsit)


@rule('C07')
def dense(ctx):
    adaptive_rule(ctx, 'C07', 'times', 'solution', 'n', 't', 'loop', 'attempt.step', modes=('interp',))


def direction(I, forward, grid=T):
    """restrict the analysis to increasing or decreasing grids"""
    c = I.truth(I.compare1(ast.Lt(), I.subscript(grid, 1), I.subscript(grid, 0)))
    I.st.assumed = I.st.assumed + (not_(c) if forward else c,)


def fixed_pair(ctx, save_at, fn='odeint', args=True, way=None):
    I = ctx.interp(OD, spec=('ode',))
    I.plain_items = True
    if way is not None:
        direction(I, way)
    S = solver('fixed')
    e0 = len(I.events)
    kw = {'save_at': save_at(I)}
    if args:
        kw['args'] = A
    if fn == 'odeint':
        got = I.call(need(I, OD, 'odeint'), [f, x, T, S], kw)
        want = I.call(I.get('spec.ode', 'odeint_fixed'), [f, x, T, S, save_at(I), A], {})
    got, want = results(I, got), results(I, want)
    ctx.done(I)
    return I, with_attempt(I, got, S), with_attempt(I, want, S), S


@rule('C08')
def fixed_grid(ctx):
    cfg = {'save_at given': lambda I: sym('SA', ndim=1), 'save_at omitted': lambda I: (),
           'save_at list': lambda I: I.new_list((sym('s0', 'num'), sym('s1', 'num'))),
           'save_at list, decreasing grid': lambda I: I.new_list((sym('s0', 'num'), sym('s1', 'num')))}
    for name, sa in cfg.items():
        def go(name=name, sa=sa):
            I, got, want, S = fixed_pair(ctx, sa, way=None if 'list' not in name else 'decr' not in name)
            ctx.compare('C08', I, got, want, None, OD + '._fixed_odeint', construct='fixed-step driver, ' + name)
        ctx.guard('C08', name, go)


def callback(name):
    """an arbitrary event: a condition and a jump"""
    def fun(what, kind):
        return lambda It, a, k: Atom('fun', (f"{name}.{what}",) + tuple(It.as_term(v) for v in list(a) + [k[n] for n in ('t', 'x') if n in k]), kind, {'notnone': True})
    return sym(name, 'obj', notnone=True, methods={'check_event': fun('check_event', 'bool'), 'jump_map': fun('jump_map', 'tensor')})


@rule('C14')
def hybrid(ctx):
    for npr, prio in (('jump', 'jump'), ('no initial check', 'none')):
        for nsem, sem in (('norm', (False, None)), ('seminorm', (True, sym('sdim', 'num', int=True)))):
            if prio == 'none' and nsem == 'seminorm':
                continue

            def go(prio=prio, sem=sem, npr=npr, nsem=nsem):
                I = ctx.interp(OD, spec=('ode',))
                I.plain_items = True
                S = solver('adaptive')
                cbs = lambda: I.new_list((callback('cb0'), callback('cb1')))
                J, tol = sym('J', 'num'), sym('event_tol', 'num')
                got = results(I, I.call(need(I, OD, 'odeint_hybrid'), [f, x, T, J, S, cbs()],
                                        dict(atol=atol, rtol=rtol, event_tol=tol, priority=prio, seminorm=sem)))
                want = results(I, I.call(I.get('spec.ode', 'hybrid'), [f, x, T, J, S, cbs(), atol, rtol, tol, prio, sem], {}))
                ctx.done(I)
                ctx.compare('C14', I, got, want, None, OD + '.odeint_hybrid', construct=f"event driver, priority {npr}, {nsem}")
            ctx.guard('C14', f"{npr} {nsem}", go)


def somewhere(I, e, lits):
    """the condition holds in some iteration of the counted loops around the event"""
    for lid in reversed(e.loops):
        L = I.loops[lid]
        if L.count is None or L.breaks or L.returns:
            break
        dep = [c for c in lits if has(c, lambda t: t == L.idx)]
        if dep:
            c = not_(and_(*dep))
            lits = [c for c in lits if c not in dep] + [not_(Atom('all', (mkseq([mkcomp(L.idx, L.count, [item(c)])]),), 'bool'))]
    return and_(*lits)


def refusals(I, e0, e1=None):
    """condition under which the analysed code refuses its input between two points of the event log"""
    out = []
    for e in I.events[e0:e1]:
        if e.kind == 'assert' and e.data['cond'] is not True:
            out.append(somewhere(I, e, list(e.pc) + [not_(e.data['cond'])]))
        elif e.kind == 'raise':
            out.append(somewhere(I, e, [e.guard]))
    return or_(*out) if out else False


@rule('C08')
def membership(ctx):
    for way in (True, False):
        def go(way=way):
            I = ctx.interp(OD, spec=('ode',))
            I.plain_items = True
            direction(I, way)
            S, SA = solver('fixed'), sym('SA', ndim=1)
            base0 = I.st.assumed
            e0 = len(I.events)
            I.call(need(I, OD, 'odeint'), [f, x, T, S], {'save_at': SA})
            got = refusals(I, e0)
            I.st.assumed = base0
            e0 = len(I.events)
            I.call(I.get('spec.ode', 'odeint_fixed'), [f, x, T, S, SA, A], {})
            want = refusals(I, e0)
            ctx.equal('C08', f"requested times must lie on the grid, {'increasing' if way else 'decreasing'} grid", I, got, want, OD + '._fixed_odeint')
            ctx.done(I)
        ctx.guard('C08', 'membership', go)


@rule('C09')
def reversal(ctx):
    def run(I, fn, S, g, grid, kw):
        return results(I, I.call(need(I, OD, fn), [g, x, grid, S], dict(kw)))

    for fn, stepping, itp in (('odeint', 'fixed', None), ('odeint', 'adaptive', None), ('odeint', 'adaptive', 1),
                              ('odeint_symplectic', 'fixed', None), ('odeint_symplectic', 'adaptive', None)):
        def go(fn=fn, stepping=stepping, itp=itp):
            I = ctx.interp(OD, spec=('ode',))
            I.plain_items = True
            direction(I, False)
            base0 = I.st.assumed
            S = solver(stepping)
            kw, kw2 = {}, {}
            F = f
            if fn == 'odeint':
                kw = dict(args=A)
            else:
                F = sym('f', 'fn', argspec=('t', 'x'), params=('t', 'x'), attrs={'order': sym('forder', 'num')})
            kw2 = dict(kw)
            if stepping == 'fixed':
                SA = sym('SA', ndim=1)
                kw['save_at'], kw2['save_at'] = SA, neg(SA)
                base0 = I.st.assumed = I.st.assumed + (compare('>', size(SA, 0), 0),)
            elif fn == 'odeint':
                kw.update(interpolator=interp_sym() if itp else None, return_all_eval=sym('all', 'bool'), atol=atol, rtol=rtol)
                kw2.update(kw)
            got = run(I, fn, S, F, T, kw)
            I.st.assumed = base0
            g = I.call(I.get('spec.ode', 'reversed_field'), [F], {})
            if fn == 'odeint_symplectic':
                g = I.call(I.get('spec.ode', 'reversed_system'), [F], {})
            want = run(I, fn, S, g, neg(T), kw2)
            want['times'] = neg(I.as_term(want['times']))
            ctx.done(I)
            ctx.compare('C09', I, with_attempt(I, got, S), with_attempt(I, want, S), None, f"{OD}.{fn}",
                        construct=f"{fn}, {stepping} steps{', dense output' if itp else ''}")
        ctx.guard('C09', f"{fn} {stepping}", go)
