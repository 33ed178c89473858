"""Rules about root finding: quasi-Newton steps, line search, termination, the iteration."""
from fractions import Fraction
from .base import *

RT = 'torchdyn.numerics.solvers.root'
g = sym('g', 'fn', params=('z',))
METHODS = {'BroydenFull': ('full', 'broyden'), 'BroydenBad': ('fast', 'broyden_fast')}
z, d, r0, J = sym('z', ndim=2), sym('dz', ndim=2), sym('r', ndim=2), sym('J', ndim=3)
DIMS = ((1, 1), (1, 2), (2, 1), (2, 2))


@rule('C31')
def steps(ctx):
    for c, (name, _) in METHODS.items():
        def go(c=c, name=name):
            I = ctx.interp(RT, spec=('root',))
            w = fn_where(I, RT, c)
            s = instance(I, RT, c, [])
            dg = sym('dg', ndim=2)
            sizes = [Sizes({z: (b, n), d: (b, n), r0: (b, n), dg: (b, n), J: (b, n, n)}, {g: rows('g', n)}) for b, n in DIMS]
            got = method(I, s, 'update_jacobian', [], {'Δg': dg, 'Δz': d, 'J_inv': J})
            want = I.call(I.get('spec.root', name), [J, d, dg], {})
            ctx.equal('C31', f"{c}/correction of the inverse Jacobian", I, I.as_term(got), I.as_term(want), w, sizes=sizes)
            a = sym('alpha', 'num')
            got = I.as_seq(method(I, s, 'step', [g, z, J, r0], {'alpha': a}))
            want = I.as_seq(I.call(I.get('spec.root', 'step'), [g, z, J, r0, a, I.get('spec.root', name)], {}))
            for lab, p, q in zip(('new point', 'direction', 'residual at the new point', 'inverse Jacobian'), got, want):
                ctx.equal('C31', f"{c}/{lab}", I, I.as_term(p), I.as_term(q), w, sizes=sizes)
            ctx.done(I)
        ctx.guard('C31', c, go)


@rule('C31')
def termination(ctx):
    def go():
        I = ctx.interp(RT, spec=('root',))
        w = fn_where(I, RT, 'TerminationCondition')
        tol = [Fraction(1, 8), Fraction(1, 16), Fraction(1, 32), 3]
        t = instance(I, RT, 'TerminationCondition', [], dict(zip(('f_tol', 'f_rtol', 'x_tol', 'x_rtol'), tol)))
        v = [[sym(n + i, ndim=2) for n in ('f', 'z', 'd')] for i in '12']
        got = [method(I, t, 'check', q) for q in v]
        want = I.as_seq(I.call(I.get('spec.root', 'two_checks'), v[0] + v[1] + tol, {}))
        for i in (0, 1):
            ctx.equal('C31', f"termination/{('first', 'later')[i]} check", I, I.as_term(I.compare1(ast.Gt(), got[i], 0)), I.as_term(want[i]), w)
        ctx.done(I)
    ctx.guard('C31', 'termination', go)


@rule('C31')
def search(ctx):
    def go():
        I = ctx.interp(RT, spec=('root',))
        w = fn_where(I, RT, 'NaiveSearch')
        s = instance(I, RT, 'NaiveSearch', [g, r0, d, z])
        a, lo, m = (sym(n, 'num') for n in ('alpha', 'least', 'factor'))
        got = method(I, s, 'search', [a], {'min_alpha': lo, 'mult_factor': m})
        want = I.call(I.get('spec.root', 'backtrack'), [g, r0, d, z, a, lo, m], {})
        ctx.equal('C31', 'naive search/fraction', I, I.subscript(got, 0), I.subscript(want, 0), w)
        ctx.equal('C31', 'naive search/objective', I, I.subscript(got, 1), I.subscript(want, 1), w)
        ctx.done(I)
    ctx.guard('C31', 'naive search', go)


@rule('C31')
def iteration(ctx):
    for c, (_, key) in METHODS.items():
        for how in ('none', 'naive', 'armijo'):
            def go(c=c, key=key, how=how):
                fun = lambda n, *a: Atom('fun', (n,) + a, 'tensor', {'notnone': True})
                step = lambda It, q: tuple(fun(f"{q.get('kind', c)}.{lab}", It.as_term(q['g']), It.as_term(q['z0']), It.as_term(q['J_inv']), It.as_term(q['geval_old']), It.as_term(q['alpha']))
                                           for lab in ('z', 'dz', 'g', 'J'))
                op = {f"{RT}.batch_jacobian": lambda It, f, b: fun('jacobian', *[It.as_term(v) for v in list(b.values())])}
                op[f"{RT}.Broyden.step"] = lambda It, f, b: step(It, dict(b, kind=cls(It, b['self'])))
                for k in METHODS:
                    op[f"{RT}.{k}.step"] = op[f"{RT}.Broyden.step"]
                op[f"{RT}.TerminationCondition.check"] = lambda It, f, b: ite(conv(It, b['geval'], b['z'], b['dz'], b['self']), 2, 0)
                for k in ('NaiveSearch', 'LineSearchArmijo'):
                    op[f"{RT}.{k}.search"] = lambda It, f, b, k=k: (fun(k, It.as_term(It.getattr(b['self'], 'g0'))), fun(k + '.phi', It.as_term(It.getattr(b['self'], 'g0'))))

                def conv(It, f, zz, dd, tc):
                    tols = [It.as_term(It.getattr(tc, n)) for n in TOL] if tc is not None else [sym(n, 'num') for n in TOL]
                    return Atom('fun', ('converged', It.as_term(f), It.as_term(zz), It.as_term(dd)) + tuple(tols), 'bool')

                def cls(It, o):
                    return It.cell(o).cls.name
                I = ctx.interp(RT, spec=('root',), opaque=())
                I.opaque.update(op)
                w = f"{RT}.root_find"
                al, mi = sym('alpha', 'num'), sym('maxiters', 'num', int=True)
                kw = {n: sym(n, 'num') for n in TOL}
                got = I.subscript(I.call(need(I, RT, 'root_find'), [g, z], dict(kw, alpha=al, maxiters=mi, method=key, search_method=how, verbose=sym('verbose', 'bool'))), 0)
                jac = PyFunc('jacobian', lambda It, a, k: fun('jacobian', *[It.as_term(v) for v in a]))
                stp = PyFunc('step', lambda It, a, k: step(It, dict(zip(('g', 'z0', 'J_inv', 'geval_old', 'alpha'), a))))
                cv = PyFunc('converged', lambda It, a, k: conv(It, *a, None))
                kl = {'naive': 'NaiveSearch', 'armijo': 'LineSearchArmijo'}.get(how)
                sr = PyFunc('search', lambda It, a, k: fun(kl, It.as_term(a[1]))) if kl else None
                want = I.call(I.get('spec.root', 'find'), [g, z, al, jac, stp, cv, sr, mi], {})
                ctx.equal('C31', f"{key}, {how} search/root", I, got, want, w)
                ctx.done(I)
            ctx.guard('C31', f"{key}, {how}", go)


TOL = ('f_tol', 'f_rtol', 'x_tol', 'x_rtol')


@rule('C31')
def jacobian(ctx):
    def go():
        I = ctx.interp(RT, spec=('root',))
        w = f"{RT}.batch_jacobian"
        got = I.call(need(I, RT, 'batch_jacobian'), [g, z], {})
        want = I.call(I.get('spec.root', 'jacobians'), [g, z], {})
        ctx.equal('C31', 'first inverse Jacobian/Jacobian of every sample', I, got, want, w)
        ctx.done(I)
    ctx.guard('C31', 'Jacobian', go)


@rule('C31')
def refusal(ctx):
    for lab, kw in (('method', {'method': 'other'}), ('search', {'search_method': 'other'})):
        def go(lab=lab, kw=kw):
            I = ctx.interp(RT)
            try:
                I.call(need(I, RT, 'root_find'), [g, z], kw)
                ok = False
            except Dead:
                ok = True
            ctx.check('C31', f"unknown {lab} is refused", ok, f"{RT}.root_find", 'an unknown name is accepted')
            ctx.done(I)
        ctx.guard('C31', lab, go)
