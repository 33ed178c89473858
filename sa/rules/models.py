"""Rules about the models (flows with divergence, energy models) and the layers."""
from .base import *
from .api import module, plain, P as PARAMS
from .. import torchlib

CN = 'torchdyn.models.cnf'
EN = 'torchdyn.models.energy'
NL = 'torchdyn.nn.node_layers'
GA = 'torchdyn.nn.galerkin'
X = sym('x', ndim=2, notnone=True)
EPS = sym('noise', ndim=2, notnone=True)
OFF = (('grad', False),)
ALL = Slice(None, None, None)


def net(name):
    return module(name, ('x',))


def graph(ctx, pid, name, I, n0, w, wrt=None):
    """the derivatives taken since event n0 can be differentiated again and are available without a surrounding graph"""
    evs = I.events[n0:]
    der = [e for e in evs if e.kind in ('autograd', 'autodiff')]
    ctx.check(pid, f"{name}/takes derivatives", bool(der), w, 'no derivative is taken')
    for e in der:
        kw = e.data if e.kind == 'autograd' else e.data['kwargs']
        at = e.where() if callable(getattr(e, 'where', None)) else w
        ctx.check(pid, f"{name}/derivatives can be differentiated", kw.get('create_graph') is True, at, 'the derivative is taken without its own graph: training through the model loses the term')
        if e.kind == 'autograd':
            on = [v for k, v in e.modes if k == 'grad'] or [False]
            ctx.check(pid, f"{name}/derivatives are available when gradients are disabled", on[-1] is True, at, 'the derivative is taken while gradients are disabled by the caller')
            xs = kw.get('inputs')
            xs = I.as_seq(xs) if isinstance(xs, Ref) else xs
            xs = xs if isinstance(xs, tuple) else (xs,)
            for x in xs:
                flag = [d for d in evs if d.kind == 'requires_grad' and same(I.as_term(d.data['tensor']), I.as_term(x)) and d.data['flag'] is True]
                ctx.check(pid, f"{name}/derivatives are available for any state", bool(flag), at, 'the state is not marked as requiring a gradient: a plain tensor cannot be differentiated')
    for e in evs:
        if e.kind in ('call', 'objcall') and e.modes is not None:
            on = [v for k, v in e.modes if k == 'grad'] or [False]
            if on[-1] is not True and not any(d.kind == 'autodiff' for d in der):
                ctx.check(pid, f"{name}/networks are evaluated with gradients", False, w, 'a network is evaluated while gradients are disabled by the caller')


def uncut(ctx, pid, name, I, got, w):
    if I.cuts:
        ctx.equal(pid, name, I, got, None, w)
        return
    cut = [t for t in subterms(I.as_term(got)) if isatom(t, 'detach', 'data')]
    ctx.check(pid, f"{name}/gradients reach state and parameters", not cut, w, f"{show(cut[0], 4)[:120]} blocks gradients" if cut else '')


DIMS = ((1, 2), (2, 1), (2, 3))


def under(I, f, args):
    """value of a call made while gradients are disabled"""
    keep = I.st.modes
    I.st.modes = keep + (() if I.cuts else OFF)
    try:
        return I.call(f, args, {})
    finally:
        I.st.modes = keep


@rule('C25')
def flows(ctx):
    N = net('NET')
    sizes = [Sizes({X: (b, d + 1), EPS: (b, d)}, {N: rows('NET', d)}) for b, d in DIMS]

    def data(I):
        return I.as_term(I.subscript(X, (ALL, Slice(1, None, None))))

    def go(kind):
        def run():
            I = ctx.interp(CN, spec=('models',))
            w = fn_where(I, CN, 'CNF')
            S = lambda n: I.get('spec.models', n)
            if kind == 'default':
                c = instance(I, CN, 'CNF', [N])
            elif kind == 'autograd_trace':
                c = instance(I, CN, 'CNF', [N], {'trace_estimator': need(I, CN, 'autograd_trace')})
            else:
                c = instance(I, CN, 'CNF', [N, need(I, CN, 'hutch_trace'), sym('DIST', 'obj', notnone=True)])
                I.setattr(c, 'noise', EPS)
            n0 = len(I.events)
            got = under(I, c, [X])
            graph(ctx, 'C25', f"CNF {kind}", I, n0, w)
            uncut(ctx, 'C25', f"CNF {kind}", I, got, w)
            xi = data(I)
            y = I.call(N, [xi], {})
            tr = I.call(S('hutchinson'), [y, xi, EPS], {}) if kind == 'hutch_trace' else I.call(S('trace'), [y, xi], {})
            want = I.call(S('flow'), [y, tr], {})
            ctx.equal('C25', f"CNF {kind}/minus the divergence, then the field", I, got, want, w, sizes=sizes)
            ctx.done(I)
        ctx.guard('C25', f"CNF {kind}", run)

    for kind in ('default', 'autograd_trace', 'hutch_trace'):
        go(kind)

    def estimators():
        """the estimators themselves, for arbitrary values and states"""
        for name in ('autograd_trace', 'hutch_trace'):
            I = ctx.interp(CN, spec=('models',))
            w = fn_where(I, CN, name)
            y = Atom('call', (N, (X,), ()), 'tensor', {'ndim': 2, 'notnone': True})
            y = I.as_term(I.call(N, [X], {}))
            sz = [Sizes({X: (b, d), EPS: (b, d)}, {N: rows('NET', d)}) for b, d in DIMS]
            f = need(I, CN, name)
            n0 = len(I.events)
            got = I.call(f, [y, X], {'noise': EPS})
            for e in I.events[n0:]:
                if e.kind == 'autograd':
                    ctx.check('C25', f"{name}/derivatives can be differentiated", e.data.get('create_graph') is True, e.where(), 'the derivative is taken without its own graph')
            uncut(ctx, 'C25', name, I, got, w)
            want = I.call(I.get('spec.models', 'trace' if name == 'autograd_trace' else 'hutchinson'), [y, X] + ([EPS] if name == 'hutch_trace' else []), {})
            ctx.equal('C25', f"{name}/value", I, got, want, w, sizes=sz)
            ctx.done(I)
    ctx.guard('C25', 'estimators', estimators)

    def custom():
        I = ctx.interp(CN, spec=('models',))
        w = fn_where(I, CN, 'CNF')
        E = plain('EST', ('x_out', 'x_in', 'noise'))
        c = instance(I, CN, 'CNF', [N], {'trace_estimator': E})
        I.setattr(c, 'noise', EPS)
        got = I.call(c, [X], {})
        xi = data(I)
        y = I.as_term(I.call(N, [xi], {}))
        tr = I.call(E, [y, xi], {'noise': EPS})
        want = I.call(I.get('spec.models', 'flow'), [y, tr], {})

        def est(D, a):
            r = A_(a[0])
            return Arr((r.shape[0],), [sym(f"tr{i}", 'num') for i in range(r.shape[0])])
        calls = [t for t in subterms(I.as_term(got)) if isinstance(t, Atom) and t.op == 'call' and same(t.args[0], E)]
        ctx.check('C25', 'CNF custom estimator/is used', bool(calls), w, 'the given trace estimator is not used')
        for t in calls:
            a = dict(zip(('x_out', 'x_in', 'noise'), t.args[1]), **dict(t.args[2]))
            for k, v in (('x_out', y), ('x_in', xi), ('noise', EPS)):
                ctx.equal('C25', f"CNF custom estimator/{k}", I, a.get(k), v, w, sizes=sizes)
        ctx.equal('C25', 'CNF custom estimator/minus the divergence, then the field', I, got, want, w,
                  sizes=[Sizes({X: (b, d + 1), EPS: (b, d)}, {N: rows('NET', d), E: est}) for b, d in DIMS])
        ctx.done(I)
    ctx.guard('C25', 'custom estimator', custom)

    def refuse():
        for dist, ok in ((None, False), (sym('DIST', 'obj', notnone=True), True)):
            I = ctx.interp(CN)
            w = fn_where(I, CN, 'CNF')
            try:
                instance(I, CN, 'CNF', [N, need(I, CN, 'hutch_trace'), dist])
                r = True
            except Dead:
                r = False
            what = 'with' if ok else 'without'
            ctx.check('C25', f"CNF stochastic estimator {what} noise distribution/{'accepted' if ok else 'refused'}", r is ok, w,
                      'a stochastic trace estimator with a noise distribution is refused' if ok else 'a stochastic trace estimator is accepted although no noise can be drawn for it')
            ctx.done(I)
        # the model carries what the solve needs to recognise it
        I = ctx.interp(CN)
        w = fn_where(I, CN, 'CNF')
        D, h = sym('DIST', 'obj', notnone=True), need(I, CN, 'hutch_trace')
        c = instance(I, CN, 'CNF', [N, h, D])
        ctx.check('C25', 'CNF/noise distribution offered to the solve', same(I.as_term(I.getattr(c, 'noise_dist')), D), w, 'the noise distribution is not kept')
        ctx.check('C25', 'CNF/trace estimator offered to the solve', I.getattr(c, 'trace_estimator') is not None, w, 'the trace estimator is not kept')
        ctx.done(I)
    ctx.guard('C25', 'construction', refuse)


def A_(v):
    from ..dense import A
    return A(v)


@rule('C26')
def energies(ctx):
    H, J = net('H'), net('J')
    spec = {'GNF': 'gradient', 'HNN': 'hamiltonian', 'ConservativeLinearSNF': 'conservative', 'LNN': 'lagrangian'}
    for name, ref in spec.items():
        def go(name=name, ref=ref):
            I = ctx.interp(EN, spec=('models',))
            w = fn_where(I, EN, name)
            m = instance(I, EN, name, [H] + ([J] if ref == 'conservative' else []))
            n0 = len(I.events)
            got = under(I, m, [X])
            graph(ctx, 'C26', name, I, n0, w)
            uncut(ctx, 'C26', name, I, got, w)
            args = [H] + ([J] if ref == 'conservative' else []) + [X]
            want = I.call(I.get('spec.models', ref), args, {})
            dims = ((1, 2), (2, 2), (2, 4)) if ref != 'gradient' else ((1, 2), (2, 3), (3, 1))
            sz = [Sizes({X: (b, d)}, {H: rows('H', 1), J: rows('J', d * d)}) for b, d in dims]
            ctx.equal('C26', f"{name}/value", I, got, want, w, sizes=sz)
            ctx.done(I)
        ctx.guard('C26', name, go)

    def structure():
        """the interconnection of the conservative model is skew-symmetric and its energy does not change along the field"""
        I = ctx.interp(EN)
        w = fn_where(I, EN, 'ConservativeLinearSNF')
        m = instance(I, EN, 'ConservativeLinearSNF', [H, J])
        v = I.as_term(I.call(m, [X], {}))
        h = instance(I, EN, 'HNN', [H])
        u = I.as_term(I.call(h, [X], {}))
        g = I.as_term(I.subscript(I.call(Ext('torch.autograd.grad'), [I.call(I.getattr(I.call(H, [X], {}), 'sum'), [], {}), X], {}), 0))
        for nm, val in (('ConservativeLinearSNF', v), ('HNN', u)):
            rate = I.as_term(I.call(Ext('torch.sum'), [mul(val, g), 1], {}))
            for b, d in ((1, 2), (2, 4)):
                S = Sizes({X: (b, d)}, {H: rows('H', 1), J: rows('J', d * d)})
                r = S.of(I, rate)
                ok = all(isnum(e) and e == 0 for e in A_(r).data)
                ctx.check('C26', f"{nm}/energy does not change along the field", ok, fn_where(I, EN, nm), f"the rate of change of the energy is {show(A_(r).data[0], 5)[:200]}")
        ctx.done(I)
    ctx.guard('C26', 'conservation', structure)


@rule('C29')
def layers(ctx):
    def augment():
        for how in ('zeros', 'function'):
            for order in ('first', 'last'):
                for idx in (1, 2, 0, -1):
                    for extra in (1, 3):
                        I = ctx.interp(NL)
                        w = fn_where(I, NL, 'Augmenter')
                        F = net('AUG')
                        sh = (2, 3, 2)
                        ax = idx % 3
                        ash = tuple(extra if j == ax else n for j, n in enumerate(sh))
                        x = sym('x', ndim=3, notnone=True)
                        kw = {'augment_idx': idx, 'order': order}
                        kw.update({'augment_dims': extra} if how == 'zeros' else {'augment_func': F})
                        m = instance(I, NL, 'Augmenter', [], kw)
                        got = I.call(m, [x], {})
                        aug = array('AUG', ash)
                        S = Sizes({x: sh}, {F: lambda D, a: aug if A_(a[0]).data == array('x', sh).data else Arr((1,), [sym('other')])})
                        z = sym('z', ndim=3)
                        S.env[z.dig] = Arr(ash, [0] * len(aug.data)) if how == 'zeros' else aug
                        want = tensor_('cat', (z, x) if order == 'first' else (x, z), idx)
                        nm = f"Augmenter {how} {order} dimension {idx} by {extra}"
                        ok, msg = agree(I, got, want, [S])
                        ctx.check('C29', nm, ok, w, msg)
                        if how == 'function':
                            uncut(ctx, 'C29', nm, I, got, w)
                        ctx.done(I)

    def depth():
        for idx in (1, 0, 2, -1):
            for again in (False, True):
                I = ctx.interp(NL)
                w = fn_where(I, NL, 'DepthCat')
                sh = (2, 3, 2)
                x, t, s = sym('x', ndim=3, notnone=True), sym('t', ndim=0, notnone=True), sym('s', ndim=0, notnone=True)
                m = instance(I, NL, 'DepthCat', [], {'idx_cat': idx})
                if again:
                    I.setattr(m, 't', s)
                    I.call(m, [x], {})
                I.setattr(m, 't', t)
                got = I.call(m, [x], {})
                ax = idx % 3
                ash = tuple(1 if j == ax else n for j, n in enumerate(sh))
                S = Sizes({x: sh})
                z = sym('z', ndim=3)
                S.env[z.dig] = Arr(ash, [t] * (len(array('z', ash).data)))
                nm = f"DepthCat dimension {idx}{' called again' if again else ''}"
                ok, msg = agree(I, got, tensor_('cat', (x, z), idx), [S])
                ctx.check('C29', nm, ok, w, msg)
                uncut(ctx, 'C29', nm, I, got, w)
                ctx.done(I)

    def control():
        for ndim, sh, ush in ((2, (2, 3), (2, 2)), (4, (2, 1, 2, 2), (2, 2, 2, 2))):
            I = ctx.interp(NL)
            w = fn_where(I, NL, 'DataControl')
            x, u = sym('x', ndim=ndim, notnone=True), sym('u', ndim=ndim, notnone=True)
            m = instance(I, NL, 'DataControl')
            ctx.check('C29', 'DataControl/recognised by the solve', I.getattr(m, '_control') is None, w, 'a new module already has a control')
            I.setattr(m, '_control', sym('old', ndim=ndim, notnone=True))
            I.call(m, [x], {})
            I.setattr(m, '_control', u)
            got = I.call(m, [x], {})
            ok, msg = agree(I, got, tensor_('cat', (x, u), 1), [Sizes({x: sh, u: ush})])
            ctx.check('C29', f"DataControl {ndim} dimensions", ok, w, msg)
            uncut(ctx, 'C29', f"DataControl {ndim} dimensions", I, got, w)
            ctx.done(I)
    ctx.guard('C29', 'Augmenter', augment)
    ctx.guard('C29', 'DepthCat', depth)
    ctx.guard('C29', 'DataControl', control)


def tensor_(op, xs, d):
    return Atom(op, (tuple(xs), d), 'tensor', {'notnone': True})


# ------------------------------------------------------------------------------------------------ C30
BASES = ('Fourier', 'Polynomial', 'Chebychev', 'GaussianRBF', 'VanillaRBF', 'MultiquadRBF')
DIL, SH, T0 = sym('dilation', ndim=0), sym('shift', ndim=0), sym('s', ndim=0)


@rule('C30')
def galerkin(ctx):
    def adaptives(b):
        return (False, True) if 'RBF' in b else (False,)

    def basis(I, name, deg, ad, **kw):
        if 'RBF' in name:
            kw = dict(kw, adaptive=ad)
        return instance(I, GA, name, [deg], kw)

    def expected(I, name, deg, kw):
        """values of the basis functions of orders spread evenly from 0 to deg"""
        S = lambda n: I.get('spec.models', n)
        r = I.call(S('orders'), [deg], {})
        extra = [kw.get('centers', 0), kw.get('eps_scales', 2)] if 'RBF' in name else [deg] if name == 'Chebychev' else []
        return I.call(S('basis_' + name.lower()), [r, T0] + extra, {})

    def bases():
        for name in BASES:
            for ad in adaptives(name):
                for deg in (1, 2, 3, 5, 6):
                    for kw in ({},) if 'RBF' not in name else ({}, {'centers': Fraction(1, 2), 'eps_scales': 3}):
                        I = ctx.interp(GA, spec=('models',))
                        w = fn_where(I, GA, name)
                        b = basis(I, name, deg, ad, **kw)
                        r = I.call(I.get('spec.models', 'orders'), [deg], {})
                        got = I.call(b, [r, T0], {})
                        nm = f"{name}{' adaptive' if ad else ''} degree {deg}{' centered' if kw else ''}"
                        n = 2 if name == 'Fourier' else 1
                        ctx.check('C30', f"{name}/declares its families", I.getattr(b, 'n_eig') == n and I.getattr(b, 'deg') == deg, w,
                                  f"declares {show(I.getattr(b, 'n_eig'))} families of degree {show(I.getattr(b, 'deg'))}")
                        if 'RBF' in name:
                            for k in ('centers', 'eps_scales'):
                                cur = I.as_term(I.getattr(b, k))
                                p = isatom(cur, 'param') and len(cur.args) == 1
                                ctx.check('C30', f"{name}{' adaptive' if ad else ''}/{k} learned exactly when asked for", p is ad, w, f"{k} is {'' if p else 'not '}a parameter")
                        want = expected(I, name, deg, kw)
                        if kw and ad:
                            continue
                        ctx.equal('C30', nm, I, got, want, w, sizes=[Sizes({})])
                        ctx.done(I)

    def symbols(I, g, learn, w, nm):
        """dilation and shift of a layer, replaced by symbols"""
        for k, v, n in (('dilation', DIL, 1), ('shift', SH, 0)):
            cur = I.as_term(I.getattr(g, k))
            ok, msg = agree(I, cur, Atom('lit', (n,), 'tensor'), [Sizes({})])
            ctx.check('C30', f"{nm}/initial {k}", ok, w, msg)
            p = isatom(cur, 'param') and len(cur.args) == 1
            ctx.check('C30', f"{nm}/{k} learned exactly when asked for", p is learn[k], w, f"{k} is {'' if p else 'not '}a parameter")
            I.setattr(g, k, tensorized(v))

    def tensorized(v):
        return Atom('lit', (v,), 'tensor', {'notnone': True, 'ndim': 1})

    def layer(kind, name, deg, ad, bias, learn):
        def run():
            I = ctx.interp(GA, spec=('models',))
            w = fn_where(I, GA, kind)
            b = basis(I, name, deg, ad)
            kw = dict({'bias': bias, 'expfunc': b}, dilation=learn['dilation'], shift=learn['shift'])
            nin, nout, ks, st, pad = 2, 3, 2, 2, 1
            nm = f"{kind} {name}{' adaptive' if ad else ''} degree {deg}{'' if bias else ' without bias'}"
            if kind == 'GalLinear':
                g = instance(I, GA, kind, [nin, nout], kw)
                total_ = (nin + 1) * nout
            else:
                g = instance(I, GA, kind, [nin, nout], dict(kw, kernel_size=ks, stride=st, padding=pad))
                total_ = nin * nout * ks * ks + nout
            symbols(I, g, learn, w, nm)
            co = I.as_term(I.getattr(g, 'coeffs'))
            ctx.check('C30', f"{nm}/coefficients are learned", isatom(co, 'param') and len(co.args) == 1, w, 'the coefficients are not parameters')
            sh = A_(Sizes({}).of(I, co)).shape
            ctx.check('C30', f"{nm}/one coefficient per entry, order and family", len(sh) == 3 and sh[0] >= total_ - (0 if bias else nout) and sh[1] == deg and sh[2] >= I.getattr(b, 'n_eig'), w,
                      f"coefficients have shape {sh}")
            init = [e for e in I.events if e.kind == 'init' and has(I.as_term(e.data.get('tensor', e.data.get('value'))) if isinstance(e.data, dict) else I.as_term(e.data), lambda t: t is co or isinstance(t, Term) and t.dig == co.dig)]
            if len(sh) != 3:
                return
            C = sym('C', ndim=3, notnone=True)
            I.setattr(g, 'coeffs', C)
            seen = []

            def conv(It, a, k):
                names = ('input', 'weight', 'bias', 'stride', 'padding', 'dilation', 'groups')
                q = dict(zip(names, a), **k)
                seen.append(q)
                return Atom('fun', ('conv2d',) + tuple(It.as_term(q.get(n)) for n in names), 'tensor', {'notnone': True, 'ndim': 4})
            for n in ('torch.nn.functional.conv2d', 'torch.conv2d'):
                I.extern[n] = conv
            nd = 2 if kind == 'GalLinear' else 4
            x = sym('x', ndim=nd, notnone=True)
            xs = (2, nin + 1) if nd == 2 else (2, nin + 1, 3, 3)
            s0 = I.as_term(I.subscript(x, (-1, -1) if nd == 2 else (-1, -1, 0, 0)))
            n0 = len(I.events)
            got = I.as_term(I.call(g, [x], {}))
            S = lambda n: I.get('spec.models', n)
            r = I.call(S('orders'), [deg], {})
            arg = add(mul(s0, DIL), SH)
            extra = [0, 2] if 'RBF' in name else [deg] if name == 'Chebychev' else []
            phi = I.call(S('basis_' + name.lower()), [r, arg] + extra, {})
            W = I.call(S('series'), [C, phi, total_ if bias else total_ - nout, deg], {})
            sizes = [Sizes({x: xs, C: sh})]
            xin = I.as_term(I.subscript(x, (ALL, Slice(None, -1, None))))
            if kind == 'GalLinear':
                want = I.call(S('gal_linear'), [xin, W, nin, nout, bias], {})
                ok, msg = agree(I, got, want, sizes)
                ctx.check('C30', f"{nm}/value", ok, w, msg)
            else:
                ctx.check('C30', f"{nm}/one convolution", len(seen) == 1 and isatom(got, 'fun') and got.args[0] == 'conv2d', w, 'the result is not one convolution')
                if len(seen) == 1:
                    q = seen[0]
                    kw_, kb = I.call(S('gal_conv'), [W, nin, nout, ks, bias], {})
                    for lab, have, want in (('input', q['input'], xin), ('weight', q['weight'], kw_)) + ((('bias', q.get('bias'), kb),) if bias else ()):
                        if have is None:
                            ctx.check('C30', f"{nm}/{lab}", False, w, f"no {lab} is used")
                            continue
                        ok, msg = agree(I, have, want, sizes)
                        ctx.check('C30', f"{nm}/{lab}", ok, w, msg)
                    if not bias:
                        ctx.check('C30', f"{nm}/bias", q.get('bias') is None, w, 'a bias is used although none was asked for')
                    for lab, val in (('stride', st), ('padding', pad)):
                        v = q.get(lab)
                        v = v[0] if isinstance(v, tuple) and len(set(v)) == 1 else v
                        ctx.check('C30', f"{nm}/{lab}", v == val, w, f"{lab} is {show(v) if v is not None else 'not given'}, required {val}")
                    ctx.check('C30', f"{nm}/plain convolution", q.get('dilation') in (None, 1) and q.get('groups') in (None, 1), w, 'the convolution is dilated or grouped')
            uncut(ctx, 'C30', nm, I, got, w)
            ctx.done(I)
        ctx.guard('C30', f"{kind} {name} {deg} {ad} {bias}", run)

    both = {'dilation': True, 'shift': True}
    ctx.guard('C30', 'bases', bases)
    for kind in ('GalLinear', 'GalConv2d'):
        for name in BASES:
            for ad in adaptives(name):
                layer(kind, name, 3, ad, True, both)
        layer(kind, 'Fourier', 2, False, False, {'dilation': False, 'shift': True})
        layer(kind, 'Fourier', 1, False, True, {'dilation': True, 'shift': False})
        layer(kind, 'Chebychev', 4, False, True, {'dilation': False, 'shift': False})
