"""C28: what the caller passes is left as it was"""
from .base import *

PART = ['C01', 'C02', 'C03', 'C07', 'C10', 'C11', 'C12', 'C20']           # steps, interpolation
DRIVE = ['C04', 'C05', 'C06', 'C08', 'C09', 'C13', 'C14', 'C22']          # integration routines
API = ['C16', 'C17', 'C18', 'C19', 'C23', 'C24']                          # problems, models, adjoint passes
NETS = ['C25', 'C26', 'C29', 'C30']                                       # flows, energies, layers
CALLER = ('sym', 'call', 'attr', 'formal', 'objcall', 'item')


class Nothing:
    mismatches, checked, specvars = [], [], []


class Recorder(Ctx):
    """runs the analyses of other rules without their comparisons and keeps the interpreters"""

    def __init__(self, parent):
        super().__init__(parent.root, parent.files)
        self.kept = []

    def interp(self, *a, **k):
        I = super().interp(*a, **k)
        self.kept.append(I)
        return I

    def check(self, rule, construct, ok, where='', message=''):
        return True

    def equal(self, *a, **k):
        return True

    def compare(self, *a, **k):
        return Nothing()

    def either(self, rule, construct, general, bounded):
        n = len(self.errors)
        self.guard(rule, construct, general)
        if len(self.errors) > n:
            del self.errors[n:]
            self.guard(rule, construct, bounded)


def storage(I, v, seen=None):
    """objects from outside whose storage v shares"""
    seen = set() if seen is None else seen
    out = []
    for r in alias_roots(v):
        if isatom(r, 'mu'):
            if r.dig in seen:
                continue
            seen.add(r.dig)
            for L in I.loops.values():
                for k, m in L.mu.items():
                    if isinstance(m, Term) and m.dig == r.dig:
                        for w in (L.entry.get(k), L.next.get(k)):
                            if isinstance(w, Term):
                                out += storage(I, w, seen)
        elif r.op in CALLER:
            out.append(r)
    return out


def nm(r):
    return show(r, 2)[:60]


def untouched(ctx, pids):
    rec = Recorder(ctx)
    for pid in pids:
        for fn in CHECKS[pid]:
            rec.guard(pid, fn.__name__, lambda: fn(rec))
    writes, where = {}, {}
    n = 0
    for I in rec.kept:
        ctx.done(I)
        for e in I.events:
            if str(e.fn).startswith('spec.') or e.fn == '?':
                continue
            if e.kind == 'mutate':
                n += 1
                for r in storage(I, e.data['old']):
                    writes.setdefault(e.fn, set()).add(nm(r))
                    where[e.fn] = e.where()
            elif e.kind == 'lmutate':
                writes.setdefault(e.fn, set()).add(f"a list or dictionary of the caller ({e.data['what']})")
                where[e.fn] = e.where()
    fns = {q for I in rec.kept for q in I.analysed if not q.startswith('spec.')}
    for q in sorted(fns | set(writes)):
        ctx.check('C28', q, q not in writes, where.get(q, q), f"writes in place into {', '.join(sorted(writes.get(q, ())))}, which belongs to the caller")
    ctx.errors += rec.errors


for pids in (PART, DRIVE, API, NETS):
    rule('C28')(lambda ctx, pids=pids: untouched(ctx, pids))


@rule('C28')
def containers(ctx):
    """grids, requested times and arguments given as lists and dictionaries"""
    OD, SI = 'torchdyn.numerics.odeint', 'torchdyn.numerics.sdeint'
    from .drivers import interp_sym, callback, direction
    from .sde import equation, stepper
    from .solvers import f
    def grid(I):
        g = I.new_list(tuple(sym(n, ndim=1, dims={0: 1}) for n in ('ta', 'tb', 'tc')))
        direction(I, True, g)       # lists of decreasing times are not supported
        return g

    times = lambda I: I.new_list((sym('s0', 'num'), sym('s1', 'num')))
    extra = lambda I: I.new_dict([('key', sym('value'))])
    x2 = sym('x', ndim=2, pytype='torch.Tensor')

    def odeint(S, **kw):
        return lambda I: I.call(need(I, OD, 'odeint'), [f, x2, grid(I), S], {'save_at': times(I), 'args': extra(I), **{k: v(I) for k, v in kw.items()}})

    def hybrid(I):
        return I.call(need(I, OD, 'odeint_hybrid'), [f, x2, sym('T', ndim=1), sym('J', 'num'), solver('adaptive'), I.new_list((callback('cb0'), callback('cb1')))], {})

    cases = {'odeint, fixed steps': odeint(solver('fixed')), 'odeint, adaptive steps': odeint(solver('adaptive')),
             'odeint, dense output': odeint(solver('adaptive'), interpolator=interp_sym),
             'odeint_symplectic': lambda I: I.call(need(I, OD, 'odeint_symplectic'), [f, x2, grid(I), solver('fixed')], {'save_at': times(I)}),
             'odeint_hybrid': hybrid,
             'sdeint': lambda I: I.call(need(I, SI, 'sdeint'), [equation('ito'), x2, grid(I), stepper(), sym('bm', 'obj')], {'save_at': times(I), 'args': extra(I)})}
    for name, go in cases.items():
        def run(name=name, go=go):
            I = ctx.interp(OD, SI)
            I.plain_items = True
            mark = len(I.events)
            ok = {}
            try:
                go(I)
            except Dead:
                return
            for e in I.events[mark:]:
                if e.kind == 'lmutate' or e.kind == 'mutate' and storage(I, e.data['old']):
                    ok.setdefault(e.where(), e)
            ctx.done(I)
            w = next(iter(ok), name)
            ctx.check('C28', name + ' on lists', not ok, w, 'writes in place into the grid, requested times or arguments the caller passed')
        ctx.guard('C28', name, run)
