"""Rules about the datasets: points, labels and counts as functions of the random draws."""
from .base import *

DS = 'torchdyn.datasets.static_datasets'
no, r1, r2, s1, s2 = (sym(n, 'num') for n in ('noise', 'r1', 'r2', 's1', 's2'))
CASES = {}
for n in (2, 5):
    for dim in (2, 3):
        CASES[f"spheres, {n} points, {dim} dimensions"] = ('spheres', 'spheres', dict(n_samples=n, noise=no, dim=dim, inner_radius=r1, outer_radius=r2), [n, no, dim, r1, r2])
    CASES[f"moons, {n} points"] = ('moons', 'moons', dict(n_samples=n, noise=no), [n, no])
    CASES[f"spirals, {n} points"] = ('spirals', 'spirals', dict(n_samples=n, noise=no), [n, no])
for n, k, dim in ((2, 3, 2), (3, 2, 3), (1, 4, 2)):
    CASES[f"gaussians, {k} times {n} points, {dim} dimensions"] = ('gaussians', 'gaussians', dict(n_samples=n, n_gaussians=k, dim=dim, radius=r1, std_gaussians=s1, noise=no), [n, k, dim, r1, s1, no])
    CASES[f"gaussians on a spiral, {k} times {n} points, {dim} dimensions"] = (
        'gaussians_spiral', 'gaussians_spiral', dict(n_samples=n, n_gaussians=k, n_gaussians_per_loop=3, dim=dim, radius_start=r1, radius_end=r2, std_gaussians_start=s1, std_gaussians_end=s2, noise=no),
        [n, k, 3, dim, r1, r2, s1, s2, no])


@rule('C32')
def points(ctx):
    for name, (kind, sp, kw, args) in CASES.items():
        def go(name=name, kind=kind, sp=sp, kw=kw, args=args):
            I = ctx.interp(DS, spec=('datasets',))
            w = f"{DS}.{kind}"
            o = instance(I, DS, 'ToyDataset', [])
            n0 = I.next_rand
            got = I.as_seq(method(I, o, 'generate', [], dict(kw, dataset_type=kind) ))
            I.next_rand = n0
            want = I.as_seq(I.call(I.get('spec.datasets', sp), list(args), {}))
            for lab, a, b in zip(('points', 'labels'), got, want):
                ctx.equal('C32', f"{name}/{lab}", I, I.as_term(a), I.as_term(b), w, sizes=[Sizes({})])
            ctx.done(I)
        ctx.guard('C32', name, go)
