"""Reference formulation of quasi-Newton root finding (parsed by the analyser, never executed)."""
import torch


def mv(A, v):
    return (A @ v.unsqueeze(-1)).squeeze(-1)


def vm(v, A):
    return (v.unsqueeze(-2) @ A).squeeze(-2)


def dot(u, v):
    return (u * v).sum(-1, keepdim=True)


def outer(u, v):
    return u.unsqueeze(-1) * v.unsqueeze(-2)


def full(J, dz, dg):
    """first method of Broyden"""
    w = mv(J, dg)
    return J + outer((dz - w) / (dot(dz, w) + 1e-6), vm(dz, J))


def fast(J, dz, dg):
    """second method of Broyden"""
    return J + outer((dz - mv(J, dg)) / (dot(dg, dg) + 1e-6), dg)


def step(g, z, J, old, alpha, update):
    d = mv(J, old)
    new = z - alpha * d
    val = g(new)
    return new, d, val, update(J, new - z, val - old)


def two_checks(f1, z1, d1, f2, z2, d2, ft, fr, xt, xr):
    n = lambda v: v.norm(p=2, dim=1)

    def done(f, z, d):
        return (n(f) <= ft).all() and (n(f) <= fr * n(f1)).all() and (n(d) <= xt).all() and (n(d) <= xr * n(z)).all()
    return done(f1, z1, d1), done(f2, z2, d2)


def backtrack(g, base, d, z, alpha, least, factor):
    size = lambda v: torch.norm(v) if torch.isfinite(v).all() else float('inf')
    limit = size(base) ** 2
    now = size(g(z + alpha * d)) ** 2
    while alpha > least and now > limit:
        alpha = factor * alpha
        now = size(g(z + alpha * d)) ** 2
    return alpha, now


def find(g, z, alpha, jac, step, converged, search, maxiters):
    J = torch.pinverse(jac(g, z))
    val = g(z)
    i = 0
    while i <= maxiters:
        z, d, val, J = step(g, z, J, val, alpha)
        if search is not None:
            alpha = search(z, val, d)
        if converged(val, z, d):
            break
        i = i + 1
    return z


def jacobians(g, z):
    return torch.stack([torch.autograd.functional.jacobian(g, z[k]) for k in range(len(z))])
