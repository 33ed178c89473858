"""Reference formulation of the continuous adjoint method (parsed by the analyser, never executed)."""
import torch


def flat(parts):
    return torch.cat([p.flatten() for p in parts])


def or_zero(g, p):
    return g if g is not None else torch.zeros_like(p)


def augmented(f, params, loss, xshape, lshape, nx, nl, nm):
    """d/dt of (state, adjoint, parameter adjoint, time adjoint)"""
    def rate(t, A):
        time = t if len(t.shape) == 0 else t[0]
        x = A[:nx].reshape(xshape)
        lam = A[nx:nx + nl].reshape(lshape)
        dx = f(time, x)
        g = torch.autograd.grad(dx, (x,) + tuple(params), -lam, allow_unused=True)
        dlam = g[0]
        if loss is not None:
            dlam = dlam - torch.autograd.grad(loss(time, x).sum(), x, allow_unused=True)[0]
        return torch.cat([dx.flatten(), dlam.flatten(), flat([or_zero(d, p) for d, p in zip(g[1:], params)])])
    return rate


def interpolated(f, params, loss, spline, lshape, nl):
    """d/dt of (adjoint, parameter adjoint) along an interpolated trajectory"""
    def rate(t, A):
        time = t if len(t.shape) == 0 else t[0]
        x = spline.evaluate(time)
        lam = A[:nl].reshape(lshape)
        g = torch.autograd.grad(f(time, x), (x,) + tuple(params), -lam, allow_unused=True)
        dlam = g[0]
        if loss is not None:
            dlam = dlam - torch.autograd.grad(loss(time, x).sum(), x, allow_unused=True)[0]
        return torch.cat([dlam.flatten(), flat([or_zero(d, p) for d, p in zip(g[1:], params)])])
    return rate


def sweep(solve, f, params, sol, times, t_span, gtimes, gsol):
    """gradients of parameters, initial state and end times; `solve(state, span)` integrates the adjoint system"""
    last, lam = sol[-1], gsol[-1]
    nx, nl = last.numel(), lam.numel()
    m = torch.zeros_like(flat(params))
    nm = m.numel()
    power = lam.flatten() @ f(times[-1], last).flatten()
    dtimes = torch.zeros(len(times)).to(last)
    dtimes[-1] = power
    A = torch.cat([last.flatten(), lam.flatten(), m, power[None]])
    for i in range(len(times) - 1, 0, -1):
        S = solve(A, times[i - 1:i + 1].flip(0))
        dtimes[i - 1] = -(S[-1, nx:nx + nl] @ f(times[i - 1], S[-1, :nx].reshape(last.shape)).flatten())
        S[-1, -1:] -= gtimes[i - 1]
        S = S[-1]
        A = torch.cat([S[:nx], S[nx:nx + nl], S[-nm - 1:-1], S[-1:]])
        A[nx:nx + nl] = A[nx:nx + nl] + gsol[i - 1].flatten()
    if not torch.isclose(times[0], t_span[0]):
        A = solve(A, torch.stack([times[0], t_span[0]]))[-1]
    return A[-nm - 1:-1].reshape(flat(params).shape), A[nx:nx + nl].reshape(lam.shape), torch.stack([dtimes[0], dtimes[-1]])


def sweep_interpolated(solve, params, sol, times, gsol):
    lam = gsol[-1]
    nl = lam.numel()
    m = torch.zeros_like(flat(params))
    nm = m.numel()
    A = torch.cat([lam.flatten(), m])
    for i in range(len(times) - 1, 0, -1):
        S = solve(A, times[i - 1:i + 1].flip(0))[-1]
        A = torch.cat([S[:nl], S[-nm:]])
        A[:nl] = A[:nl] + gsol[i - 1].flatten()
    return A[-nm:].reshape(flat(params).shape), A[:nl].reshape(lam.shape)
