"""Reference formulation of single steps (parsed by the analyser, never executed)."""
import torch


def implicit_residual(f, x, t, dt, u):
    return torch.sum((u - x - dt * f(t + dt, u)) ** 2)


def parallel_implicit_residual(f, x, B, t_span):
    dt = t_span[1:] - t_span[:-1]
    F = f(0., B[1:])
    first = torch.sum((B[1] - x - dt[0] * F[0]) ** 2)
    rest = torch.sum((B[2:] - B[1:-1] - dt[1:, None, None] * F[1:]) ** 2)
    return first + rest


def leapfrog(f, z, t, dt):
    n = z.shape[-1] // 2
    x, v = z[..., :n], z[..., n:]
    mid = x + dt / 2 * v
    v_new = 2 * f(t + dt / 2, mid) - v
    return torch.cat([mid + dt / 2 * v_new, v_new], -1)


def polynomial(coefs, t0, t1, t):
    s = (t - t0) / (t1 - t0)
    return coefs[0] + s * coefs[1] + s * s * coefs[2] + s * s * s * coefs[3] + s * s * s * s * coefs[4]
