"""Reference formulation of stochastic solvers and their driver (parsed by the analyser, never executed)."""
import torch


def euler_maruyama(f, g, bm, x, t, dt):
    return x + dt * f(t, x) + g(t, x) * bm(t, t + dt)


def euler_heun(f, g, bm, x, t, dt):
    dW = bm(t, t + dt)
    predictor = x + g(t, x) * dW
    return x + dt * f(t, x) + (g(t, x) + g(t + dt, predictor)) / 2 * dW


def milstein(f, g, bm, x, t, dt, ito):
    dW = bm(t, t + dt)
    support = x + dt * f(t, x) + g(t, x) * dt.sqrt()
    slope = (g(t, support) - g(t, x)) / dt.sqrt()
    v = dW ** 2 - dt if ito else dW ** 2
    return x + dt * f(t, x) + g(t, x) * dW + slope / 2 * v


def fixed(x, t_span, solver, save_at):
    if len(save_at) == 0:
        save_at = t_span
    if not isinstance(save_at, torch.Tensor):
        save_at = torch.tensor(save_at)
    assert all(torch.isclose(s, t_span).sum() == 1 for s in save_at)
    save_at = save_at.sort()[0]
    t = t_span[0]
    sol = []
    if torch.isclose(t, save_at).sum():
        sol = [x]
    dt = t_span[1] - t_span[0]
    n = 1
    while n <= len(t_span) - 1:
        _, x, _ = solver.step(x, t, dt)
        t = t + dt
        if torch.isclose(t, save_at).sum():
            sol.append(x)
        if n < len(t_span) - 1:
            dt = t_span[n + 1] - t
        n += 1
    return save_at, torch.stack(sol)
