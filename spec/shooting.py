"""Reference formulation of parallel-in-time solvers (parsed by the analyser, never executed)."""
import torch


def parareal(solve, coarse, fine, f, B, t_span, fine_steps, maxiter):
    n = len(t_span)
    span = torch.linspace(0, t_span[1] - t_span[0], fine_steps)
    i = 0
    while i <= maxiter and i < n:
        i = i + 1
        G = solve(f, B[i - 1:], span, solver=coarse)[1][-1]
        F = solve(f, B[i - 1:], span, solver=fine)[1][-1]
        new = torch.zeros_like(B)
        new[:i] = B[:i]
        last = B[i - 1]
        for m in range(i, n):
            last = solve(f, last, span, solver=coarse)[1][-1] + (F[m - i] - G[m - i])
            new[m] = last
        B = new
    return B


def newton(solve, fine, f, B, t_span, fine_steps, maxiter):
    n = len(t_span)
    span = torch.linspace(0, t_span[1] - t_span[0], fine_steps)
    i = 0
    while i <= maxiter and i < n:
        i = i + 1
        F = solve(f, B[i - 1:], span, solver=fine)[1][-1]
        new = torch.zeros_like(B)
        new[:i] = B[:i]
        last = B[i - 1]
        for m in range(i, n):
            v = torch.zeros_like(F[m - i], requires_grad=True)
            vJ = torch.autograd.grad(F[m - i], B, v, create_graph=True)[0][m - 1]
            Jw = torch.autograd.grad(vJ, v, last - B[m - 1], retain_graph=True)[0]
            last = F[m - i] + Jw
            new[m] = last
        B = new
    return B
