"""Reference formulation of the integration drivers (parsed by the analyser, never executed)."""
import torch


def hairer_norm(v):
    return (v.abs() ** 2).mean().sqrt()


def init_step(f, k1, x, t, order, atol, rtol):
    scale = atol + x.abs() * rtol
    d0, d1 = hairer_norm(x / scale), hairer_norm(k1 / scale)
    if d0 < 1e-5 or d1 < 1e-5:
        h0 = torch.tensor(1e-6, dtype=t.dtype, device=t.device)
    else:
        h0 = 0.01 * d0 / d1
    d2 = hairer_norm((f(t + h0, x + h0 * k1) - k1) / scale) / h0
    if d1 <= 1e-15 and d2 <= 1e-15:
        h1 = torch.max(torch.tensor(1e-6, dtype=t.dtype, device=t.device), h0 * 1e-3)
    else:
        h1 = (0.01 / max(d1, d2)) ** (1 / (order + 1))
    return torch.min(100 * h0, h1).to(t)


def adapt_step(dt, ratio, safety, min_factor, max_factor, order):
    if ratio == 0:
        return dt * max_factor
    lower = torch.ones_like(dt) if ratio < 1 else min_factor
    wanted = safety / ratio ** (1 / order)
    return dt * torch.min(max_factor, torch.max(wanted, lower))


def as_tensor(v):
    return v if isinstance(v, torch.Tensor) else torch.tensor(v)


def orient(f, t_span, save_at):
    """a decreasing grid is solved as the time-reversed problem on the negated grid"""
    if t_span[1] < t_span[0]:
        if len(save_at) > 0:
            save_at = -as_tensor(save_at)
        return (lambda t, x: -f(-t, x)), -t_span, save_at, True
    return f, t_span, save_at, False


def fixed(f, x, t_span, solver, save_at, args):
    if len(save_at) == 0:
        save_at = t_span
    save_at = as_tensor(save_at)
    assert all(torch.isclose(s, t_span).sum() == 1 for s in save_at)
    save_at = save_at.sort()[0]
    t = t_span[0]
    sol = []
    if torch.isclose(t, save_at).sum():
        sol.append(x)
    dt = t_span[1] - t_span[0]
    n = 1
    while n <= len(t_span) - 1:
        _, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
        t = t + dt
        if torch.isclose(t, save_at).sum():
            sol.append(x)
        if n < len(t_span) - 1:
            dt = t_span[n + 1] - t
        n = n + 1
    return save_at, sol


def odeint_fixed(f, x, t_span, solver, save_at, args):
    g, grid, where, reverse = orient(f, t_span, save_at)
    times, sol = fixed(g, x, grid, solver, where, args)
    return (-times if reverse else times), torch.stack(sol)


def adaptive(f, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm):
    targets, t, T = t_span[1:], t_span[:1], t_span[-1]
    n, cut = 0, False
    times, sol = [t], [x]
    while t < T:
        t_new = t + dt
        if t_new > T:
            dt, t_new = T - t, t_span[-1:]
        if interpolator is None and n < len(targets) and t_new > targets[n]:
            whole, cut = dt, True
            dt, t_new = targets[n] - t, targets[n][None]
        f_new, x_new, x_err, stages = solver.step(f, x, t, dt, k1=k1, args=args)
        if seminorm[0] == True:
            d = seminorm[1]
            ratio = hairer_norm(x_err[:d] / (atol + rtol * torch.max(x[:d].abs(), x_new[:d].abs())))
        else:
            ratio = hairer_norm(x_err / (atol + rtol * torch.max(x.abs(), x_new.abs())))
        if ratio <= 1:
            if interpolator is not None:
                while n < len(targets) and t_new > targets[n]:
                    mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])
                    coefs = interpolator.fit(dt, k1, f_new, x, x_new, mid)
                    sol.append(interpolator.evaluate(coefs, t, t_new, targets[n]))
                    times.append(targets[n][None])
                    n = n + 1
            if t_new == targets[n] or return_all_eval:
                sol.append(x_new)
                times.append(t_new)
                if t_new == targets[n]:
                    n = n + 1
            t, x, k1 = t_new, x_new, f_new
        if cut:
            dt = whole - dt
            cut = False
        dt = adapt_step(dt, ratio, solver.safety, solver.min_factor, solver.max_factor, solver.order)
    return torch.cat(times), torch.stack(sol)


def odeint_adaptive(f, x, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm):
    g, grid, _, reverse = orient(f, t_span, ())
    k1 = g(grid[0], x)
    dt = init_step(g, k1, x, grid[0], solver.order, atol, rtol)
    times, sol = adaptive(g, k1, x, dt, grid, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
    return (-times if reverse else times), sol


def odeint_symplectic_fixed(f, x, t_span, solver, save_at):
    g, grid, where, reverse = orient(f, t_span, save_at)
    times, sol = fixed(g, x, grid, solver, where, {})
    return (-times if reverse else times), torch.stack(sol)


def odeint_symplectic_adaptive(f, x, t_span, solver, atol, rtol, return_all_eval):
    g, grid, _, reverse = orient(f, t_span, ())
    t = grid[0]
    if f.order == 1:
        state = x[..., :x.shape[-1] // 2]
    else:
        state = x
    k1 = g(t, state)
    dt = init_step(g, k1, state, t, solver.order, atol, rtol)
    times, sol = adaptive(g, k1, x, dt, grid, solver, atol, rtol, None, None, return_all_eval, (False, None))
    return (-times if reverse else times), sol


def rising(before, after):
    """number of event flags that are up now and were down before"""
    return sum([(a != b) & (b == False) for a, b in zip(after, before)])


def first(flags):
    return min([i for i, up in enumerate(flags) if up == True])


def hybrid(f, x, t_span, max_jumps, solver, callbacks, atol, rtol, event_tol, priority, seminorm):
    shape = x.shape
    targets, t, T = t_span[1:], t_span[:1], t_span[-1]
    n, cut, jumps = 0, False, 0
    down = [False for _ in callbacks]
    if priority == 'jump':
        flags = [c.check_event(t, x) for c in callbacks]
        if rising(down, flags) > 0:
            x = callbacks[first(flags)].jump_map(t, x)
            jumps = jumps + 1
    k1 = f(t, x)
    dt = init_step(f, k1, x, t, solver.order, atol, rtol)
    times, sol = [t], [x]
    while t < T and jumps < max_jumps:
        t_new = t + dt
        if t_new > T:
            dt, t_new = T - t, t_span[-1:]
        if n < len(targets) and t_new > targets[n]:
            whole, cut = dt, True
            dt, t_new = targets[n] - t, targets[n][None]
        f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
        flags = [c.check_event(t_new, x_new) for c in callbacks]
        if rising(down, flags) > 0:
            # bisection: halve the step, keep the part without event, remember the flags of the earliest event
            lo, xlo, h, m = t, x, dt, 0
            while m < 100 and h > event_tol:
                h = h / 2
                f_half, x_half, _, _ = solver.step(f, xlo, lo, h, k1=k1)
                half = [c.check_event(lo + h, x_half) for c in callbacks]
                m = m + 1
                if rising(down, half) == 0:
                    lo = lo + h
                    xlo = x_half
                    k1 = f_half
                else:
                    flags = half
            sol.append(xlo.reshape(shape))
            times.append(lo)
            x = callbacks[first(flags)].jump_map(lo, xlo)
            sol.append(x.reshape(shape))
            times.append(lo)
            t = lo
            jumps = jumps + 1
            k1 = None
            cut = False
        else:
            if seminorm[0] == True:
                d = seminorm[1]
                ratio = hairer_norm(x_err[:d] / (atol + rtol * torch.max(x[:d].abs(), x_new[:d].abs())))
            else:
                ratio = hairer_norm(x_err / (atol + rtol * torch.max(x.abs(), x_new.abs())))
            if ratio <= 1:
                if t_new == targets[n]:
                    n = n + 1
                t, x, k1 = t_new, x_new, f_new
                sol.append(x.reshape(shape))
                times.append(t)
            if cut:
                dt = whole - dt
                cut = False
            dt = adapt_step(dt, ratio, solver.safety, solver.min_factor, solver.max_factor, solver.order)
    return torch.cat(times), torch.stack(sol)


def mshooting(f, x, t_span, solver, B0, fine_steps, maxiter, fixed_driver):
    return t_span, solver.root_solve(fixed_driver, f, x, t_span, B0, fine_steps, maxiter)


def shifted(f, x, t_span, solver):
    t, T = t_span[..., 0], t_span[..., -1]
    dt = t_span[..., 1] - t
    k1 = f(t, x)
    sol = []
    while (~((t - T).abs() <= 1e-6).bool()).any():
        active = ~((t - T).abs() <= 1e-6).bool()
        x[:, ~active] = torch.zeros_like(x[:, ~active])
        k1, x, _ = solver.step(f, x, t, dt[..., None], k1=k1)
        sol.append(x)
        t = t + dt
    return torch.stack(sol)


def jagged(f, x, t_span, solver):
    t, T = torch.stack([s[0] for s in t_span]), torch.stack([s[-1] for s in t_span])
    dt = torch.stack([s[1] - t0 for s, t0 in zip(t_span, t)])
    sol = [[x_] for x_ in x]
    n = 0
    while (~((t - T).abs() <= 1e-6).bool()).any():
        _, x, _ = solver.step(f, x, t, dt[..., None, None])
        for j, s in enumerate(sol):
            s.append(x[j])
        t = t + dt
        n = n + 1
        dt = torch.stack([torch.zeros_like(now) if n + 1 > len(s) - 1 else s[n + 1] - now for s, now in zip(t_span, t)])
    sol = [part[:len(s)] for part, s in zip(sol, t_span)]
    return [torch.stack(part, 0) for part in sol]


def reversed_field(f):
    """the vector field of the time-reversed problem"""
    return lambda t, x: -f(-t, x)


def reversed_system(f):
    g = lambda t, x: -f(-t, x)
    g.order = f.order
    return g
