"""Reference formulation of the datasets (parsed by the analyser, never executed)."""
import math
import torch


def on_sphere(dim, radius):
    v = torch.randn(dim)
    return radius * v / torch.sqrt((v * v).sum())


def spheres(n, noise, dim, inner, outer):
    rows, labels = [], []
    for size, radius, label in ((n // 2, inner, 1.0), (n - n // 2, outer, 0.0)):
        points = [on_sphere(dim, radius) for i in range(size)]
        e = torch.randn(size, dim)
        for i in range(size):
            rows.append(points[i] + noise * e[i])
            labels.append(label)
    return torch.stack(rows), torch.tensor(labels)


def moons(n, noise):
    a, b = n // 2, n - n // 2
    e = torch.rand(n, 1)
    u, v = torch.linspace(0, math.pi, a), torch.linspace(0, math.pi, b)
    rows = [torch.stack([torch.cos(u[i]), torch.sin(u[i])]) for i in range(a)] + [torch.stack([1 - torch.cos(v[i]), 0.5 - torch.sin(v[i])]) for i in range(b)]
    return torch.stack([rows[i] + noise * e[i, 0] for i in range(n)]), torch.tensor([0] * a + [1] * b)


def spirals(n, noise):
    r = torch.sqrt(torch.rand(n, 1)) * (13 * math.pi / 3)
    e, f = torch.rand(n, 1), torch.rand(n, 1)
    x, y = -torch.cos(r) * r + noise * e, torch.sin(r) * r + noise * f
    one = torch.cat([x, y], 1)
    return torch.cat([one, -one]), torch.tensor([0] * n + [1] * n)


def blobs(n, k, angle, radii, stds, dim, noise):
    rows, labels = [], []
    for i in range(k):
        c = torch.tensor([radii[i] * math.cos((i + 1) * angle), radii[i] * math.sin((i + 1) * angle)] + [0.0] * (dim - 2))
        p = torch.randn(n, dim)
        e = torch.randn(dim)
        for j in range(n):
            rows.append(c + stds[i] * p[j] + noise * e)
            labels.append(i)
    return torch.stack(rows), torch.tensor(labels)


def gaussians(n, k, dim, radius, std, noise):
    return blobs(n, k, 2 * math.pi / k, [radius] * k, [std] * k, dim, noise)


def gaussians_spiral(n, k, per_loop, dim, r0, r1, s0, s1, noise):
    radii = [r0 + (r1 - r0) * i / (k - 1) for i in range(k)]
    stds = [s0 + (s1 - s0) * i / (k - 1) for i in range(k)]
    return blobs(n, k, 2 * math.pi / per_loop, radii, stds, dim, noise)
