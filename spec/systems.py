"""Benchmark systems as published (parsed by the analyser, never executed)."""
import torch


def lorenz(t, x):
    a, b, c = x[..., 0], x[..., 1], x[..., 2]
    return torch.stack([10 * (b - a), a * (28 - c) - b, a * b - 8 / 3 * c], -1)


def van_der_pol(t, x, mu):
    a, b = x[..., 0], x[..., 1]
    return torch.stack([b, mu * (1 - a ** 2) * b - a], -1)


def growth(t, x):
    return 0.5 * x


def decay(t, x):
    return -0.1 * x


def rabinovich_fabrikant(t, x):
    a, b, c = x[..., 0], x[..., 1], x[..., 2]
    return torch.stack([b * (c - 1 + a ** 2) + 0.87 * a, a * (3 * c + 1 - a ** 2) + 0.87 * b, -2 * c * (1.1 + a * b)], -1)


def sine(t, x):
    return torch.sin(t) * torch.ones_like(x)


def harmonics(t, A, w, phi):
    """value at one time"""
    return (A * torch.cos(w * t + phi)).sum(2).sum(1)[None, :]


def series(times, A, w, phi):
    return torch.cat([harmonics(t, A, w, phi) for t in times])
