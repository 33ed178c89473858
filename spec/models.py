"""Reference formulation of the models (parsed by the analyser, never executed)."""
import torch
from torch.autograd import grad


def trace(y, x):
    r = 0
    for i in range(x.shape[1]):
        r = r + grad(y[:, i].sum(), x)[0][:, i]
    return r


def hutchinson(y, x, noise):
    return (grad(y, x, noise)[0] * noise).sum(1)


def flow(y, tr):
    return torch.cat([-tr[:, None], y], 1)


def hamiltonian(H, x):
    n = x.shape[1] // 2
    g = grad(H(x).sum(), x)[0]
    return torch.cat([g[:, n:], -g[:, :n]], 1)


def gradient(E, x):
    return -grad(E(x).sum(), x)[0]


def skew(M):
    return (M - M.transpose(1, 2)) / 2


def conservative(H, J, x):
    S = skew(J(x).reshape(-1, x.shape[1], x.shape[1]))
    g = grad(H(x).sum(), x)[0]
    return torch.einsum('bji,bj->bi', S, g)


def lagrangian(L, x):
    n = x.shape[1] // 2
    acc = []
    for row in x:
        J = torch.autograd.functional.jacobian(lambda q: L(q).sum(), row)
        H = torch.autograd.functional.hessian(lambda q: L(q).sum(), row)
        acc.append(torch.linalg.pinv(H[n:, n:]) @ (J[:n] - H[n:, :n] @ row[n:]))
    return torch.cat([x[:, n:], torch.stack(acc)], 1)


def orders(deg):
    return torch.linspace(0, deg, deg)


def basis_fourier(n, s):
    return [torch.cos(s * n), torch.sin(s * n)]


def basis_polynomial(n, s):
    return [s ** n]


def basis_chebychev(n, s, deg):
    T = [1 + 0 * s, s]
    for i in range(2, deg):
        T = T + [2 * s * T[-1] - T[-2]]
    return [torch.stack(T[:deg])]


def basis_gaussianrbf(n, s, center, scale):
    r = torch.norm(s - center)
    return [torch.exp(-(r * (n - center) / scale) ** 2)]


def basis_vanillarbf(n, s, center, scale):
    return [torch.norm(s - center) * n / scale]


def basis_multiquadrbf(n, s, center, scale):
    return [1 + torch.sqrt(1 + (torch.norm(s - center) * n / scale) ** 2)]


def series(c, phi, entries, deg):
    w = []
    for p in range(entries):
        v = 0
        for i in range(len(phi)):
            for d in range(deg):
                v = v + c[p, d, i] * phi[i][d]
        w = w + [v]
    return torch.stack(w)


def gal_linear(x, w, nin, nout, bias):
    y = x @ w[:nin * nout].reshape(nout, nin).T
    if bias:
        y = y + w[nin * nout:]
    return y


def gal_conv(w, nin, nout, ks, bias):
    n = nout * nin * ks * ks
    return w[:n].reshape(nout, nin, ks, ks), w[n:]


def higher_order(f, x, k):
    n = x.size(1) // k
    return torch.cat([x[:, n * i:n * (i + 1)] for i in range(1, k)] + [f(x)], 1)
