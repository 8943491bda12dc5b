"""Reference mathematics: the basis functions by closed formulas that the code under test does not use.

Every function returns (value, scale), both n x m: |computed - value| is compared with a small multiple of scale.
"""

import itertools
import math

import numpy as np

DOMAIN = {"CP": (-1.0, 1.0), "LeP": (-1.0, 1.0), "FS": (-math.pi, math.pi)}
POLY = ["CP", "LeP", "FS"]
HALF = ["LaP", "HoPpro", "HoPphy"]  # defined on an unbounded domain: no map
ELM = ["ELMTanh", "ELMSigmoid", "ELMSin", "ELMSwish", "ELMReLU"]
RTOL = 1e-8


def z_domain(basis):
    return DOMAIN.get(basis, (0.0, 1.0))


def _gegen(lam, k, z):
    """C_k^(lam)(z) for k = 0..k-1, as columns."""
    out = np.zeros((z.shape[0], max(k, 0)), dtype=z.dtype)
    if k > 0:
        out[:, 0] = 1.0
    if k > 1:
        out[:, 1] = 2 * lam * z
    for n in range(2, k):
        out[:, n] = (2 * z * (n + lam - 1) * out[:, n - 1] - (n + 2 * lam - 2) * out[:, n - 2]) / n
    return out


def cp(m, z, d):
    out = np.zeros((z.shape[0], m), dtype=z.dtype)
    if d == 0:
        out[:, 0] = 1.0
        if m > 1:
            out[:, 1] = z
        for n in range(2, m):
            out[:, n] = 2 * z * out[:, n - 1] - out[:, n - 2]
        return out
    fac = 2.0 ** (d - 1) * math.factorial(d - 1)
    g = _gegen(float(d), m - d, z)
    for n in range(d, m):
        out[:, n] = fac * n * g[:, n - d]
    return out


def lep(m, z, d):
    out = np.zeros((z.shape[0], m), dtype=z.dtype)
    fac = 1.0
    for k in range(1, d + 1):
        fac *= 2 * k - 1
    g = _gegen(d + 0.5, m - d, z)
    if m > d:
        out[:, d:] = fac * g
    return out


def fs(m, z, d):
    out = np.zeros((z.shape[0], m), dtype=z.dtype)
    out[:, 0] = 1.0 if d == 0 else 0.0
    # sin and cos differentiated d times
    cyc_sin = [np.sin, np.cos, lambda t: -np.sin(t), lambda t: -np.cos(t)]
    for k in range(1, m):
        g = (k + 1) // 2
        shift = d if k % 2 == 1 else d + 1
        out[:, k] = float(g) ** d * cyc_sin[shift % 4](g * z)
    return out


def lap(m, z, d, positive=False):
    """(-1)^d L_{n-d}^{(d)}(z); with positive=True, the sum of the absolute values of its terms at |z|."""
    out = np.zeros((z.shape[0], m), dtype=z.dtype)
    x = -np.abs(z) if positive else z
    k = m - d
    cols = []
    for n in range(max(k, 0)):
        if n == 0:
            cols.append(np.ones_like(x))
        elif n == 1:
            cols.append(1 + d - x)
        else:
            cols.append(((2 * n - 1 + d - x) * cols[-1] - (n - 1 + d) * cols[-2]) / n)
    for n, col in enumerate(cols):
        out[:, n + d] = col * (1.0 if positive or d % 2 == 0 else -1.0)
    return out


def herm(m, z, d, a, positive=False):
    """a = 1: probabilists' Hermite, a = 2: physicists'."""
    out = np.zeros((z.shape[0], m), dtype=z.dtype)
    x = np.abs(z) if positive else z
    sgn = 1.0 if positive else -1.0
    cols = []
    for n in range(max(m - d, 0)):
        if n == 0:
            cols.append(np.ones_like(x))
        elif n == 1:
            cols.append(a * x)
        else:
            cols.append(a * x * cols[-1] + sgn * a * (n - 1) * cols[-2])
    for n, col in enumerate(cols):
        f = float(a) ** d
        for j in range(n + 1, n + d + 1):
            f *= j
        out[:, n + d] = f * col
    return out


def uni(basis, m, z, d):
    """d-th derivative with respect to z of the m basis functions at z; with the scale of its rounding error."""
    z = np.asarray(z)
    if not np.iscomplexobj(z):
        z = z.astype(np.float64)
    if basis in ("CP", "LeP"):
        f = cp if basis == "CP" else lep
        v = f(m, z, d)
        edge = np.array([max(1.0, float(np.max(np.abs(z))) if z.size else 1.0)])
        s = np.abs(f(m, edge, d)).repeat(z.shape[0], 0)
        if np.iscomplexobj(z) and z.size:
            s = np.maximum(s, np.max(np.abs(v), 0)[None, :])
        return v, s
    if basis == "FS":
        v = fs(m, z, d)
        g = np.array([(k + 1) // 2 for k in range(m)], dtype=float)
        grow = np.cosh(np.outer(np.abs(z.imag), g)) if np.iscomplexobj(z) else np.ones((z.shape[0], m))
        s = grow * (g**d)[None, :] * (1.0 + np.outer(np.abs(z), g))
        return v, s
    if basis == "LaP":
        return lap(m, z, d), lap(m, z, d, True)
    a = 1 if basis == "HoPpro" else 2
    return herm(m, z, d, a), herm(m, z, d, a, True)


# ------------------------------------------------------------------------------------------------- neural features


def _sig_poly(d):
    """Integer coefficients (ascending) of the d-th derivative of the logistic function as a polynomial in it."""
    p = [0, 1]
    for _ in range(d):
        dp = [k * p[k] for k in range(1, len(p))]
        q = [0] * (len(dp) + 2)
        for k, c in enumerate(dp):
            q[k + 1] += c
            q[k + 2] -= c
        p = q
    return p


def _tanh_poly(d):
    p = [0, 1]
    for _ in range(d):
        dp = [k * p[k] for k in range(1, len(p))]
        q = [0] * (len(dp) + 2)
        for k, c in enumerate(dp):
            q[k] += c
            q[k + 2] -= c
        p = q
    return p


def _horner(p, x):
    acc = np.zeros_like(x)
    for c in reversed(p):
        acc = acc * x + c
    return acc


def act(basis, u, d):
    """d-th derivative of the activation at u, and its rounding scale."""
    u = np.asarray(u)
    w = u.astype(np.clongdouble if np.iscomplexobj(u) else np.longdouble)
    one = np.ones(u.shape)
    if basis == "ELMSin":
        f = [np.sin, np.cos, lambda t: -np.sin(t), lambda t: -np.cos(t)][d % 4]
        grow = np.cosh(np.abs(w.imag)) if np.iscomplexobj(w) else one
        return f(w), grow * (1.0 + np.abs(w))
    if basis == "ELMTanh":
        p = _tanh_poly(d)
        t = np.tanh(w)
        return _horner(p, t), one * sum(abs(c) for c in p) * np.maximum(1.0, np.abs(t)) ** (d + 1)
    if basis == "ELMSigmoid":
        p = _sig_poly(d)
        s = 1 / (1 + np.exp(-w))
        return _horner(p, s), one * sum(abs(c) for c in p) * np.maximum(1.0, np.abs(s)) ** (d + 1)
    if basis == "ELMSwish":
        p = _sig_poly(d)
        s = 1 / (1 + np.exp(-w))
        v = w * _horner(p, s)
        sc = sum(abs(c) for c in p)
        if d > 0:
            q = _sig_poly(d - 1)
            v = v + d * _horner(q, s)
            sc += d * sum(abs(c) for c in q)
        return v, one * sc * (1.0 + np.abs(w)) * np.maximum(1.0, np.abs(s)) ** (d + 1)
    if basis == "ELMReLU":
        if d == 0:
            return np.maximum(w.real, 0), 1.0 + np.abs(w)
        if d == 1:
            return (w.real > 0).astype(np.longdouble), one
        return np.zeros(u.shape, dtype=np.longdouble), one
    raise KeyError(basis)


# --------------------------------------------------------------------------------------------------- whole matrices


def uni_H(basis, x, x0, xf, m, d, w=None, b=None):
    """Full matrix of the d-th derivative with respect to x."""
    x = np.asarray(x)
    if basis in HALF:
        return uni(basis, m, x, d)
    z0, zf = z_domain(basis)
    c = (zf - z0) / (xf - x0)
    z = (x - x0) * c + z0
    if basis in ELM:
        u = np.outer(z, w) + np.asarray(b)[None, :]
        v, s = act(basis, u, d)
        mult = (np.asarray(w) * c) ** d
        return np.asarray(v * mult[None, :]), np.asarray(s * np.abs(mult)[None, :])
    v, s = uni(basis, m, z, d)
    return v * c**d, s * np.abs(c) ** d


def products(m, dim, nC):
    """The multi-indices of the products kept, first dimension varying fastest. nC: list of sets, one per dimension."""
    out = []
    for rev in itertools.product(range(m), repeat=dim):
        idx = rev[::-1]
        if sum(idx) > m - 1:
            continue
        if nC is not None and all(idx[j] in nC[j] for j in range(dim)):
            continue
        out.append(idx)
    return out


def multi_H(basis, x, x0, xf, m, d, nC, w=None, b=None):
    """x: dim x n. nC: None for all functions; else list of sets (products) or a set (neural features)."""
    x = np.asarray(x)
    dim, n = x.shape
    z0, zf = z_domain(basis)
    c = (zf - z0) / (np.asarray(xf) - np.asarray(x0))
    z = (x - np.asarray(x0)[:, None]) * c[:, None] + z0
    if basis in ELM:
        w, b = np.asarray(w), np.asarray(b)
        u = z.T @ w + b[None, :]
        v, s = act(basis, u, sum(d))
        mult = np.prod([(w[j] * c[j]) ** d[j] for j in range(dim)], axis=0)
        s = s + (np.abs(z.T) @ np.abs(w) if basis in ("ELMSin", "ELMReLU", "ELMSwish") else 0.0)
        v, s = np.asarray(v * mult[None, :]), np.asarray(s * np.abs(mult)[None, :])
        keep = [k for k in range(m) if nC is None or k not in nC]
        return v[:, keep], s[:, keep]
    T, S = zip(*[uni(basis, m, z[j], d[j]) for j in range(dim)])
    idx = products(m, dim, nC)
    v = np.ones((n, len(idx)), dtype=z.dtype)
    s = np.ones((n, len(idx)))
    for j in range(dim):
        cols = [i[j] for i in idx]
        v = v * (T[j][:, cols] * c[j] ** d[j])
        s = s * (S[j][:, cols] * abs(c[j]) ** d[j])
    return v, s


def compare(got, ref, scale, what, rtol=RTOL):
    from .runner import fail

    got = np.asarray(got)
    if got.shape != ref.shape:
        fail(f"{what}: shape {got.shape}, expected {ref.shape}")
    if got.size == 0:
        return
    if not np.all(np.isfinite(got)):
        i = np.argwhere(~np.isfinite(got))[0].tolist()
        fail(f"{what}: not finite at {i}: {got[tuple(i)]!r}")
    err = np.abs(got - ref)
    bad = ~(err <= rtol * scale + 1e-300)
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0].tolist())
        fail(f"{what}: entry {i} is {got[i]!r}, expected {ref[i]!r} (tolerance {rtol * scale[i]!r}); {int(bad.sum())} wrong")
