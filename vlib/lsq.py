"""Least-squares problems shared by C13 and C14: unknowns as an array, a TFCDict or a TFCDictRobust."""

import numpy as np
from hypothesis import strategies as st

from . import gen
from .runner import fail

KEYS = ["y", "xi", "b", "A1", "zeta", "a"]


@st.composite
def unknowns(draw, maxn=6):
    kind = draw(st.sampled_from(["array", "TFCDict", "TFCDictRobust"]))
    if kind == "array":
        return {"kind": kind, "n": draw(st.integers(1, maxn))}
    keys = draw(gen.lists(st.sampled_from(KEYS), 1, 4, unique=True))
    if kind == "TFCDict":
        shapes = [[draw(st.integers(1, 3))] for _ in keys]
    else:
        one = gen.lists(st.integers(1, 2), 1, 3) | st.just([1]) | st.just([2, 3]) | st.just([3])
        shapes = [draw(one) for _ in keys]
    return {"kind": kind, "keys": keys, "shapes": shapes}


def size(u):
    return u["n"] if u["kind"] == "array" else sum(int(np.prod(s)) for s in u["shapes"])


def pack(u, vec, np_=None):
    """The flat vector as the user's unknowns."""
    import jax.numpy as jnp
    from tfc.utils import TFCDict, TFCDictRobust

    np_ = np_ or jnp
    if u["kind"] == "array":
        return np_.array(vec)
    cls = TFCDict if u["kind"] == "TFCDict" else TFCDictRobust
    parts, k = [], 0
    for key, s in zip(u["keys"], u["shapes"]):
        n = int(np.prod(s))
        parts.append((key, np_.array(vec[k : k + n]).reshape(s)))
        k += n
    return cls(parts)


def flat(u, xi):
    """The user's unknowns as a flat vector, without the library's own conversion. Traceable."""
    import jax.numpy as jnp

    if u["kind"] == "array":
        return xi
    return jnp.concatenate([jnp.reshape(xi[k], (-1,)) for k in u["keys"]])


def unpack(u, xi, what):
    """As a numpy vector, with the type and layout checked."""
    from tfc.utils import TFCDict, TFCDictRobust

    n = size(u)
    if u["kind"] == "array":
        out = np.asarray(xi)
        if out.shape != (n,):
            fail(f"{what}: shape {out.shape}, expected {(n,)}")
        return out
    cls = TFCDict if u["kind"] == "TFCDict" else TFCDictRobust
    if type(xi) is not cls:
        fail(f"{what}: a {type(xi).__name__}, expected a {cls.__name__}")
    if list(xi.keys()) != u["keys"]:
        fail(f"{what}: keys {list(xi.keys())}, expected {u['keys']}")
    for k, s in zip(u["keys"], u["shapes"]):
        if tuple(np.shape(xi[k])) != tuple(s):
            fail(f"{what}: {k} has shape {np.shape(xi[k])}, expected {s}")
    return np.concatenate([np.asarray(xi[k]).reshape(-1) for k in u["keys"]])


def well_conditioned(seed, rows, n, cplx=False):
    """A matrix with singular values between 0.5 and 3."""
    r = np.random.RandomState(seed % 2**32)
    M = r.normal(size=(rows, n)) + (1j * r.normal(size=(rows, n)) if cplx else 0)
    U, _, V = np.linalg.svd(M, full_matrices=False)
    return (U * np.linspace(0.5, 3.0, min(rows, n))) @ V
