"""Shared generators. Cases are JSON: arrays are lists, big ones are (seed, size)."""

import numpy as np
from hypothesis import strategies as st

from . import ref


def floats(lo, hi):
    return st.one_of(
        st.integers(int(np.ceil(lo)), int(np.floor(hi))).map(float),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64).map(lambda v: float(np.round(v, 6))),
    )


@st.composite
def lists(draw, elements, lo, hi, unique=False):
    """Lists with every length from lo to hi equally likely; lists with a range of sizes are mostly short."""
    n = draw(st.sampled_from(range(hi, lo - 1, -1)))
    return draw(st.lists(elements, min_size=n, max_size=n, unique=unique))


def domain():
    """(x0, xf) with xf > x0; now and then very small or very large."""
    far = st.tuples(st.sampled_from([0.0, -1.0, -0.5, 0.25, 2.0]), st.sampled_from([1e-5, 1e-3, 300.0, 1e4, 1e6])).map(
        lambda t: [t[0] * t[1], float(t[0] * t[1] + t[1])]
    )
    usual = st.tuples(
        st.sampled_from([0.0, -1.0, 1.0, -2.5, 0.25, 3.0]) | floats(-20, 20),
        st.sampled_from([1.0, 2.0, 0.5, 6.283185307179586, 4.0]) | st.sampled_from([0.05, 0.3, 12.0, 40.0]) | floats(0.5, 10),
    ).map(lambda t: [t[0], float(t[0] + t[1])])
    return st.one_of(usual, usual, usual, usual, far)


def points(max_small=7, big=True):
    """Fractions of the domain: 0 is its start, 1 its end; a few lie outside."""
    small = lists(
        st.sampled_from([0.0, 1.0, 0.5]) | st.floats(0, 1).map(lambda v: round(v, 6)) | st.floats(-0.1, 1.1).map(lambda v: round(v, 4)),
        1,
        max_small,
    )
    if not big:
        return small
    return st.one_of(
        small, small, small, small, st.tuples(st.integers(0, 10**6), st.sampled_from([16, 33, 64, 100, 257, 1000, 4099])).map(lambda t: {"seed": t[0], "n": t[1]})
    )


def frac(p):
    if isinstance(p, dict):
        r = np.random.RandomState(p["seed"])
        t = r.uniform(0, 1, p["n"])
        t[0], t[-1] = 0.0, 1.0
        return t
    return np.array(p, dtype=float)


def arr(seed, shape, lo=-1.0, hi=1.0):
    return np.random.RandomState(seed % (2**32)).uniform(lo, hi, shape)


def remove_spec(m):
    """What to remove: an int, or a list of distinct indices in any order; never all of them."""
    top = max(0, min(m - 1, 6))
    return st.one_of(
        st.integers(0, top),
        lists(st.integers(0, m - 1), 0, top, unique=True),
    )


def removed(spec):
    return set(range(spec)) if isinstance(spec, int) else set(spec)


def seeds():
    return st.integers(0, 2**31 - 1)


BACKENDS = ["C++", "Python"]


def array_kind():
    return st.sampled_from(["numpy", "jax", "strided", "reversed", "readonly", "fortran"])


def as_kind(a, kind):
    """The same values in another kind of array."""
    a = np.array(a, dtype=a.dtype, copy=True)
    if kind == "jax":
        import jax.numpy as jnp

        return jnp.array(a)
    if kind == "strided":
        buf = np.full(a.shape[:-1] + (2 * a.shape[-1],), 77.0, dtype=a.dtype)
        buf[..., ::2] = a
        return buf[..., ::2]
    if kind == "reversed":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if kind == "readonly":
        a.setflags(write=False)
        return a
    if kind == "fortran":
        return np.asfortranarray(a)
    return a
