"""C06: collocation points and the map between the problem domain and the basis's domain."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, multi, ref
from vlib.runner import Sub, fail

ASSUMPTIONS = ["Points may differ from the reference by 1e-12 of the size of the domain's ends."]


def grid(basis, n):
    """The n collocation points in the basis's own domain."""
    z0, zf = ref.z_domain(basis)
    if basis in ("CP", "LeP"):
        return np.array([math.cos(math.pi * (n - 1 - k) / (n - 1)) for k in range(n)])
    return np.array([z0 + (zf - z0) * k / (n - 1) for k in range(n)])


def close(got, want, size, what, tol=1e-12):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        fail(f"{what}: shape {got.shape}, expected {want.shape}")
    err = np.abs(got - want)
    if not np.all(err <= tol * size):
        k = int(np.argmax(err))
        fail(f"{what}: point {k} is {np.ravel(got)[k]!r}, expected {np.ravel(want)[k]!r}")


def check_uni(case):
    from tfc import utfc

    basis, N = case["basis"], case["N"]
    x0, xf = case["dom"]
    kw = {"x0": x0, "xf": xf}
    if case["ints"]:
        kw = {"x0": int(x0), "xf": int(xf) if int(xf) > int(x0) else int(x0) + 1}
        x0, xf = float(kw["x0"]), float(kw["xf"])
    if x0 == 0.0 and case["default"]:
        kw.pop("x0")
    t = utfc(N, case["nC"], case["m"] - 1, basis=basis, backend=case["backend"], **kw)
    z0, zf = ref.z_domain(basis)
    c = (zf - z0) / (xf - x0)
    if not abs(float(t.c) - c) <= 1e-12 * abs(c):
        fail("scale of the map", got=float(t.c), expected=c)
    z = grid(basis, N)
    size = abs(x0) + abs(xf)
    close(t.z, z, 4.0, "points in the basis domain")
    close(t.x, x0 + (z - z0) / c, size, "points in the problem domain")
    close(np.asarray(t.x)[[0, -1]], [x0, xf], size, "first and last point", 1e-11)
    if not np.all(np.diff(np.asarray(t.x)) > 0):
        fail("the points do not increase")
    close((np.asarray(t.x) - x0) * float(t.c) + z0, np.asarray(t.z), 4.0 * (1 + size * abs(c)), "map of the points")
    # the map as the basis sees it: the linear (or first oscillating) function takes its known value
    if basis in ("CP", "LeP"):
        h = np.asarray(t.H(t.x, full=True))
        close(h[:, 1], np.asarray(t.z), 10.0 * (1 + size * abs(c)), "the linear basis function at the points")
    return N > 2


@st.composite
def uni_cases(draw):
    m = draw(st.integers(2, 8))
    return {
        "basis": draw(st.sampled_from(ref.POLY + ref.ELM)),
        "backend": draw(st.sampled_from(gen.BACKENDS)),
        "N": draw(st.integers(2, 9) | st.integers(10, 120)),
        "m": m,
        "nC": draw(gen.remove_spec(m)),
        "dom": draw(gen.domain()),
        "ints": draw(st.booleans()),
        "default": draw(st.booleans()),
    }


def check_multi(case):
    import jax.numpy as jnp
    from tfc import mtfc

    basis, dim = case["basis"], case["dim"]
    dom = np.array(case["dom"])
    x0, xf = dom[:, 0], dom[:, 1]
    if case["ints"]:
        x0 = np.floor(x0)
        xf = np.maximum(np.floor(xf), x0 + 1)
    conv = {
        "list": lambda a: [int(v) for v in a] if case["ints"] else a.tolist(),
        "numpy": lambda a: a.astype(int) if case["ints"] else a.copy(),
        "jax": lambda a: jnp.array(a.astype(int) if case["ints"] else a),
    }[case["how"]]
    n = case["n"] if case["how"] == "list" else np.array(case["n"]) if case["how"] == "numpy" else jnp.array(case["n"])
    t = mtfc(n, case["nC"], case["m"] - 1, dim=dim, basis=basis, x0=conv(x0), xf=conv(xf), backend=case["backend"])
    z0, zf = ref.z_domain(basis)
    c = (zf - z0) / (xf - x0)
    close(np.ravel(t.c), c, np.max(np.abs(c)), "scales of the map")
    N = int(np.prod(case["n"]))
    if int(t.N) != N:
        fail("number of points", got=t.N, expected=N)
    grids = [grid(basis, k) for k in case["n"]]
    want = np.array(list(itertools.product(*grids))).T  # last dimension varies fastest
    close(np.asarray(t.z), want, 4.0, "points in the basis domain")
    if len(t.x) != dim:
        fail("number of coordinates", got=len(t.x), expected=dim)
    for k in range(dim):
        size = abs(x0[k]) + abs(xf[k])
        close(t.x[k], x0[k] + (want[k] - z0) / c[k], size, f"coordinate {k} of the points")
        lo, hi = float(np.min(t.x[k])), float(np.max(t.x[k]))
        if abs(lo - x0[k]) > 1e-11 * size or abs(hi - xf[k]) > 1e-11 * size:
            fail(f"coordinate {k} spans [{lo}, {hi}], expected [{x0[k]}, {xf[k]}]")
    pts = {tuple(p) for p in np.round(np.asarray(t.z).T, 9).tolist()}
    if len(pts) != N:
        fail("the points are not all different", got=len(pts), expected=N)
    return dim > 1 and len(set(case["n"])) > 1


@st.composite
def multi_cases(draw):
    dim = draw(st.integers(1, 4))
    basis = draw(st.sampled_from(ref.POLY + ref.ELM))
    m = draw(st.integers(2, 4))
    return {
        "basis": basis,
        "backend": draw(st.sampled_from(gen.BACKENDS)),
        "dim": dim,
        "m": m,
        "n": draw(st.lists(st.integers(2, 7 if dim < 4 else 4), min_size=dim, max_size=dim)),
        "nC": draw(gen.remove_spec(m)) if basis in ref.ELM else [draw(multi.dim_remove(m)) for _ in range(dim)],
        "dom": [draw(gen.domain()) for _ in range(dim)],
        "how": draw(st.sampled_from(["list", "numpy", "jax"])),
        "ints": draw(st.booleans()),
    }


SUBS = [
    Sub("univariate", check_uni, uni_cases, quick=2400, thorough=10000, shards=4,
        rule="basis, backend, 2-120 points, domain with float or integer ends. Non-trivial: more than 2 points."),
    Sub("multivariate", check_multi, multi_cases, quick=2400, thorough=10000, shards=4,
        rule="basis, backend, 1-4 dimensions with different numbers of points, ends as list, numpy or jax array, float or "
        "integer. Non-trivial: 2 or more dimensions with different numbers of points."),
]  # fmt: skip
