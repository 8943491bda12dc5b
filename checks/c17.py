"""C17: element-wise derivatives of any function, the step function, and the scaled QR least squares."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, lsq
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Functions are element-wise in their array arguments; the exact derivative comes from symbolic differentiation. "
    "Derivatives with respect to a dictionary sum the derivatives with respect to its entries.",
    "Scaled QR: full column rank, well conditioned up to the scaling of the columns, and not wide.",
]


def setup():
    global sp, V
    import sympy as sp_

    sp = sp_
    V = sp.symbols("a b c")


def build(e):
    k = e[0]
    if k == "v":
        return V[e[1]]
    if k == "n":
        return sp.Rational(e[1], 2)
    if k == "+":
        return build(e[1]) + build(e[2])
    if k == "*":
        return build(e[1]) * build(e[2])
    if k == "^":
        return build(e[1]) ** e[2]
    a = build(e[1])
    return {"sin": sp.sin, "cos": sp.cos, "tanh": sp.tanh, "exp": lambda q: sp.exp(sp.sin(q)), "rt": lambda q: sp.sqrt(2 + sp.sin(q))}[k](a)


@st.composite
def expr(draw, depth=4):
    if depth == 0 or draw(st.integers(0, 9)) == 0:
        return ["v", draw(st.integers(0, 2))] if draw(st.integers(0, 3)) else ["n", draw(st.integers(-4, 4))]
    kind = draw(st.sampled_from(["+", "*", "*", "^", "f", "f"]))
    if kind in "+*":
        return [kind, draw(expr(depth - 1)), draw(expr(depth - 2 if depth > 2 else depth - 1))]
    if kind == "^":
        return ["^", draw(expr(depth - 2 if depth > 2 else depth - 1)), draw(st.integers(2, 3))]
    return [draw(st.sampled_from(["sin", "cos", "tanh", "exp", "rt"])), draw(expr(depth - 1))]


def check_egrad(case):
    import jax
    import jax.numpy as jnp
    from tfc.utils import TFCDict, TFCDictRobust, egrad, egradSimple

    e = build(case["e"])
    f = sp.lambdify(V, e, "jax")
    seq = case["seq"]
    shape = tuple(case["shape"])
    vals = [gen.arr(case["s"] + k, shape) for k in range(3)]
    d = e
    for k in seq:
        d = sp.diff(d, V[k])
    exact = sp.lambdify(V, d, "numpy")
    exp = np.broadcast_to(exact(*vals), shape)
    g0 = lambda *a: jnp.broadcast_to(jnp.asarray(f(*a), dtype=float), shape)
    tol = dict(rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(exp))))
    how = case["how"]
    if how in ("egrad", "egradSimple", "jit", "inner jit"):
        eg = egradSimple if how == "egradSimple" else egrad
        g = jax.jit(g0) if how == "inner jit" else g0
        for k in seq:
            g = eg(g, k)
        if how == "jit":
            g = jax.jit(g)
        got = g(*[jnp.array(v) for v in vals])
    elif how == "outputs":
        # several outputs at once
        h = lambda *a: {"u": g0(*a), "v": [2.0 * g0(*a) + a[0]]}
        for k in seq:
            h = egrad(h, k)
        out = h(*[jnp.array(v) for v in vals])
        if not np.allclose(out["u"], exp, **tol):
            fail("derivative of one of several outputs", got=np.asarray(out["u"]).tolist(), expected=exp.tolist())
        extra = 1.0 if seq == [0] else (vals[0] if not seq else 0.0)
        got = (out["v"][0] - extra) / 2.0
    else:
        cls = {"dict": dict, "TFCDict": TFCDict, "TFCDictRobust": TFCDictRobust}[how]
        # the first two variables in a dictionary: its derivative is the sum of both
        h = lambda q, c: g0(q["z"], q["b"], c)
        tot = np.zeros(shape)
        ks = [0 if k < 2 else 1 for k in seq]
        terms = [e]
        for k in ks:
            terms = [sp.diff(t, V[0]) + sp.diff(t, V[1]) for t in terms] if k == 0 else [sp.diff(t, V[2]) for t in terms]
        tot = np.broadcast_to(sp.lambdify(V, terms[0], "numpy")(*vals), shape)
        exp = tot
        for k in ks:
            h = egrad(h, k)
        got = h(cls([("z", jnp.array(vals[0])), ("b", jnp.array(vals[1]))]), jnp.array(vals[2]))
    got = np.asarray(got)
    tol = dict(rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(exp))))
    if got.shape != shape or not np.allclose(got, exp, **tol):
        fail(f"{how} of {e} in {seq}", got=got.tolist(), expected=np.asarray(exp).tolist())
    return len(seq) > 1 and d != 0


def used(e):
    return {e[1]} if e[0] == "v" else set() if e[0] == "n" else set().union(*[used(q) for q in e[1:] if isinstance(q, list)])


@st.composite
def egrad_case(draw):
    how = draw(st.sampled_from(["egrad", "egrad", "egradSimple", "jit", "inner jit", "outputs", "dict", "TFCDict", "TFCDictRobust"]))
    e = draw(expr())
    names = sorted(used(e)) or [0, 1, 2]
    return {
        "e": e,
        "seq": draw(gen.lists(st.sampled_from(names), 0, 3)),
        "shape": draw(st.sampled_from([[1], [3], [2, 2], [4]] + ([] if how.startswith("TFC") else [[]]))),
        "s": draw(gen.seeds()),
        "how": how,
    }


def check_step(case):
    import jax
    import jax.numpy as jnp
    from tfc.utils import egrad, step

    v = np.array(case["v"], dtype=float).reshape(case["shape"])
    x = v if case["numpy"] else jnp.array(v)
    hv = (v > 0).astype(float)
    got = np.asarray(step(x))
    if got.shape != v.shape or not np.array_equal(got, hv):
        fail("step", at=v.tolist(), got=got.tolist())
    if not np.array_equal(np.asarray(jax.jit(step)(x)), hv):
        fail("compiled step", at=v.tolist())
    xj = jnp.array(v)
    for order in (1, 2):
        g = step
        for _ in range(order):
            g = egrad(g)
        for h in (g, jax.jit(g)):
            d = np.asarray(h(xj))
            if d.shape != v.shape or not np.array_equal(d, np.zeros(v.shape)):
                fail(f"derivative {order} of step", at=v.tolist(), got=d.tolist())
    # product rule: only the smooth factor is differentiated
    a = case["shift"]
    f = lambda q: jnp.sin(q) * step(q - a) + q**3 * step(a - q)
    d = np.asarray(egrad(f)(xj))
    exp = np.cos(v) * (v - a > 0) + 3 * v**2 * (a - v > 0)
    if not np.allclose(d, exp, rtol=1e-10, atol=1e-10):
        fail("derivative of a product with step", at=v.tolist(), got=d.tolist(), expected=exp.tolist())
    d = np.asarray(jax.grad(lambda q: jnp.sum(f(q)))(xj))
    if not np.allclose(d, exp, rtol=1e-10, atol=1e-10):
        fail("reverse-mode derivative of a product with step", at=v.tolist(), got=d.tolist(), expected=exp.tolist())
    return bool(np.any(v == 0)) and v.size > 1


@st.composite
def step_case(draw):
    shape = draw(st.sampled_from([[1], [4], [2, 3], [1, 2]]))
    n = int(np.prod(shape))
    special = st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-200, -1e-200, 1e300, -1e300])
    val = special | st.floats(-5, 5, allow_subnormal=False) | special
    vals = draw(st.lists(val, min_size=n, max_size=n))
    # large values overflow the product rule check
    vals = [v if abs(v) < 1e100 else float(np.sign(v) * 1e10) for v in vals]
    return {"v": vals, "shape": shape, "numpy": draw(st.booleans()), "shift": draw(st.sampled_from([0.0, 1.0, -0.5]))}


def check_qr(case):
    import jax.numpy as jnp
    from tfc.utils.TFCUtils import ScaledQrLs

    rows, n = case["n"] + case["extra"], case["n"]
    A = lsq.well_conditioned(case["s"], rows, n)
    A = A / np.sqrt((A * A).sum(0))
    scale = 10.0 ** gen.arr(case["s"] + 1, n, -case["spread"], case["spread"])
    B = gen.arr(case["s"] + 2, rows)
    x, cn = ScaledQrLs(jnp.array(A * scale), jnp.array(B))
    exp = np.linalg.lstsq(A, B, rcond=None)[0] / scale
    got = np.asarray(x)
    if got.shape != exp.shape or not np.allclose(got * scale, exp * scale, rtol=1e-7, atol=1e-7):
        fail("scaled QR solution", got=got.tolist(), expected=exp.tolist())
    c = np.linalg.cond(A)
    if not abs(float(cn) - c) <= 1e-6 * c:
        fail("condition number of the scaled matrix", got=float(cn), expected=c)
    return n > 1 and case["spread"] > 0


@st.composite
def qr_case(draw):
    return {"n": draw(st.integers(1, 8)), "extra": draw(st.integers(0, 6)), "s": draw(gen.seeds()), "spread": draw(st.sampled_from([0, 2, 6, 12]))}


SUBS = [
    Sub(
        "derivatives", check_egrad, egrad_case, quick=1440, thorough=10000, shards=4, ext=True,
        rule="random functions of three arrays, or of a dictionary and an array, differentiated up to three times in any order; "
        "scalars to matrices. Non-trivial: at least two derivatives and a non-zero result.",
    ),
    Sub("step", check_step, step_case, quick=720, thorough=4000, shards=2, rule="arrays with zeros of both signs and extreme values. Non-trivial: contains zero and several values."),
    Sub("scaled QR", check_qr, qr_case, quick=480, thorough=4000, shards=2, rule="columns scaled by up to 1e12 either way. Non-trivial: several unknowns and unequal scales."),
]  # fmt: skip
