"""C02: univariate random-feature (ELM) bases."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Reference: the derivatives of the logistic function and of tanh as integer polynomials of themselves, evaluated in "
    "extended precision; an entry may differ by 1e-11 of the sum of the absolute values of that polynomial's terms.",
    "Orders 0-8 (all that the compiled backend defines for tanh, logistic and swish), 0-10 for sine and ReLU.",
    "ReLU is not judged within 1e-9 of its kink.",
]
RTOL = 1e-11


def matrix(case, x, d):
    v, s = ref.uni_H(case["basis"], x, *case["dom"], case["m"], d, w=_w(case), b=_b(case))
    return v, s


def _w(case):
    return gen.arr(case["ws"], case["m"], -case["amp"], case["amp"])


def _b(case):
    return gen.arr(case["ws"] + 1, case["m"], -case["amp"], case["amp"])


def near_kink(case, x):
    if case["basis"] != "ELMReLU":
        return False
    x0, xf = case["dom"]
    u = np.outer((x - x0) / (xf - x0), _w(case)) + _b(case)[None, :]
    return bool(np.any(np.abs(u) < 1e-9))


def check(case):
    from tfc import utfc

    x0, xf = case["dom"]
    m = case["m"]
    x = x0 + gen.frac(case["t"]) * (xf - x0)
    if near_kink(case, x):
        return False
    t = utfc(case["N"], case["nC"], m - 1, basis=case["basis"], x0=x0, xf=xf, backend=case["backend"])
    bc = t.basisClass
    w0, b0 = np.array(bc.w), np.array(bc.b)
    for name, v in (("weights", w0), ("biases", b0)):
        if v.size != m:
            fail(f"initial {name} have shape {v.shape}, expected {m} of them")
        if not (np.all(np.isfinite(v)) and np.all(np.abs(v) <= 10.0)):
            fail(f"initial {name} outside [-10, 10]")
        if m > 3 and np.unique(v).size < 2:
            fail(f"initial {name} are all equal")
    w, b = _w(case), _b(case)
    win, bin_ = gen.as_kind(w, case["kind"]), gen.as_kind(b, case["kind"])
    if case["order"]:
        bc.w = win
        bc.b = bin_
    else:
        bc.b = bin_
        bc.w = win
    if not np.array_equal(np.ravel(bc.w), w) or not np.array_equal(np.ravel(bc.b), b):
        fail("the weights or biases read back are not the ones set")
    gone = gen.removed(case["nC"])
    keep = [k for k in range(m) if k not in gone]
    xin = gen.as_kind(x, case["xkind"])
    for d in case["ds"]:
        v, s = matrix(case, x, d)
        what = f"{case['backend']} {case['basis']} d={d}"
        ref.compare(bc.H(np.array(x), d, True), v, s, what + " all", RTOL)
        ref.compare(bc.H(np.array(x), d, False), v[:, keep], s[:, keep], what, RTOL)
        f = {0: t.H, 1: t.dH, 2: t.d2H, 4: t.d4H, 8: t.d8H}.get(d)
        if f is not None:
            ref.compare(f(xin), v[:, keep], s[:, keep], what + " method", RTOL)
            ref.compare(f(xin, full=True), v, s, what + " method, all", RTOL)
    # new weights take effect at once, old ones are forgotten
    case2 = dict(case, ws=case["ws"] + 2)
    if not near_kink(case2, x):
        bc.w = _w(case2)
        v, s = ref.uni_H(case["basis"], x, x0, xf, m, 0, w=_w(case2), b=b)
        if case["basis"] != "ELMReLU":
            ref.compare(t.H(xin, full=True), v, s, "after new weights", RTOL)
    return max(case["ds"]) > 0


@st.composite
def cases(draw, backend):
    basis = draw(st.sampled_from(ref.ELM))
    fast = backend == "C++"
    m = draw(st.integers(2, 9) | st.integers(10, 60) | st.integers(2, 9) | st.integers(61, 200)) if fast else draw(st.sampled_from([3, 6]))
    top = 10 if basis in ("ELMSin", "ELMReLU") else 8
    if not fast:
        top = 3
    return {
        "basis": basis,
        "backend": backend,
        "m": m,
        "N": draw(st.integers(2, 12)) if fast else 4,
        "nC": draw(gen.remove_spec(m)),
        "dom": draw(gen.domain()),
        "t": draw(gen.points()) if fast else draw(st.lists(st.sampled_from([0.0, 0.2, 0.5, 0.77, 1.0]), min_size=4, max_size=4)),
        "ws": draw(gen.seeds()),
        "amp": draw(st.sampled_from([0.3, 1.0, 4.0, 10.0, 100.0, 2000.0])),
        "ds": draw(gen.lists(st.integers(0, top), 1, min(top + 1, 4 if fast else 2), unique=True)),
        "kind": draw(st.sampled_from(["numpy", "strided", "jax", "reversed", "readonly"])),
        "xkind": draw(st.sampled_from(["numpy", "jax", "strided"])),
        "order": draw(st.booleans()),
    }


def enum(backend, tier):
    for basis in ref.ELM:
        for amp in (0.5, 2.0, 10.0) if backend == "C++" else (2.0,):
            top = 9 if backend == "C++" else 5
            yield {
                "basis": basis, "backend": backend, "m": 6, "N": 4, "nC": [1, 4], "dom": [-0.7, 1.9],
                "t": [0.0, 0.137, 0.5, 0.86], "ws": 11, "amp": amp, "ds": list(range(top)),
                "kind": "numpy", "xkind": "numpy", "order": True,
            }  # fmt: skip


SUBS = [
    Sub(
        "compiled", check, lambda: cases("C++"), enum=lambda tier: enum("C++", tier), quick=5200, thorough=30000, shards=5,
        rule="activation x 2-60 features x weights x removed features x orders 0-8 (0-10), C++ backend; weights set "
        "through any kind of array, in either order, then replaced. Non-trivial: some order > 0.",
    ),
    Sub(
        "python", check, lambda: cases("Python"), enum=lambda tier: enum("Python", tier), quick=480, thorough=2000, shards=4,
        rule="the same on the Python backend, orders 0-3 (0-4 in a fixed grid: its cost doubles with each order).",
    ),
]  # fmt: skip
