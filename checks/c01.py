"""C01: univariate polynomial and Fourier basis functions and their derivatives."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Reference: Gegenbauer, associated Laguerre and Hermite identities for the derivatives, trigonometric identities for "
    "Fourier, evaluated in double precision; an entry may differ by 1e-8 of the largest term of its sum.",
    "Domains have length 0.05 to 40, orders 0 to 12, up to 140 functions; points lie in or within 10% of the domain.",
]


def _x(case):
    t = gen.frac(case["t"])
    if case["basis"] in ref.HALF:
        return (t - 0.3) * 4.0
    x0, xf = case["dom"]
    return x0 + t * (xf - x0)


def check_direct(case):
    from tfc.utils import BF, BF_Py

    mod = BF if case["backend"] == "C++" else BF_Py
    x0, xf = case["dom"]
    m, d = case["m"], case["d"]
    x = _x(case)
    nC = np.array(sorted(gen.removed(case["nC"])), dtype=np.int32)
    obj = getattr(mod, case["basis"])(x0, xf, nC, m)
    v, s = ref.uni_H(case["basis"], x, x0, xf, m, d)
    xin = gen.as_kind(x, case["kind"] if case["backend"] == "C++" else "numpy")
    for full in (True, False, True):
        keep = [k for k in range(m) if full or k not in nC]
        got = obj.H(xin, d, full)
        ref.compare(got, v[:, keep], s[:, keep], f"{case['backend']} {case['basis']} d={d} full={full}")
    if not np.array_equal(np.asarray(xin), x):
        fail("the points given were changed")
    return d > 0 and m > d and len(nC) > 0


def check_utfc(case):
    from tfc import utfc

    x0, xf = case["dom"]
    m = case["m"]
    x = _x(case)
    nC = case["nC"]
    t = utfc(case["N"], nC, m - 1, basis=case["basis"], x0=x0, xf=xf, backend=case["backend"])
    gone = gen.removed(nC)
    keep = [k for k in range(m) if k not in gone]
    xin = gen.as_kind(x, case["kind"])
    for d, f in ((0, t.H), (1, t.dH), (2, t.d2H), (4, t.d4H), (8, t.d8H)):
        v, s = ref.uni_H(case["basis"], x, x0, xf, m, d)
        ref.compare(f(xin), v[:, keep], s[:, keep], f"{case['backend']} {case['basis']} derivative {d}")
        ref.compare(f(xin, full=True), v, s, f"{case['backend']} {case['basis']} derivative {d}, all functions")
    v, s = ref.uni_H(case["basis"], np.asarray(t.x), x0, xf, m, 0)
    ref.compare(t.H(t.x, full=True), v, s, "at the collocation points")
    return m > 3 and len(gone) > 0


@st.composite
def direct(draw):
    basis = draw(st.sampled_from(ref.POLY + ref.HALF))
    m = draw(st.integers(1, 12) | st.integers(1, 12) | st.integers(13, 60) | st.integers(61, 140))
    if basis in ref.HALF:
        m = min(m, 25)
    return {
        "basis": basis,
        "backend": draw(st.sampled_from(gen.BACKENDS)),
        "m": m,
        "d": draw(st.integers(0, 4) | st.integers(5, 12)),
        "nC": draw(gen.remove_spec(m)),
        "dom": draw(gen.domain()),
        "t": draw(gen.points()),
        "kind": draw(gen.array_kind()),
    }


@st.composite
def through_utfc(draw):
    m = draw(st.integers(2, 12) | st.integers(13, 60))
    return {
        "basis": draw(st.sampled_from(ref.POLY)),
        "backend": draw(st.sampled_from(gen.BACKENDS)),
        "m": m,
        "N": draw(st.integers(2, 40)),
        "nC": draw(gen.remove_spec(m)),
        "dom": draw(gen.domain()),
        "t": draw(gen.points()),
        "kind": draw(st.sampled_from(["numpy", "jax", "strided", "readonly"])),
    }


def enum_direct(tier):
    for basis in ref.POLY + ref.HALF:
        for backend in gen.BACKENDS:
            for d in range(0, 13):
                for m in (1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 24) + ((32, 40, 50, 60) if basis in ref.POLY else ()):
                    if m > 12 and backend == "Python" and tier == "quick" and d > 6:
                        continue
                    yield {
                        "basis": basis, "backend": backend, "m": m, "d": d, "nC": [min(1, m - 1)] if m > 1 else 0,
                        "dom": [-0.7, 1.9], "t": [0.0, 0.137, 0.5, 0.86, 1.0], "kind": "numpy",
                    }  # fmt: skip


SUBS = [
    Sub(
        "direct", check_direct, direct, enum=enum_direct, quick=7200, thorough=60000, shards=4,
        rule="basis class of either backend, order 0-12, 1-140 functions, any domain, points and kind of array; all "
        "(basis, backend, order, size) of a grid first. Non-trivial: order > 0, more functions than the order, some removed.",
    ),
    Sub(
        "utfc", check_utfc, through_utfc, quick=2400, thorough=12000, shards=4,
        rule="univariate class, its five derivative methods, with and without the removed functions. Non-trivial: more "
        "than 3 functions and some removed.",
    ),
]  # fmt: skip
