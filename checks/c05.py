"""C05: the two backends agree, and the Python backend extends the bases to complex fields."""

import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen, multi, ref
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "The backends may differ by 1e-8 of the reference scale of C01/C03 (1e-11 of that of C02/C04 for neural features).",
    "Complex points lie within about 1.2 of the unit interval of the basis's own domain, away from the poles of tanh and "
    "of the logistic function.",
]


def check_uni(case):
    from tfc import utfc

    x0, xf = case["dom"]
    m = case["m"]
    x = x0 + gen.frac(case["t"]) * (xf - x0)
    elm = case["basis"] in ref.ELM
    w, b = gen.arr(case["ws"], m, -3, 3), gen.arr(case["ws"] + 1, m, -3, 3)
    if case["basis"] == "ELMReLU" and np.any(np.abs(np.outer((x - x0) / (xf - x0), w) + b) < 1e-9):
        return False
    ts = [utfc(case["N"], case["nC"], m - 1, basis=case["basis"], x0=x0, xf=xf, backend=k) for k in gen.BACKENDS]
    for t in ts:
        if elm:
            t.basisClass.w, t.basisClass.b = w, b
    _, s = ref.uni_H(case["basis"], x, x0, xf, m, case["d"], **({"w": w, "b": b} if elm else {}))
    keep = [k for k in range(m) if k not in gen.removed(case["nC"])]
    for full in (True, False):
        a, c = (np.asarray(t.basisClass.H(x, case["d"], full)) for t in ts)
        ref.compare(a, c, s if full else s[:, keep], f"{case['basis']} d={case['d']} full={full}: C++ against Python", 1e-11 if elm else ref.RTOL)
    ref.compare(ts[0].x, np.asarray(ts[1].x), np.full(case["N"], abs(x0) + abs(xf)), "collocation points", 1e-12)
    if abs(ts[0].c - ts[1].c) > 1e-12 * abs(ts[0].c):
        fail("the domain maps differ", cpp=ts[0].c, py=ts[1].c)
    return case["d"] > 0


@st.composite
def uni_cases(draw):
    basis = draw(st.sampled_from(ref.POLY + ref.POLY + ref.ELM))
    m = draw(st.integers(2, 20)) if basis in ref.POLY else 5
    return {
        "basis": basis,
        "m": m,
        "N": draw(st.integers(2, 12)),
        "nC": draw(gen.remove_spec(m)),
        "dom": draw(gen.domain()),
        "t": draw(gen.points()) if basis in ref.POLY else draw(st.lists(st.sampled_from([0.0, 0.2, 0.5, 0.77, 1.0]), min_size=4, max_size=4)),
        "ws": draw(gen.seeds()),
        "d": draw(st.integers(0, 9 if basis in ref.POLY else 3)),
    }


def check_multi(case):
    x = multi.points(case)
    if multi.near_kink(case, x):
        return False
    ts = [multi.make(dict(case, backend=k)) for k in gen.BACKENDS]
    d = tuple(case["d"])
    for full in (True, False):
        _, s = multi.matrix(case, x, d, full)
        a, c = (np.asarray(t.basisClass.H(x, np.array(d, dtype=np.int32), full)) for t in ts)
        ref.compare(a, c, s, f"{case['basis']} dim={case['dim']} d={d} full={full}: C++ against Python", multi.rtol(case))
    for j in range(case["dim"]):
        lo, hi = case["dom"][j]
        ref.compare(ts[0].x[j], np.asarray(ts[1].x[j]), np.full(ts[0].N, abs(lo) + abs(hi)), "collocation points", 1e-12)
    return case["dim"] > 1


@st.composite
def multi_cases(draw):
    if draw(st.integers(0, 3)):
        return draw(multi.poly_case(backends=("C++",)))
    c = draw(multi.elm_case(dims=(1, 2), backends=("C++",), maxm=4, maxd=2))
    c["m"], c["np"] = 4, 3
    c["nC"] = [k for k in c["nC"] if k < 4][:3] if isinstance(c["nC"], list) else min(c["nC"], 3)
    return c


def _cx(seed, n, r):
    """Complex numbers of modulus at most r."""
    return r * gen.arr(seed, n, 0, 1) * np.exp(2j * np.pi * gen.arr(seed + 1, n, 0, 1))


def check_complex(case):
    from tfc import utfc
    from tfc.utils import BF_Py

    basis, m, d = case["basis"], case["m"], case["d"]
    x0, xf = complex(*case["x0"]), complex(*case["xf"])
    n = 4
    elm = basis in ref.ELM
    if basis in ref.HALF:
        x = _cx(case["s"], n, 1.5)
    else:
        z0, zf = ref.z_domain(basis)
        mid, half = (z0 + zf) / 2, (zf - z0) / 2
        z = mid + half * _cx(case["s"], n, 0.9 if elm else 1.2)
        x = (z - z0) * (xf - x0) / (zf - z0) + x0
    kw = {}
    if elm:
        kw = {"w": _cx(case["s"] + 5, m, 0.6), "b": _cx(case["s"] + 9, m, 0.4)}
    nC = np.array(sorted(gen.removed(case["nC"])), dtype=np.int32)
    obj = getattr(BF_Py, basis)(x0, xf, nC, m)
    if elm:
        obj.w, obj.b = kw["w"], kw["b"]
    v, s = ref.uni_H(basis, x, x0, xf, m, d, **kw)
    tol = 1e-10 if elm else ref.RTOL
    for full in (True, False):
        keep = [k for k in range(m) if full or k not in nC]
        ref.compare(obj.H(x, d, full), v[:, keep], s[:, keep], f"{basis} d={d} at complex points", tol)
    if basis not in ref.HALF:
        t = utfc(5, case["nC"], m - 1, basis=basis, x0=x0, xf=xf, backend="Python")
        if elm:
            t.basisClass.w, t.basisClass.b = kw["w"], kw["b"]
        v, s = ref.uni_H(basis, x, x0, xf, m, 1, **kw)
        keep = [k for k in range(m) if k not in nC]
        ref.compare(t.dH(x), v[:, keep], s[:, keep], f"{basis} through the univariate class", tol)
    return x0.imag != 0 or xf.imag != 0


@st.composite
def complex_cases(draw):
    basis = draw(st.sampled_from(ref.POLY + ref.POLY + ref.HALF + ["ELMTanh", "ELMSigmoid", "ELMSin", "ELMSwish"]))
    m = draw(st.integers(2, 14)) if basis not in ref.ELM else 4
    return {
        "basis": basis,
        "m": m,
        "nC": draw(gen.remove_spec(m)),
        "x0": [draw(gen.floats(-3, 3)), draw(gen.floats(-3, 3))],
        "xf": [draw(gen.floats(4, 8)), draw(st.just(0.0) | gen.floats(-3, 3))],
        "s": draw(gen.seeds()),
        "d": draw(st.integers(0, 6 if basis not in ref.ELM else 2)),
    }


SUBS = [
    Sub("univariate", check_uni, uni_cases, quick=2000, thorough=9000, shards=3,
        rule="same basis, domain, points, removed functions and order on both backends. Non-trivial: order > 0."),
    Sub("multivariate", check_multi, multi_cases, quick=2000, thorough=8000, shards=3,
        rule="the same in 1-5 dimensions. Non-trivial: 2 or more dimensions."),
    Sub("complex", check_complex, complex_cases, quick=1600, thorough=6000, shards=2,
        rule="Python backend on a complex domain and complex points against the analytic continuation. Non-trivial: an end "
        "of the domain is not real."),
]  # fmt: skip
