"""C04: multivariate random-feature (ELM) bases."""

import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen, multi, ref
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Reference as in C02, chain rule per dimension; total order 0-8 on the C++ backend, 0-3 on the Python backend.",
    "ReLU is not judged within 1e-9 of its kink.",
]


def check(case):
    x = multi.points(case)
    if multi.near_kink(case, x):
        return False
    t0 = multi.make(dict(case, nC=0))
    fresh = __import__("tfc").mtfc(
        case["n"], case["nC"], case["m"] - 1, dim=case["dim"], basis=case["basis"],
        x0=multi.ends(case)[0].tolist(), xf=multi.ends(case)[1].tolist(), backend=case["backend"],
    ).basisClass  # fmt: skip
    w0, b0 = np.array(fresh.w), np.array(fresh.b)
    if w0.shape != (case["dim"], case["m"]) or b0.size != case["m"]:
        fail("shape of the initial weights and biases", w=w0.shape, b=b0.shape)
    if not (np.all(np.abs(w0) <= 1.0) and np.all(np.abs(b0) <= 1.0)):
        fail("initial weights and biases outside [-1, 1]")
    w, b = multi.weights(case)
    bc = t0.basisClass
    bc.w = gen.as_kind(w, case["kind"])
    bc.b = gen.as_kind(b, "numpy" if case["kind"] == "fortran" else case["kind"])
    if not np.array_equal(np.asarray(bc.w), w) or not np.array_equal(np.ravel(bc.b), b):
        fail("the weights or biases read back are not the ones set")
    d0 = (0,) * case["dim"]
    v, s = multi.matrix(dict(case, nC=0), x, d0, False)
    ref.compare(t0.H(*x), v, s, "weights given as another kind of array", 1e-11)
    return multi.check_matrices(case, case["xkind"])


@st.composite
def cases(draw, backend):
    if backend == "C++":
        c = draw(multi.elm_case(backends=("C++",)))
    else:
        c = draw(multi.elm_case(dims=(1, 2, 3), backends=("Python",), maxm=4, maxd=2))
        c["m"], c["np"] = 4, 3
        if isinstance(c["nC"], list):
            c["nC"] = [k for k in c["nC"] if k < 4][:3]
        else:
            c["nC"] = min(c["nC"], 3)
    c["kind"] = draw(st.sampled_from(["numpy", "jax", "strided", "fortran", "readonly"]))
    c["xkind"] = draw(st.sampled_from(["numpy", "jax", "strided"]))
    return c


def enum(backend, tier):
    for basis in ref.ELM:
        if backend == "C++":
            ds = [d for dim in (1, 2, 3) for d in itertools.product(range(9), repeat=dim) if sum(d) <= 8]
            if tier == "quick":
                ds = [d for d in ds if len(d) < 3 or sorted(d, reverse=True)[0] >= sum(d) - 1]
        else:
            ds = [(0,), (3,), (1, 2), (2, 0), (1, 1, 1)]
        for d in ds:
            yield {
                "basis": basis, "backend": backend, "dim": len(d), "m": 4, "n": [2] * len(d), "nC": [2],
                "dom": [[-0.5, 1.5 + k] for k in range(len(d))], "np": 3, "xs": 5, "ws": 9, "amp": 1.5, "d": list(d),
                "kind": "numpy", "xkind": "numpy",
            }  # fmt: skip


SUBS = [
    Sub(
        "compiled", check, lambda: cases("C++"), enum=lambda tier: enum("C++", tier), quick=3600, thorough=20000, shards=5,
        rule="activation, 1-4 dimensions, 2-20 features, removed features, weights through any kind of array, total order "
        "0-8, all derivative methods; every split of the order in 1 and 2 dimensions first. Non-trivial: 2 or more "
        "dimensions and order > 0.",
    ),
    Sub(
        "python", check, lambda: cases("Python"), enum=lambda tier: enum("Python", tier), quick=180, thorough=1000, shards=3,
        rule="the same on the Python backend, total order 0-3.",
    ),
]  # fmt: skip
