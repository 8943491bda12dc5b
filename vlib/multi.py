"""Cases and evaluation of the multivariate class, shared by several checks."""

import numpy as np
from hypothesis import strategies as st

from . import gen, ref

MAXM = {1: 14, 2: 11, 3: 7, 4: 5, 5: 4, 6: 3, 7: 3}
METHODS = {
    "H": (0, 0, 0), "Hx": (1, 0, 0), "Hy": (0, 1, 0), "Hxy": (1, 1, 0), "Hx2": (2, 0, 0), "Hy2": (0, 2, 0),
    "Hx2y": (2, 1, 0), "Hz": (0, 0, 1),
}  # fmt: skip


def orders(name, dim):
    """The order of each variable for a method of the class, or None when it needs more dimensions."""
    o = METHODS[name]
    if any(k and j >= dim for j, k in enumerate(o)):
        return None
    return tuple(o[:dim]) + (0,) * (dim - 3)


@st.composite
def dim_remove(draw, m):
    """One dimension's entry: -1 or 0 (none), an int, or a list of distinct indices."""
    top = min(m - 1, 4)
    return draw(
        st.one_of(
            st.integers(1, max(1, top)),
            gen.lists(st.integers(0, m - 1), 1, max(1, top), unique=True),
            st.integers(1, max(1, top)),
            st.sampled_from([-1, 0]),
        )
    )


def removed(spec):
    """Per dimension, the set of indices removed."""
    return [set(range(max(s, 0))) if isinstance(s, int) else {k for k in s if k >= 0} for s in spec]


@st.composite
def poly_case(draw, dims=(1, 2, 3, 4, 5, 2, 3, 6, 7), backends=tuple(gen.BACKENDS)):
    dim = draw(st.sampled_from(dims))
    m = draw(st.integers(2, MAXM[dim]))
    return {
        "basis": draw(st.sampled_from(ref.POLY)),
        "backend": draw(st.sampled_from(backends)),
        "dim": dim,
        "m": m,
        "n": draw(st.lists(st.integers(2, 5 if dim < 4 else 3), min_size=dim, max_size=dim)),
        "nC": [draw(dim_remove(m)) for _ in range(dim)],
        "dom": [draw(gen.domain()) for _ in range(dim)],
        "np": draw(st.sampled_from([1, 2, 3, 5, 8, 40, 300])),
        "xs": draw(gen.seeds()),
        "d": [draw(st.sampled_from([0, 0, 1, 1, 2, 3, 5, 8])) for _ in range(dim)],
        "pad": draw(st.none() | st.none() | gen.seeds()),
    }


@st.composite
def elm_case(draw, dims=(1, 2, 3, 4), backends=tuple(gen.BACKENDS), maxm=20, maxd=8):
    dim = draw(st.sampled_from(dims))
    m = draw(st.integers(2, maxm))
    if maxm > 15 and draw(st.integers(0, 5)) == 0:
        m = draw(st.integers(maxm, 4 * maxm))
    d = []
    left = maxd
    for _ in range(dim):
        d.append(draw(st.integers(0, min(left, 4 if dim > 1 else left))))
        left -= d[-1]
    return {
        "basis": draw(st.sampled_from(ref.ELM)),
        "backend": draw(st.sampled_from(backends)),
        "dim": dim,
        "m": m,
        "n": draw(st.lists(st.integers(2, 5 if dim < 4 else 3), min_size=dim, max_size=dim)),
        "nC": draw(gen.remove_spec(m)),
        "dom": [draw(gen.domain()) for _ in range(dim)],
        "np": draw(st.sampled_from([1, 2, 3, 5, 8, 40, 300])),
        "xs": draw(gen.seeds()),
        "ws": draw(gen.seeds()),
        "amp": draw(st.sampled_from([0.3, 1.0, 3.0, 30.0, 1000.0])),
        "d": draw(st.permutations(d)),
    }


def points(case):
    """dim x np points in the domain, some of them on its boundary."""
    t = gen.arr(case["xs"], (case["dim"], case["np"]), 0.0, 1.0)
    r = gen.arr(case["xs"] + 1, (case["dim"], case["np"]), 0.0, 1.0)
    t = np.where(r < 0.1, 0.0, np.where(r > 0.9, 1.0, t))
    dom = np.array(case["dom"], dtype=float)
    return dom[:, :1] + t * (dom[:, 1:] - dom[:, :1])


def ends(case):
    dom = np.array(case["dom"], dtype=float)
    return dom[:, 0], dom[:, 1]


def padded(rows, seed):
    """The sets as rows of equal length, in any order, filled up with -1 in any place; None when all are empty."""
    r = np.random.RandomState(seed % 2**32)
    width = max(len(row) for row in rows)
    full = [list(row) + [-1] * (width - len(row)) for row in rows]
    return [[int(row[k]) for k in r.permutation(width)] for row in full] if width else None


def make(case, **kw):
    from tfc import mtfc

    x0, xf = ends(case)
    nC = case["nC"]
    if case.get("pad") is not None and case["basis"] not in ref.ELM:
        full = padded(removed(nC), case["pad"])
        nC = nC if full is None else full if case["pad"] % 2 else np.array(full, dtype=np.int32)
    t = mtfc(
        case["n"], nC, case["m"] - 1, dim=case["dim"], basis=case["basis"], x0=x0.tolist(), xf=xf.tolist(),
        backend=case["backend"], **kw,
    )  # fmt: skip
    if case["basis"] in ref.ELM:
        t.basisClass.w, t.basisClass.b = weights(case)
    return t


def weights(case):
    a = case["amp"]
    return gen.arr(case["ws"], (case["dim"], case["m"]), -a, a), gen.arr(case["ws"] + 1, case["m"], -a, a)


def gone(case):
    return gen.removed(case["nC"]) if case["basis"] in ref.ELM else removed(case["nC"])


def matrix(case, x, d, full):
    x0, xf = ends(case)
    kw = {}
    if case["basis"] in ref.ELM:
        kw["w"], kw["b"] = weights(case)
    return ref.multi_H(case["basis"], x, x0, xf, case["m"], d, None if full else gone(case), **kw)


def near_kink(case, x):
    if case["basis"] != "ELMReLU":
        return False
    x0, xf = ends(case)
    w, b = weights(case)
    z = (x - x0[:, None]) / (xf - x0)[:, None]
    return bool(np.any(np.abs(z.T @ w + b[None, :]) < 1e-9))


def rtol(case):
    return 1e-11 if case["basis"] in ref.ELM else ref.RTOL


def check_matrices(case, xkind="numpy"):
    """The multivariate class against the reference; True when the case is not trivial."""
    x = points(case)
    if near_kink(case, x):
        return False
    t = make(case)
    tol = rtol(case)
    from .runner import fail

    v, _ = matrix(case, x, (0,) * case["dim"], True)
    if t.basisClass.numBasisFuncFull != v.shape[1]:
        fail("number of functions before removal", got=t.basisClass.numBasisFuncFull, expected=v.shape[1])
    v, _ = matrix(case, x, (0,) * case["dim"], False)
    if t.basisClass.numBasisFunc != v.shape[1]:
        fail("number of functions", got=t.basisClass.numBasisFunc, expected=v.shape[1])
    what = f"{case['backend']} {case['basis']} dim={case['dim']}"
    d = tuple(case["d"])
    xs = [gen.as_kind(r, xkind) for r in x]
    for full in (False, True):
        v, s = matrix(case, x, d, full)
        ref.compare(t.basisClass.H(np.array(x), np.array(d, dtype=np.int32), full), v, s, f"{what} d={d} full={full}", tol)
        for name in METHODS:
            o = orders(name, case["dim"])
            if o is None or (case["basis"] in ref.ELM and case["backend"] == "Python" and sum(o) > 1):
                continue
            v, s = matrix(case, x, o, full)
            ref.compare(getattr(t, name)(*xs, full=full), v, s, f"{what} {name} full={full}", tol)
    return case["dim"] > 1 and sum(d) > 0
