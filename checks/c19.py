"""C19: a hybrid of several univariate bases is their matrices side by side."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.runner import Sub, fail

ASSUMPTIONS = ["Reference matrices are those of C01 and C02; all parts share the number of points, not the domain. Orders up to eight, the highest the ELM bases support."]
ORDERS = {"H": 0, "dH": 1, "d2H": 2, "d3H": 3, "d4H": 4, "d8H": 8}


def check(case):
    import jax
    import jax.numpy as jnp
    from tfc import HybridUtfc, utfc
    from tfc.utils import egrad

    parts, mats = [], []
    x = np.asarray(case["x"], dtype=float)
    for q in case["parts"]:
        t = utfc(case["N"], q["nC"], q["m"] - 1, basis=q["basis"], x0=q["dom"][0], xf=q["dom"][1], backend=q["backend"])
        w = b = None
        if q["basis"] in ref.ELM:
            w, b = gen.arr(q["ws"], q["m"]), gen.arr(q["ws"] + 1, q["m"])
            t.basisClass.w, t.basisClass.b = w, b
        parts.append(t)
        mats.append((q, w, b))
        if q["basis"] == "ELMReLU":
            z = (x - q["dom"][0]) / (q["dom"][1] - q["dom"][0])
            if np.any(np.abs(np.outer(z, w) + b) < 1e-9):
                return False

    def R(d, full):
        vs, ss = [], []
        for q, w, b in mats:
            v, s = ref.uni_H(q["basis"], x, q["dom"][0], q["dom"][1], q["m"], d, w, b)
            keep = [k for k in range(q["m"]) if full or k not in gen.removed(q["nC"])]
            vs.append(v[:, keep])
            ss.append(s[:, keep])
        return np.hstack(vs), np.hstack(ss)

    h = HybridUtfc(parts)
    cpp = all(q["backend"] == "C++" for q in case["parts"])
    slow = any(q["backend"] == "Python" and q["basis"] in ref.ELM for q in case["parts"])
    names = [n for n in ORDERS if not slow or ORDERS[n] <= 2]
    for name in names:
        for full in (False, True):
            v, s = R(ORDERS[name], full)
            ref.compare(getattr(h, name)(x, full=full), v, s, f"{name} full={full}")
        v, s = R(ORDERS[name], False)
        ref.compare(getattr(h, name)(jnp.array(x)), v, s, name)
    name = names[case["pick"] % len(names)]
    if ORDERS[name] < (2 if slow else 8):
        v, s = R(ORDERS[name] + 1, False)
        ref.compare(egrad(lambda q: getattr(h, name)(q))(jnp.array(x)), v, s, f"derivative of {name}")
    if cpp:
        v, s = R(ORDERS[name], True)
        ref.compare(jax.jit(lambda q: getattr(h, name)(q, full=True))(jnp.array(x)), v, s, f"jit {name}")
        v, s = R(ORDERS[name], False)
        ref.compare(jax.jit(lambda q: getattr(h, name)(q))(jnp.array(x)), v, s, f"jit {name}")
    return len(parts) > 1


@st.composite
def cases(draw):
    def part():
        basis = draw(st.sampled_from(ref.POLY + ref.ELM))
        m = draw(st.integers(2, 9))
        x0 = draw(st.sampled_from([0.0, -1.0, -0.5]))
        return {
            "basis": basis, "m": m, "nC": draw(gen.remove_spec(m)), "dom": [x0, draw(st.sampled_from([1.0, 2.0, 1.5]))],
            "ws": draw(gen.seeds()), "backend": draw(st.sampled_from(["C++", "C++", "C++", "Python"])),
        }  # fmt: skip

    return {
        "N": draw(st.integers(2, 9)),
        "parts": [part() for _ in range(draw(st.integers(1, 3)))],
        "x": draw(gen.lists(st.floats(0, 1).map(lambda v: round(v, 5)), 1, 5)),
        "pick": draw(st.integers(0, 5)),
    }


SUBS = [
    Sub("hybrid", check, cases, quick=1280, thorough=7000, shards=6,
        rule="1-3 bases of any kind, domain, size, removal and backend; all six methods with and without removal, derivative and "
        "compiled. Non-trivial: at least two bases."),
]  # fmt: skip
