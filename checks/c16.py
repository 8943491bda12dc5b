"""C16: partial evaluation gives the original function with the constant arguments filled in, and does not call it again."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Functions are JAX-traceable in the remaining arguments, which are called with the shapes first given; constant "
    "arguments are given by non-negative position. Basis matrices of the Python backend may depend on constants only.",
]


def make_args(case):
    """Arguments of several kinds, and others of the same shape."""
    import jax.numpy as jnp
    from tfc.utils import TFCDict, TFCDictRobust

    def one(kind, seed):
        v = gen.arr(seed, case["n"], 0.05, 0.95)
        if kind == "array":
            return jnp.array(v)
        if kind == "numpy":
            return np.array(v)
        if kind == "scalar":
            return jnp.array(v[0])
        if kind == "matrix":
            return jnp.array(gen.arr(seed, (case["n"], 2)))
        if kind == "tuple":
            return (jnp.array(v), jnp.array(v[::-1]) * 2)
        if kind == "dict":
            return {"q": jnp.array(v) * 3, "p": jnp.array(v)}
        if kind == "TFCDict":
            return TFCDict({"y": jnp.array(v), "a": jnp.array(v[:1])})
        return TFCDictRobust({"y": jnp.array(gen.arr(seed, (case["n"], 2))), "a": jnp.array(v)})

    return (
        [one(k, case["s"] + 10 * i) for i, k in enumerate(case["kinds"])],
        [one(k, case["s"] + 10 * i + 5) for i, k in enumerate(case["kinds"])],
    )


def reduce(kind, a, n, jnp):
    """One vector of length n from the argument, sensitive to each of its leaves."""
    if kind in ("array", "numpy"):
        return a
    if kind == "scalar":
        return a * jnp.ones(n)
    if kind == "matrix":
        return a[:, 0] - 2.0 * a[:, 1]
    if kind == "tuple":
        return a[0] + 3.0 * a[1] * a[0]
    if kind == "dict":
        return a["q"] - a["p"] ** 2
    if kind == "TFCDict":
        return a["y"] * a["a"][0]
    return a["y"][:, 0] * a["a"] - a["y"][:, 1]


def leaves(out):
    import jax

    return [np.asarray(v) for v in jax.tree_util.tree_leaves(out)]


def check(case):
    import jax
    import jax.numpy as jnp
    from tfc import mtfc, utfc
    from tfc.utils import pejit
    from tfc.utils.TFCUtils import pe

    n, kinds, const = case["n"], case["kinds"], case["const"]
    args, other = make_args(case)
    calls = [0]
    basis = None
    if case["basis"]:
        t = utfc(4, 1, 4, basis=case["basis"], x0=0.0, xf=1.0, backend=case["backend"])
        basis = lambda v: t.H(v) + 0.5 * t.dH(v)
    # a basis matrix of the Python backend needs a constant array
    hosts = [k for k, kind in enumerate(kinds) if kind in ("array", "numpy") and (k in const or case["backend"] == "C++")]
    host = hosts[0] if hosts and basis else None

    def f(*a):
        calls[0] += 1
        v = [reduce(k, q, n, jnp) for k, q in zip(kinds, a)]
        s = 0.0
        for k, q in enumerate(v):
            s = s + (k + 1.0) * jnp.sin(q)
        p = 1.0
        for q in v:
            p = p * (1.0 + 0.3 * q)
        if host is not None:
            B = basis(a[host])
            p = p + B @ jnp.arange(1.0, B.shape[1] + 1)
        only = [v[k] for k in const]
        c = sum(only[1:], only[0]) * 2.0 if only else jnp.ones(n)
        style = case["out"]
        if style == "array":
            return s + p
        if style == "tuple":
            return s, c, p
        if style == "dict":
            return {"z": p, "c": c, "a": s * c}
        return (c, {"inner": [s, 7.0 * p]}, a[const[0]] if const else s)

    rest = [k for k in range(len(kinds)) if k not in const]
    exp_same = f(*args)
    mixed = [args[k] if k in const else other[k] for k in range(len(kinds))]
    exp_other = f(*mixed)
    dec = (pejit if case["jit"] else pe)(*args, constant_arg_nums=list(const))
    h = dec(f)
    if const and not case["jit"]:
        calls[0] = 0
    got_same = h(*[args[k] for k in rest])
    if const:
        calls[0] = 0
    got_other = h(*[other[k] for k in rest])
    got_same2 = h(*[args[k] for k in rest])
    for got, exp, what in ((got_same, exp_same, "same arguments"), (got_other, exp_other, "other arguments"), (got_same2, exp_same, "again")):
        if jax.tree_util.tree_structure(got) != jax.tree_util.tree_structure(exp):
            fail(f"{what}: structure {jax.tree_util.tree_structure(got)}, expected {jax.tree_util.tree_structure(exp)}")
        for k, (a, b) in enumerate(zip(leaves(got), leaves(exp))):
            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-10, atol=1e-10):
                fail(f"{what}: output {k}", got=a.tolist(), expected=b.tolist())
    if const and calls[0]:
        fail("the original function was called again", times=calls[0])
    # the same function again with other constants, and the first once more
    if const:
        h2 = (pejit if case["jit"] else pe)(*other, constant_arg_nums=list(const))(f)
        exp2 = f(*[other[k] if k in const else args[k] for k in range(len(kinds))])
        for g, exp, what in ((h2, exp2, "other constants"), (h, exp_same, "after other constants")):
            for k, (a, b) in enumerate(zip(leaves(g(*[args[q] for q in rest])), leaves(exp), strict=True)):
                if a.shape != b.shape or not np.allclose(a, b, rtol=1e-10, atol=1e-10):
                    fail(f"{what}: output {k}", got=a.tolist(), expected=b.tolist())
    # derivative with respect to a remaining array
    for j, k in enumerate(rest):
        if kinds[k] == "array" and case["out"] == "array" and not (host == k and case["backend"] == "Python"):
            J = jax.jacfwd(h, j)(*[other[q] for q in rest])
            E = jax.jacfwd(f, k)(*mixed)
            if not np.allclose(J, E, rtol=1e-9, atol=1e-9):
                fail(f"Jacobian in argument {k}", got=np.asarray(J).tolist(), expected=np.asarray(E).tolist())
            break
    return 0 < len(const) < len(kinds)


@st.composite
def cases(draw):
    kinds = draw(gen.lists(st.sampled_from(["array", "array", "numpy", "scalar", "matrix", "tuple", "dict", "TFCDict", "TFCDictRobust"]), 1, 4))
    const = list(draw(st.permutations(range(len(kinds)))))[: draw(st.integers(0, max(1, len(kinds) - 1)))]
    if len(const) == len(kinds):
        const = const[:-1]
    return {
        "kinds": kinds,
        "const": const,
        "n": draw(st.integers(1, 4)),
        "s": draw(gen.seeds()),
        "out": draw(st.sampled_from(["array", "array", "tuple", "dict", "nested"])),
        "jit": draw(st.booleans()),
        "basis": draw(st.sampled_from([None, "CP", "LeP", "FS", "ELMTanh"])),
        "backend": draw(st.sampled_from(gen.BACKENDS)),
    }


SUBS = [
    Sub(
        "functions", check, cases, quick=1680, thorough=12000, shards=8,
        rule="functions of 1-4 array, scalar or nested arguments and nested outputs, some of which depend on constants only, with "
        "basis matrices of either backend, any arguments constant in any order; compared with the original, with new "
        "arguments, and in derivative. Non-trivial: some but not all arguments constant.",
    ),
]  # fmt: skip
