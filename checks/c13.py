"""C13: linear least squares."""

import time

import numpy as np
from hypothesis import strategies as st

from vlib import gen, lsq
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Residuals are affine in the unknowns with singular values between 0.5 and 6, or with exactly repeated columns (pinv "
    "only): the answer is then the minimum-norm least-squares solution from numpy, to 1e-8; or consistent equations whose "
    "columns differ in size by up to 1e7, to 1e-5.",
    "Constant arguments are numbered as documented: 0 is the unknowns, 1 the first further argument.",
]


def problem(case, run=0):
    """Matrix, right-hand side, scale of this run."""
    n = lsq.size(case["u"])
    rows = max(1, n + case["extra"])
    A = lsq.well_conditioned(case["s"] + 10 * run, rows, n, case["holo"])
    if case["repeat"] and n > 1:
        A[:, -1] = A[:, 0]
    r = np.random.RandomState((case["s"] + 77 + run) % 2**32)
    b = r.normal(size=rows) + (1j * r.normal(size=rows) if case["holo"] else 0)
    if case["spread"]:
        # columns of very different size; the equations can all be met
        A = A * 10.0 ** -r.permutation(np.linspace(0, case["spread"], n))
        b = A @ r.normal(size=n)
    return A, b, float(r.uniform(0.5, 2.0))


def solution(A, b, c, z):
    """Minimum-norm step from z."""
    return z + np.linalg.pinv(c * A) @ (b - c * A @ z)


def check(case):
    import jax.numpy as jnp
    from tfc.utils import LS, LsClass

    u = case["u"]
    n = lsq.size(u)
    holo = case["holo"]
    dt = complex if holo else float
    np_ = np if case["numpy"] else jnp
    order = case["order"]  # positions of A, b, c in the arguments

    def res(xi, *args):
        A, b, c = args[order.index(0)], args[order.index(1)], args[order.index(2)]
        if isinstance(b, dict):
            b = b["b"]
        return c * (A @ lsq.flat(u, xi)) - b

    def J(xi, *args):
        return args[order.index(2)] * args[order.index(0)] * case["Jfac"]

    def arguments(run):
        A, b, c = problem(case, run)
        vals = [jnp.array(A), {"b": jnp.array(b)} if case["tree"] else jnp.array(b), jnp.array(c)]
        return [vals[k] for k in order], (A, b, c)

    kw = {"method": case["method"], "holomorphic": holo}
    fac = 1.0
    if case["J"]:
        kw["J"] = J
        fac = case["Jfac"]
    const = case["const"]
    if const:
        kw["constant_arg_nums"] = list(const)
    if case["timer"]:
        kw.update(timer=True, timerType=case["timer"])

    def judge(out, data, z, what):
        A, b, c = data
        if case["timer"]:
            if not (isinstance(out, tuple) and len(out) == 2):
                fail(f"{what}: with the timer, a pair was expected")
            out, t = out
            if not (np.isscalar(t) and np.isreal(t) and t >= 0):
                fail(f"{what}: time {t!r}")
        got = lsq.unpack(u, out, what)
        exp = z + np.linalg.pinv(fac * c * A) @ (b - c * A @ z)
        tol = 1e-8 if not case["spread"] else 1e-5
        if not np.allclose(got, exp, rtol=tol, atol=tol):
            fail(what, got=got.tolist(), expected=exp.tolist())

    z0 = gen.arr(case["s"] + 3, n).astype(dt)
    if case["api"] == "LS":
        args, data = arguments(0)
        z = lsq.pack(u, z0, np_)
        out = LS(z, res, *args, **kw)
        judge(out, data, np.zeros(n), "LS")  # whatever is given stands for zeros
        if not np.array_equal(lsq.unpack(u, z, "the unknowns given"), z0):
            fail("LS changed the unknowns given to it")
        if args and len(args) != 3:
            fail("LS changed the arguments")
    else:
        args, data = arguments(0)
        zero = lsq.pack(u, np.zeros(n, dtype=dt), np_)
        solver = LsClass(zero, res, *args, **kw)
        for run in case["runs"]:
            fresh, fdata = arguments(run)
            use = [a for k, a in enumerate(fresh) if k + 1 not in const]
            # what is constant stays as it was
            mixed = [data[order[k]] if k + 1 in const else fdata[order[k]] for k in range(3)]
            dd = [None] * 3
            for k in range(3):
                dd[order[k]] = mixed[k]
            zv = np.zeros(n, dtype=dt) if run % 2 == 0 else gen.arr(case["s"] + run, n).astype(dt)
            z = lsq.pack(u, zv, np_)
            out = solver.run(z, *use)
            judge(out, dd, zv, f"run {run} of LsClass")
            if not np.array_equal(lsq.unpack(u, z, "the unknowns given"), zv):
                fail("LsClass.run changed the unknowns given to it")
    return n > 1 and case["extra"] != 0


@st.composite
def cases(draw):
    method = draw(st.sampled_from(["pinv", "lstsq"]))
    spread = draw(st.sampled_from([0, 0, 0, 3, 7]))
    return {
        "u": draw(lsq.unknowns()),
        "extra": draw(st.integers(0, 4) | st.integers(-2, 0)) if not spread else draw(st.integers(0, 4)),
        "s": draw(gen.seeds()),
        "repeat": method == "pinv" and not spread and draw(st.integers(0, 4)) == 0,
        "spread": spread,
        "holo": draw(st.integers(0, 4)) == 0,
        "tree": draw(st.integers(0, 3)) == 0,
        "numpy": draw(st.booleans()),
        "order": list(draw(st.permutations([0, 1, 2]))),
        "method": method,
        "J": draw(st.sampled_from([False, False, True])),
        "Jfac": draw(st.sampled_from([1.0, 2.0])),
        "const": list(draw(st.permutations([1, 2, 3])))[: draw(st.sampled_from([0, 0, 1, 2, 3]))],
        "timer": draw(st.sampled_from([None, None, "process_time", "perf_counter", "time"])),
        "api": draw(st.sampled_from(["LS", "LsClass"])),
        "runs": draw(gen.lists(st.integers(0, 4), 1, 4)),
    }


SUBS = [
    Sub(
        "least squares", check, cases, quick=1120, thorough=12000, shards=8,
        rule="affine residuals with array, dictionary and nested-shape unknowns in any key order, over- and under-determined, "
        "both methods, own or given Jacobian, any arguments constant in any order, timed or not, complex, repeated runs with "
        "new arguments. Non-trivial: several unknowns and not square.",
    ),
]  # fmt: skip
