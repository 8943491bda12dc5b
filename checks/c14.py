"""C14: nonlinear least squares."""

import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from vlib import gen, lsq
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Model: Gauss-Newton in numpy with the same stopping rule (continue while max|res| > tol, max|step| > tol and fewer than "
    "maxIter iterations were made; the first step is always considered large, so tol < 1). Iteration counts are compared "
    "when no decision of the model lies within a factor 3 of the tolerance; tolerances below 1e-10, where rounding "
    "decides, are only checked for the bound on iterations and for the residual.",
    "Residuals are mildly nonlinear with well-conditioned Jacobians, so the model's iterates are reproducible to 1e-7; or as "
    "many as unknowns, with columns that differ in size by up to 1e6 (1e-5).",
]


def res_np(v, A, b, c):
    return A @ v + c * np.sin(A @ v) - b


def jac_np(v, A, b, c):
    return (1 + c * np.cos(A @ v))[:, None] * A


def model(v, data, tol, maxIter, jac=None, stop=None, step=None):
    """Iterates as a list, and whether some decision was too close to call."""
    A, b, c = data
    its = [v]
    d = np.ones(1)
    close = False
    while True:
        k = len(its) - 1
        if stop is not None:
            if not stop(its[-1], k):
                break
        else:
            r = np.max(np.abs(res_np(its[-1], *data)))
            s = np.max(np.abs(d))
            close |= tol / 3 < r < 3 * tol or (k > 0 and tol / 3 < s < 3 * tol)
            if not (r > tol and k < maxIter and s > tol):
                break
        if step is not None:
            its.append(step(its[-1]))
            continue
        J = (jac or jac_np)(its[-1], *data)
        d = np.linalg.pinv(J) @ res_np(its[-1], *data)
        its.append(its[-1] - d)
        if not np.all(np.isfinite(its[-1])) or np.max(np.abs(its[-1])) > 1e3 or len(its) > 60:
            return its, True
    return its, close


def check(case):
    import jax
    import jax.numpy as jnp
    from tfc.utils import NLLS, NllsClass

    u = case["u"]
    n = lsq.size(u)
    rows = n + case["extra"]
    holo = case["holo"]
    dt = complex if holo else float
    np_ = np if case["numpy"] else jnp
    order = case["order"]
    tol, maxIter = case["tol"], case["maxIter"]
    prec = 1e-5 if case["spread"] else 1e-7

    def get(args):
        b = args[order.index(1)]
        return args[order.index(0)], (b["b"] if isinstance(b, dict) else b), args[order.index(2)]

    def res(xi, *args):
        A, b, c = get(args)
        v = lsq.flat(u, xi)
        return A @ v + c * jnp.sin(A @ v) - b

    # A Jacobian of the user's, deliberately not the true one
    def J(xi, *args):
        A, b, c = get(args)
        return (1.3 + 0 * c) * A

    jac = (lambda v, A, b, c: 1.3 * A) if case["J"] else None

    def data_of(run):
        A = lsq.well_conditioned(case["s"] + 10 * run, rows, n, holo) * 0.6
        r = np.random.RandomState((case["s"] + 5 + run) % 2**32)
        A = A * 10.0 ** -r.permutation(np.linspace(0, case["spread"], n))
        goal = (r.uniform(-1, 1, n) * 0.7).astype(dt)
        c = float(r.uniform(0.05, 0.35))
        noise = 0.02 * r.normal(size=rows) * (rows > n) * case["noise"]
        return A, A @ goal + c * np.sin(A @ goal) + noise, c

    def arguments(data):
        A, b, c = data
        vals = [jnp.array(A), {"b": jnp.array(b)} if case["tree"] else jnp.array(b), jnp.array(c)]
        return [vals[k] for k in order]

    kw = {"method": case["method"], "holomorphic": holo, "tol": tol, "maxIter": maxIter}
    if case["J"]:
        kw["J"] = J
    const = case["const"]
    if const:
        kw["constant_arg_nums"] = list(const)
    if case["timer"]:
        kw.update(timer=True, timerType=case["timer"])
    stop = step = None
    if case["cond"]:
        lim = case["lim"]
        kw["cond"] = lambda val: val["it"] < lim
        stop = lambda v, k: k < lim
    if case["body"]:

        def body(val):
            val["xi"] = jax.tree_util.tree_map(lambda a: 0.5 * a, val["xi"])
            val["it"] += 1
            return val

        kw["body"] = body
        step = lambda v: 0.5 * v
        if stop is None:
            stop = lambda v, k: k < maxIter and np.max(np.abs(res_np(v, *cur[0]))) > tol
    cur = [None]
    printing = case["print"] and not case["timer"] and not case["body"]
    if printing:
        kw.update(printOut=True, printOutEnd=case["end"])

    def judge(call, z, zv, data, what):
        cur[0] = data
        its, close = model(zv, data, tol, maxIter, jac, stop, step)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            out = call()
            jax.effects_barrier()
        if case["timer"]:
            if not (isinstance(out, tuple) and len(out) == 3):
                fail(f"{what}: with the timer, three values were expected")
            if not (np.isscalar(out[2]) and out[2] >= 0):
                fail(f"{what}: time {out[2]!r}")
            out = out[:2]
        if not (isinstance(out, tuple) and len(out) == 2):
            fail(f"{what}: a pair was expected")
        got = lsq.unpack(u, out[0], what)
        it = int(out[1])
        if not np.array_equal(lsq.unpack(u, z, "the initial guess"), zv):
            fail(f"{what}: the initial guess given was changed")
        if stop is None and not 0 <= it <= maxIter:
            fail(f"{what}: {it} iterations, at most {maxIter} allowed")
        if len(its) > 60 or (close and np.max(np.abs(its[-1])) > 1e2):
            return 0
        if not close and tol >= 1e-10 or stop is not None:
            if it != len(its) - 1:
                fail(f"{what}: {it} iterations, expected {len(its) - 1}", tol=tol)
            exp = its[-1]
            if not np.allclose(got, exp, rtol=prec, atol=prec):
                fail(what, got=got.tolist(), expected=exp.tolist(), iterations=it)
            if it == 0 and not np.array_equal(got, zv):
                fail(f"{what}: no iteration was made, but the unknowns changed")
        elif it < len(its):
            if not np.allclose(got, its[it], rtol=prec, atol=prec):
                fail(what, got=got.tolist(), expected=its[it].tolist(), iterations=it)
        if printing:
            sep = case["end"]
            lines = [s for s in buf.getvalue().split(sep) if "Iteration" in s]
            if len(lines) != it:
                fail(f"{what}: {len(lines)} lines printed for {it} iterations")
            for s in lines:
                m = re.search(r"Iteration: (\d+)\s+max\(abs\(res\)\): (\S+)", s)
                k, v = int(m.group(1)), float(m.group(2))
                if k + 1 < len(its):
                    e = np.max(np.abs(res_np(its[k + 1], *data)))
                    if abs(v - e) > 1e-6 * (1 + e):
                        fail(f"{what}: printed residual {v!r} of iteration {k}, expected {e!r}")
            if sorted(int(re.search(r"Iteration: (\d+)", s).group(1)) for s in lines) != list(range(it)):
                fail(f"{what}: iterations printed: {lines}")
        elif "Iteration" in buf.getvalue():
            fail(f"{what}: printed without being asked to")
        return it

    total = 0
    if case["api"] == "NLLS":
        data = data_of(0)
        zv = (gen.arr(case["s"] + 3, n) * case["amp"]).astype(dt)
        z = lsq.pack(u, zv, np_)
        args = arguments(data)
        total = judge(lambda: NLLS(z, res, *args, **kw), z, zv, data, "NLLS")
    else:
        data = data_of(0)
        z = lsq.pack(u, np.zeros(n, dtype=dt), np_)
        solver = NllsClass(z, res, *arguments(data), **kw)
        for run in case["runs"]:
            fresh = data_of(run)
            dd = list(fresh)
            for k in const:
                dd[order[k - 1]] = data[order[k - 1]]
            if holo and len({0, 1, 2} & {order[k - 1] for k in const}) and run:
                continue
            use = [a for k, a in enumerate(arguments(fresh)) if k + 1 not in const]
            zv = (gen.arr(case["s"] + 3 + run, n) * case["amp"]).astype(dt)
            z = lsq.pack(u, zv, np_)
            total += judge(lambda: solver.run(z, *use), z, zv, tuple(dd), f"run {run} of NllsClass")
    return total > 1 and n > 1


@st.composite
def cases(draw):
    spread = draw(st.sampled_from([0, 0, 0, 0, 3, 6]))
    return {
        "u": draw(lsq.unknowns(4)),
        "spread": spread,
        "extra": 0 if spread else draw(st.integers(0, 3)),
        "s": draw(gen.seeds()),
        "noise": draw(st.sampled_from([0, 0, 1])),
        "amp": draw(st.sampled_from([0.0, 0.3, 0.8])),
        "holo": draw(st.integers(0, 5)) == 0,
        "tree": draw(st.integers(0, 3)) == 0,
        "numpy": draw(st.booleans()),
        "order": list(draw(st.permutations([0, 1, 2]))),
        "method": draw(st.sampled_from(["pinv", "lstsq"])),
        "J": draw(st.sampled_from([False, False, True])),
        "const": list(draw(st.permutations([1, 2, 3])))[: draw(st.sampled_from([0, 0, 1, 2, 3]))],
        "timer": draw(st.sampled_from([None, None, None, "process_time", "perf_counter"])),
        "api": draw(st.sampled_from(["NLLS", "NllsClass"])),
        "runs": draw(gen.lists(st.integers(0, 4), 1, 3)),
        "tol": draw(st.sampled_from([1e-13, 1e-10, 1e-8, 1e-5, 1e-3, 0.3])),
        "maxIter": draw(st.sampled_from([0, 1, 2, 3, 5, 20, 50])),
        "cond": draw(st.integers(0, 4)) == 0,
        "lim": draw(st.integers(0, 6)),
        "body": draw(st.integers(0, 6)) == 0,
        "print": draw(st.integers(0, 2)) == 0,
        "end": draw(st.sampled_from(["\n", "; ", "\r\n"])),
    }


SUBS = [
    Sub(
        "nonlinear least squares", check, cases, quick=960, thorough=9000, shards=8,
        rule="mildly nonlinear residuals with array, dictionary and nested-shape unknowns, both methods, own or given (inexact) "
        "Jacobian, any tolerance and iteration limit, user's condition and body, constant arguments in any order, timed, "
        "printed, complex, repeated runs. Non-trivial: several unknowns and more than one iteration.",
    ),
]  # fmt: skip
