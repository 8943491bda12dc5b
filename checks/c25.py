"""C25: configurations that contradict themselves are refused, and those that do not are accepted."""

import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import gen, multi, ref
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Refusing is raising an exception (SystemExit, which the library's own errors raise, included) or ending the process with an "
    "error. The wording of the error is not judged.",
]
BAD_BASES = ["", "cp", "CP ", "nCP", "HoPpro", "HoPphy", "LaP", "ELM", "ELMsin", "ELMRelu", "Fourier", "Chebyshev"]
BAD_BACKENDS = ["", "c++", "C", "python", "Py", "CPP", "Python "]
BAD_METHODS = ["", "PINV", "pinv ", "qr", "lstsqr", "lst", "svd", "none"]


def accepted(f, what, **detail):
    try:
        return f()
    except (Exception, SystemExit) as e:
        fail(f"{what} is valid but was refused", error=f"{type(e).__name__}: {e}"[:300], **detail)


def refused(f, what, **detail):
    try:
        f()
    except (Exception, SystemExit):
        return
    fail(f"{what} was accepted", **detail)


def vec(kind, v, dtype=None):
    if kind == "list":
        return list(v)
    if kind == "numpy":
        return np.array(v, dtype=dtype)
    import jax.numpy as jnp

    return jnp.array(v, dtype=dtype)


# ------------------------------------------------------------------------------------------------------ univariate


def check_uni(case):
    from tfc import utfc

    m = case["m"]
    good = dict(N=case["N"], nC=case["nC"], deg=m - 1, basis=case["basis"], x0=0.0, xf=1.5, backend=case["backend"])
    if not isinstance(good["nC"], int):
        good["nC"] = vec(case["kind"], good["nC"], np.int32)
    t = accepted(lambda: utfc(**good), "the configuration", case=str(good)[:300])
    left = m - len(gen.removed(case["nC"]))
    shape = np.shape(t.H(t.x))
    if shape != (case["N"], left):
        fail("the accepted configuration's matrix has the wrong shape", got=shape, expected=(case["N"], left))
    bad = dict(good)
    f, v = case["fault"], case["v"]
    if f == "basis":
        bad["basis"] = BAD_BASES[v % len(BAD_BASES)]
    elif f == "backend":
        bad["backend"] = BAD_BACKENDS[v % len(BAD_BACKENDS)]
    elif f == "int":
        bad["nC"] = m + v % 4
    elif f == "long":
        bad["nC"] = vec(case["kind"], list(range(m + v % 3)), np.int32)
    elif f == "negative":
        idx = list(gen.removed(case["nC"]))[: max(0, m - 2)]
        idx.insert(v % (len(idx) + 1), -1 - v % 3)
        bad["nC"] = vec(case["kind"], idx, np.int32)
    refused(lambda: utfc(**bad), f"utfc with fault '{f}'", args=str(bad)[:300])
    return True


@st.composite
def uni_case(draw):
    m = draw(st.integers(2, 9))
    return {
        "N": draw(st.integers(2, 12)), "m": m, "nC": draw(gen.remove_spec(m)), "basis": draw(st.sampled_from(ref.POLY + ref.ELM)),
        "backend": draw(st.sampled_from(gen.BACKENDS)), "kind": draw(st.sampled_from(["list", "numpy", "jax"])),
        "fault": draw(st.sampled_from(["basis", "backend", "int", "long", "negative"])), "v": draw(st.integers(0, 99)),
    }  # fmt: skip


# ---------------------------------------------------------------------------------------------------- multivariate


def check_multi(case):
    from tfc import mtfc

    m, dim, kind = case["m"], case["dim"], case["kind"]
    elm = case["basis"] in ref.ELM
    good = dict(
        n=vec(kind, [2 + k % 3 for k in range(dim)], np.int32), nC=case["nC"], deg=m - 1, dim=dim, basis=case["basis"],
        x0=vec(kind, [0.0] * dim), xf=vec(kind, [1.0 + k for k in range(dim)]), backend=case["backend"],
    )  # fmt: skip
    accepted(lambda: mtfc(**good), "the configuration", case=str(good)[:300])
    bad = dict(good)
    f, v = case["fault"], case["v"]
    if f == "basis":
        bad["basis"] = BAD_BASES[v % len(BAD_BASES)]
    elif f == "backend":
        bad["backend"] = BAD_BACKENDS[v % len(BAD_BACKENDS)]
    elif f in ("n", "x0", "xf"):
        size = max(0, dim + [1, -1, 2][v % 3])
        bad[f] = vec(kind, [2 + k for k in range(size)] if f == "n" else [float(k) for k in range(size)], np.int32 if f == "n" else None)
    elif f == "type":
        bad["nC"] = int(v % 3)
    elif f == "rows":
        size = dim + [1, -1, 2][v % 3]
        bad["nC"] = vec(kind, [[0, 1]] * size, np.int32) if v % 2 and kind == "jax" and size else [1] * max(0, size)
    elif f == "int":
        if elm:
            bad["nC"] = m + v % 4
        else:
            nC = [1] * dim
            nC[v % dim] = m + v % 4
            bad["nC"] = nC if v % 2 else vec(kind, nC, np.int32)
    elif f == "long":
        if elm:
            bad["nC"] = vec(kind, list(range(m + v % 3)), np.int32)
        else:
            nC = [[0]] * dim
            nC[v % dim] = list(range(m + v % 3))
            bad["nC"] = nC
    elif f == "negative":
        idx = list(gen.removed(case["nC"]))[: max(0, m - 2)]
        idx.insert(v % (len(idx) + 1), -1 - v % 3)
        bad["nC"] = vec(kind, idx, np.int32)
    refused(lambda: mtfc(**bad), f"mtfc with fault '{f}'", args=str(bad)[:400])
    return True


@st.composite
def multi_case(draw):
    m = draw(st.integers(2, 6))
    dim = draw(st.integers(1, 4))
    basis = draw(st.sampled_from(ref.POLY + ref.ELM))
    common = ["basis", "backend", "n", "x0", "xf", "int", "long"]
    if basis in ref.ELM:
        nC, fault = draw(gen.remove_spec(m)), draw(st.sampled_from(common + ["negative"]))
    else:
        nC, fault = [draw(st.integers(0, m - 1)) for _ in range(dim)], draw(st.sampled_from(common + ["type", "rows", "rows"]))
    return {
        "m": m, "dim": dim, "nC": nC, "basis": basis, "fault": fault, "v": draw(st.integers(0, 99)),
        "backend": draw(st.sampled_from(gen.BACKENDS)), "kind": draw(st.sampled_from(["list", "numpy", "jax"])),
    }  # fmt: skip


# --------------------------------------------------------------------------------------------------------- solvers


def check_solvers(case):
    import jax.numpy as jnp

    from tfc.utils import LS, NLLS, LsClass, NllsClass

    n = case["n"]
    A = jnp.array(np.eye(n) + 0.1 * gen.arr(case["s"], (n, n)))
    b = jnp.array(gen.arr(case["s"] + 1, n))
    res = lambda xi: jnp.dot(A, xi) - b
    z = jnp.zeros(n)
    kw = {"timer": case["timer"]} if case["timer"] else {}
    if case["which"].startswith("Nl") or case["which"] == "NLLS":
        kw["maxIter"] = 5
    bad = BAD_METHODS[case["v"] % len(BAD_METHODS)]
    call = {
        "LS": lambda meth: LS(z, res, method=meth, **kw),
        "NLLS": lambda meth: NLLS(z, res, method=meth, **kw),
        "LsClass": lambda meth: LsClass(z, res, method=meth, **kw).run(z),
        "NllsClass": lambda meth: NllsClass(z, res, method=meth, **kw).run(z),
    }[case["which"]]
    exp = np.linalg.solve(np.array(A), np.array(b))
    got = accepted(lambda: call(case["good"]), f"{case['which']} with method {case['good']}")
    got = got[0] if isinstance(got, tuple) else got
    if not np.allclose(got, exp, atol=1e-6):
        fail("the accepted method's solution is wrong", which=case["which"])
    refused(lambda: call(bad), f"{case['which']} with method {bad!r}")
    return True


def solver_case():
    return st.fixed_dictionaries({
        "which": st.sampled_from(["LS", "NLLS", "LsClass", "NllsClass"]), "good": st.sampled_from(["pinv", "lstsq"]), "n": st.integers(1, 4),
        "s": gen.seeds(), "v": st.integers(0, 99), "timer": st.booleans(),
    })  # fmt: skip


# ----------------------------------------------------------------------------------------------- everything else


def check_other(case):
    f, v, s = case["what"], case["v"], case["s"]
    if f == "graph":
        from tfc.utils import ComponentConstraintGraph

        nodes = [f"n{k}" for k in range(2 + v % 4)]
        r = np.random.default_rng(s)
        edges = []
        for k in range(1 + s % 4):
            a, b = r.choice(len(nodes), 2, replace=False)
            edges.append({"name": f"e{k}", "node0": nodes[a], "node1": nodes[b]})
        accepted(lambda: ComponentConstraintGraph(list(nodes), [dict(e) for e in edges]), "the graph")
        bad = [dict(e) for e in edges]
        bad[s % len(bad)][["node0", "node1"][v % 2]] = ["", "N0", "n99", "n"][v % 4]
        refused(lambda: ComponentConstraintGraph(list(nodes), bad), "an edge of an unknown node", nodes=nodes, edges=bad)
    elif f == "hybrid":
        from tfc import HybridUtfc, utfc

        r = np.random.default_rng(s)
        k = 2 + v % 2
        N = int(r.integers(2, 9))
        names = [(ref.POLY + ref.ELM)[int(r.integers(8))] for _ in range(k)]
        parts = [utfc(N, 1, 4, basis=b, x0=0.0, xf=1.0, backend=gen.BACKENDS[v % 2]) for b in names]
        accepted(lambda: HybridUtfc(list(parts)), "the hybrid")
        j = s % k
        parts[j] = utfc(N + 1 + v % 3, 1, 4, basis=names[j], x0=0.0, xf=1.0, backend=gen.BACKENDS[v % 2])
        refused(lambda: HybridUtfc(parts), "a hybrid of different numbers of points", N=[p.N for p in parts])
    elif f == "printer":
        import sympy as sp

        from tfc.utils import CeSolver

        x = sp.Symbol("x")
        g = sp.Function("g")
        ce = CeSolver([lambda u: u.subs(x, 0)], [0], [sp.Integer(1)], g(x))
        for good in ["tfc", "pretty", "latex", "str"]:

            def setit(p=good):
                ce.print_type = p

            accepted(setit, f"print type {good}")
            if ce.print_type != good:
                fail("the print type is not the one set", got=ce.print_type, expected=good)
        bad = ["", "TFC", "tex", "string", "repr", "Latex"][v % 6]

        def setbad():
            ce.print_type = bad

        refused(setbad, f"print type {bad!r}")
    elif f in ("matplotlib", "plotly"):
        bad = [5, 2.5, {"a": 1}, object(), {"x"}][v % 5]
        if f == "matplotlib":
            import matplotlib

            matplotlib.use("Agg")
            import matplotlib.pyplot as plt

            from tfc.utils import MakePlot as P
        else:
            from tfc.utils.PlotlyMakePlot import MakePlot as P
        which = ["xlabs", "ylabs", "zlabs", "titles", "twinYlabs"][s % (5 if f == "matplotlib" else 4)]

        def labels(which):
            kw = {"xlabs": "x", "ylabs": ("y",), which: "l"}
            return kw

        try:
            args = labels(which)
            accepted(lambda: P(args.pop("xlabs"), args.pop("ylabs"), **args), f"labels ({which})")
            args = labels(which)
            args[which] = bad
            refused(lambda: P(args.pop("xlabs"), args.pop("ylabs"), **args), f"{which}={bad!r}")
            if f == "plotly":
                flat = P("x", "y")
                refused(lambda: flat.view(10.0 * (v % 9), 5.0 * (s % 9)), "a view of a plane plot")
                p = P("x", "y", zlabs="z")
                accepted(lambda: p.view(10.0 * (v % 9), 5.0 * (s % 9)), "a view of a 3-D plot")
        finally:
            if f == "matplotlib":
                plt.close("all")
    return True


def other_case():
    return st.fixed_dictionaries({
        "what": st.sampled_from(["graph", "graph", "hybrid", "printer", "matplotlib", "plotly"]), "v": st.integers(0, 99), "s": gen.seeds(),
    })  # fmt: skip


# --------------------------------------------------------------------------------------------------------- weights


CHILD = r"""
import importlib.machinery, importlib.util, json, sys
import numpy as np
ext = sys.argv[1]
loader = importlib.machinery.ExtensionFileLoader("BF", ext)
spec = importlib.util.spec_from_file_location("BF", ext, loader=loader)
BF = importlib.util.module_from_spec(spec); loader.exec_module(BF)
c = json.loads(sys.argv[2])
m, dim = c["m"], c["dim"]
nC = np.array([0], dtype=np.int32)
o = getattr(BF, c["basis"])(0.0, 1.0, nC, m) if dim == 0 else getattr(BF, "n" + c["basis"])(np.zeros(dim), np.ones(dim), nC, m)
w, b = np.arange(m * max(dim, 1)) * 0.1, np.arange(m) * 0.2
o.w, o.b = w.reshape((dim, m)) if dim else w, b
assert np.array_equal(np.ravel(o.w), w) and np.array_equal(np.ravel(o.b), b)
print("READY", flush=True)
try:
    setattr(o, c["which"], np.zeros(c["shape"]))
except Exception as e:
    print("RAISED", flush=True)
    sys.exit(3)
print("SURVIVED", flush=True)
"""


def wrong_shape(case):
    m, dim = case["m"], case["dim"]
    exp = m * max(dim, 1) if case["which"] == "w" else m
    n = exp + case["off"]
    if n < 1 or n == exp:
        n = exp + 1
    if case["which"] == "w" and dim and n % m == 0:
        return [n // m, m]
    return [1, n] if case["which"] == "w" and dim else [n]


def check_weights(case):
    m, dim = case["m"], case["dim"]
    shape = wrong_shape(case)
    if case["backend"] == "Python":
        from tfc.utils import BF_Py

        nC = np.array([0], dtype=np.int32)
        o = getattr(BF_Py, case["basis"])(0.0, 1.0, nC, m) if dim == 0 else getattr(BF_Py, "n" + case["basis"])(np.zeros(dim), np.ones(dim), nC, m)
        w, b = gen.arr(7, (dim, m) if dim else m), gen.arr(8, m)

        def ok():
            o.w, o.b = w, b

        accepted(ok, "weights of the right size")
        refused(lambda: setattr(o, case["which"], np.zeros(shape)), "weights of the wrong size", m=m, dim=dim, shape=shape)
        if not (np.array_equal(np.ravel(o.w), np.ravel(w)) and np.array_equal(np.ravel(o.b), b)):
            fail("the refused weights changed the object")
        return True
    import tfc.utils.BF as BF

    ext = getattr(BF, "__file__", None)
    p = subprocess.run(
        [sys.executable, "-c", CHILD, ext, json.dumps({**case, "shape": shape})], capture_output=True, text=True, timeout=120,
        env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"},
    )  # fmt: skip
    if "READY" not in p.stdout:
        fail("weights of the right size were refused", out=p.stdout[-200:], err=p.stderr[-600:])
    if "SURVIVED" in p.stdout or p.returncode == 0:
        fail("weights of the wrong size were accepted", m=m, dim=dim, which=case["which"], shape=shape)
    if p.returncode < 0:
        fail("weights of the wrong size crashed the process", signal=-p.returncode, m=m, dim=dim, which=case["which"], shape=shape)
    return True


def weights_case():
    return st.fixed_dictionaries({
        "basis": st.sampled_from(ref.ELM), "m": st.integers(1, 8), "dim": st.sampled_from([0, 1, 2, 3]), "which": st.sampled_from(["w", "b"]),
        "off": st.integers(-8, 9), "backend": st.sampled_from(gen.BACKENDS),
    })  # fmt: skip


SUBS = [
    Sub("univariate", check_uni, uni_case, quick=500, thorough=4000, shards=2,
        rule="a valid univariate configuration, which must be accepted and give a matrix of the right shape, and the same with one fault: "
        "an unknown basis or backend, too many functions removed, negative indices. Non-trivial: every case."),
    Sub("multivariate", check_multi, multi_case, quick=600, thorough=4000, shards=2,
        rule="the same in 1-4 dimensions, with wrong lengths of the numbers of points, the ends of the domain and the functions removed "
        "as lists, numpy and jax arrays. Non-trivial: every case."),
    Sub("solvers", check_solvers, solver_case, quick=120, thorough=400, ext=False,
        rule="each solver with a valid method, whose solution must be right, and an unknown one. Non-trivial: every case."),
    Sub("others", check_other, other_case, quick=300, thorough=2000,
        rule="edges of unknown nodes, hybrids of different numbers of points, unknown print types, labels of the wrong type, views of "
        "plane plots, each after the valid variant. Non-trivial: every case."),
    Sub("weights", check_weights, weights_case, quick=240, thorough=1500, shards=2,
        rule="weights and biases of the wrong size for every ELM basis, in 1-3 dimensions and univariate, in both backends; C++ in a process "
        "of its own, which must end with an error or raise. Non-trivial: every case."),
]  # fmt: skip
