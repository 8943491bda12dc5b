"""C09: constrained expressions meet their constraints whatever the coefficients of the free function."""

import numpy as np
from hypothesis import strategies as st

from vlib import cons, gen, multi, ref
from vlib.printer import namespace, tfc_code
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Constraints: values, derivatives up to order 2, integrals, and linear combinations of them at several points, with exact or floating-point data. The "
    "expression is the printed code of the solver, or g + sum phi_i (kappa_i - C_i g) with the solver's switching "
    "functions, with g the library's basis matrix times random coefficients.",
    "Derivatives of the expression are the library's element-wise derivative; integrals are 60-point Gauss rules, exact for "
    "these functions to rounding. A constraint may be off by 1e-10 of the sum of the absolute values of its terms.",
]
SMOOTH = ref.POLY + ["ELMTanh", "ELMSigmoid", "ELMSin", "ELMSwish"]
NODES, WTS = np.polynomial.legendre.leggauss(60)


def setup():
    global sp, x, y, gs
    import sympy as sp_

    sp = sp_
    x, y = sp.symbols("x y")
    gs = sp.Function("g")


def sup_con(con, powers, alpha):
    """How much the errors of the projections grow in this constraint."""
    tot = 0.0
    for k, p in enumerate(powers):
        v = 0.0
        for t in con:
            c = abs(float(cons.Q(t[0])))
            if t[1] == "int":
                a, b = float(cons.Q(t[2])), float(cons.Q(t[3]))
                v += c * abs(b - a) * max(abs(a), abs(b), 1) ** p
            elif p >= t[1]:
                f = 1.0
                for j in range(t[1]):
                    f *= p - j
                v += c * f * max(abs(float(cons.Q(t[2]))), 1e-30) ** (p - t[1])
        tot += v * sum(abs(float(a)) for a in alpha[k])
    return tot


def amplification(p):
    alpha = cons.inverse(cons.support_matrix(p["cons"], p["powers"]))
    return 1.0 + max(sup_con(c, p["powers"], alpha) for c in p["cons"])


def functional(con, f, eg, j=0, others=()):
    """The constraint of the numeric function f in its argument j, at the points given for the others."""
    import jax.numpy as jnp

    n = len(others[0]) if others else 1
    tot = 0.0

    def call(h, v):
        v = jnp.full((n,), float(v))
        return h(*(list(others[:j]) + [v] + list(others[j:])))

    for t in con:
        c = float(cons.Q(t[0]))
        if t[1] == "int":
            a, b = float(cons.Q(t[2])), float(cons.Q(t[3]))
            s = jnp.array((a + b) / 2 + (b - a) / 2 * NODES)
            tot = tot + c * (b - a) / 2 * jnp.sum(jnp.array(WTS) * f(s))
        else:
            h = f
            for _ in range(t[1]):
                h = eg(h, j)
            tot = tot + c * call(h, cons.Q(t[2]))
    return tot


def weight(con, size):
    """The same with |terms|: size(k) bounds the k-th derivative of g on the domain."""
    tot = 0.0
    for t in con:
        c = abs(float(cons.Q(t[0])))
        if t[1] == "int":
            tot += c * abs(float(cons.Q(t[3]) - cons.Q(t[2]))) * size(0)
        else:
            tot += c * size(t[1])
    return tot


def check_uni(case):
    import jax
    import jax.numpy as jnp
    from tfc import utfc
    from tfc.utils import CeSolver, egrad

    p = case["p"]
    m = case["m"]
    x0, xf = case["dom"]
    t = utfc(6, case["nC"], m - 1, basis=case["basis"], x0=x0, xf=xf, backend=case["backend"])
    w = b = None
    if case["basis"] in ref.ELM:
        w, b = gen.arr(case["ws"], m), gen.arr(case["ws"] + 1, m)
        t.basisClass.w, t.basisClass.b = w, b
    grid = np.linspace(x0, xf, 41)
    keep = [k for k in range(m) if k not in gen.removed(case["nC"])]
    bound = {k: ref.uni_H(case["basis"], grid, x0, xf, m, k, w, b)[1][:, keep].max(0) for k in range(3)}
    kap = [cons.Q(k) for k in p["kappa"]]
    cs = CeSolver([cons.operator(c, x, case["float"]) for c in p["cons"]], [cons.sq(k, case["float"]) for k in kap], [x**q if q else sp.re(1) for q in p["powers"]], gs(x))
    integral = any(q[1] == "int" for c in p["cons"] for q in c)
    printed = case["printed"] and not integral
    amp = amplification(p)
    code = tfc_code(cs.ce) if printed else None
    phi = None if printed else [sp.lambdify(x, f, "jax") for f in cs.phi]
    free = lambda s, xi: t.H(s) @ xi

    def u(s, xi):
        n = s.shape[0]
        if printed:
            ns = namespace({"g": lambda v: free(v, xi)}, n, egrad)
            return jnp.broadcast_to(eval(code, ns, {"x": s}), (n,))
        out = free(s, xi)
        for f, c, k in zip(phi, p["cons"], kap):
            out = out + f(s) * (float(k) - functional(c, lambda v: free(v, xi), egrad))
        return out

    for a in range(2):
        xi = jnp.array(gen.arr(case["ws"] + 3 + a, len(keep)) * case["amp"])
        size = lambda k: float(bound[k] @ np.abs(xi))
        scale = amp * (1 + max(weight(c, size) for c in p["cons"]) + max(abs(float(k)) for k in kap))
        fun = lambda s: u(s, xi)
        if case["jit"] and case["backend"] == "C++" and a == 0:
            fun = jax.jit(fun)
        for i, c in enumerate(p["cons"]):
            got = float(np.asarray(functional(c, fun, egrad)).reshape(()))
            if not abs(got - float(kap[i])) <= 1e-10 * scale:
                fail(f"constraint {i} is {got!r}, expected {float(kap[i])!r}", scale=scale, printed=code)
    return len(p["cons"]) > 1


@st.composite
def uni_case(draw):
    basis = draw(st.sampled_from(SMOOTH))
    backend = draw(st.sampled_from(["C++", "C++", "Python"]))
    m = draw(st.integers(2, 9))
    x0 = draw(st.sampled_from([-2.0, -2.5, -3.0]))
    hi = 3.0
    return {
        "basis": basis,
        "backend": backend,
        "m": m,
        "nC": draw(gen.remove_spec(m)),
        "dom": [x0, draw(st.sampled_from([hi, 3.5, 5.0]))],
        "ws": draw(gen.seeds()),
        "amp": draw(st.sampled_from([0.0, 1.0, 30.0])),
        "p": draw(cons.problem(1, 4, maxk=1 if backend == "Python" and basis in ref.ELM else 2, decimals=draw(st.booleans()))),
        "float": draw(st.booleans()),
        "printed": draw(st.booleans()),
        "jit": draw(st.sampled_from([False, False, True])),
    }


def check_multi(case):
    import jax
    import jax.numpy as jnp
    from tfc.utils import CeSolver, egrad

    t = multi.make(case)
    px, py = case["px"], case["py"]
    target = cons.poly(case["u"])

    def solver(pr, var, other, freef, k):
        K = [cons.sym_poly(cons.apply2(c, target, k), other) for c in pr["cons"]]
        return CeSolver([cons.operator(c, var, case["float"]) for c in pr["cons"]], K, [var**q if q else sp.re(1) for q in pr["powers"]], freef)

    dim = case["dim"]
    zv = sp.Symbol("z")
    args = (x, y, zv)[:dim]
    csx = solver(px, x, y, gs(*args), 0)
    ce = solver(py, y, x, csx.ce, 1).ce
    code = tfc_code(ce)
    n = 3
    rest = [gen.arr(case["xs"] + 4, n, *case["dom"][2])] if dim == 3 else []
    free = lambda xi: (lambda *a: t.H(*a) @ xi)
    xi = jnp.array(gen.arr(case["xs"] + 3, t.basisClass.numBasisFunc) * case["coef"])

    def u(*a):
        ns = namespace({"g": free(xi)}, n, egrad)
        return jnp.broadcast_to(eval(code, ns, dict(zip(("x", "y", "z"), a))), (n,))

    fun = jax.jit(u) if case["jit"] and case["backend"] == "C++" else u
    # bound of g and its derivatives on the domain
    corners = np.array([np.linspace(lo, hi, 5) for lo, hi in case["dom"]])
    pts = np.array(np.meshgrid(*corners)).reshape(dim, -1)
    G = 0.0
    for i in range(3):
        for j in range(3):
            d = (i, j, 0)[:dim]
            G = max(G, float((multi.matrix(case, pts, d, False)[1] @ np.abs(xi)).max()))
    big = 1.0 + sum(abs(float(v)) * 4.0 ** sum(k) for k, v in target.items())
    wsum = max(sum(abs(float(cons.Q(q[0]))) for q in c) for c in px["cons"]) * max(sum(abs(float(cons.Q(q[0]))) for q in c) for c in py["cons"])
    scale = amplification(px) * amplification(py) * (1 + wsum) * (G + big) * 4.0
    for k, pr in ((0, px), (1, py)):
        o = gen.arr(case["xs"] + 5 + k, n, *case["dom"][1 - k])
        others = [jnp.array(o)] + [jnp.array(r) for r in rest]
        for i, c in enumerate(pr["cons"]):
            got = np.asarray(functional(c, fun, egrad, k, others))
            ex = np.zeros(n)
            for e, v in cons.apply2(c, target, k).items():
                ex = ex + float(v) * o**e
            if not np.all(np.abs(got - ex) <= 1e-10 * scale):
                fail(f"constraint {i} in variable {k}: {got.tolist()}, expected {ex.tolist()}", scale=scale, code=code)
    return len(px["cons"]) + len(py["cons"]) > 2


@st.composite
def multi_case(draw):
    backend = draw(st.sampled_from(["C++", "C++", "Python"]))
    dims = (2, 2, 3)
    if draw(st.sampled_from([True, True, False])) or backend == "Python":
        c = draw(multi.poly_case(dims=dims, backends=(backend,)))
        c["m"] = min(c["m"], 6)
        c["nC"] = [draw(multi.dim_remove(c["m"])) for _ in range(c["dim"])]
    else:
        c = draw(multi.elm_case(dims=dims, backends=(backend,), maxm=8))
        c["basis"] = draw(st.sampled_from(["ELMTanh", "ELMSigmoid", "ELMSin", "ELMSwish"]))
    c["dom"] = [[-2.0, 3.0]] * c["dim"]
    del c["d"], c["np"]
    c["float"] = draw(st.booleans())
    c["px"] = draw(cons.problem(1, 2, integrals=False, maxk=1, decimals=c["float"]))
    c["py"] = draw(cons.problem(1, 2, integrals=False, maxk=1, decimals=c["float"], second=True))
    key = st.tuples(st.integers(0, 3), st.integers(0, 3)).map(lambda t: f"{t[0]},{t[1]}")
    c["u"] = draw(st.dictionaries(key, cons.number(-3, 3), min_size=1, max_size=4))
    c["coef"] = draw(st.sampled_from([1.0, 20.0]))
    c["jit"] = draw(st.sampled_from([False, False, True]))
    return c


SUBS = [
    Sub(
        "univariate", check_uni, uni_case, quick=640, thorough=7000, shards=4,
        rule="1-4 constraints, any basis and removed functions, two random coefficient vectors (also zero and large), printed "
        "and hand-assembled expressions, eager and compiled. Non-trivial: at least two constraints.",
    ),
    Sub(
        "multivariate", check_multi, multi_case, quick=400, thorough=4500, shards=4,
        rule="constraints in x and in y on functions of two or three variables, whose data come from one polynomial. "
        "Non-trivial: at least three constraints.",
    ),
]  # fmt: skip
