"""C24: solving a differential equation with the library recovers its known solution."""

import numpy as np
from hypothesis import strategies as st

from checks import c09
from vlib import cons, gen, multi, ref
from vlib.printer import namespace, tfc_code
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "The known solution is the constrained expression of chosen coefficients, and the right-hand side follows from it, both computed with the "
    "references of C01-C04 and exact switching functions. The system is solved by the library alone: collocation points, basis, constraint solver, printed "
    "expression, element-wise derivatives and least squares.",
    "Judged when the reference matrix of the collocation system has a clear rank and a condition number below 1e7 on it: the solution, not the coefficients, "
    "must then agree to 1e-6 of its size. A nonlinear term is weak enough for the solution to be unique.",
]
BASES = ref.POLY + ["ELMTanh", "ELMSin", "ELMSwish", "ELMSigmoid"]


def setup():
    c09.setup()
    global sp, x, y, gs
    import sympy as sp_

    sp, x, y, gs = sp_, c09.x, c09.y, c09.gs


def poly_at(p, k, s):
    """k-th derivative of the exact polynomial p at s."""
    out = np.zeros(np.shape(s))
    for e, v in p.items():
        if e >= k:
            f = 1
            for j in range(k):
                f *= e - j
            out = out + float(v) * f * np.asarray(s, dtype=float) ** (e - k)
    return out


def usable(A):
    """Singular values with a clear rank and condition: (pseudo-inverse's norm, rank) or None."""
    s = np.linalg.svd(A, compute_uv=False)
    if s[0] < 1e-6:
        return None
    big = s[s > 1e-7 * s[0]]
    small = s[s <= 1e-7 * s[0]]
    if small.size and small[0] > 1e-12 * s[0]:
        return None
    return 1.0 / big[-1], big.size


class UniRef:
    """The constrained expression and its derivatives as an affine function of the coefficients."""

    def __init__(self, case, w, b):
        self.case, self.w, self.b = case, w, b
        p = case["p"]
        self.phi = cons.switching(p["cons"], p["powers"])
        self.kap = [cons.Q(k) for k in p["kappa"]]
        self.keep = [k for k in range(case["m"]) if k not in gen.removed(case["nC"])]
        self.C = np.array([self.functional(c) for c in p["cons"]])

    def h(self, s, k):
        x0, xf = self.case["dom"]
        return ref.uni_H(self.case["basis"], np.atleast_1d(np.asarray(s, dtype=float)), x0, xf, self.case["m"], k, self.w, self.b)[0][:, self.keep].astype(float)

    def functional(self, con):
        tot = 0.0
        for t in con:
            c = float(cons.Q(t[0]))
            if t[1] == "int":
                a, b = float(cons.Q(t[2])), float(cons.Q(t[3]))
                tot = tot + c * (b - a) / 2 * (c09.WTS @ self.h((a + b) / 2 + (b - a) / 2 * c09.NODES, 0))
            else:
                tot = tot + c * self.h(float(cons.Q(t[2])), t[1])[0]
        return tot

    def M(self, s, k):
        P = np.array([poly_at(f, k, s) for f in self.phi])
        return self.h(s, k) - P.T @ self.C, P.T @ np.array([float(q) for q in self.kap])


def coef(case, s):
    a = case["a"]
    return a[0] + a[1] * s, a[2] + a[3] * s


def check_ode(case):
    import jax.numpy as jnp
    from tfc import utfc
    from tfc.utils import LS, NLLS, CeSolver, LsClass, NllsClass, TFCDict, TFCDictRobust, egrad

    m, (x0, xf), p = case["m"], case["dom"], case["p"]
    nf = case["nf"]
    N = case["N"] + m
    w = b = None
    t = utfc(N, case["nC"], m - 1, basis=case["basis"], x0=x0, xf=xf)
    if case["basis"] in ref.ELM:
        w, b = gen.arr(case["ws"], m, -2, 2), gen.arr(case["ws"] + 1, m, -2, 2)
        t.basisClass.w, t.basisClass.b = w, b
    R = UniRef(case, w, b)
    xc = np.asarray(t.x)
    order = case["order"]
    Ms = {k: R.M(xc, k) for k in {0, 1, order}}
    a1, a0 = coef(case, xc)
    if order == 1:
        a1 = 0 * a1
    A0 = Ms[order][0] + a1[:, None] * Ms[1][0] + a0[:, None] * Ms[0][0]
    c0 = Ms[order][1] + a1 * Ms[1][1] + a0 * Ms[0][1]
    # nf functions, each coupled to the next
    e = case["e"]
    n = A0.shape[1]
    A = np.zeros((nf * N, nf * n))
    for i in range(nf):
        A[i * N : (i + 1) * N, i * n : (i + 1) * n] += A0
        if nf > 1:
            j = (i + 1) % nf
            A[i * N : (i + 1) * N, j * n : (j + 1) * n] += e * Ms[0][0]
    got = usable(A)
    if got is None:
        return False
    pinv, rank = got
    if rank < A.shape[1] and not case["pinv"]:
        return False
    xis = [gen.arr(case["ws"] + 5 + i, n) for i in range(nf)]
    ys = [Ms[0][0] @ q + Ms[0][1] for q in xis]
    eps = 0.0
    if case["nonlinear"]:
        eps = 0.2 / (pinv * np.linalg.norm(Ms[0][0], 2))
        if rank < A.shape[1]:
            return False
    f = [A0 @ xis[i] + c0 + (e * ys[(i + 1) % nf] if nf > 1 else 0.0) + eps * np.sin(ys[i]) for i in range(nf)]

    # the library's side
    kap = R.kap
    cs = CeSolver([cons.operator(c, x) for c in p["cons"]], [cons.sq(k) for k in kap], [x**q if q else sp.re(1) for q in p["powers"]], gs(x))
    integral = any(q[1] == "int" for c in p["cons"] for q in c)
    code = None if integral else tfc_code(cs.ce)
    phi = [sp.lambdify(x, q, "jax") for q in cs.phi]
    free = lambda s, xi: t.H(s) @ xi

    def Y(s, xi):
        k = s.shape[0]
        if code:
            return jnp.broadcast_to(eval(code, namespace({"g": lambda v: free(v, xi)}, k, egrad), {"x": s}), (k,))
        out = free(s, xi)
        for q, c, kk in zip(phi, p["cons"], kap):
            out = out + q(s) * (float(kk) - c09.functional(c, lambda v: free(v, xi), egrad))
        return out

    keys = ["u", "b"][:nf]
    fj = [jnp.array(q) for q in f]

    def get(xi, i):
        return xi if case["unknowns"] == "array" else xi[keys[i]]

    def residual(xi, s, *rhs):
        out = []
        for i in range(nf):
            g = lambda q, z: Y(q, z)
            d1 = egrad(g)
            do = egrad(d1) if order == 2 else d1
            xii = get(xi, i)
            A1, A0_ = coef(case, s)
            r = do(s, xii) + A0_ * g(s, xii) - rhs[i] + eps * jnp.sin(g(s, xii))
            if order == 2:
                r = r + A1 * d1(s, xii)
            if nf > 1:
                r = r + e * g(s, get(xi, (i + 1) % nf))
            out.append(r)
        return jnp.hstack(out)

    z = [jnp.zeros(n) for _ in range(nf)]
    start = z[0] if case["unknowns"] == "array" else {"TFCDict": TFCDict, "TFCDictRobust": TFCDictRobust}[case["unknowns"]](dict(zip(keys, z)))
    args = [t.x] + fj
    method = "pinv" if case["pinv"] else "lstsq"
    if case["nonlinear"]:
        if case["cls"]:
            sol = NllsClass(start, residual, *args, tol=1e-11, maxIter=40, method=method).run(start, *args)
        else:
            sol = NLLS(start, residual, *args, tol=1e-11, maxIter=40, method=method)
        if sol[1] >= 40:
            # rounding may hold the residual above the tolerance; the answer is judged all the same
            pass
    elif case["cls"]:
        sol = LsClass(start, residual, *args, method=method).run(start, *args)
    else:
        sol = LS(start, residual, *args, method=method)
    xi = sol[0] if isinstance(sol, tuple) else sol
    s = np.linspace(x0, xf, 17)
    M0, k0 = R.M(s, 0)
    big = max(float(np.max(np.abs(M0) @ np.abs(q) + np.abs(k0))) for q in xis) + 1.0
    cond = pinv * np.linalg.norm(A, 2) * (1.0 if not case["nonlinear"] else 4.0)
    tol = (1e-6 + 1e-13 * cond * c09.amplification(p)) * big
    for i in range(nf):
        got = np.asarray(Y(jnp.array(s), get(xi, i)))
        exp = M0 @ xis[i] + k0
        if not np.all(np.abs(got - exp) <= tol):
            fail(f"solution {i}", error=float(np.max(np.abs(got - exp))), size=big, cond=cond, got=got.tolist()[:5], expected=exp.tolist()[:5])
    return len(p["cons"]) > 1


@st.composite
def ode_case(draw):
    m = draw(st.integers(3, 9))
    nonlinear = draw(st.booleans())
    nf = draw(st.sampled_from([1, 1, 2]))
    order = draw(st.integers(1, 2))
    p = draw(cons.problem(order, order, maxk=1))
    basis = draw(st.sampled_from(BASES))
    return {
        "basis": basis,
        "m": m,
        "nC": draw(gen.remove_spec(m) if draw(st.booleans()) else st.just(len(p["cons"]))),
        "N": draw(st.integers(0, 20)),
        "dom": draw(st.sampled_from([[0.0, 1.0], [-1.0, 1.0], [-2.0, 2.0], [0.0, 3.0]])),
        "ws": draw(gen.seeds()),
        "p": p,
        "order": order,
        "a": [draw(st.integers(-2, 2)) for _ in range(4)],
        "e": draw(st.sampled_from([0.5, -1.0])),
        "nf": nf,
        "nonlinear": nonlinear,
        "cls": draw(st.booleans()),
        "pinv": draw(st.booleans()),
        "unknowns": draw(st.sampled_from(["TFCDict", "TFCDictRobust"] + (["array"] * 2 if nf == 1 else []))),
    }


def check_pde(case):
    import jax.numpy as jnp
    from tfc import mtfc  # noqa
    from tfc.utils import LS, CeSolver, LsClass, egrad

    t = multi.make(case)
    px, py = case["px"], case["py"]
    target = cons.poly(case["u"])

    def T(dx, dy, X, Yv):
        out = np.zeros(X.shape)
        for (i, j), v in target.items():
            out = out + float(v) * poly_at({i: 1}, dx, X) * poly_at({j: 1}, dy, Yv)
        return out

    def D(dx, dy, X, Yv):
        return np.column_stack([multi.matrix(case, np.array([X, Yv]), (dx, dy), False)[0].astype(float), T(dx, dy, X, Yv)])

    def project(D, pr, var):
        phi = cons.switching(pr["cons"], pr["powers"])

        def out(dx, dy, X, Yv):
            r = D(dx, dy, X, Yv)
            for f, c in zip(phi, pr["cons"]):
                ph = poly_at(f, (dx, dy)[var], (X, Yv)[var])
                for q in c:
                    a = np.full(X.shape, float(cons.Q(q[2])))
                    v = D(q[1], dy, a, Yv) if var == 0 else D(dx, q[1], X, a)
                    r = r - float(cons.Q(q[0])) * ph[:, None] * v
            return r

        return out

    E = project(project(D, px, 0), py, 1)
    X, Yv = (np.asarray(q) for q in t.x)

    def affine(dx, dy, X, Yv):
        """Matrix and constant of the constrained expression's derivative: CE g = u0 + E(g - u0)."""
        e = E(dx, dy, X, Yv)
        return e[:, :-1], T(dx, dy, X, Yv) - e[:, -1]

    a = case["a"]
    terms = {(2, 0): 1.0, (0, 2): a[0], (1, 0): a[1], (0, 1): a[2], (0, 0): a[3], (1, 1): a[4]}
    A, c0 = 0.0, 0.0
    for d, q in terms.items():
        M, k = affine(*d, X, Yv)
        A, c0 = A + q * M, c0 + q * k
    if A.shape[1] == 0:
        return False
    got = usable(A)
    if got is None:
        return False
    pinv, rank = got
    if rank < A.shape[1] and not case["pinv"]:
        return False
    xi0 = gen.arr(case["xs"] + 3, A.shape[1])
    f = jnp.array(A @ xi0 + c0)

    def solver(pr, var, other, freef, k):
        K = [cons.sym_poly(cons.apply2(c, target, k), other) for c in pr["cons"]]
        return CeSolver([cons.operator(c, var) for c in pr["cons"]], K, [var**q if q else sp.re(1) for q in pr["powers"]], freef)

    code = tfc_code(solver(py, y, x, solver(px, x, y, gs(x, y), 0).ce, 1).ce)

    def u(p, q, xi):
        n = p.shape[0]
        ns = namespace({"g": lambda *s: t.H(*s) @ xi}, n, egrad)
        return jnp.broadcast_to(eval(code, ns, {"x": p, "y": q}), (n,))

    def residual(xi, p, q, rhs):
        ux = egrad(u, 0)
        uy = egrad(u, 1)
        r = egrad(ux, 0)(p, q, xi) + a[0] * egrad(uy, 1)(p, q, xi) + a[1] * ux(p, q, xi) + a[2] * uy(p, q, xi) + a[3] * u(p, q, xi) + a[4] * egrad(ux, 1)(p, q, xi)
        return r - rhs

    z = jnp.zeros(A.shape[1])
    method = "pinv" if case["pinv"] else "lstsq"
    if case["cls"]:
        xi = LsClass(z, residual, *t.x, f, method=method).run(z, *t.x, f)
    else:
        xi = LS(z, residual, *t.x, f, method=method)
    xi = xi[0] if isinstance(xi, tuple) else xi
    pts = gen.arr(case["xs"] + 9, (2, 12), 0.0, 1.0)
    dom = np.array(case["dom"])
    pts = dom[:, :1] + pts * (dom[:, 1:] - dom[:, :1])
    M, k = affine(0, 0, *pts)
    exp = M @ xi0 + k
    got = np.asarray(u(jnp.array(pts[0]), jnp.array(pts[1]), xi))
    # coefficients that the equation does not determine change the solution unless the expression ignores them
    null = np.linalg.svd(A)[2][rank:]
    if null.size and np.max(np.abs(M @ null.T)) > 1e-9 * np.max(np.abs(M)):
        return False
    big = float(np.max(np.abs(M) @ np.abs(xi0) + np.abs(k))) + 1.0
    cond = pinv * np.linalg.norm(A, 2)
    tol = (1e-6 + 1e-13 * cond * c09.amplification(px) * c09.amplification(py)) * big
    if not np.all(np.abs(got - exp) <= tol):
        fail("solution", error=float(np.max(np.abs(got - exp))), size=big, cond=cond, got=got.tolist()[:4], expected=exp.tolist()[:4], code=code)
    return len(px["cons"]) + len(py["cons"]) > 2


@st.composite
def pde_case(draw):
    if draw(st.integers(0, 3)):
        c = draw(multi.poly_case(dims=(2,), backends=("C++",)))
        c["m"] = min(c["m"], 6)
        c["nC"] = [draw(multi.dim_remove(c["m"])) for _ in range(2)]
    else:
        c = draw(multi.elm_case(dims=(2,), backends=("C++",), maxm=6))
        c["basis"] = draw(st.sampled_from(["ELMTanh", "ELMSin", "ELMSwish"]))
        c["amp"] = 2.0
    c["n"] = [draw(st.integers(5, 8)), draw(st.integers(5, 8))]
    c["dom"] = [draw(st.sampled_from([[-1.0, 1.0], [0.0, 1.0], [-2.0, 2.0]])) for _ in range(2)]
    del c["d"], c["np"]
    c["px"] = draw(cons.problem(1, 2, integrals=False, maxk=1))
    c["py"] = draw(cons.problem(1, 2, integrals=False, maxk=1, second=True))
    key = st.tuples(st.integers(0, 2), st.integers(0, 2)).map(lambda t: f"{t[0]},{t[1]}")
    c["u"] = draw(st.dictionaries(key, cons.number(-3, 3), min_size=1, max_size=3))
    c["a"] = [draw(st.integers(-2, 2)) for _ in range(5)]
    c["cls"] = draw(st.booleans())
    c["pinv"] = draw(st.booleans())
    return c


SUBS = [
    Sub("ordinary equations", check_ode, ode_case, quick=312, thorough=5000, shards=5,
        rule="first- and second-order equations and pairs of coupled ones, linear or weakly nonlinear, with any constraints, basis, domain, unknowns "
        "and solver. Non-trivial: judged, with at least two constraints."),
    Sub("partial equations", check_pde, pde_case, quick=156, thorough=2500, shards=3,
        rule="second-order equations in two variables with constraints in both. Non-trivial: judged, with at least three constraints."),
]  # fmt: skip
