"""C10: the constrained-expression solver: support matrix, switching functions, projections, expression, and their setters."""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vlib import cons, gen
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Constraints are linear: sums of values, derivatives up to order 2, integrals and differences between points, with "
    "rational data; support functions make the support matrix regular. Points in x and in y are different numbers, because "
    "sympy itself confuses derivatives in two variables taken at equal numbers.",
    "Oracle: the definition g + sum phi_i (kappa_i - C_i g), computed in exact rational arithmetic on polynomials; for "
    "sin, cos and exp supports in floating point.",
]


def setup():
    global sp, x, y, g, h
    import sympy as sp_

    sp = sp_
    x, y = sp.symbols("x y")
    g, h = sp.Function("g"), sp.Function("h")


def mono(p, var=None):
    return (x if var is None else var) ** p if p else sp.re(1)


def matrix_of(M):
    return [[Fraction(int(v.p), int(v.q)) for v in M.row(i)] for i in range(M.rows)]


def number_poly(e):
    return cons.exact(e, x)


def check_exact(case):
    from tfc.utils import CeSolver

    p = case["p"]
    cl, powers = p["cons"], p["powers"]
    kap = [cons.Q(k) for k in p["kappa"]]
    gp = cons.poly(case["g"])
    n = len(cl)
    wrap = tuple if case["tuple"] else list
    cs = CeSolver(
        wrap(cons.operator(c, x) for c in cl), wrap(cons.sq(k) for k in kap), wrap(mono(q) for q in powers), g(x)
    )
    S = cons.support_matrix(cl, powers)
    inv = cons.inverse(S)
    phi = cons.switching(cl, powers)
    for what in case["order"]:
        if what == "S":
            if matrix_of(cs.S) != S:
                fail("support matrix", got=str(cs.S), expected=str(S))
        elif what == "alpha":
            if matrix_of(cs.alpha) != inv:
                fail("inverse of the support matrix", got=str(cs.alpha), expected=str(inv))
        elif what == "phi":
            f = cs.phi
            if len(f) != n:
                fail("number of switching functions", got=len(f), expected=n)
            for i in range(n):
                if number_poly(f[i]) != phi[i]:
                    fail(f"switching function {i}", got=str(f[i]), expected=str(phi[i]))
                for j, c in enumerate(cl):
                    v = cons.operator(c, x)(f[i])
                    if sp.expand(v - (1 if i == j else 0)) != 0:
                        fail(f"constraint {j} of switching function {i}", got=str(v))
        elif what == "rho":
            r = cs.rho
            for i in range(n):
                got = cons.plug(r[i], g, gp, [x])
                if cons.exact(got, x) != ({0: kap[i] - cons.apply(cl[i], gp)} if kap[i] != cons.apply(cl[i], gp) else {}):
                    fail(f"projection functional {i}", got=str(got), expected=str(kap[i] - cons.apply(cl[i], gp)))
        elif what == "ce":
            got = cons.exact(cons.plug(cs.ce, g, gp, [x]), x)
            exp = cons.expression(cl, powers, kap, gp)
            if got != exp:
                fail("constrained expression with the free function chosen", got=str(got), expected=str(exp))
            for i, c in enumerate(cl):
                if cons.apply(c, got) != kap[i]:
                    fail(f"constraint {i} not met", got=str(cons.apply(c, got)), expected=str(kap[i]))
    return n > 1 and any(gp.get(k) for k in gp)


WHAT = ["S", "alpha", "phi", "rho", "ce"]


@st.composite
def exact_case(draw):
    return {
        "p": draw(cons.problem(1, 5)),
        "g": draw(cons.polynomial()),
        "tuple": draw(st.booleans()),
        "order": draw(st.permutations(WHAT)),
    }


# ------------------------------------------------------------------------------------------------ two variables


def check_two(case):
    """x constraints, then y constraints with the x expression as the free function; data from a known function."""
    from tfc.utils import CeSolver

    px, py = case["px"], case["py"]
    target, gp = cons.poly(case["u"]), cons.poly(case["g"])

    def sub(solver_case, var, other, free, k):
        C = [cons.operator(c, var) for c in solver_case["cons"]]
        K = [cons.sym_poly(cons.apply2(c, target, k), other) for c in solver_case["cons"]]
        return CeSolver(C, K, [mono(q, var) for q in solver_case["powers"]], free), C, K

    csx, Cx, Kx = sub(px, x, y, g(x, y), 0)
    if case["late"]:
        csy, Cy, Ky = sub(py, y, x, h(x, y), 1)
        csy.ce
        csy.g = csx.ce
    else:
        csy, Cy, Ky = sub(py, y, x, csx.ce, 1)
    got = cons.exact(cons.plug(csy.ce, g, gp, [x, y]), x, y)
    # exact model
    exp = dict(gp)
    for k, pr in ((0, px), (1, py)):
        phi = cons.switching(pr["cons"], pr["powers"])
        add = {}
        for c, f in zip(pr["cons"], phi):
            rho = cons.p_add(cons.apply2(c, target, k), cons.apply2(c, exp, k), -1)
            lift = {((e, 0) if k == 0 else (0, e)): v for e, v in f.items()}
            rho = {((0, e) if k == 0 else (e, 0)): v for e, v in rho.items()}
            add = cons.p_add(add, cons.p_mul(lift, rho))
        exp = cons.p_add(exp, add)
    if got != exp:
        fail("two-variable constrained expression", got=str(got), expected=str(exp))
    for k, pr in ((0, px), (1, py)):
        for i, c in enumerate(pr["cons"]):
            if cons.apply2(c, got, k) != cons.apply2(c, target, k):
                fail(f"constraint {i} in variable {k} not met", got=str(cons.apply2(c, got, k)))
    return len(px["cons"]) + len(py["cons"]) > 2


def poly2(deg=3):
    return st.dictionaries(
        st.tuples(st.integers(0, deg), st.integers(0, deg)).map(lambda t: f"{t[0]},{t[1]}"), cons.number(-3, 3), min_size=1, max_size=5
    )


@st.composite
def two_case(draw):
    return {
        "px": draw(cons.problem(1, 3, integrals=False)),
        "py": draw(cons.problem(1, 2, integrals=False, second=True)),
        "u": draw(poly2()),
        "g": draw(poly2()),
        "late": draw(st.booleans()),
    }


# ------------------------------------------------------------------------------------------------ other supports

FUNS = ["1", "x", "x2", "sin", "cos", "exp", "expm", "sin2"]


def fun_sym(name):
    return {
        "1": sp.re(1), "x": x, "x2": x**2, "sin": sp.sin(x), "cos": sp.cos(x), "exp": sp.exp(x), "expm": sp.exp(-x),
        "sin2": sp.sin(2 * x),
    }[name]  # fmt: skip


def fun_num(name, k, a):
    """k-th derivative at a; k = -1 is an antiderivative."""
    if name in ("1", "x", "x2"):
        p = {"1": 0, "x": 1, "x2": 2}[name]
        if k == -1:
            return a ** (p + 1) / (p + 1)
        f = 1.0
        for j in range(k):
            f *= p - j
        return f * a ** (p - k) if p >= k else 0.0
    s = [np.sin, np.cos, lambda t: -np.sin(t), lambda t: -np.cos(t)]
    if name == "sin":
        return s[k % 4](a)
    if name == "cos":
        return s[(k + 1) % 4](a)
    if name == "sin2":
        return 2.0**k * s[k % 4](2 * a)
    if name == "exp":
        return np.exp(a)
    return (-1.0) ** k * np.exp(-a)


def con_num(con, name):
    tot = 0.0
    for t in con:
        c = float(cons.Q(t[0]))
        if t[1] == "int":
            tot += c * (fun_num(name, -1, float(cons.Q(t[3]))) - fun_num(name, -1, float(cons.Q(t[2]))))
        else:
            tot += c * fun_num(name, t[1], float(cons.Q(t[2])))
    return tot


def check_functions(case):
    from tfc.utils import CeSolver

    cl = case["cons"]
    names = case["s"][: len(cl)]
    S = np.array([[con_num(c, f) for f in names] for c in cl])
    if np.linalg.cond(S) > 1e6:
        return False
    gp = cons.poly(case["g"])
    kap = [cons.Q(k) for k in case["kappa"]][: len(cl)]
    cs = CeSolver([cons.operator(c, x) for c in cl], [cons.sq(k) for k in kap], [fun_sym(f) for f in names], g(x))
    got = np.array(cs.S.evalf(30).tolist(), dtype=float)
    if not np.allclose(got, S, rtol=1e-9, atol=1e-9 * (1 + np.abs(S).max())):
        fail("support matrix", got=got.tolist(), expected=S.tolist())
    rho = np.array([float(k - cons.apply(c, gp)) for c, k in zip(cl, kap)])
    coef = np.linalg.solve(S, rho)
    pts = [-1.3, 0.2, 0.9]
    ce = cons.plug(cs.ce, g, gp, [x])
    size = 1 + np.abs(coef).sum() + np.abs(rho).sum()
    for p in pts:
        val = complex(sp.N(ce.subs(x, sp.Float(p, 40)), 30))
        exp = sum(float(v) * p**k for k, v in gp.items()) + sum(c * fun_num(f, 0, p) for c, f in zip(coef, names))
        if abs(val - exp) > 1e-7 * size * 10:
            fail("constrained expression", at=p, got=val, expected=exp)
    return len(cl) > 1


@st.composite
def functions_case(draw):
    n = draw(st.integers(1, 3))
    return {
        "cons": [draw(cons.constraint()) for _ in range(n)],
        "s": list(draw(st.permutations(FUNS))),
        "kappa": [draw(cons.number(-4, 4)) for _ in range(n)],
        "g": draw(cons.polynomial()),
    }


# ------------------------------------------------------------------------------------------------------- histories


def check_history(case):
    from tfc.utils import CeSolver

    pool = case["pool"]
    n = len(pool["C"][0])
    gps = {"g": cons.poly(case["gp"]), "h": cons.poly(case["hp"])}
    base = {"g": ({}, g(x)), "h": ({}, h(x)), "q+g": ({2: Fraction(1)}, g(x) + x**2), "q": ({1: Fraction(2), 3: Fraction(1)}, 2 * x + x**3)}

    def free(name):
        """The free function as a polynomial once g and h are chosen."""
        add, _ = base[name]
        return cons.p_add(add, gps["h"] if name == "h" else gps["g"] if "g" in name else {})

    def plug(e):
        return cons.exact(cons.plug(cons.plug(e, g, gps["g"], [x]), h, gps["h"], [x]), x)

    solvers = []
    reads = 0

    def new(ci, si, ki, gi):
        m = {"C": ci, "s": si, "k": ki, "g": gi, "phi": None, "ce": None}
        m["cs"] = CeSolver(
            [cons.operator(c, x) for c in pool["C"][ci]], [cons.sq(v) for v in pool["K"][ki]],
            [mono(q) for q in pool["s"][si]], base[gi][1],
        )  # fmt: skip
        return m

    for init in case["init"]:
        solvers.append(new(*init))
    for op in case["ops"]:
        m = solvers[op[0] % len(solvers)]
        cs = m["cs"]
        kind = op[1]
        if kind == "C":
            m["C"] = op[2] % len(pool["C"])
            cs.C = [cons.operator(c, x) for c in pool["C"][m["C"]]]
            m["phi"] = m["ce"] = None
        elif kind == "s":
            m["s"] = op[2] % len(pool["s"])
            cs.s = [mono(q) for q in pool["s"][m["s"]]]
            m["phi"] = m["ce"] = None
        elif kind == "kappa":
            m["k"] = op[2] % len(pool["K"])
            cs.kappa = [cons.sq(v) for v in pool["K"][m["k"]]]
            m["ce"] = None
        elif kind == "g":
            m["g"] = ["g", "h", "q+g", "q"][op[2] % 4]
            cs.g = base[m["g"]][1]
            m["ce"] = None
        elif kind == "set phi":
            m["phi"] = [{(op[2] + i) % 3: Fraction(1 + i)} for i in range(n)]
            cs.phi = sp.Matrix([[cons.sym_poly(f, x) for f in m["phi"]]])
            m["ce"] = None
        elif kind == "set ce":
            m["ce"] = {op[2] % 4: Fraction(1 + op[2] % 3)}
            cs.ce = cons.sym_poly(m["ce"], x)
        else:
            reads += 1
            cl, pw, kap = pool["C"][m["C"]], pool["s"][m["s"]], [cons.Q(v) for v in pool["K"][m["k"]]]
            S = cons.support_matrix(cl, pw)
            inv = cons.inverse(S)
            gp = free(m["g"])
            rho = [k - cons.apply(c, gp) for c, k in zip(cl, kap)]
            phi = m["phi"] if m["phi"] is not None else (cons.switching(cl, pw) if inv is not None else None)
            where = f"after {case['ops'][: case['ops'].index(op)]}"
            if kind == "read S":
                if matrix_of(cs.S) != S:
                    fail(f"support matrix {where}", got=str(cs.S), expected=str(S))
            elif kind == "read rho":
                got = [plug(e) for e in cs.rho]
                if got != [({0: r} if r else {}) for r in rho]:
                    fail(f"projection functionals {where}", got=str(got), expected=str(rho))
            elif kind == "read data":
                if m["ce"] is None and [cons.Q(0) + Fraction(int(k.p), int(k.q)) for k in map(sp.sympify, cs.kappa)] != kap:
                    fail(f"kappa {where}", got=str(cs.kappa))
                if [plug(f) for f in cs.s] != [{q: Fraction(1)} for q in pw]:
                    fail(f"support functions {where}", got=str(cs.s))
                if plug(cs.g) != gp:
                    fail(f"free function {where}", got=str(cs.g))
            elif kind == "read ce":
                if m["ce"] is not None:
                    exp = m["ce"]
                elif phi is None:
                    continue
                else:
                    exp = gp
                    for f, r in zip(phi, rho):
                        exp = cons.p_add(exp, f, r)
                if plug(cs.ce) != exp:
                    fail(f"constrained expression {where}", got=str(plug(cs.ce)), expected=str(exp))
            elif kind == "read phi":
                if phi is None:
                    continue
                got = [plug(f) for f in cs.phi]
                if got != phi:
                    fail(f"switching functions {where}", got=str(got), expected=str(phi))
            elif kind == "read alpha":
                if inv is None:
                    continue
                if matrix_of(cs.alpha) != inv:
                    fail(f"inverse of the support matrix {where}", got=str(cs.alpha), expected=str(inv))
    return reads > 2 and len({o[1] for o in case["ops"]}) > 4


READS = ["read S", "read alpha", "read phi", "read rho", "read ce", "read ce", "read ce", "read data"]
SETS = ["C", "s", "kappa", "g", "set phi", "set ce"]


@st.composite
def history_case(draw):
    n = draw(st.integers(1, 3))
    Cs, ss = [], []
    for _ in range(draw(st.integers(2, 3))):
        p = draw(cons.problem(n, n, integrals=False))
        if len(p["cons"]) == n:
            Cs.append(p["cons"])
            ss.append(p["powers"])
    if not Cs:
        n = 1
        Cs, ss = [[[[1, 0, 0]]], [[[1, 0, 1]]]], [[0], [2]]
    pool = {"C": Cs, "s": ss, "K": [[draw(cons.number(-4, 4)) for _ in range(n)] for _ in range(3)]}
    one = st.tuples(st.integers(0, 1), st.sampled_from(READS) | st.sampled_from(SETS) | st.sampled_from(READS), st.integers(0, 5)).map(list)
    init = st.tuples(
        st.integers(0, len(Cs) - 1), st.integers(0, len(ss) - 1), st.integers(0, 2), st.sampled_from(["g", "h", "q+g", "q"])
    ).map(list)
    return {
        "pool": pool,
        "gp": draw(cons.polynomial(3)),
        "hp": draw(cons.polynomial(3)),
        "init": draw(gen.lists(init, 1, 2)),
        "ops": draw(gen.lists(one, 6, 18)) + [[0, "read ce", 0]],
    }


SUBS = [
    Sub(
        "exact", check_exact, exact_case, quick=420, thorough=6000, shards=2, ext=True,
        rule="1-5 independent constraints, monomial supports, any free polynomial, quantities read in any order. "
        "Non-trivial: at least two constraints and a non-zero free function.",
    ),
    Sub(
        "two variables", check_two, two_case, quick=240, thorough=3000, shards=2,
        rule="constraints in x then in y, whose data come from one polynomial, the x expression given as free function at "
        "construction or later. Non-trivial: at least three constraints.",
    ),
    Sub(
        "functions", check_functions, functions_case, quick=180, thorough=2500, shards=2,
        rule="supports among 1, x, x^2, sin, cos, exp. Non-trivial: at least two constraints and a regular support matrix.",
    ),
    Sub(
        "histories", check_history, history_case, quick=300, thorough=5000, shards=2,
        rule="sequences of setters and reads on one or two solvers against a model that recomputes everything. "
        "Non-trivial: more than two reads and more than four kinds of operation.",
    ),
]  # fmt: skip
