"""C11: the solver's own check of a constrained expression tells the truth."""

from fractions import Fraction

from hypothesis import strategies as st

from vlib import cons
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Constraints with rational data; the expression is a constrained expression plus a polynomial, so exact arithmetic "
    "decides whether each constraint is met. Integral constraints are used with polynomial free functions only, because "
    "symbolic integration of an undefined function takes seconds per case.",
]


def setup():
    global sp, x, y, g
    import sympy as sp_

    sp = sp_
    x, y = sp.symbols("x y")
    g = sp.Function("g")


def mono(p, var):
    return var**p if p else sp.re(1)


def kernel(p, q):
    """q minus its projection: every constraint of it is zero."""
    out = dict(q)
    for c, f in zip(p["cons"], cons.switching(p["cons"], p["powers"])):
        out = cons.p_add(out, f, -cons.apply(c, q))
    return out


def check_one(case):
    from tfc.utils import CeSolver

    p = case["p"]
    cl = p["cons"]
    kap = [cons.Q(k) for k in p["kappa"]]
    integral = any(t[1] == "int" for c in cl for t in c)
    gp = cons.poly(case["g"])
    poly_g = case["gkind"] == "polynomial" or integral
    free = cons.sym_poly(gp, x) if poly_g else g(x)

    def solver(K, f=free):
        return CeSolver([cons.operator(c, x) for c in cl], [cons.sq(k) for k in K], [mono(q, x) for q in p["powers"]], f)

    cs = solver(kap)
    if cs.checkCe() is not True:
        fail("its own expression is reported not to meet the constraints", ce=str(cs.ce))
    how = case["how"]
    q = cons.poly(case["q"])
    ce = cs.ce
    if how == "kernel":
        k = kernel(p, q)
        cs.ce = sp.expand(ce + cons.sym_poly(k, x)) if case["expand"] else ce + cons.sym_poly(k, x)
        expect = True
    elif how == "add":
        cs.ce = ce + cons.sym_poly(q, x)
        expect = all(cons.apply(c, q) == 0 for c in cl)
    elif how == "other kappa":
        k2 = list(kap)
        i = case["i"] % len(cl)
        k2[i] += cons.Q(case["dk"])
        cs.ce = solver(k2).ce
        expect = k2 == kap
    elif how == "one constraint":
        # meets all constraints but one
        i = case["i"] % len(cl)
        phi = cons.switching(cl, p["powers"])[i]
        dk = cons.Q(case["dk"])
        cs.ce = ce + cons.sym_poly({k: v * dk for k, v in phi.items()}, x)
        expect = dk == 0
    elif how == "other free function":
        cs.ce = solver(kap, cons.sym_poly(q, x)).ce
        expect = True
    elif how == "free function":
        cs.ce = free
        expect = all(cons.apply(c, gp) == k for c, k in zip(cl, kap)) if poly_g else False
    else:  # set other data, the expression follows
        cs.kappa = [cons.sq(k + 1) for k in kap]
        expect = True
    got = cs.checkCe()
    if bool(got) is not expect or got not in (True, False):
        fail("checkCe", how=how, got=got, expected=expect, ce=str(cs.ce))
    return how in ("kernel", "one constraint", "other kappa", "add") and len(cl) > 1


HOW = ["kernel", "add", "other kappa", "one constraint", "one constraint", "other free function", "free function", "new data"]


@st.composite
def one_case(draw):
    return {
        "p": draw(cons.problem(1, 4, integrals=draw(st.sampled_from([False, False, False, True])))),
        "g": draw(cons.polynomial()),
        "gkind": draw(st.sampled_from(["polynomial", "function"])),
        "q": draw(cons.polynomial(5)),
        "how": draw(st.sampled_from(HOW)),
        "expand": draw(st.booleans()),
        "i": draw(st.integers(0, 3)),
        "dk": draw(cons.number(-3, 3)),
    }


def check_two(case):
    """Constraints in x whose data depend on y; the expression of both variables checked by both solvers."""
    from tfc.utils import CeSolver

    px, py = case["px"], case["py"]
    u = cons.poly(case["u"])

    def make(pr, var, other, free, k):
        return CeSolver(
            [cons.operator(c, var) for c in pr["cons"]],
            [cons.sym_poly(cons.apply2(c, u, k), other) for c in pr["cons"]],
            [mono(q, var) for q in pr["powers"]],
            free,
        )

    csx = make(px, x, y, g(x, y), 0)
    csy = make(py, y, x, csx.ce, 1)
    csx.ce = csy.ce
    # The x expression of mixed derivatives can be left unsimplified by sympy, so the free function is chosen
    gp = cons.poly(case["g"])
    ce = cons.plug(csy.ce, g, gp, [x, y])
    for cs in (csx, csy):
        cs.ce = ce
        if not cs.checkCe():
            fail("the expression of both variables is reported not to meet the constraints")
    q = cons.poly(case["q"])
    for k, (cs, pr) in enumerate(((csx, px), (csy, py))):
        cs.ce = ce + cons.sym_poly(q, x, y)
        expect = all(not cons.apply2(c, q, k) for c in pr["cons"])
        if bool(cs.checkCe()) is not expect:
            fail("checkCe of the changed expression", variable=k, expected=expect, added=str(q))
    return True


def poly2(deg=3):
    return st.dictionaries(
        st.tuples(st.integers(0, deg), st.integers(0, deg)).map(lambda t: f"{t[0]},{t[1]}"), cons.number(-3, 3), min_size=1, max_size=4
    )


@st.composite
def two_case(draw):
    px = draw(cons.problem(1, 2, integrals=False, maxk=1))
    py = draw(cons.problem(1, 2, integrals=False, maxk=1, second=True))
    q = draw(poly2())
    if draw(st.booleans()):
        # something that one of the two sets does not see
        a = kernel(px, {draw(st.integers(0, 4)): Fraction(1)})
        e = draw(st.integers(0, 2))
        q = {f"{k},{e}": [v.numerator, v.denominator] for k, v in a.items()} or q
    return {"px": px, "py": py, "u": draw(poly2()), "g": draw(poly2()), "q": q}


SUBS = [
    Sub(
        "one variable", check_one, one_case, quick=1600, thorough=6000, shards=5,
        rule="an expression changed by a polynomial that meets, or breaks one or more of, 1-4 constraints; the verdict "
        "compared with exact arithmetic. Non-trivial: at least two constraints and a changed expression.",
    ),
    Sub(
        "two variables", check_two, two_case, quick=600, thorough=2500, shards=3,
        rule="expressions in two variables checked by both solvers. Non-trivial: all.",
    ),
]  # fmt: skip
