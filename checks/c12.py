"""C12: code printed for an expression computes that expression."""

import numpy as np
from hypothesis import strategies as st

from vlib import cons, gen
from vlib.printer import namespace, tfc_code
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "The expressions are built from numbers, pi, E, symbols, sums, products, powers, the elementary functions, undefined "
    "functions of any arguments, their derivatives and their substitutions: what the solver produces. Integrals and "
    "piecewise functions are not printable as such code and are left out.",
    "The printed code is run with np as jax.numpy, egrad as the library's, and free functions that broadcast numbers.",
]


def setup():
    global sp, X, FUN
    import sympy as sp_

    sp = sp_
    X = {n: sp.Symbol(n) for n in ("x", "y", "xx", "t")}
    FUN = {n: sp.Function(n) for n in ("g", "u1", "gx")}


UNARY = ["sin", "cos", "tan", "exp", "tanh", "sinh", "cosh", "atan", "asin", "log", "sqrt", "abs", "neg", "inv"]


def build(e):
    """JSON to sympy."""
    k = e[0]
    if k == "int":
        return sp.Integer(e[1])
    if k == "rat":
        return sp.Rational(e[1], e[2])
    if k == "const":
        return {"pi": sp.pi, "E": sp.E, "sqrt2": sp.sqrt(2), "half": sp.Float(0.5)}[e[1]]
    if k == "sym":
        return X[e[1]]
    if k == "add":
        return build(e[1]) + build(e[2])
    if k == "mul":
        return build(e[1]) * build(e[2])
    if k == "sub":
        return build(e[1]) - build(e[2])
    if k == "pow":
        return build(e[1]) ** e[2]
    if k == "un":
        a = build(e[2])
        safe = 1 + a**2
        return {
            "sin": lambda: sp.sin(a), "cos": lambda: sp.cos(a), "tan": lambda: sp.tan(sp.tanh(a)), "exp": lambda: sp.exp(sp.tanh(a)),
            "tanh": lambda: sp.tanh(a), "sinh": lambda: sp.sinh(sp.tanh(a)), "cosh": lambda: sp.cosh(sp.tanh(a)),
            "atan": lambda: sp.atan(a), "asin": lambda: sp.asin(sp.tanh(a) / 2), "log": lambda: sp.log(safe),
            "sqrt": lambda: sp.sqrt(safe), "abs": lambda: sp.Abs(a), "neg": lambda: -a, "inv": lambda: 1 / safe,
        }[e[1]]()  # fmt: skip
    if k == "fun":
        return FUN[e[1]](*[build(a) for a in e[2]])
    if k == "der":  # derivative of a function of symbols
        f = FUN[e[1]](*[X[s] for s in e[2]])
        for s, n in e[3]:
            f = sp.Derivative(f, X[s], n) if n else f
        return f.doit() if len(e) > 4 and e[4] else f
    if k == "at":  # the derivative, or function, at a place
        f = FUN[e[1]](*[X[s] for s in e[2]])
        for s, n in e[3]:
            f = sp.diff(f, X[s], n) if n else f
        for s, v in e[4]:
            f = f.subs(X[s], build(v))
        return f
    if k == "Subs":
        f = FUN[e[1]](*[X[s] for s in e[2]])
        for s, n in e[3]:
            f = sp.diff(f, X[s], n) if n else f
        return sp.Subs(f, [X[s] for s, _ in e[4]], [build(v) for _, v in e[4]])
    raise KeyError(k)


# Concrete functions for the undefined ones; a in the order of the arguments
def concrete(name, nargs, np_):
    """A smooth function of nargs arguments, different in each of them."""
    base = {"g": 1.0, "u1": 2.0, "gx": 3.0}[name]

    def f(*a):
        s = 0.0
        for k, v in enumerate(a):
            s = s + np_.sin((0.3 + 0.2 * k) * v + 0.1 * base) * (1 + k) / base
        p = 1.0
        for k, v in enumerate(a):
            p = p * np_.cos((0.2 + 0.1 * k) * v + base)
        return s + p

    return f


def value(expr, pts):
    """The value of the expression at the points, by symbolic replacement and high-precision evaluation."""
    out = []
    for name, F in FUN.items():
        expr = expr.replace(F, lambda *a, name=name: concrete_sym(name, a))
    expr = expr.doit()
    free = sorted(expr.free_symbols, key=str)
    for i in range(len(next(iter(pts.values())))):
        v = expr.evalf(20, subs={s: sp.Float(pts[str(s)][i], 20) for s in free})
        out.append(complex(v))
    return np.array(out)


def concrete_sym(name, a):
    f = concrete(name, len(a), sp)

    class NP:
        sin, cos = sp.sin, sp.cos

    base = {"g": 1, "u1": 2, "gx": 3}[name]
    s = sp.Integer(0)
    p = sp.Integer(1)
    for k, v in enumerate(a):
        s += sp.sin(sp.Rational(3 + 2 * k, 10) * v + sp.Rational(base, 10)) * sp.Rational(1 + k, base)
        p *= sp.cos(sp.Rational(2 + k, 10) * v + base)
    return s + p


PTS = {"x": [0.3, -0.8], "y": [0.7, 0.4], "xx": [1.1, -0.2], "t": [-0.4, 0.6]}


def run_and_compare(expr, what):
    import jax.numpy as jnp
    from tfc.utils import egrad

    code = tfc_code(expr)
    ns = namespace({n: concrete(n, 0, jnp) for n in FUN}, 2, egrad)
    for s, v in PTS.items():
        ns[s] = jnp.array(v)
    exp = value(expr, PTS)
    if np.any(np.abs(exp.imag) > 1e-9) or not np.all(np.isfinite(exp)) or np.any(np.abs(exp) > 1e8):
        return False
    exp = exp.real
    try:
        got = eval(code, ns)
    except Exception as e:
        fail(f"{what}: the printed code does not run: {type(e).__name__}: {e}", code=code, expr=str(expr))
    got = np.broadcast_to(np.asarray(got, dtype=float), (2,))
    if not np.allclose(got, exp, rtol=1e-8, atol=1e-8):
        fail(f"{what}: the printed code computes something else", code=code, expr=str(expr), got=got.tolist(), expected=exp.tolist())
    return True


def check_expr(case):
    expr = build(case["e"])
    if expr.has(sp.zoo) or expr.has(sp.nan) or expr.has(sp.oo):
        return False
    ok = run_and_compare(expr, "expression")
    return ok and bool(expr.atoms(sp.core.function.AppliedUndef))


def check_ce(case):
    """Whole constrained expressions, in one or two variables."""
    from tfc.utils import CeSolver

    x, y = X["x"], X["y"]
    g = FUN["g"](x, y) if case["two"] else FUN["g"](x)
    px = case["px"]

    def make(p, var, other, free):
        flt = case["float"]
        K = [cons.sq(k, flt) + (sp.cos(other) * (i + 1) if case["two"] else 0) for i, k in enumerate(p["kappa"])]
        return CeSolver([cons.operator(c, var, flt) for c in p["cons"]], K, [var**q if q else sp.re(1) for q in p["powers"]], free)

    ce = make(px, x, y, g).ce
    if case["two"]:
        ce = make(case["py"], y, x, ce).ce
    if case["expand"]:
        ce = sp.expand(ce)
    if case["diff"]:
        ce = sp.diff(ce, x)
    run_and_compare(ce, "constrained expression")
    return len(px["cons"]) > 1 or case["two"]


def symbol():
    return st.sampled_from(["x", "y", "xx", "t"])


@st.composite
def function_node(draw, arg):
    name = draw(st.sampled_from(["g", "u1", "gx"]))
    syms = draw(gen.lists(symbol(), 1, 3, unique=True))
    ders = [[s, draw(st.sampled_from([1, 2, 1, 3]))] for s in draw(gen.lists(st.sampled_from(syms), 1, len(syms), unique=True))]
    kind = draw(st.sampled_from(["fun", "fun", "der", "der", "at", "at", "Subs"]))
    if kind == "fun":
        return ["fun", name, [draw(arg) for _ in range(draw(st.integers(1, 3)))]]
    if kind == "der":
        return ["der", name, syms, ders]
    # substitute a subset of the symbols by numbers or other symbols' expressions
    at = draw(gen.lists(st.sampled_from(syms), 1, min(2, len(syms)), unique=True))
    const = st.one_of(
        st.integers(-3, 3).map(lambda v: ["int", v]),
        st.tuples(st.integers(-5, 5), st.sampled_from([2, 3, 7])).map(lambda t: ["rat", t[0], t[1]]),
        st.sampled_from([["const", "pi"], ["const", "sqrt2"], ["const", "half"]]),
    )
    # never one number in two places: sympy then mixes up derivatives of the same total order (see cons.third)
    vals = draw(st.lists(const, min_size=len(at), max_size=len(at), unique_by=lambda v: round(float(build(v)), 9)))
    return [kind, name, syms, ders if draw(st.integers(0, 3)) else [], [[s, v] for s, v in zip(at, vals)]]


LEAF = st.one_of(
    symbol().map(lambda s: ["sym", s]),
    st.integers(-9, 9).map(lambda v: ["int", v]),
    st.tuples(st.integers(-9, 9), st.sampled_from([2, 3, 7])).map(lambda t: ["rat", t[0], t[1]]),
    st.sampled_from(["pi", "E", "sqrt2", "half"]).map(lambda c: ["const", c]),
)


@st.composite
def expression(draw, depth=4):
    kind = draw(st.sampled_from(["binary", "binary", "fun", "fun", "fun", "pow", "un", "leaf"])) if depth > 0 else "leaf"
    if kind == "leaf":
        return draw(LEAF)
    if kind == "binary":
        return [draw(st.sampled_from(["add", "mul", "sub"])), draw(expression(depth - 1)), draw(expression(depth - 2))]
    if kind == "pow":
        return ["pow", draw(expression(depth - 1)), draw(st.integers(1, 3))]
    if kind == "un":
        return ["un", draw(st.sampled_from(UNARY)), draw(expression(depth - 1))]
    return draw(function_node(expression(min(depth - 1, 2))))


@st.composite
def ce_case(draw):
    two = draw(st.booleans())
    return {
        "two": two,
        "float": draw(st.booleans()),
        "px": draw(cons.problem(1, 3, integrals=False)),
        "py": draw(cons.problem(1, 2, integrals=False, maxk=1, second=True)) if two else None,
        "expand": draw(st.booleans()),
        "diff": draw(st.sampled_from([False, False, True])),
    }


SUBS = [
    Sub(
        "expressions", check_expr, expression().map(lambda e: {"e": e}), quick=1280, thorough=12000, shards=5,
        rule="random expressions, their printed code run on arrays and compared with 20-digit evaluation of the expression. "
        "Non-trivial: the expression has an undefined function, and its value is real and finite.",
    ),
    Sub(
        "constrained expressions", check_ce, ce_case, quick=240, thorough=2500, shards=3,
        rule="solutions of the solver in one or two variables, as they come, expanded or differentiated. Non-trivial: more "
        "than one constraint.",
    ),
]  # fmt: skip
