"""Linear constraints on a function of one variable, as JSON, with an exact model of them on polynomials.

A constraint is a list of terms: [c, k, a] is c * u^(k)(a), and [c, "int", a, b] is c * integral of u from a to b.
Numbers are integers or [p, q] for p/q.
"""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .runner import fail


def Q(v):
    return Fraction(v[0], v[1]) if isinstance(v, list) else Fraction(v)


# ---- exact polynomials: {power: Fraction}, or in two variables {(px, py): Fraction}


def p_add(p, q, c=1):
    out = dict(p)
    for k, v in q.items():
        out[k] = out.get(k, 0) + c * v
        if out[k] == 0:
            del out[k]
    return out


def p_mul(p, q):
    out = {}
    for a, u in p.items():
        for b, v in q.items():
            k = a + b if isinstance(a, int) else (a[0] + b[0], a[1] + b[1])
            out[k] = out.get(k, 0) + u * v
    return {k: v for k, v in out.items() if v}


def apply(con, p):
    """The constraint of the polynomial p in one variable."""
    tot = Fraction(0)
    for t in con:
        c = Q(t[0])
        if t[1] == "int":
            a, b = Q(t[2]), Q(t[3])
            tot += c * sum((v * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k, v in p.items()), Fraction(0))
        else:
            a = Q(t[2])
            for k, v in p.items():
                if k >= t[1]:
                    f = 1
                    for j in range(t[1]):
                        f *= k - j
                    tot += c * v * f * a ** (k - t[1])
    return tot


def apply2(con, p, var):
    """The constraint in variable number var of a polynomial in two variables: a polynomial in the other one."""
    out = {}
    groups = {}
    for k, v in p.items():
        groups.setdefault(k[1 - var], {})[k[var]] = v
    for other, q in groups.items():
        v = apply(con, q)
        if v:
            out[other] = v
    return out


def inverse(M):
    n = len(M)
    A = [list(map(Fraction, row)) + [Fraction(int(i == j)) for j in range(n)] for i, row in enumerate(M)]
    for i in range(n):
        piv = next((r for r in range(i, n) if A[r][i] != 0), None)
        if piv is None:
            return None
        A[i], A[piv] = A[piv], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                f = A[r][i]
                A[r] = [u - f * v for u, v in zip(A[r], A[i])]
    return [row[n:] for row in A]


def support_matrix(cons, powers):
    return [[apply(c, {p: Fraction(1)}) for p in powers] for c in cons]


def switching(cons, powers):
    """phi_i as polynomials, or None when the support matrix is singular."""
    inv = inverse(support_matrix(cons, powers))
    if inv is None:
        return None
    return [{p: inv[k][i] for k, p in enumerate(powers) if inv[k][i]} for i in range(len(cons))]


def independent(cons, maxpow=8):
    """Powers of x, lowest first, for which the support matrix is regular; None if there are none."""
    powers, rows = [], []
    for p in range(maxpow):
        col = [apply(c, {p: Fraction(1)}) for c in cons]
        trial = rows + [col]
        if _rank(trial) == len(trial):
            rows, powers = trial, powers + [p]
        if len(powers) == len(cons):
            return powers
    return None


def _rank(rows):
    M = [list(r) for r in rows]
    rank = 0
    for c in range(len(M[0]) if M else 0):
        piv = next((r for r in range(rank, len(M)) if M[r][c] != 0), None)
        if piv is None:
            continue
        M[rank], M[piv] = M[piv], M[rank]
        for r in range(rank + 1, len(M)):
            if M[r][c] != 0:
                f = M[r][c] / M[rank][c]
                M[r] = [u - f * v for u, v in zip(M[r], M[rank])]
        rank += 1
    return rank


def expression(cons, powers, kappa, g):
    """g + sum phi_i (kappa_i - C_i g), exactly."""
    phi = switching(cons, powers)
    out = dict(g)
    for c, f, k in zip(cons, phi, kappa):
        out = p_add(out, f, k - apply(c, g))
    return out


# ---- the same objects in sympy


def sq(v, flt=False):
    """As an exact number, or as a float."""
    import sympy as sp

    v = Q(v) if not isinstance(v, Fraction) else v
    return sp.Float(float(v)) if flt and v.denominator > 1 else sp.Rational(v.numerator, v.denominator)


def operator(con, var, flt=False):
    """The constraint operator to give to the solver."""
    import sympy as sp

    def sq(v):
        return globals()["sq"](v, flt)

    def C(u):
        tot = sp.Integer(0)
        for t in con:
            if t[1] == "int":
                tot = tot + sq(t[0]) * sp.integrate(u, (var, sq(t[2]), sq(t[3])))
            else:
                e = sp.diff(u, var, t[1]) if t[1] else u
                e = sp.sympify(e).subs(var, sq(t[2]))
                tot = tot + sq(t[0]) * e
        return tot

    return C


def sym_poly(p, *vars):
    import sympy as sp

    tot = sp.Integer(0)
    for k, v in p.items():
        ks = k if isinstance(k, tuple) else (k,)
        term = sq(v)
        for e, var in zip(ks, vars):
            term = term * var**e
        tot = tot + term
    return tot


def exact(expr, *vars):
    """A sympy polynomial as {power(s): Fraction}."""
    import sympy as sp

    expr = sp.expand(expr)
    if expr == 0:
        return {}
    poly = sp.Poly(expr, *vars)
    out = {}
    for mon, c in poly.terms():
        if not c.is_Rational:
            fail("a coefficient is not a number", expr=str(expr))
        out[mon if len(vars) > 1 else mon[0]] = Fraction(int(c.p), int(c.q))
    return out


def plug(expr, fun, poly, vars):
    """expr with the undefined function replaced by a polynomial (a dict), everything carried out."""
    import sympy as sp

    body = sym_poly(poly, *vars)
    f = sp.Lambda(tuple(vars), body)
    # .doit() first carries out derivatives at points that sympy keeps as Subs
    return sp.sympify(expr).replace(fun, lambda *a: f(*a)).doit()


# ---- strategies


def number(lo=-3, hi=3, decimals=False):
    if decimals:
        return st.tuples(st.integers(1000 * lo, 1000 * hi), st.just(1000)).map(list) | number(lo, hi)
    return st.integers(lo, hi) | st.tuples(st.integers(2 * lo, 2 * hi), st.just(2)).map(list) | st.integers(lo, hi)


def third(s):
    """Points moved by 1/3. Sympy takes derivatives in two variables at one and the same number in both for equal when
    they are of the same total order, and then adds them up, so points in y are never the same numbers as points in x."""
    return s.map(lambda v: [3 * v[0] + v[1], 3 * v[1]] if isinstance(v, list) else [3 * v + 1, 3])


def _nonzero(v):
    return Q(v) != 0


@st.composite
def term(draw, integrals=True, maxk=2, decimals=False, second=False):
    point = third if second else lambda s: s
    c = draw(st.just(1) | number(decimals=decimals).filter(_nonzero))
    if integrals and draw(st.integers(0, 5)) == 0:
        a = draw(point(number(-2, 2, decimals)))
        b = draw(point(number(-2, 3 - second, decimals)).filter(lambda v: Q(v) != Q(a)))
        return [c, "int", a, b]
    return [c, draw(st.integers(0, maxk)), draw(point(number(-2, 2, decimals)))]


def constraint(*a):
    one = term(*a).map(lambda t: [[1] + t[1:]])
    return one | one | st.lists(term(*a), min_size=2, max_size=3)


@st.composite
def problem(draw, lo=1, hi=4, integrals=True, maxk=2, decimals=False, second=False):
    """Independent constraints, powers for their support functions in any order, and kappas; second: in a second variable."""
    want = draw(st.integers(lo, hi))
    cons = []
    for _ in range(want):
        c = draw(constraint(integrals, maxk, decimals, second))
        if independent(cons + [c]) is not None:
            cons.append(c)
    if not cons:
        cons = [[[1, 0, draw(third(number(-2, 2)) if second else number(-2, 2))]]]
    powers = independent(cons)
    if draw(st.booleans()):
        shift = [p + draw(st.integers(0, 2)) for p in powers]
        if len(set(shift)) == len(shift) and inverse(support_matrix(cons, shift)) is not None:
            powers = shift
    powers = draw(st.permutations(powers))
    return {"cons": cons, "powers": list(powers), "kappa": [draw(number(-4, 4, decimals)) for _ in cons]}


@st.composite
def polynomial(draw, deg=4):
    return {str(k): draw(number(-3, 3)) for k in draw(st.sets(st.integers(0, deg), min_size=1, max_size=4))}


def poly(p):
    """From JSON."""
    out = {}
    for k, v in p.items():
        key = tuple(int(s) for s in k.split(",")) if "," in k else int(k)
        if Q(v):
            out[key] = Q(v)
    return out
