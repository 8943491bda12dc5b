"""C08: derivatives and compiled evaluations that JAX makes of the basis matrices are the true ones."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, multi, ref
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Reference matrices are those of C01-C04; orders up to 8 in total (3 for the random features of the Python backend).",
    "The C++ backend is driven eagerly and compiled, the Python backend eagerly: that is what each documents.",
    "Points are one-dimensional float64 arrays, or scalars under vmap; every argument of a multivariate basis is batched.",
]


def _setup_uni(case):
    from tfc import utfc

    x0, xf = case["dom"]
    m = case["m"]
    t = utfc(5, case["nC"], m - 1, basis=case["basis"], x0=x0, xf=xf, backend=case["backend"])
    w = b = None
    if case["basis"] in ref.ELM:
        w, b = gen.arr(case["ws"], m), gen.arr(case["ws"] + 1, m)
        t.basisClass.w, t.basisClass.b = w, b
    full = case["full"]
    keep = [k for k in range(m) if full or k not in gen.removed(case["nC"])]

    def R(x, d):
        v, s = ref.uni_H(case["basis"], np.asarray(x), x0, xf, m, d, w, b)
        return v[:, keep], s[:, keep]

    return t, R, len(keep), w, b


def _kink(case, x, w, b):
    if case["basis"] != "ELMReLU":
        return False
    x0, xf = case["dom"]
    return bool(np.any(np.abs(np.outer((x - x0) / (xf - x0), w) + b[None, :]) < 1e-9))


BASE = {0: "H", 1: "dH", 2: "d2H", 4: "d4H"}


def check_uni(case):
    import jax
    import jax.numpy as jnp
    from jax import lax
    from tfc.utils import egrad, egradSimple

    t, R, cols, w, b = _setup_uni(case)
    x0, xf = case["dom"]
    x = x0 + (xf - x0) * gen.frac(case["t"])
    d0, k, how, full = case["d0"], case["k"], case["how"], case["full"]
    f = lambda s: getattr(t, BASE[d0])(s, full=full)
    xi = gen.arr(case["ws"] + 2, cols)
    xj = jnp.array(x)
    eg = egrad if case["ws"] % 2 else egradSimple
    what = f"{case['backend']} {case['basis']} {how} of {BASE[d0]}, k={k}, full={full}"
    if _kink(case, x, w, b):
        return False

    def cmp(got, order, at=x, label=""):
        v, s = R(at, order)
        ref.compare(got, v, s, what + label)

    def cmpv(got, order, at=x, fac=1.0):
        v, s = R(at, order)
        ref.compare(np.asarray(got), (v @ xi) * fac, (s @ np.abs(xi)) * np.abs(fac), what)

    def chain(g, k, e=eg):
        for _ in range(k):
            g = e(g)
        return g

    if how == "jit":
        g = jax.jit(f)
        cmp(g(x), d0)
        x2 = x0 + (xf - x0) * gen.arr(case["ws"], len(x) + 1 + case["ws"] % 5, 0, 1)
        if not _kink(case, x2, w, b):
            cmp(g(x2), d0, x2, " at other points")
        cmp(g(xj), d0)
    elif how == "egrad":
        cmp(chain(f, k)(xj), d0 + k)
    elif how == "jit egrad":
        cmp(jax.jit(chain(f, k))(xj), d0 + k)
    elif how == "egrad jit":
        cmp(chain(jax.jit(f), k, egrad)(xj), d0 + k)
    elif how == "jit steps":
        g = f
        for _ in range(k):
            g = jax.jit(egrad(g))
        cmp(g(xj), d0 + k)
    elif how in ("compose", "jit compose"):
        # H(phi(x)), with phi mapping the domain into itself
        L = xf - x0
        a1, a2 = 0.3, 0.35
        phi = lambda s: x0 + L * (0.1 + a1 * (s - x0) / L + a2 * jnp.sin((s - x0) / L))
        u = (x - x0) / L
        p = x0 + L * (0.1 + a1 * u + a2 * np.sin(u))
        p1 = a1 + a2 * np.cos(u)
        p2 = -a2 * np.sin(u) / L
        if _kink(case, p, w, b):
            return False
        g = lambda s: f(phi(s)) @ xi
        kk = min(k, 2)
        h = chain(g, kk)
        got = (jax.jit(h) if how == "jit compose" else h)(xj)
        V, S = zip(*[R(p, d0 + j) for j in range(3)])
        if kk == 0:
            v, s = V[0], S[0]
        elif kk == 1:
            v, s = V[1] * p1[:, None], S[1] * np.abs(p1)[:, None]
        else:
            v = V[2] * (p1**2)[:, None] + V[1] * p2[:, None]
            s = S[2] * (p1**2)[:, None] + S[1] * np.abs(p2)[:, None]
        ref.compare(np.asarray(got), v @ xi, s @ np.abs(xi), what)
    elif how == "jacobian in the coefficients":
        h = chain(f, k)
        J = jax.jacfwd(lambda q: h(xj) @ q)(jnp.array(xi))
        cmp(J, d0 + k)
        J = jax.jacrev(lambda q: h(xj) @ q)(jnp.array(xi))
        cmp(J, d0 + k)
        if case["backend"] == "C++":
            J = jax.jit(jax.jacfwd(lambda q, s: h(s) @ q, 0))(jnp.array(xi), xj)
            cmp(J, d0 + k)
    elif how == "jacobian in x":
        J = np.asarray(jax.jit(jax.jacfwd(lambda s: f(s) @ xi))(xj))
        v, s = R(x, d0 + 1)
        ref.compare(J, np.diag(v @ xi), np.tile((s @ np.abs(xi))[:, None], (1, len(x))), what)
    elif how == "grad":
        g = jax.grad(lambda s: jnp.sum(f(s) @ xi))
        cmpv(g(xj), d0 + 1)
        cmpv(jax.jit(g)(xj), d0 + 1)
        h = jax.jacfwd(g)
        v, s = R(x, d0 + 2)
        ref.compare(np.asarray(jax.jit(h)(xj)), np.diag(v @ xi), np.tile((s @ np.abs(xi))[:, None], (1, len(x))), what + " twice")
    elif how == "jvp":
        tan = gen.arr(case["ws"] + 5, len(x))
        tan[0] = 0.0
        g = lambda s: f(s) @ xi
        out, dot = jax.jvp(g, (xj,), (jnp.array(tan),))
        cmpv(out, d0)
        cmpv(dot, d0 + 1, fac=tan)
        out, dot = jax.jit(lambda a, e: jax.jvp(g, (a,), (e,)))(xj, jnp.array(tan))
        cmpv(out, d0)
        cmpv(dot, d0 + 1, fac=tan)
    elif how == "vmap":
        cmpv(jax.vmap(lambda s: f(s) @ xi)(xj), d0)
        cmpv(jax.jit(jax.vmap(lambda s: f(s) @ xi))(xj), d0)
        g = lambda s: f(s) @ xi
        for j in range(1, min(k, 3) + 1):
            g = jax.grad(g)
            cmpv(jax.jit(jax.vmap(g))(xj), d0 + j)
    elif how == "loops":
        n = len(x)
        body = lambda i, a: a + f(xj) * (i + 1.0)
        got = jax.jit(lambda z: lax.fori_loop(0, 3, body, z))(jnp.zeros((n, cols)))
        v, s = R(x, d0)
        ref.compare(got, 6.0 * v, 6.0 * s, what + " fori_loop")
        sh = [0.0, 0.25, 0.5]
        pts = [x0 + (x - x0) * (1 - e) for e in sh]
        if any(_kink(case, p, w, b) for p in pts):
            return False
        _, ys = jax.jit(lambda e: lax.scan(lambda c, e: (c, f(x0 + (c - x0) * (1 - e))), xj, e))(jnp.array(sh))
        for p, y in zip(pts, ys):
            cmp(y, d0, p, " scan")
        got = jax.jit(lambda z, flag: lax.cond(flag, lambda s: f(s), lambda s: 0.0 * f(s), z))(xj, case["ws"] % 2 == 0)
        ref.compare(got, v if case["ws"] % 2 == 0 else 0 * v, s, what + " cond")
    elif how == "linearize":
        out, lin = jax.linearize(lambda s: f(s) @ xi, xj)
        tan = gen.arr(case["ws"] + 5, len(x))
        cmpv(out, d0)
        cmpv(lin(jnp.array(tan)), d0 + 1, fac=tan)
    return len(x) > 1 and (how == "jit" or k + d0 > 0)


HOW_CPP = [
    "jit", "egrad", "jit egrad", "egrad jit", "jit steps", "compose", "jit compose", "jacobian in the coefficients",
    "jacobian in x", "grad", "jvp", "vmap", "loops", "linearize",
]  # fmt: skip
HOW_PY = ["egrad", "jacobian in the coefficients"]


@st.composite
def uni_case(draw):
    basis = draw(st.sampled_from(ref.POLY + ref.ELM))
    backend = draw(st.sampled_from(["C++", "C++", "C++", "Python"]))
    slow = backend == "Python" and basis in ref.ELM
    m = draw(st.integers(2, 12))
    return {
        "basis": basis,
        "backend": backend,
        "m": m,
        "nC": draw(gen.remove_spec(m)),
        "dom": draw(gen.domain()),
        "t": draw(gen.lists(st.floats(0, 1).map(lambda v: round(v, 5)), 1, 5)),
        "ws": draw(gen.seeds()),
        "full": draw(st.booleans()),
        "d0": draw(st.sampled_from([0, 0, 1, 2, 4])) if not slow else 0,
        "k": draw(st.integers(0, 4)) if not slow else draw(st.integers(1, 3)),
        "how": draw(st.sampled_from(HOW_CPP if backend == "C++" else HOW_PY)),
    }


# ---------------------------------------------------------------------------------------------------- multivariate


def check_multi(case):
    import jax
    import jax.numpy as jnp
    from tfc.utils import egrad, egradSimple

    t = multi.make(case)
    dim, how, full = case["dim"], case["how"], case["full"]
    o = multi.orders(case["base"], dim)
    x = multi.points(case)
    if multi.near_kink(case, x):
        return False
    f = lambda *a: getattr(t, case["base"])(*a, full=full)
    xj = tuple(jnp.array(r) for r in x)
    eg = egrad if case["xs"] % 2 else egradSimple
    seq = [v % dim for v in case["seq"]]
    what = f"{case['backend']} {case['basis']} dim={dim} {how} of {case['base']} seq={seq} full={full}"
    tol = max(multi.rtol(case), 1e-10)

    def R(at, extra=()):
        d = list(o)
        for v in extra:
            d[v] += 1
        return multi.matrix(case, at, tuple(d), full)

    v0, s0 = R(x)
    xi = gen.arr(case["xs"] + 2, v0.shape[1])

    def chain(g):
        for v in seq:
            g = eg(g, v)
        return g

    if how == "jit":
        g = jax.jit(f)
        ref.compare(g(*xj), v0, s0, what, tol)
        ref.compare(g(*x), v0, s0, what, tol)
        more = {**case, "np": case["np"] + 1 + case["xs"] % 4, "xs": case["xs"] // 2}
        x2 = multi.points(more)
        if not multi.near_kink(case, x2):
            v, s = R(x2)
            ref.compare(g(*x2), v, s, what + " at other points", tol)
    elif how == "egrad":
        ref.compare(chain(f)(*xj), *R(x, seq), what, tol)
    elif how == "jit egrad":
        ref.compare(jax.jit(chain(f))(*xj), *R(x, seq), what, tol)
    elif how == "jit steps":
        g = f
        for v in seq:
            g = jax.jit(egrad(g, v))
        ref.compare(g(*xj), *R(x, seq), what, tol)
    elif how in ("dependent", "jit dependent"):
        # u(x_0, ..., x_i = x_0-dependent ..., ): total derivative along a line
        x0, xf = multi.ends(case)
        L = xf - x0
        r = gen.arr(case["xs"] + 7, dim, 0.2, 0.9)
        c0 = gen.arr(case["xs"] + 8, dim, 0.02, 0.1)
        u = np.clip((x[0] - x0[0]) / L[0], 0, 1)
        at = x0[:, None] + L[:, None] * (c0[:, None] + np.outer(r, u))
        if multi.near_kink(case, at):
            return False
        line = lambda s: f(*[x0[j] + L[j] * (c0[j] + r[j] * (s - x0[0]) / L[0]) for j in range(dim)]) @ xi
        s_in = jnp.array(x0[0] + L[0] * u)
        g = egrad(line)
        got = (jax.jit(g) if how == "jit dependent" else g)(s_in)
        v = s = 0.0
        for j in range(dim):
            fac = L[j] * r[j] / L[0]
            a, e = R(at, (j,))
            v, s = v + a * fac, s + e * abs(fac)
        ref.compare(np.asarray(got), v @ xi, s @ np.abs(xi), what, tol)
    elif how == "jacobian in the coefficients":
        h = chain(f)
        v, s = R(x, seq)
        ref.compare(jax.jacfwd(lambda q: h(*xj) @ q)(jnp.array(xi)), v, s, what, tol)
        ref.compare(jax.jacrev(lambda q: h(*xj) @ q)(jnp.array(xi)), v, s, what, tol)
        if case["backend"] == "C++":
            J = jax.jit(jax.jacfwd(lambda q, *a: h(*a) @ q, 0))(jnp.array(xi), *xj)
            ref.compare(J, v, s, what, tol)
    elif how == "jvp":
        tans = [gen.arr(case["xs"] + 20 + j, x.shape[1]) for j in range(dim)]
        if case["xs"] % 3 == 0:
            tans[case["xs"] % dim] *= 0.0
        v = s = 0.0
        for j in range(dim):
            a, e = R(x, (j,))
            v, s = v + a * tans[j][:, None], s + e * np.abs(tans[j])[:, None]
        tj = tuple(jnp.array(a) for a in tans)
        for g in (lambda a, e: jax.jvp(f, a, e), jax.jit(lambda a, e: jax.jvp(f, a, e))):
            out, dot = g(xj, tj)
            ref.compare(out, v0, s0, what, tol)
            ref.compare(dot, v, s, what, tol)
    elif how == "grad":
        j = case["xs"] % dim
        g = jax.grad(lambda *a: jnp.sum(f(*a) @ xi), j)
        v, s = R(x, (j,))
        ref.compare(np.asarray(g(*xj)), v @ xi, s @ np.abs(xi), what, tol)
        ref.compare(np.asarray(jax.jit(g)(*xj)), v @ xi, s @ np.abs(xi), what, tol)
    elif how == "vmap":
        g = lambda *a: f(*a) @ xi
        ref.compare(np.asarray(jax.vmap(g)(*xj)), v0 @ xi, s0 @ np.abs(xi), what, tol)
        for v in seq[:2]:
            g = jax.grad(g, v)
        a, e = R(x, seq[:2])
        ref.compare(np.asarray(jax.jit(jax.vmap(g))(*xj)), a @ xi, e @ np.abs(xi), what, tol)
    elif how == "loops":
        got = jax.jit(lambda z: jax.lax.fori_loop(0, 3, lambda i, a: a + f(*xj) * (i + 1.0), z))(jnp.zeros(v0.shape))
        ref.compare(got, 6 * v0, 6 * s0, what, tol)
        got = jax.jit(lambda c: jax.lax.scan(lambda c, e: (c, e * f(*c)), c, jnp.array([1.0, 2.0])))(xj)[1]
        ref.compare(got[1], 2 * v0, 2 * s0, what, tol)
    return dim > 1 and x.shape[1] > 1


HOWM_CPP = ["jit", "egrad", "jit egrad", "jit steps", "dependent", "jit dependent", "jacobian in the coefficients", "jvp", "grad", "vmap", "loops"]
HOWM_PY = ["egrad", "jacobian in the coefficients"]


@st.composite
def multi_case(draw):
    backend = draw(st.sampled_from(["C++", "C++", "C++", "Python"]))
    if draw(st.sampled_from([True, True, False])):
        c = draw(multi.poly_case(dims=(1, 2, 2, 3, 3, 4), backends=(backend,)))
    else:
        c = draw(multi.elm_case(dims=(1, 2, 2, 3, 3), backends=(backend,), maxm=10))
    c["m"] = min(c["m"], 7)
    if c["basis"] in ref.ELM:
        c["nC"] = draw(gen.remove_spec(c["m"]))
    else:
        c["nC"] = [draw(multi.dim_remove(c["m"])) for _ in range(c["dim"])]
    c["np"] = min(c["np"], 5)
    del c["d"]
    slow = backend == "Python" and c["basis"] in ref.ELM
    names = [n for n in multi.METHODS if multi.orders(n, c["dim"]) is not None]
    c["base"] = "H" if slow else draw(st.just("H") | st.sampled_from(names))
    c["seq"] = draw(gen.lists(st.integers(0, c["dim"] - 1), 1, 2 if slow else 4))
    c["full"] = draw(st.booleans())
    c["how"] = draw(st.sampled_from(HOWM_CPP if backend == "C++" else HOWM_PY))
    return c


SUBS = [
    Sub(
        "univariate", check_uni, uni_case, quick=1440, thorough=14000, shards=4,
        rule="one way of transforming one basis method (jit, nested element-wise derivatives inside and outside jit, chain "
        "rule, Jacobians in x and in the coefficients, reverse mode, jvp with any tangent, vmap, loops, linearize). "
        "Non-trivial: several points and some derivative taken (or a compiled evaluation).",
    ),
    Sub(
        "multivariate", check_multi, multi_case, quick=1280, thorough=14000, shards=4,
        rule="as univariate in 1-4 dimensions, with mixed partial derivatives in any order and arguments that depend on "
        "each other. Non-trivial: more than one dimension and several points.",
    ),
]  # fmt: skip
