"""C07: what removing basis functions does, however the functions to remove are given."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, multi, ref
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Indices to remove are distinct, non-negative and below the number of functions; fewer are removed than there are "
    "functions. Anything else is invalid input (C25).",
    "The oracle is metamorphic: the matrix of all functions with the columns removed, and the same object built from "
    "another way of writing the same set. Values themselves are C01-C04.",
]
METHODS_U = ["H", "dH", "d2H", "d4H", "d8H"]


def spell_1d(idx, how, seed):
    """The set of indices idx written as `how`; None when it cannot be."""
    import jax.numpy as jnp

    idx = sorted(idx)
    perm = np.random.RandomState(seed % 2**32).permutation(len(idx))
    mixed = [idx[k] for k in perm]
    if how == "int":
        return len(idx) if idx == list(range(len(idx))) else None
    if how == "minus one":
        return -1 if not idx else None
    if how == "list":
        return idx
    if how == "permuted list":
        return mixed
    if how == "int32 array":
        return np.array(mixed, dtype=np.int32)
    if how == "int64 array":
        return np.array(mixed, dtype=np.int64)
    if how == "strided array":
        return gen.as_kind(np.array(mixed, dtype=np.int32), "strided").astype(np.int32) if mixed else None
    return jnp.array(mixed, dtype=int)


SPELL_1D = ["int", "minus one", "list", "permuted list", "int32 array", "int64 array", "strided array", "jax array"]


def _same(got, exp, what):
    got, exp = np.asarray(got), np.asarray(exp)
    if got.shape != exp.shape:
        fail(f"{what}: shape {got.shape}, expected {exp.shape}")
    if not np.allclose(got, exp, rtol=1e-12, atol=1e-12 * (1 + (np.max(np.abs(exp)) if exp.size else 0))):
        fail(f"{what}: differs", got=got.tolist()[:2], expected=exp.tolist()[:2])


def check_uni(case):
    import jax
    from tfc import utfc

    m = case["m"]
    idx = sorted(gen.removed(case["nC"]))
    keep = [k for k in range(m) if k not in idx]
    x0, xf = case["dom"]
    elm = case["basis"] in ref.ELM
    x = x0 + (xf - x0) * gen.frac(case["t"])

    def build(nC):
        t = utfc(7, nC, m - 1, basis=case["basis"], x0=x0, xf=xf, backend=case["backend"])
        if elm:
            t.basisClass.w, t.basisClass.b = gen.arr(case["ws"], m), gen.arr(case["ws"] + 1, m)
        return t

    meths = METHODS_U[:2] if elm and case["backend"] == "Python" else METHODS_U
    whole = build(0)
    base = {f: np.asarray(getattr(whole, f)(x, full=True)) for f in meths}
    for how in case["how"]:
        nC = spell_1d(idx, how, case["ws"])
        if nC is None:
            continue
        t = build(nC)
        for f in meths:
            if base[f].shape[1] != m:
                fail("number of all functions", got=base[f].shape[1], expected=m)
            g = getattr(t, f)
            _same(g(x), base[f][:, keep], f"{f}, nC as {how}")
            _same(g(x, full=True), base[f], f"{f}, all functions, nC as {how}")
        if case["backend"] == "C++" and case["jit"]:
            f = meths[case["ws"] % len(meths)]
            g = getattr(t, f)
            _same(jax.jit(lambda x: g(x))(x), base[f][:, keep], f"jit {f}, nC as {how}")
            _same(jax.jit(lambda x: g(x, full=True))(x), base[f], f"jit {f}, all functions, nC as {how}")
    return len(idx) > 0 and len(keep) > 1


def spell_dims(gone, how, seed):
    import jax.numpy as jnp

    r = np.random.RandomState(seed % 2**32)
    rows = [[sorted(g)[k] for k in r.permutation(len(g))] for g in gone]
    ints = [len(g) if sorted(g) == list(range(len(g))) else None for g in gone]
    if how == "ints":
        return None if None in ints else ints
    if how in ("int array", "jax int array"):
        if None in ints:
            return None
        return np.array(ints) if how == "int array" else jnp.array(ints)
    if how == "lists":
        return [row if row else -1 for row in rows]
    if how == "mixed":
        return [i if i is not None else row for i, row in zip(ints, rows)]
    if how == "arrays":
        return [np.array(row, dtype=np.int32) if row else -1 for row in rows]
    if how == "jax arrays":
        return [jnp.array(row, dtype=int) if row else -1 for row in rows]
    full = multi.padded(rows, seed)
    if full is None:
        return None
    full = np.array(full, dtype=np.int32)
    if how == "matrix":
        return full
    if how == "lists with -1":
        return full.tolist()
    return jnp.array(full)


SPELL_DIM = ["ints", "int array", "jax int array", "lists", "mixed", "arrays", "jax arrays", "matrix", "lists with -1", "jax matrix"]


def check_multi(case):
    import jax

    dim, m = case["dim"], case["m"]
    elm = case["basis"] in ref.ELM
    gone = multi.gone(case)
    x = multi.points(case)
    none = [0] * dim if not elm else 0
    whole = multi.make({**case, "nC": none})
    if elm:
        keep = [k for k in range(m) if k not in gone]
        size = m
    else:
        every = ref.products(m, dim, None)
        keep = [k for k, i in enumerate(every) if not all(i[j] in gone[j] for j in range(dim))]
        size = len(every)
    names = ["H", "Hx"] if elm and case["backend"] == "Python" else [n for n in multi.METHODS if multi.orders(n, dim) is not None]
    base = {f: np.asarray(getattr(whole, f)(*x, full=True)) for f in names}
    for how in case["how"]:
        nC = spell_1d(gone, how, case["xs"]) if elm else spell_dims(gone, how, case["xs"])
        if nC is None:
            continue
        t = multi.make({**case, "nC": nC})
        if (t.basisClass.numBasisFunc, t.basisClass.numBasisFuncFull) != (len(keep), size):
            fail("number of functions", how=how, got=(t.basisClass.numBasisFunc, t.basisClass.numBasisFuncFull), expected=(len(keep), size))
        for f in names:
            g = getattr(t, f)
            _same(g(*x), base[f][:, keep], f"{f}, nC as {how}")
            _same(g(*x, full=True), base[f], f"{f}, all functions, nC as {how}")
        if case["backend"] == "C++" and case["jit"]:
            f = names[case["xs"] % len(names)]
            g = getattr(t, f)
            _same(jax.jit(lambda *x: g(*x))(*x), base[f][:, keep], f"jit {f}, nC as {how}")
            _same(jax.jit(lambda *x: g(*x, full=True))(*x), base[f], f"jit {f}, all functions, nC as {how}")
    return 0 < len(keep) < size


@st.composite
def uni_case(draw):
    m = draw(st.integers(2, 14))
    first = st.integers(0, min(m - 1, 6))
    return {
        "basis": draw(st.sampled_from(ref.POLY + ref.ELM)),
        "backend": draw(st.sampled_from(gen.BACKENDS)),
        "m": m,
        "nC": draw(first | gen.remove_spec(m) | gen.lists(st.integers(0, m - 1), 0, m - 1, unique=True)),
        "dom": draw(gen.domain()),
        "t": draw(gen.points(5, big=False)),
        "ws": draw(gen.seeds()),
        "how": sorted(draw(st.sets(st.sampled_from(SPELL_1D), min_size=3, max_size=5)), key=SPELL_1D.index),
        "jit": draw(st.sampled_from([False, False, True])),
    }


@st.composite
def multi_case(draw):
    if draw(st.sampled_from([True, True, False])):
        c = draw(multi.poly_case(dims=(1, 2, 3, 4)))
        how = SPELL_DIM
    else:
        c = draw(multi.elm_case(dims=(1, 2, 3), maxm=12))
        how = SPELL_1D
    c["np"] = min(c["np"], 5)
    c["pad"] = None
    c["how"] = sorted(draw(st.sets(st.sampled_from(how), min_size=2, max_size=5)), key=how.index)
    c["jit"] = draw(st.sampled_from([False, False, True]))
    return c


SUBS = [
    Sub(
        "univariate", check_uni, uni_case, quick=1200, thorough=8000, shards=3,
        rule="the same set of functions to remove written as an int, lists in any order, integer arrays of several kinds; "
        "values and derivatives, eager and compiled. Non-trivial: something is removed and more than one function is kept.",
    ),
    Sub(
        "multivariate", check_multi, multi_case, quick=1200, thorough=8000, shards=5,
        rule="as univariate, with one set per dimension: ints, lists, arrays, mixtures, matrices padded with -1. "
        "Non-trivial: some products are removed and some are kept.",
    ),
]  # fmt: skip
