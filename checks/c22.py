"""C22: the compiled code stays inside its memory, keeps what it returned alive, and does not grow."""

import gc
import os

import numpy as np
from hypothesis import strategies as st

from checks import c01, c02, c03, c04, c08
from vlib import gen, ref
from vlib.runner import Sub, Violation, fail

ASSUMPTIONS = [
    "AddressSanitizer and UndefinedBehaviorSanitizer judge the extension built from the current sources; a report ends the "
    "process and is the violation. Values are C01-C08's concern and are not judged here.",
    "Growth: the resident set may grow by at most 24 MB in each of two rounds of calls that would leak 40 MB or more if any of the "
    "arrays of a call were kept.",
]
SOURCES = {
    "uni direct": (c01.check_direct, lambda: c01.direct()),
    "uni": (c01.check_utfc, lambda: c01.through_utfc()),
    "elm": (c02.check, lambda: c02.cases("C++")),
    "multi": (c03.check, lambda: c03.cases()),
    "multi elm": (c04.check, lambda: c04.cases("C++")),
    "jax uni": (c08.check_uni, lambda: c08.uni_case()),
    "jax multi": (c08.check_multi, lambda: c08.multi_case()),
}


def check_calls(case):
    fn, _ = SOURCES[case["from"]]
    try:
        nt = fn(case["case"])
    except (Violation, AssertionError, ValueError, TypeError, ArithmeticError, SystemExit):
        return False
    return True if nt is None else bool(nt)


def calls_case(names):
    return st.sampled_from(names).flatmap(lambda n: st.builds(lambda c: {"from": n, "case": c}, SOURCES[n][1]().filter(lambda c: c.get("backend", "C++") == "C++")))


UNI = ref.POLY + ref.ELM + ref.HALF


def make(op):
    from tfc.utils import BF

    m = op["m"]
    if op["dim"] == 0:
        cls = UNI[op["b"] % len(UNI)]
        nC = np.array([k for k in op["nC"] if k < m - 1], dtype=np.int32)
        return cls, getattr(BF, cls)(0.0, 1.0, nC, m)
    names = ["nCP", "nLeP", "nFS", "nELMSigmoid", "nELMTanh", "nELMSin", "nELMSwish", "nELMReLU"]
    cls = names[op["b"] % len(names)]
    d = op["dim"]
    if "ELM" in cls:
        nC = np.array([k for k in op["nC"] if k < m - 1], dtype=np.int32)
    else:
        nC = np.array([([k for k in op["nC"] if k < m - 1] + [-1] * 4)[: max(1, len(op["nC"]))]] * d, dtype=np.int32)
    return cls, getattr(BF, cls)(np.zeros(d), np.ones(d), nC, m)


def evaluate(o, op):
    cls, obj, dim = o
    x = gen.arr(op["s"], (max(dim, 1), op["n"]), 0.0, 1.0)
    d = op["d"]
    if dim == 0:
        return obj.H(x[0], d, op["full"])
    return obj.H(x, np.array([d if k == 0 else 0 for k in range(dim)], dtype=np.int32), op["full"])


def check_life(case):
    objs, held = {}, []
    kinds = set()
    for op in case["ops"]:
        k, slot = op["op"], op["slot"]
        kinds.add(k)
        if k == "new" or slot not in objs:
            cls, o = make(op)
            objs[slot] = (cls, o, op["dim"])
        cls, o, dim = objs[slot]
        elm = "ELM" in cls
        if k == "H":
            for _ in range(1 + op["again"]):
                h = evaluate(objs[slot], op)
                held.append((h, h.copy()))
        elif k == "view":
            h = evaluate(objs[slot], op)
            held.append((h[1:, ::-1], h[1:, ::-1].copy()))
        elif k == "get" and elm:
            for a in (o.w, o.b):
                held.append((a, a.copy()))
        elif k == "set" and elm:
            w, b = o.w, o.b
            o.w, o.b = gen.arr(op["s"], w.shape), gen.arr(op["s"] + 1, b.shape)
            held.append((w, w.copy()))
        elif k == "scale" and dim:
            a = o.c
            held.append((a, a.copy()))
        elif k == "write":
            h = evaluate(objs[slot], op)
            h[...] = 7.0
            held.append((h, h.copy()))
        elif k == "bad":
            for x in (np.zeros((2, 2)), np.zeros(())) if dim == 0 else (np.zeros(3), np.zeros((1, 1, 1))):
                try:
                    o.H(x, 0 if dim == 0 else np.zeros(dim, dtype=np.int32), False)
                    fail("points with the wrong number of dimensions were accepted", shape=x.shape)
                except (ValueError, TypeError):
                    pass
        elif k == "drop":
            del objs[slot], o
            gc.collect()
        elif k == "forget" and held:
            held.pop(op["s"] % len(held))
            gc.collect()
        for a, b in held:
            if not np.array_equal(a, b, equal_nan=True):
                fail("an array returned earlier changed", after=k)
    return len(held) > 1 and "drop" in kinds


@st.composite
def life_case(draw):
    op = st.fixed_dictionaries({
        "op": st.sampled_from(["new", "H", "H", "H", "view", "get", "set", "scale", "write", "drop", "drop", "forget", "bad"]), "slot": st.integers(0, 2),
        "b": st.integers(0, 20), "dim": st.sampled_from([0, 0, 1, 2, 3]), "m": st.integers(2, 9), "nC": gen.lists(st.integers(0, 8), 0, 3, unique=True),
        "s": gen.seeds(), "n": st.sampled_from([0, 1, 2, 5, 17]), "d": st.integers(0, 4), "full": st.booleans(), "again": st.integers(0, 2),
    })  # fmt: skip
    return {"ops": draw(gen.lists(op, 2, 14))}


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


def check_growth(case):
    import jax
    import jax.numpy as jnp
    from tfc import mtfc, utfc
    from tfc.utils import BF

    what, basis, d, full = case["what"], case["basis"], case["d"], case["full"]
    dim = case["dim"]
    n, m = (100_000, 4) if what in ("H", "jit", "basis class") else (4, 100_000)
    if dim:
        # a multivariate basis of degree 2 has few enough functions
        m = 3
        if what in ("H", "jit", "basis class"):
            n = 60_000
    nC = [0] if case["remove"] else -1
    if what in ("H", "jit"):
        if dim == 0:
            t = utfc(4, 1 if case["remove"] else 0, m - 1, basis=basis, x0=0.0, xf=1.0)
            x = [np.linspace(0, 1, n)]
            f = {0: t.H, 1: t.dH, 2: t.d2H, 4: t.d4H}[d]
        else:
            t = mtfc([4] * dim, nC if basis.startswith("ELM") else [nC] * dim, m - 1, dim=dim, basis=basis, x0=[0.0] * dim, xf=[1.0] * dim)
            x = [np.linspace(0, 1, n)] * dim
            f = {0: t.H, 1: t.Hx, 2: t.Hx2, 4: t.Hx2y}[d]
        g = (lambda *a: f(*a, full=full)) if what == "H" else jax.jit(lambda *a: f(*a, full=full))
        xs = [jnp.array(q) for q in x]
        call = lambda: np.asarray(g(*xs))[0, 0]
    elif what == "basis class":
        if dim == 0:
            o = getattr(BF, basis)(0.0, 1.0, np.array([0] if case["remove"] else [], dtype=np.int32), m)
            xs = np.linspace(0, 1, n)
            call = lambda: o.H(xs, d, full)[0, 0]
        else:
            one = np.array([0] if case["remove"] else [-1], dtype=np.int32)
            o = getattr(BF, "n" + basis)(np.zeros(dim), np.ones(dim), one if basis.startswith("ELM") else np.array([one] * dim), m)
            xs = np.tile(np.linspace(0, 1, n), (dim, 1))
            dd = np.array([d] + [0] * (dim - 1), dtype=np.int32)
            call = lambda: o.H(xs, dd, full)[0, 0]
    else:
        if dim == 0:
            new = lambda: getattr(BF, basis)(0.0, 1.0, np.array([0], dtype=np.int32), m)
        else:
            m = 100_000
            new = lambda: getattr(BF, "n" + basis)(np.zeros(dim), np.ones(dim), np.array([0], dtype=np.int32), m)
        o = new()
        w, b = o.w, o.b

        def setter():
            o.w = w
            o.b = b

        call = {"get w": lambda: o.w[0], "get b": lambda: o.b[0], "set": setter, "create": new}[what]
    for _ in range(6):
        call()
    gc.collect()
    grown = []
    for _ in range(2):
        r0 = rss()
        for _ in range(60):
            call()
        gc.collect()
        grown.append((rss() - r0) / 1e6)
        if grown[-1] < 24:
            return True
    fail("memory grows with the number of calls", megabytes_in_60_calls=[round(g) for g in grown])


def growth_cases(tier):
    orders = (0, 2) if tier == "quick" else (0, 1, 2, 4)
    for basis in UNI:
        for dim in (0, 2):
            if dim and basis in ref.HALF:
                continue
            for what in ("basis class",) if basis in ref.HALF else ("H", "jit", "basis class"):
                for d in orders:
                    for remove in (False, True):
                        if tier == "quick" and (what == "H" or (what == "jit" and remove != bool(d))):
                            continue
                        yield {"what": what, "basis": basis, "dim": dim, "d": d, "full": False, "remove": remove}
            if basis in ref.ELM:
                for what in ("get w", "get b", "set", "create"):
                    yield {"what": what, "basis": basis, "dim": dim, "d": 0, "full": False, "remove": False}


SUBS = [
    Sub("sanitized calls", check_calls, lambda: calls_case(["uni direct", "uni", "elm", "multi", "multi elm"]), quick=500, thorough=12000, shards=3, san=True,
        rule="the cases of C01-C04 on the compiled backend built with sanitizers. Non-trivial: as there."),
    Sub("sanitized compiled calls", check_calls, lambda: calls_case(["jax uni", "jax multi"]), quick=90, thorough=2500, shards=2, san=True,
        rule="the cases of C08 on the compiled backend built with sanitizers. Non-trivial: as there."),
    Sub("sanitized lifetimes", check_life, life_case, quick=300, thorough=8000, shards=2, san=True,
        rule="histories of up to 14 creations, evaluations (no points included), reads and writes of weights, deletions and invalid calls on three objects; everything "
        "returned must keep its values. Non-trivial: several arrays are held and an object was deleted."),
    Sub("growth", check_growth, None, enum=growth_cases, shards=4,
        rule="66 or 126 calls of one kind with large arrays, for each basis, kind of call and order. Non-trivial: all."),
]  # fmt: skip
