"""C20: LaTeX tables hold exactly the array's numbers in the asked format, under their headers."""

import re

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "The table is read back as LaTeX reads it: white space and rules do not count, & ends a cell and \\\\ a row. Headers are "
    "free of these. Arrays are two-dimensional with real numbers.",
]


def parse(text):
    m = re.fullmatch(r"\s*\\begin\{center\}\s*\\begin\{tabular\}\{([|c]*)\}(.*)\\end\{tabular\}\s*\\end\{center\}\s*", text, re.S)
    if not m:
        fail("not a centred tabular environment", text=text[:400])
    body = m.group(2).replace("\\hline", " ")
    rows = body.split("\\\\")
    if rows[-1].strip():
        fail("the last row is not ended", text=rows[-1][:200])
    return m.group(1).count("c"), [[" ".join(c.split()) for c in r.split("&")] for r in rows[:-1]]


HEADS = ["", "", "x", "x", "$x_{1}$", "$\\xi$", "0", "1.5", "[a]", "%", "a  b", "None", "\\textbf{e}", "n/a", "-"]


def array(case):
    shape = (case["r"], case["c"])
    rng = np.random.default_rng(case["s"])
    k = case["kind"]
    if k in ("int", "int8", "uint", "bool"):
        a = rng.integers(0 if k in ("uint", "bool") else -100, 2 if k == "bool" else 100, shape).astype({"int": int, "int8": np.int8, "uint": np.uint16, "bool": bool}[k])
    else:
        a = rng.normal(size=shape) * 10.0 ** rng.integers(-8, 9, shape)
        if k == "float32":
            a = a.astype(np.float32)
        if k == "special":
            a = rng.choice([0.0, -0.0, np.inf, -np.inf, np.nan, 1e308, -1e-308, 1.0], shape)
    how = case["layout"]
    if how == "T":
        a = np.ascontiguousarray(a.T).T
    elif how == "strided":
        b = np.zeros((shape[0] * 2, shape[1] * 3), dtype=a.dtype)
        b[::2, ::3] = a
        a = b[::2, ::3]
    elif how == "reversed":
        a = np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    return a


def check(case):
    from tfc.utils.Latex import table

    a = array(case)
    before = a.copy()
    r, c = a.shape
    kw = {}
    if case["form"] is not None:
        kw["form"] = case["form"]
    hs = np.random.default_rng(case["s"] + 1)
    head = lambda k: HEADS[hs.integers(len(HEADS))] if hs.integers(4) == 0 else f"h{k}"
    rh = [head(k) for k in range(r)] if case["rows"] else None
    ch = [head(k) for k in range(c + (1 if rh else 0))] if case["cols"] else None
    if rh:
        kw["rowHeader"] = list(rh)
    if ch:
        kw["colHeader"] = list(ch)
    text = table.SimpleTable(a, **kw)
    n, rows = parse(text)
    form = case["form"] or "%.4E"
    exp = [([" ".join(rh[i].split())] if rh else []) + [" ".join((form % a[i, j]).split()) for j in range(c)] for i in range(r)]
    if ch:
        exp = [[" ".join(h.split()) for h in ch]] + exp
    if rows != exp:
        bad = next(((i, x, y) for i, (x, y) in enumerate(zip(rows, exp)) if x != y), None)
        fail("the cells of the table", rows=len(rows), expected_rows=len(exp), first=bad)
    if n != c + (1 if rh else 0):
        fail("the number of columns declared", got=n, expected=c + (1 if rh else 0))
    if not np.array_equal(a, before, equal_nan=a.dtype.kind == "f") or (rh and kw["rowHeader"] != rh) or (ch and kw["colHeader"] != ch):
        fail("the arguments were changed")
    return r > 1 and c > 1


@st.composite
def cases(draw):
    big = draw(st.integers(0, 9)) == 0
    kind = draw(st.sampled_from(["float", "float", "float32", "special", "int", "int8", "uint", "bool"]))
    forms = [None, "%.4E", "%.2f", "%g", "%12.3e", "%+.1e", "$%.3f$", "[%.2f]", "(%g)", "{%8.1f}"]
    if kind not in ("float", "float32", "special"):
        forms += ["%d", "%5d", "%03d"]
    return {
        "r": draw(st.integers(1, 60 if big else 6)),
        "c": draw(st.integers(1, 60 if big else 7)),
        "s": draw(gen.seeds()),
        "kind": kind,
        "form": draw(st.sampled_from(forms)),
        "rows": draw(st.booleans()),
        "cols": draw(st.booleans()),
        "layout": draw(st.sampled_from(["C", "T", "strided", "reversed"])),
    }


SUBS = [
    Sub("tables", check, cases, quick=2400, thorough=20000, shards=2, ext=False,
        rule="arrays of 1x1 to 60x60 of floats (infinite and undefined included), integers and booleans in any memory layout, thirteen "
        "formats, with and without headers. Non-trivial: several rows and columns."),
]  # fmt: skip
