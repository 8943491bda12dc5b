"""C21: plots put labels, titles, traces, views and color scales where asked, and files hold what was saved."""

import os
import pickle
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Matplotlib's and Plotly's own figure objects are trusted to describe what is drawn. Views and color scales are checked on "
    "surfaces and volumes. Files go to a scratch folder.",
]
MAGIC = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml", "ps": b"%!PS", "eps": b"%!PS"}


def labels(case, name, none=False):
    """The labels as a matrix, and as the user gives them."""
    r, c = case["grid"]
    m = [[None if none and case["holes"][i][j] else f"{name}{i}{j}" for j in range(c)] for i in range(r)]
    how = case["given"]
    if how == "str" and r * c == 1 and m[0][0] is not None:
        return m, m[0][0]
    if how == "flat" and c == 1:
        return m, [q[0] for q in m]
    if how == "tuple":
        return m, tuple(tuple(q) for q in m)
    if how == "array":
        return m, np.array(m, dtype=object if none else None)
    return m, m


def check_mpl(case):
    import matplotlib.pyplot as plt
    from tfc.utils import MakePlot

    r, c = case["grid"]
    xl, xg = labels(case, "x", True)
    yl, yg = labels(case, "y")
    tl, tg = labels(case, "t")
    if case["notitle"] and case["titles"]:
        tl = [[None if (i + j) % 2 else v for j, v in enumerate(q)] for i, q in enumerate(tl)]
        tg = tl
    wl, wg = labels(case, "w")
    zl, zg = labels(case, "z")
    kw = {}
    if case["titles"]:
        kw["titles"] = tg
    if case["three"]:
        kw["zlabs"] = zg
    elif case["twin"]:
        kw["twinYlabs"] = wg
    p = MakePlot(xg, yg, **kw)
    try:
        cells = [(i, j) for i in range(r) for j in range(c) if xl[i][j] is not None]
        if len(p.ax) != len(cells):
            fail("number of subplots", got=len(p.ax), expected=len(cells))
        for k, (i, j) in enumerate(cells):
            a = p.ax[k]
            ss = a.get_subplotspec()
            g = ss.get_gridspec()
            if (g.nrows, g.ncols) != (r, c) or (list(ss.rowspan), list(ss.colspan)) != ([i], [j]):
                fail("place of a subplot", index=k, expected=[i, j])
            got = [a.get_xlabel(), a.get_ylabel(), a.get_title()]
            exp = [xl[i][j], yl[i][j], (tl[i][j] or "") if case["titles"] else ""]
            if case["three"]:
                got.append(a.get_zlabel())
                exp.append(zl[i][j])
            elif case["twin"]:
                got.append(p.twinAx[k].get_ylabel())
                exp.append(wl[i][j])
                if p.twinAx[k] not in a.get_shared_x_axes().get_siblings(a):
                    fail("a twin axis belongs to another subplot", index=k)
            if got != exp:
                fail("labels of a subplot", index=k, got=got, expected=exp)
        w, h = case["size"]
        p.PartScreen(w, h)
        if not np.allclose(p.fig.get_size_inches(), [w, h]):
            fail("size", got=p.fig.get_size_inches().tolist(), expected=[w, h])
        if case["save"]:
            save_mpl(case, p, cells)
    finally:
        plt.close("all")
    return len(cells) > 1


def save_mpl(case, p, cells):
    d = tempfile.mkdtemp(prefix="plots-")
    try:
        if cells and not case["three"]:
            p.ax[-1].plot([0, 1, 2], [3, 1, case["size"][0]])
        ext, how = case["save"]
        if how == "suffix":
            name = os.path.join(d, "fig." + ext)
            p.save(name)
        elif how == "type":
            name = os.path.join(d, "fig." + ext)
            p.save(os.path.join(d, "fig"), transparent=False, fileType=ext)
        elif how == "all":
            name = os.path.join(d, "fig." + ext)
            p.saveAll(os.path.join(d, "fig"), fileType=ext)
            import gc

            gc.collect()
            with open(os.path.join(d, "fig.pickle"), "rb") as f:
                q = pickle.load(f)
            if [a.get_xlabel() for a in q.ax] != [a.get_xlabel() for a in p.ax]:
                fail("the pickled figure")
            if cells and not case["three"] and not np.array_equal(q.ax[-1].lines[0].get_ydata(), [3, 1, case["size"][0]]):
                fail("the data of the pickled figure")
        else:
            # frames of an animation, in order
            seen = []

            def anim():
                for k in range(3):
                    seen.append(sorted(os.listdir(os.path.join(d, "movie"))) if os.path.isdir(os.path.join(d, "movie")) else [])
                    if cells:
                        p.ax[0].set_xlabel(f"frame {k}")
                    yield

            p.animate(anim, outDir=os.path.join(d, "movie"), fileName="im", delay=1)
            name = os.path.join(d, "movie", "im000002.png")
            ext = "png"
            files = sorted(os.listdir(os.path.join(d, "movie")))
            if files != [f"im{k:06d}.png" for k in range(3)] or [len(q) for q in seen] != [0, 1, 2]:
                fail("frames", got=files, seen=seen)
        if not os.path.exists(name):
            fail("no such file", name=os.path.basename(name), files=os.listdir(d))
        with open(name, "rb") as f:
            head = f.read(20)
        if not head.startswith(MAGIC[ext]):
            fail("kind of file", ext=ext, got=repr(head))
        left = [q for q in os.listdir(d) if q not in (os.path.basename(name), "fig.pickle", "movie")]
        if left:
            fail("other files were written", files=left)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def mpl_case(draw):
    r, c = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return {
        "grid": [r, c],
        "holes": [[draw(st.integers(0, 4)) == 0 for _ in range(c)] for _ in range(r)],
        "given": draw(st.sampled_from(["str", "flat", "tuple", "array", "list"])),
        "titles": draw(st.booleans()), "notitle": draw(st.booleans()), "twin": draw(st.booleans()), "three": draw(st.integers(0, 2)) == 0,
        "size": [draw(st.integers(2, 6)), draw(st.integers(2, 6))],
        "save": draw(st.none() | st.none() | st.tuples(st.sampled_from(["png", "pdf", "svg", "ps", "eps"]), st.sampled_from(["suffix", "type", "all", "animate"])).map(list)),
    }  # fmt: skip


def check_plotly(case):
    from tfc.utils.PlotlyMakePlot import MakePlot

    r, c = case["grid"]
    one = r * c == 1
    xl, xg = labels(case, "x")
    yl, yg = labels(case, "y")
    zl, zg = labels(case, "z")
    tl, tg = labels(case, "t")
    kw = {}
    if case["titles"]:
        kw["titles"] = tg
    if case["three"]:
        kw["zlabs"] = zg
    p = MakePlot(xg, yg, **kw)
    fig = p.fig

    def place(i, j):
        if one:
            return fig.layout.scene if case["three"] else (fig.layout.xaxis, fig.layout.yaxis)
        return fig.get_subplot(i + 1, j + 1)

    def labels_ok():
        for i in range(r):
            for j in range(c):
                a = place(i, j)
                if case["three"]:
                    got = [a.xaxis.title.text, a.yaxis.title.text, a.zaxis.title.text]
                    exp = [xl[i][j], yl[i][j], zl[i][j]]
                    dom = a.domain
                    cx, top = (dom.x[0] + dom.x[1]) / 2 if dom.x else None, dom.y[1] if dom.y else None
                else:
                    got, exp = [a[0].title.text, a[1].title.text], [xl[i][j], yl[i][j]]
                    cx, top = (sum(a[0].domain) / 2, a[1].domain[1]) if not one else (None, None)
                if got != exp:
                    fail("labels of a subplot", at=[i, j], got=got, expected=exp)
                if case["titles"]:
                    if one:
                        if fig.layout.title.text != tl[0][0]:
                            fail("title", got=fig.layout.title.text)
                    else:
                        near = [q.text for q in fig.layout.annotations if abs(q.x - cx) < 1e-9 and abs(q.y - top) < 1e-9]
                        if near != [tl[i][j]]:
                            fail("title of a subplot", at=[i, j], got=near, expected=tl[i][j])

    labels_ok()
    traces, eyes, dist = [], {}, 2.5
    for op in case["ops"]:
        i, j = op["at"][0] % r, op["at"][1] % c
        at = {} if one else {"row": i + 1, "col": j + 1}
        k = op["op"]
        rng = np.random.default_rng(op["s"])
        if k == "trace":
            vals = rng.integers(-9, 10, (2, 3)).astype(float)
            data = vals.tolist() if op["s"] % 2 else vals
            if case["three"]:
                kind = ["Surface", "Scatter3d", "Volume"][op["kind"] % 3]
                if kind == "Surface":
                    args = dict(z=data)
                elif kind == "Scatter3d":
                    args = dict(x=vals[0], y=vals[1], z=vals[0])
                else:
                    args = dict(x=[0, 1, 0, 1, 0, 1], y=[0, 0, 1, 1, 0, 0], z=[0, 0, 0, 0, 1, 1], value=np.ravel(data).tolist() if op["s"] % 2 else np.ravel(data))
            else:
                kind = ["Scatter", "Histogram", "Contour", "Box", "Violin"][op["kind"] % 5]
                args = {"Scatter": dict(x=vals[0], y=vals[1]), "Contour": dict(z=data)}.get(kind, dict(y=vals[0]))
            getattr(p, kind)(name=f"trace {len(traces)}", **args, **at)
            traces.append([kind, (i, j), vals, {}])
        elif k == "view" and case["three"]:
            az, el = op["angles"]
            if op["dist"]:
                dist = op["dist"]
            p.view(az, el, **at, **({"viewDistance": op["dist"]} if op["dist"] else {}))
            eyes[(i, j)] = dist * np.array([-np.sin(np.radians(az)) * np.cos(np.radians(el)), -np.cos(np.radians(az)) * np.cos(np.radians(el)), np.sin(np.radians(el))])
        elif k == "scale" and case["three"]:
            types = [["Surface"], ["Volume"], ["Surface", "Volume"]][op["kind"] % 3]
            mine = [t for t in traces if t[0] in types]
            data = {"Surface": "z", "Volume": "value"}[types[0]]
            mode = op["mode"]
            if mode == "data":
                if len(types) > 1 or not mine:
                    continue
                p.NormalizeColorScale(types=types, data=data)
                new = {"cmax": max(t[2].max() for t in mine), "cmin": min(t[2].min() for t in mine)}
            else:
                new = {q: v for q, v in (("cmax", op["c"][0]), ("cmin", op["c"][1])) if mode in (q, "both")}
                p.NormalizeColorScale(types=types, **new)
            for t in mine:
                t[3].update(new)
        elif k == "size":
            w, h = 100 + op["s"] % 500, 100 + op["s"] % 300
            p.PartScreen(w, h, units="px")
            if (fig.layout.width, fig.layout.height) != (w, h):
                fail("size", got=[fig.layout.width, fig.layout.height], expected=[w, h])
    if len(fig.data) != len(traces):
        fail("number of traces", got=len(fig.data), expected=len(traces))
    for n, (t, (kind, (i, j), vals, cs)) in enumerate(zip(fig.data, traces)):
        if type(t).__name__ != kind or t.name != f"trace {n}":
            fail("a trace", got=[type(t).__name__, t.name], expected=[kind, n])
        if not one:
            a = place(i, j)
            got = (t.scene or "scene") if case["three"] else ((t.xaxis or "x").replace("x", "xaxis", 1), (t.yaxis or "y").replace("y", "yaxis", 1))
            exp = a.plotly_name if case["three"] else (a[0].plotly_name, a[1].plotly_name)
            if got != exp:
                fail("place of a trace", got=got, expected=exp)
        if kind in ("Surface", "Volume"):
            got = {q: t[q] for q in ("cmax", "cmin") if t[q] is not None}
            if got != cs:
                fail("color scale of a trace", trace=n, got=got, expected=cs)
    for i in range(r):
        for j in range(c):
            if case["three"]:
                eye = place(i, j).camera.eye
                e = eyes.get((i, j))
                if (e is None) != (eye.x is None) or (e is not None and not np.allclose([eye.x, eye.y, eye.z], e, rtol=1e-9, atol=1e-9)):
                    fail("view of a subplot", at=[i, j], got=[eye.x, eye.y, eye.z], expected=None if e is None else e.tolist())
    labels_ok()
    if case["save"]:
        d = tempfile.mkdtemp(prefix="plots-")
        try:
            if case["save"] == 1:
                p.save(os.path.join(d, "f.html"), include_plotlyjs=False)
            else:
                p.save(os.path.join(d, "f"), fileType="html", include_plotlyjs=False)
            if os.listdir(d) != ["f.html"]:
                fail("files", got=os.listdir(d))
            text = open(os.path.join(d, "f.html")).read()
            for n in range(len(traces)):
                if f'"trace {n}"' not in text:
                    fail("a trace is not in the saved file", trace=n)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return not one and len(traces) > 1


@st.composite
def plotly_case(draw):
    op = st.fixed_dictionaries({
        "op": st.sampled_from(["trace", "trace", "trace", "view", "scale", "size"]), "at": st.lists(st.integers(0, 2), min_size=2, max_size=2),
        "kind": st.integers(0, 14), "s": gen.seeds(), "angles": st.lists(st.integers(-180, 180), min_size=2, max_size=2),
        "dist": st.sampled_from([None, None, 1.5, 4.0]), "mode": st.sampled_from(["data", "data", "cmax", "cmin", "both"]),
        "c": st.sampled_from([[2.0, -1.0], [0.0, 0.0], [5.5, 0.0], [0.0, -3.0]]),
    })  # fmt: skip
    return {
        "grid": [draw(st.integers(1, 3)), draw(st.integers(1, 3))], "given": draw(st.sampled_from(["str", "flat", "tuple", "array", "list"])),
        "titles": draw(st.booleans()), "three": draw(st.booleans()), "ops": draw(gen.lists(op, 0, 8)), "save": draw(st.sampled_from([0, 0, 1, 2])),
    }  # fmt: skip


def check_html(case):
    from html.parser import HTMLParser

    from tfc.utils.Html import HTML

    d = tempfile.mkdtemp(prefix="html-")
    old = os.getcwd()
    try:
        os.chdir(d)
        name = {"here": "page.html", "rel": "sub/page.html", "deep": os.path.join(d, "a/b/page.html"), "abs": os.path.join(d, "page.html")}[case["where"]]
        h = HTML(name)

        def put(tree):
            for tag, text, kids in tree:
                with h.tag(tag):
                    h.text(text)
                    put(kids)

        put(case["tree"])
        for _ in range(case["times"]):
            h.WriteFile()
        got = h.ReadFile(name)
        if got != h.GenerateHtml():
            fail("the file read back", got=got[:300], expected=h.GenerateHtml()[:300])
        events = []

        class Reader(HTMLParser):
            def handle_starttag(self, tag, attrs):
                events.append("<" + tag)

            def handle_endtag(self, tag):
                events.append(">" + tag)

            def handle_data(self, data):
                if data.strip():
                    events.append("t" + "".join(data.split()))

        rd = Reader()
        rd.feed(got)
        rd.close()
        exp = []

        def walk(tree):
            for tag, text, kids in tree:
                exp.append("<" + tag)
                if text.strip():
                    exp.append("t" + "".join(text.split()))
                walk(kids)
                exp.append(">" + tag)

        walk(case["tree"])
        if events != exp:
            fail("the document read back", got=events, expected=exp)
        left = sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)
        if left != [os.path.relpath(os.path.join(d, name), d)]:
            fail("files written", got=left)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    return len(case["tree"]) > 1


@st.composite
def html_case(draw):
    text = st.text(alphabet="abc <>&\"'", max_size=8)
    leaf = st.tuples(st.sampled_from(["p", "b", "div"]), text, st.just([])).map(list)
    node = st.recursive(leaf, lambda s: st.tuples(st.sampled_from(["div", "ul", "table"]), text, gen.lists(s, 0, 3)).map(list), max_leaves=5)
    return {"tree": draw(gen.lists(node, 0, 3)), "where": draw(st.sampled_from(["here", "rel", "deep", "abs"])), "times": draw(st.integers(1, 2))}


SUBS = [
    Sub("matplotlib", check_mpl, mpl_case, quick=480, thorough=2500, shards=4, ext=False,
        rule="grids of 1x1 to 3x3 with holes, labels given in five ways, twin or third axes, titles, sizes, files of each kind, pickles and "
        "animations. Non-trivial: several subplots."),
    Sub("plotly", check_plotly, plotly_case, quick=640, thorough=3500, shards=3, ext=False,
        rule="grids of 1x1 to 3x3 in two or three dimensions, then up to 8 traces, views, color scales and sizes. Non-trivial: several "
        "subplots and traces."),
    Sub("html", check_html, html_case, quick=800, thorough=4000, shards=1, ext=False,
        rule="documents of nested tags with any text, written to new and existing folders and read back. Non-trivial: several tags."),
]  # fmt: skip
