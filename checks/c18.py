"""C18: the graph of component constraints lists exactly the acyclic orientations, and saves them."""

import html
import itertools
import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import gen
from vlib.runner import Sub, fail

ASSUMPTIONS = [
    "Edges join two different nodes; several edges may join the same two. Orientation 0 of an edge points from its first "
    "node to its second. Rendering uses the installed Graphviz.",
]
NAMES = ["u", "v", "w", "x1", "theta", "p"]


def arrows(E, target):
    return [(e["node1"], e["node0"]) if t else (e["node0"], e["node1"]) for e, t in zip(E, target)]


def acyclic(nodes, arr):
    """Kahn's algorithm."""
    left, arr = set(nodes), list(arr)
    while left:
        free = {n for n in left if not any(b == n for _, b in arr)}
        if not free:
            return False
        left -= free
        arr = [(a, b) for a, b in arr if a in left]
    return True


def edges(case):
    return [{"name": f"c{k}" if case["names"] else f"same {k % 2}", "node0": NAMES[a], "node1": NAMES[b]} for k, (a, b) in enumerate(case["E"])]


def check(case):
    from tfc.utils import ComponentConstraintGraph

    N = [NAMES[k] for k in case["N"]]
    E = edges(case)
    g = ComponentConstraintGraph(list(N), [dict(e) for e in E])
    exp = {t for t in itertools.product([0, 1], repeat=len(E)) if acyclic(N, arrows(E, t))}
    allt = [tuple(t) for t in g.targets]
    if len(set(allt)) != len(allt) or set(allt) != set(itertools.product([0, 1], repeat=len(E))):
        fail("the orientations", got=len(set(allt)), expected=2 ** len(E))
    good = [allt[k] for k in g.goodTargets]
    if len(set(good)) != len(good):
        fail("a valid orientation is listed twice")
    if set(good) != exp:
        fail("the valid orientations", missing=sorted(exp - set(good))[:3], wrong=sorted(set(good) - exp)[:3])
    return len(exp) < 2 ** len(E)


@st.composite
def cases(draw, maxe=7):
    n = draw(st.integers(1, 6))
    N = list(draw(st.permutations(range(n))))
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    E = draw(gen.lists(st.sampled_from(pairs).map(list), 0, maxe)) if pairs else []
    return {"N": N, "E": E, "names": draw(st.booleans())}


def svg_graph(path):
    """Nodes and (from, to, label) of an SVG that Graphviz wrote."""
    text = open(path).read()
    nodes, arr = [], []
    for kind, body in re.findall(r'<g id="[^"]*" class="(node|edge)">(.*?)</g>\s*(?=<!--|<g id="(?:node|edge)|</g>|$)', text, re.S):
        title = html.unescape(re.search(r"<title>(.*?)</title>", body).group(1))
        label = [html.unescape(s).replace("\xa0", " ") for s in re.findall(r"<text[^>]*>(.*?)</text>", body)]
        if kind == "node":
            nodes.append((title, label[0] if label else ""))
        else:
            a, b = title.split("->")
            arr.append((a, b, label[0] if label else ""))
    return nodes, arr


def check_save(case):
    from tfc.utils import ComponentConstraintGraph

    N = [NAMES[k] for k in case["N"]]
    E = edges(case)
    g = ComponentConstraintGraph(list(N), [dict(e) for e in E])
    exp = [t for t in itertools.product([0, 1], repeat=len(E)) if case["all"] or acyclic(N, arrows(E, t))]
    out = tempfile.mkdtemp()
    try:
        g.SaveGraphs(out, allGraphs=case["all"], savePDFs=case["pdf"])
        files = {os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs}
        trees = {f for f in files if re.fullmatch(r"dotFiles/tree\d+\.svg", f)}
        if len(trees) != len(exp):
            fail("number of graphs saved", got=len(trees), expected=len(exp))
        want = {"main.html", "dotFiles/main.svg", "dotFiles/main.cmapx"}
        for k in range(len(exp)):
            want |= {f"htmlFiles/tree{k}.html", f"dotFiles/tree{k}.svg", f"dotFiles/tree{k}.cmapx"}
            if case["pdf"]:
                want.add(f"dotFiles/tree{k}.pdf")
        if not want <= files:
            fail("files not saved", missing=sorted(want - files))
        seen = []
        for k in range(len(exp)):
            nodes, arr = svg_graph(os.path.join(out, f"dotFiles/tree{k}.svg"))
            if sorted(t for t, _ in nodes) != sorted(N):
                fail(f"nodes of graph {k}", got=sorted(nodes), expected=sorted(N))
            seen.append(tuple(sorted(arr)))
            page = open(os.path.join(out, f"htmlFiles/tree{k}.html")).read()
            if f"tree{k}.svg" not in page:
                fail(f"page {k} does not show its graph")
        wanted = sorted(tuple(sorted((a, b, e["name"]) for (a, b), e in zip(arrows(E, t), E))) for t in exp)
        if sorted(seen) != wanted:
            fail("the graphs saved", got=sorted(seen)[:2], expected=wanted[:2])
        main = open(os.path.join(out, "main.html")).read()
        for k in range(len(exp)):
            if f"tree{k}.html" not in main:
                fail(f"the main page does not link to graph {k}")
    finally:
        shutil.rmtree(out)
    return len(exp) > 1


SUBS = [
    Sub("orientations", check, cases, quick=1600, thorough=6000, shards=4, ext=True,
        rule="1-6 nodes, 0-7 edges, repeated edges included, against Kahn's algorithm over all orientations. Non-trivial: some orientation has a cycle."),
    Sub("saved graphs", check_save, lambda: st.builds(lambda c, a, p: {**c, "all": a, "pdf": p}, cases(maxe=3), st.booleans(), st.booleans()),
        quick=160, thorough=600, shards=4, ext=True,
        rule="graphs with up to 3 edges saved to a scratch folder and read back from the SVG. Non-trivial: more than one graph."),
]  # fmt: skip
