"""Not used by any check: rewrites the per-property table of DESIGN.md from the checks."""
import importlib, pathlib, re, sys
V = pathlib.Path(__file__).resolve().parents[1]
sys.path[:0] = [str(V), str(V / "vendor"), str(V / "tools")]
import props
out = []
for p in props.P:
    out.append(f"### {p['id']} {p['title']}\n")
    if not p["claim"]:
        out.append(p["note"] + "\n"); continue
    m = importlib.import_module("checks." + p["id"].lower())
    out.append(f"Method: {p['technique']}. Bounds: {p['note']}.\n")
    for s in m.SUBS:
        out.append(f"* *{s.name}* ({s.n['quick']} / {s.n['thorough']} cases): {s.rule}")
    for a in m.ASSUMPTIONS:
        out.append(f"* Oracle and assumptions: {a}")
    out.append(f"* Beyond the tests: {p['why']}\n")
d = V / "DESIGN.md"
t = d.read_text()
body = "<!-- table -->\n" + "\n".join(out) + "\n<!-- /table -->"
if "@@TABLE@@" in t: t = t.replace("@@TABLE@@", body)
else: t = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: body, t, flags=re.S)
d.write_text(t)
