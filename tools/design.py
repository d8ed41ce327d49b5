"""Writes DESIGN.md: tools/design_head.md, then one section per property from the harnesses themselves, then the planted bugs."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(V, "tools", "design_head.md")).read(), "## Property by property\n"]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    t = ast.parse(open(os.path.join(V, "props", p["id"] + ".py")).read())
    out.append(f"### {p['id']} {p['title']}\n\n*Why tests cannot:* {p['why_tests_cant']}  \n*Where:* {', '.join(p['anchors']['files'])}.  \n{ast.get_docstring(t)}\n")
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and any("harness" in ast.dump(d) for d in n.decorator_list):
            out.append(f"* `{n.name}`: {' '.join((ast.get_docstring(n) or '').split())}")
    out.append("")
tab = os.path.join(V, "tools", "caught.json")
caught = json.load(open(tab)) if os.path.exists(tab) else {}
out.append("## Planted bugs (`seeded/`) and the checks that catch them\n\nEach was written from the property's text and the code, passes the existing tests "
           "and fails its demonstration.\n\n| bug | needs | caught by |\n|---|---|---|")
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i, m = os.path.basename(os.path.dirname(f)), json.load(open(f))
    out.append(f"| {i} | {m['needs']} | {caught.get(i, '?')} |")
out.append("\n" + open(os.path.join(V, "tools", "design_tail.md")).read() if os.path.exists(os.path.join(V, "tools", "design_tail.md")) else "")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
