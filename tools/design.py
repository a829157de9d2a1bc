"""Writes DESIGN.md from tools/design_head.md, the docstrings and bounds of the checks,
properties.jsonl, the planted bugs and tools/design_tail.md."""

import ast, glob, json, os, re

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out = [open("tools/design_head.md").read().rstrip(), "", "## Properties", ""]
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for l in open("properties.jsonl"):
    p = json.loads(l)
    src = open(f"mc/{p['id'].lower()}.py").read()
    tree = ast.parse(src)
    doc = ast.get_docstring(tree)
    doc = re.sub(r"^C\d\d: ", "", doc)
    bounds = [ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS"][0]
    m = json.load(open("MANIFEST.json"))
    tech = [c for c in m["checks"] if c["property"] == p["id"]]
    out += [f"### {p['id']} {p['title']}", "", p["statement"], "", "*How it is decided.* " + doc[0].upper() + doc[1:], "", "*Bounds.* " + bounds + ".", ""]
    if tech:
        out += ["*Technique.* " + tech[0]["technique"] + ".", ""]
    why = p["why_tests_cant"]
    if why:
        out += ["*Why tests cannot.* " + why, ""]
    bugs = sorted(glob.glob("seeded/*/meta.json") + glob.glob("tools/more_bugs/*/meta.json"), key=lambda p: p.split("/")[-2])
    mine = [(os.path.basename(os.path.dirname(b)), json.load(open(b))) for b in bugs]
    mine = [b for b in mine if b[1]["property"] == p["id"]]
    if mine:
        out += ["*Planted.* " + "; ".join(f"{n}: {b['what_it_breaks']} ({caught.get(n, 'not yet run')})" for n, b in mine) + ".", ""]
out += [open("tools/design_tail.md").read()]
kf = json.load(open("KNOWN_FINDINGS.json"))
out += ["Repaired:", ""] + ["- " + x for x in kf["fixed"]] + [""]
open("DESIGN.md", "w").write("\n".join(out))
