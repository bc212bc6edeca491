"""Writes DESIGN.md from tools/design_head.md, the rule modules, known_findings.json and the seeded results."""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(H + "/tools/design_head.md").read().rstrip("\n"), ""]
for e in json.load(open(H + "/known_findings.json"))["fixed"]:
    out.append("* " + e[len("fixed: "):])
out += ["", "There are no open known findings.", "", "## Per property", ""]
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
for p in props:
    f = f"{H}/rules/{p['id']}.py"
    if not os.path.exists(f):
        out += [f"### {p['id']} {p['title']}", "", "Not applicable: see MANIFEST.json.", ""]
        continue
    v = {}
    src = open(f).read()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                v[n.targets[0].id] = eval(compile(ast.Expression(n.value), "x", "eval"), {"THOROUGH": False, "TIER": "quick", **v})
            except Exception:
                pass
    cases = [l.split("(")[0][4:] for l in src.splitlines() if l.startswith("def case_")]
    out += [f"### {p['id']} {p['title']}", "", v.get("RULE", ""), ""]
    if "NOTE" in v:
        out += ["Bounds: " + v["NOTE"], ""]
    out += [f"Cases (`rules/{p['id']}.py`): " + ", ".join("`" + c + "`" for c in cases) + f". Anchors: {', '.join(p['anchors']['files'])}.", ""]
out += ["## Planted bugs", "",
        "Each folder of `seeded/` was validated in a scratch copy (tests pass, demo passes without and fails with the change) by",
        "`tools/plant.py`, and the check of its property was run on it by `tools/seeded.py` (results below).", "",
        "| id | property | change needs | reported by its check | also reported by |", "|---|---|---|---|---|"]
res = json.load(open(H + "/tools/seeded_results.json")) if os.path.exists(H + "/tools/seeded_results.json") else {}
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    r = res.get(i, {})
    out.append(f"| {i} | {m['property']} | {m['needs']} | {'yes' if r.get(m['property']) == 1 else 'NO' if m['property'] in r else '?'} | {', '.join(k for k, x in sorted(r.items()) if x == 1 and k != m['property'])} |")
extra = H + "/tools/design_tail.md"
if os.path.exists(extra):
    out += ["", open(extra).read().rstrip("\n")]
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
