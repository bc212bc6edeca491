"""Writes MANIFEST.json from properties.jsonl and the rule modules that exist."""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(H, "rules", p + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, "no rule built yet")})
        continue
    tech, note = "abstract interpretation of the source (bit-level value-flow domain with gated joins) against an interface rule", None
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "TECHNIQUE":
            tech = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "NOTE":
            note = ast.literal_eval(n.value)
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "technique": tech,
        "level": "other",
        "level_note": (note + " " if note else "") + "Abstract interpretation of /repo's current source text: an obligation is discharged only if it holds for every value of the abstract inputs of its case; the structural cases (shapes, widths, orders, member kinds) are a finite partition listed in the rule. Trusted: the analyser's models of Python and of the standard library (io, zlib, struct, json, argparse). Obligations the domain cannot decide are counted as undecided in the evidence and never reported as violations.",
    })
json.dump({"version": 1, "setup_cmd": "python3 -c \"import ast,sys; assert sys.version_info >= (3, 9)\"", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. The checks only read /repo; nothing of it is imported or executed."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
