#!/usr/bin/env python3
"""Runs checks on every planted bug in scratch copies of /repo (development tool).
usage: seeded.py [--all] [id-substring...]   --all: every check on every bug, else only the bug's own check"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = H + "/tools/seeded_results.json"
allc = "--all" in sys.argv
pats = [a for a in sys.argv[1:] if not a.startswith("--")]
res = json.load(open(RES)) if os.path.exists(RES) else {}
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
for i in sorted(os.listdir(H + "/seeded")):
    if pats and not any(p in i for p in pats):
        continue
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    R = "/tmp/s/seeded_run"
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    if subprocess.run(["git", "-C", R, "apply", f"{H}/seeded/{i}/patch.diff"]).returncode:
        print(i, "PATCH DOES NOT APPLY"); continue
    r = res.setdefault(i, {})
    for p in (props if allc else [m["property"]]):
        c = subprocess.run([sys.executable, H + "/check.py", p], env={**os.environ, "DMSA_REPO": R}, capture_output=True, text=True)
        r[p] = c.returncode
        u = c.stdout.strip().splitlines()
        if p == m["property"] or c.returncode not in (0, 1):
            print(i, p, {0: "MISSED", 1: "caught"}.get(c.returncode, f"rc={c.returncode}"), [l for l in u if l.startswith(p + ":")], flush=True)
    json.dump(res, open(RES, "w"), indent=0, sort_keys=True)
    shutil.rmtree(R, ignore_errors=True)
json.dump({k: v for k, v in res.items() if os.path.isdir(f"{H}/seeded/{k}")}, open(RES, "w"), indent=0, sort_keys=True)
