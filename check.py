#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only substring] [-v]

Analyses /repo's current source for one property (see DESIGN.md); writes evidence/<property>.json; exit 0 held,
1 violated (with a VIOLATION line), 2 the analysis could not be set up.
"""

import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--procs", type=int)
    ap.add_argument("--first", action="store_true", help="stop at the first violation (with --procs 1)")
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    repo = os.environ.get("DMSA_REPO", "/repo")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from dmsa import harness

    setup = None
    try:
        h, jobs, results, fns, sites, wall = harness.run(repo, a.prop, a.tier, seed, a.only, a.procs, first=a.first)
        rule = h.m.modules[f"rules.{a.prop}"].c.get("RULE", "")
    except harness.NotAnalysed as e:
        # nothing is known about this tree, so nothing is reported about it either (the evidence says so)
        setup = str(e)
        results, fns, sites, wall, rule = [], set(), set(), 0.0, ""
        print(f"UNDECIDED property={a.prop}: {setup}")
    obl = sum(r["obl"] for r in results)
    done = sum(r["done"] for r in results)
    viol = [(r, v) for r in results for v in r["viol"]]
    undec = [(r, u) for r in results for u in r["undec"]]
    known = known_findings(a.prop)
    fresh = []
    for r, v in viol:
        k = next((k for k in known if k["case"] == r["name"] and k["message"] in v["msg"]), None)
        if k:
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
        else:
            fresh.append((r, v))
    evd = os.path.join(HERE, "evidence")
    if "DMSA_REPO" in os.environ:
        evd = os.environ.get("DMSA_EVIDENCE", os.path.join("/tmp", "dmsa_evidence"))
    os.makedirs(evd, exist_ok=True)
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the repository's syntax trees (bit-provenance / value-flow domain "
            "with gated joins); scalar inputs are abstract and cover all their values, structure is partitioned into "
            "the listed cases. " + rule,
            "rule": rule,
            "cases": len(results),
            "case_families": sorted({r["name"] for r in results}),
            "obligations": obl,
            "discharged": done,
            "undecided": len(undec) + (1 if setup else 0),
            "not_analysed": setup or "",
            "undecided_samples": [f"{r['name']}{r['params']}: {u}" for r, u in undec[:10]],
            "violations": len(viol),
            "functions_analysed": sorted(f"{os.path.relpath(p, repo)}:{q}" for p, q in fns),
            "call_sites_analysed": len(sites),
            "abstract_statements": sum(r["steps"] for r in results),
            "joins": sum(r["forks"] for r in results),
            "partitions": sum(r["splits"] for r in results),
            "samples": [{"case": r["name"], "params": r["params"], "obligations": r["obl"]} for r in results[:: max(1, len(results) // 5)]],
            "violation_reports": [dict(v, case=r["name"], params=r["params"]) for r, v in viol[:20]],
        },
        "wall_s": round(wall, 3),
    }
    path = os.path.join(evd, f"{a.prop}.json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if a.v:
        for r in sorted(results, key=lambda r: -r["wall"])[:5]:
            print(f"  slow {r['wall']:.2f}s {r['name']}{r['params']} steps={r['steps']} forks={r['forks']} splits={r['splits']}")
    for r, u in undec[: 40 if a.v else 5]:
        print(f"UNDECIDED {r['name']}{r['params']}: {u}")
    for r, v in fresh[: 40 if a.v else 8]:
        print(f"{r['name']}{r['params']}: [{v['kind']}] {v['msg']} values={v['values']} witness={v['witness']} rule={v['rule']}")
        for f in v["frames"][:12]:
            print(f"    {f}")
    print(
        f"{a.prop}: {len(results)} cases, {obl} obligations, {done} discharged, {len(undec)} undecided, "
        f"{len(fresh)} violated, {len(fns)} functions, {wall:.1f}s"
    )
    if fresh:
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if obl == 0:
        print(f"UNDECIDED property={a.prop}: no obligation could be evaluated on this tree, the property is neither shown nor refuted")
    if a.strict and (undec or setup or obl == 0):
        return 3
    return 0


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
