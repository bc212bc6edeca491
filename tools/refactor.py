"""Runs the checks on behaviour-preserving rewrites (tools/refactor_specs.py) of a scratch copy of /repo.

usage: refactor.py [-t] [id-substring ...]     (-t: also run the repository's tests on the rewrite; -c: combined)
Every check must exit 0; undecided obligations (exit 3 with --strict) are listed but acceptable."""
import os, shutil, subprocess, sys, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
import refactor_specs as R
SCR = "/tmp/dmsa_refactor"
CHECKS = sorted(f[:-3] for f in os.listdir(H + "/rules") if f.startswith("C") and f.endswith(".py"))
args = sys.argv[1:]
tests = "-t" in args
args = [a for a in args if a != "-t"]
shutil.rmtree(SCR, ignore_errors=True)
os.makedirs(SCR)
bad = 0
specs = R.SPECS
if "-c" in args:  # combine: the rewrites with the same last letter go into one tree
    args.remove("-c")
    specs = {}
    for k, v in R.SPECS.items():
        specs.setdefault("all-" + k.rsplit("-", 1)[-1], []).extend(v)
for rid, edits in specs.items():
    if args and not any(a in rid for a in args):
        continue
    d = f"{SCR}/{rid}"
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    files = set()
    for f, old, new in edits:
        p = f"{d}/dustmaker/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            print(rid, "DOES NOT APPLY", f, old[:60]); bad += 1
            continue
        open(p, "w").write(s.replace(old, new)); files.add(f)
    if tests:
        r = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -2", shell=True, cwd=d, capture_output=True, text=True, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": d})
        print(rid, "tests:", r.stdout.strip().splitlines()[-1:])
    def one(c):
        r = subprocess.run([sys.executable, H + "/check.py", c, "--strict", "--procs", "4"], capture_output=True, text=True, env={**os.environ, "DMSA_REPO": d})
        return c, r.returncode, (r.stdout + r.stderr)
    with cf.ThreadPoolExecutor(3) as ex:
        for c, rc, out in ex.map(one, CHECKS):
            if rc == 0:
                continue
            if rc != 3:
                bad += 1
            ls = out.strip().splitlines()
            print(rid, c, {1: "ALARM", 3: "undecided"}.get(rc, f"rc={rc}"), ls[-1 if rc == 3 else 0][:200])
            seen = set()
            for l in ls:
                if ("UNDECIDED" in l or rc != 3) and len(seen) < 3:
                    k = l.split("}:")[-1]
                    if k not in seen:
                        seen.add(k); print("      ", l[:260])
    print(rid, "done", flush=True)
    shutil.rmtree(d, ignore_errors=True)
print("bad:", bad)
