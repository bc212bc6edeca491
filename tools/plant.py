#!/usr/bin/env python3
"""Validate planted bugs and write them to /verif/seeded (development tool, not a check).

usage: plant.py SPEC.py [id-substring]
SPEC.py holds PLANTS: list of dict(id, prop, edits=[(file, old, new)], needs, breaks, demo).
Works in a scratch copy of /repo; /repo itself is never touched.
"""
import json, os, shutil, subprocess, sys, runpy
R = '/tmp/s/plant'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main():
    spec = runpy.run_path(sys.argv[1]); pat = sys.argv[2] if len(sys.argv) > 2 else ''
    pre = spec.get('PRELUDE', '')
    for p in spec['PLANTS']:
        if pat not in p['id']: continue
        one(p, pre)
def one(p, pre):
    shutil.rmtree(R, ignore_errors=True)
    sh(f'git clone -q /repo {R}')
    for f, a, b in p['edits']:
        t = open(f'{R}/{f}').read()
        if t.count(a) != 1:
            print(p['id'], 'EDIT does not match once:', f, t.count(a), repr(a[:60])); return
        open(f'{R}/{f}', 'w').write(t.replace(a, b))
    diff = sh(f'git -C {R} diff').stdout
    D = f'/verif/seeded/{p["id"]}'
    os.makedirs(D, exist_ok=True)
    open(D + '/patch.diff', 'w').write(diff)
    open(D + '/demo.py', 'w').write(pre + p['demo'].strip('\n') + '\n')
    open(D + '/demo.sh', 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(D + '/demo.sh', 0o755)
    json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(D + '/meta.json', 'w'), indent=1)
    t = sh(f'cd {R} && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={R} /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -3')
    ok_t = ' passed' in t.stdout and ' failed' not in t.stdout and ' error' not in t.stdout
    dc = sh(f'sh {D}/demo.sh', cwd='/repo'); dp = sh(f'sh {D}/demo.sh', cwd=R)
    good = ok_t and dc.returncode == 0 and dp.returncode != 0
    msg = '' if good else f' tests={t.stdout.strip()[-200:]!r} clean={dc.returncode} {dc.stderr[-400:]} patched={dp.returncode}'
    if not good: shutil.rmtree(D)
    c = sh(f'DMSA_REPO={R} timeout 900 python3 /verif/check.py {p["prop"]}')
    lines = [l for l in c.stdout.splitlines() if l.strip()]
    print(p['id'], p['prop'], 'VALID' if good else 'INVALID', 'CAUGHT' if c.returncode == 1 else f'MISSED rc={c.returncode}', msg)
    if dp.returncode and good: print('    demo:', dp.stderr.strip().splitlines()[-1] if dp.stderr.strip() else dp.returncode)
    if c.returncode != 1: print('    check:', '\n'.join(lines[-4:]), c.stderr[-300:])
    sys.stdout.flush()
    shutil.rmtree(R, ignore_errors=True)
main()
