#!/usr/bin/python3
"""Runs the checks against planted bugs, in scratch copies of /repo.

usage: bugs.py [<bug>...]; maintains lib/bugs.json.  Not used by the checks."""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')
RES = os.path.join(HERE, 'bugs.json')
demo_too = '--demo' in sys.argv
bugs = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(
    os.listdir(SEEDED))
res = json.load(open(RES)) if os.path.exists(RES) else {}
for b in bugs:
    d = os.path.join(SEEDED, b)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    work = f'/tmp/bug.{b}'
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
    subprocess.run(['cp', '-a', '/repo', work], check=True)
    r = subprocess.run(['git', '-C', work, 'apply', os.path.join(d, 'patch.diff')])
    if r.returncode:
        print(b, 'DOES NOT APPLY')
        continue
    env = dict(os.environ, VERIF_REPO=work, VERIF_BUILD=f'/tmp/bugbuild')
    caught = []
    for prop in [meta['property']] + meta.get('also', []):
        r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop],
                           env=env, capture_output=True, text=True)
        msg = [l for l in r.stdout.split('\n') if l][:1]
        print(b, prop, r.returncode, msg[0][:200] if msg else
              r.stderr[-300:].replace('\n', ' | '), flush=True)
        if r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout:
            caught.append(prop)
    res[b] = caught
    shutil.rmtree(work)
    with open(RES, 'w') as f:
        json.dump(res, f, indent=1, sort_keys=True)
        f.write('\n')
