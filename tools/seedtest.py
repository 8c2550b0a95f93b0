#!/usr/bin/env python3
"""Run the check of each planted bug's property against it: seedtest.py [ids...] [--all-props]
Applies the patch in /repo, runs the quick check, undoes it. Not a check: development aid only."""
import sys, os, json, subprocess, time
S = '/verif/seeded'
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(S))
ids = [d for i in ids for d in sorted(os.listdir(S)) if d == i or d.startswith(i + '_')]
allp = '--all-props' in sys.argv
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo not clean'
for i in ids:
    m = json.load(open(f'{S}/{i}/meta.json'))
    props = [m['property']] if not allp else [f'C{k:02d}' for k in range(1, 24) if k != 22]
    try:
        a = sh(f'git -C /repo apply {S}/{i}/patch.diff')
        if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); continue
        for p in props:
            t = time.time()
            r = sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {p} --tier quick')
            v = [l for l in r.stdout.splitlines() if l.startswith(f'VIOLATION property={p} ')]
            st = 'CAUGHT' if r.returncode == 1 and v else ('quiet' if r.returncode == 0 else f'rc={r.returncode} ' + r.stdout[-300:])
            if not allp or st != 'quiet': print(i, p, st, f'{time.time()-t:.0f}s', flush=True)
    finally:
        sh('git -C /repo checkout -- .')
