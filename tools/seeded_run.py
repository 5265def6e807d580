#!/usr/bin/env python3
"""Runs the quick check of the property of every planted bug against a scratch copy of /repo
with the bug applied: seeded_run.py [--tier T] [--seed N] [--all-checks] [id...]. Prints what was caught."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier, seed, checks = 'quick', '1', None
ids = []
while args:
    a = args.pop(0)
    if a == '--tier': tier = args.pop(0)
    elif a == '--seed': seed = args.pop(0)
    elif a == '--check': checks = args.pop(0).split(',')
    else: ids.append(a)
allids = sorted(os.listdir(V + '/seeded'))
for i in allids:
    if ids and not any(i.startswith(x) for x in ids): continue
    d = V + '/seeded/' + i
    if not os.path.exists(d + '/meta.json'): continue
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='seeded-')
    subprocess.run(['cp', '-a', '/repo/.', w], check=True)
    subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
    for c in checks or [prop]:
        t = time.time()
        env = dict(os.environ, VERIF_REPO=w, VERIF_TIER=tier, VERIF_SEED=seed)
        p = subprocess.run([sys.executable, V + '/run.py', c], env=env, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
        detail = [l for l in p.stdout.split('\n') if l and not l.startswith('VIOLATION')]
        print('%-20s %s %s rc=%d %.0fs %s %s' % (i, c, 'CAUGHT' if p.returncode == 1 and lines else '*** MISSED', p.returncode, time.time() - t, lines[:1], '' if p.returncode == 1 else detail[-3:]), flush=True)
    shutil.rmtree(w)
