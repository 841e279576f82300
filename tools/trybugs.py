"""Runs checks against planted bugs in scratch copies:  trybugs.py [--all-props] [--seed N] ID...   (default: every bug)"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
args = sys.argv[1:]
allp = '--all-props' in args
seed = '1'
if '--seed' in args:
    k = args.index('--seed')
    seed = args[k + 1]
    del args[k:k + 2]
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(os.path.join(V, 'seeded')))
for i in ids:
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    work = f'/tmp/trybug/{i}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {work} && cd {work} && git init -q . && git apply {d}/patch.diff',
                   shell=True, check=True)
    props = [f'C{k:02d}' for k in range(1, 15)] if allp else [meta['property']]
    res = []
    for p in props:
        t = time.time()
        r = subprocess.run([os.path.join(V, 'bin', 'check'), p, '--seed', seed], cwd=V, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, env=dict(os.environ, MPSCI_REPO=work))
        what = re.search(r'what: (.*)', r.stdout)
        u = re.search(r'unit=(\d+)', r.stdout)
        res.append((p, r.returncode, round(time.time() - t)))
        if not allp or r.returncode:
            print(f'{i}: {p} rc={r.returncode} {time.time() - t:.0f}s unit={u and u[1]} '
                  + (what[1][:160] if what else r.stdout.strip()[-160:]), flush=True)
    if allp:
        print(i, meta['property'], 'caught by', [p for p, rc, _ in res if rc == 1], 'errors', [p for p, rc, _ in res if rc > 1], flush=True)
    shutil.rmtree(work, ignore_errors=True)
