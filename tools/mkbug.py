"""Builds /verif/seeded/<id>/ from the specs in tools/bugs/*.py and verifies them in scratch copies.

    mkbug.py [--notest] ID...      (default: all specs that have no verified entry yet)

Each spec module has BUGS = [dict(id=, property=, edits=[(file, old, new), ...], demo=python source, needs=, breaks=)].
A bug is kept only if it applies, passes the stable tests, and its demo passes without and fails with the change."""
import concurrent.futures
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent-pyc', PYTHONHASHSEED='0')


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs', '*.py'))):
        m = importlib.util.spec_from_file_location('b', f)
        mod = importlib.util.module_from_spec(m)
        m.loader.exec_module(mod)
        for b in mod.BUGS:
            assert b['id'] not in out, b['id']
            out[b['id']] = b
    return out


def run(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build(b, test=True):
    work = f'/tmp/mkbug/{b["id"]}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {work}', shell=True, check=True)
        run(['git', 'init', '-q', '.'], work)
        run(['git', 'add', '-A'], work)
        run(['git', '-c', 'user.name=x', '-c', 'user.email=x', 'commit', '-qm', 'x'], work)
        for f, old, new in b['edits']:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f'{b["id"]}: {f}: {s.count(old)} occurrences of {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], work).stdout
        d = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with the current directory at the root of the tree\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pyc\n'
            'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        demo = ['bash', os.path.join(d, 'demo.sh')]
        r1 = run(demo, work)
        run(['git', 'apply', '-R', os.path.join(d, 'patch.diff')], work)
        r0 = run(demo, work)
        run(['git', 'apply', os.path.join(d, 'patch.diff')], work)
        if r0.returncode != 0 or r1.returncode == 0:
            shutil.rmtree(d, ignore_errors=True)
            return f'{b["id"]}: demo: unpatched {r0.returncode} patched {r1.returncode}\n{r0.stdout[-1500:]}\n--\n{r1.stdout[-1500:]}'
        if test:
            r = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-n', '4', '--timeout=180', 'mpsci'], work)
            if r.returncode != 0:
                shutil.rmtree(d, ignore_errors=True)
                return f'{b["id"]}: tests fail\n{r.stdout[-1500:]}'
        return f'{b["id"]}: ok'
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    test = '--notest' not in args
    args = [a for a in args if not a.startswith('--')]
    S = specs()
    todo = [S[a] for a in args] if args else [b for i, b in S.items() if not os.path.exists(os.path.join(V, 'seeded', i, 'meta.json'))]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: build(b, test), todo):
            print(r, flush=True)
