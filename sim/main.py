"""Entry point:  main.py --property Cxx [--tier quick|thorough] [--seed N]   |   main.py --replay FILE"""
import argparse
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def reexec():
    """One fixed interpreter configuration: no hash randomisation, bytecode only in a private scratch directory."""
    if os.environ.get('MPSCI_SIM_CHILD') == '1':
        return None
    d = tempfile.mkdtemp(prefix='mpsci-sim-')
    env = dict(os.environ, MPSCI_SIM_CHILD='1', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX=os.path.join(d, 'pyc'),
               MPSCI_SIM_SCRATCH=d, LC_ALL='C.UTF-8', TZ='UTC')
    for k in ('PYTHONPATH', 'PYTHONDONTWRITEBYTECODE', 'PYTHONOPTIMIZE', 'PYTHONWARNINGS'):
        env.pop(k, None)
    try:
        import subprocess
        return subprocess.call([sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env=env)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(pid, tier, seed):
    import importlib
    where = {'C01': 'inv', 'C02': 'inv', 'C05': 'inv', 'C03': 'hist', 'C04': 'hist', 'C06': 'hist', 'C07': 'faults',
             'C08': 'tasks', 'C09': 'lazy', 'C10': 'imports', 'C11': 'growth', 'C12': 'docgen', 'C13': 'faults',
             'C14': 'envs', 'C15': 'faults'}
    mod = importlib.import_module(where[pid])
    return getattr(mod, pid)(tier, seed)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--wall', type=float, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--unit', type=int)
    a = ap.parse_args()
    rc = reexec()
    if rc is not None:
        return rc
    import core
    import engine
    workers = a.workers or max(1, min(8, len(os.sched_getaffinity(0))))
    try:
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            prop = load(r['property'], 'quick', r['seed'])
            prop.enriched = False
            prop.setup()
            v, log = prop.replay_steps(r['steps'])
            if v is None:
                print('NOT REPRODUCED: the property held on this replay')
                return 0
            print(f'REPRODUCED class={v[0]}: {v[1]}')
            print(f'VIOLATION property={r["property"]} replay={os.path.abspath(a.replay)}')
            return 1
        tier = 'thorough' if a.tier == 'thorough' else 'quick'
        prop = load(a.property, tier, a.seed)
        if a.unit is not None:
            prop.setup()
            res = prop.unit(a.unit)
            print(json.dumps({k: res[k] for k in ('steps', 'viol', 'log')}, default=str, indent=0)[:20000])
            return 0
        wall = a.wall or (600 if tier == 'quick' else float(os.environ.get('VERIF_THOROUGH_WALL', '3600')))
        return engine.check(prop, workers, wall)
    except core.HarnessError as e:
        print('ERROR (harness, not a verdict):', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
