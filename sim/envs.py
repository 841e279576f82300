"""C14: the same seeded history of calls in fresh processes with different simulated environments (hash seed, clocks,
entropy and random state, environment variables, locale, time zone, working directory, memory-management timing)."""
import collections
import hashlib
import json
import os
import subprocess
import sys

from core import REPO, HERE, HarnessError, in_child
from engine import Prop, Violation, rng_for
import gen as G

CHUNK = 40
BUDGET = 6000
DEFAULT = {'do': 'env', 'hash': 0}


def run_env(step, calls):
    """-> {'res': [[tag, fingerprint, ops], ...], 'reads': {...}} or None"""
    sim = step.get('sim')
    env = {'PATH': os.environ.get('PATH', ''), 'HOME': '/nonexistent', 'PYTHONHASHSEED': str(step['hash']),
           'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}
    for k in ('PYTHONPYCACHEPREFIX', 'MPSCI_REPO', 'MPSCI_SIM_CHILD', 'MPSCI_SIM_SCRATCH', 'LD_LIBRARY_PATH',
              'VIRTUAL_ENV'):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(step.get('vars', {}))
    job = json.dumps({'env': sim, 'calls': calls, 'budget': BUDGET})
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'envrun.py')], input=job.encode(), env=env,
                           cwd=step.get('dir', '/'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode != 0:
        raise HarnessError(f'envrun: exit {r.returncode} {step}' + r.stderr.decode()[-1500:])
    return json.loads(r.stdout)


class C14(Prop):
    id = 'C14'
    level = 'exploration'
    rule = ('one evaluation = one public call in a process with a simulated environment, compared bit for bit with the same '
            'call at the same place of the same history in a process with the default environment; non-trivial = the call '
            'did numeric work; distinct = different (environment, call, precision)')
    assumptions = ['memory addresses are not controlled (address randomisation is the one nondeterminism left to the '
                   'operating system)', 'locale effects are limited to what a program can ask about the locale']
    stubs = ['clocks (time, datetime)', 'entropy (os.urandom) and random state', 'environment variables read by the library',
             'locale information', 'process id, working directory']
    variants = 3

    def setup(self):
        import mpmath       # noqa: F401
        import api
        self.w = None
        if REPO not in sys.path:
            sys.path.insert(0, REPO)

        def child():
            import mpsci    # noqa: F401
            return sorted(api.discover())
        st, names = in_child(child, cpu=30)
        if st != 'ok':
            raise HarnessError('cannot import mpsci: ' + str(names))
        self.gen = G.Gen({n: None for n in names}, REPO)
        self.nchunks = (len(self.gen.names) + CHUNK - 1) // CHUNK
        self.refcache = {}

    def units(self):
        return self.nchunks * (16 if self.tier == 'quick' else 300)

    @property
    def min_units(self):
        return self.nchunks

    def environment(self, rng):
        s = {'do': 'env', 'hash': rng.randint(1, 4294967295),
             'sim': {'seed': rng.randint(1, 10 ** 9), 'epoch': rng.choice(['now', '1970', '2040', '1999']),
                     'clock': rng.choice(['frozen', 'fast', 'fast', 'jumps', 'leaps', 'normal']), 'cwd': rng.choice(['a', 'b/c', 'tests']),
                     'point': rng.choice('.,'), 'ids': rng.choice(['normal', 'scrambled', 'scrambled']), 'gc': rng.choice(['off', 'eager', 'normal'])},
             'vars': {'TZ': rng.choice(['UTC', 'Asia/Tokyo', 'America/New_York', 'XYZ-14']),
                      'LC_ALL': rng.choice(['C', 'C.UTF-8', 'POSIX', 'tr_TR.UTF-8']),
                      'LANG': rng.choice(['C', 'de_DE.UTF-8']),
                      'HOME': rng.choice(['/nonexistent', '/', '/tmp']),
                      'COLUMNS': str(rng.choice([1, 80, 200])),
                      'USER': rng.choice(['root', 'nobody', 'ci'])},
             'dir': rng.choice(['/', '/usr', '/tmp', '/etc'])}
        if rng.random() < 0.2:
            s['vars'].update({'CI': 'true', 'DEBUG': '1', 'OMP_NUM_THREADS': '1', 'MPMATH_NOGMPY': '1'})
        # what the interpreter itself takes from the environment
        if rng.random() < 0.3:
            s['vars']['PYTHONOPTIMIZE'] = rng.choice('12')
        if rng.random() < 0.2:
            s['vars']['PYTHONWARNINGS'] = rng.choice(['ignore', 'always', 'default'])
        if rng.random() < 0.1:
            s['vars']['PYTHONDEVMODE'] = '1'
        if rng.random() < 0.1:
            s['vars']['PYTHONUTF8'] = rng.choice('01')
        return s

    def drivers(self, rng, i):
        c = i % self.nchunks
        names = [n for j, n in enumerate(self.gen.names) if j % self.nchunks == c]
        calls = []
        for n in names:
            for r in range(6):
                op = self.gen.call(rng, n, wild=0.0 if i < self.nchunks and r < 3 else 0.3)
                if r in (2, 4, 5):
                    op = self.gen.roughen(rng, op) or op
                calls.append({'do': 'call', 'c': op, 'p': rng.choice([53, 53, 53, 100, 150, 40, 200])})
        rng.shuffle(calls)
        envs = [self.environment(rng) for _ in range(self.variants)]
        return [lambda ex, rng, e=e: ([ex.append(e)] + [ex.append(x) for x in calls]) for e in envs]

    def _run(self, driver):
        steps = []
        driver(steps)
        return self.run_steps(steps)

    def run_steps(self, steps):
        stats = collections.Counter()
        out = {'steps': steps, 'log': [], 'viol': None, 'stats': stats, 'sites': set(), 'nt': []}
        if not steps or steps[0]['do'] != 'env':
            return out
        env, calls = steps[0], steps[1:]
        key = json.dumps(calls, sort_keys=True)
        if key not in self.refcache:
            self.refcache.clear()
            self.refcache[key] = run_env(DEFAULT, calls)
        ref = self.refcache[key]
        got = run_env(env, calls)
        if ref is None or got is None:
            stats['timeouts'] += 1
            return out
        stats['fault:hash seed changed'] += 1
        for k, v in (env.get('sim') or {}).items():
            if k in ('clock', 'epoch', 'gc', 'point', 'ids'):
                stats[f'fault:{k} {v}'] += 1
        for k, v in got['reads'].items():
            stats['reads of ' + k] += v
        for k in env.get('vars', {}):
            if k.startswith('PYTHON'):
                stats[f'fault:{k}={env["vars"][k]}'] += 1
        h = hashlib.blake2b(json.dumps(env, sort_keys=True).encode(), digest_size=8).hexdigest()
        for j, (s, a, b) in enumerate(zip(calls, ref['res'], got['res'])):
            stats['calls'] += 1
            stats['ops'] += b[2]
            stats['outcome:' + b[0]] += 1
            out['log'].append({'t': b[0], 'fp': b[1], 'n': b[2]})
            if b[2]:
                out['nt'].append(hashlib.blake2b((h + json.dumps(s, sort_keys=True)).encode(), digest_size=8).digest())
            if 'budget' in (a[0], b[0]) or 'missing' in (a[0], b[0]):
                continue
            stats['compared'] += 1
            if a[:2] != b[:2]:
                out['viol'] = ('environment-dependence', f'{s["c"]["f"]} at precision {s["p"]}: {b[0]} {b[1][:150]} in one '
                               f'environment, {a[0]} {a[1][:150]} in another', s['c']['f'])
                out['steps'] = steps[:j + 2]
                return out
        return out

    def replay_steps(self, steps):
        self.refcache = {}
        r = self.run_steps(steps)
        return r['viol'], r['log']

    def simplify(self, steps):
        e = steps[0] if steps else {}
        if e.get('do') != 'env':
            return
        if 'vars' in e:
            yield [{k: v for k, v in e.items() if k != 'vars'}] + steps[1:]
        if e.get('dir'):
            yield [{k: v for k, v in e.items() if k != 'dir'}] + steps[1:]
        if e.get('sim'):
            yield [{k: v for k, v in e.items() if k != 'sim'}] + steps[1:]
            for k, v in (('clock', 'normal'), ('epoch', 'now'), ('gc', 'normal'), ('point', '.'), ('ids', 'normal')):
                if e['sim'].get(k, v) != v:
                    yield [dict(e, sim=dict(e['sim'], **{k: v}))] + steps[1:]
        for k in sorted(e.get('vars', {})):
            if k.startswith('PYTHON'):
                yield [dict(e, vars={a: b for a, b in e['vars'].items() if a != k})] + steps[1:]
        if e['hash'] != 0:
            yield [dict(e, hash=0)] + steps[1:]
