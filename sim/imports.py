"""C10: how and at what precision the package was imported does not matter."""
import collections
import json
import os
import sys

import codec
from core import World, REPO, in_child, HarnessError
from engine import Prop, Exec, Violation, EndRun
import gen as G
from hist import close_fp
from faults import empty

CHUNK = 40
BUDGET = 4000


class ImportExec(Exec):
    """Starts in a process that has mpmath but not mpsci."""

    def __init__(self, world):
        super().__init__(None or _NoWorld(), budget=BUDGET)

    def do_import(self, step):
        from mpmath import mp
        if any(m == 'mpsci' or m.startswith('mpsci.') for m in sys.modules):
            if not self.stats['imports']:
                raise HarnessError('mpsci already imported')
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        mp.prec = step['p']
        intr = step.get('interrupt')
        prefix = os.path.join(REPO, 'mpsci') + os.sep
        mon = sys.monitoring
        if intr:
            cnt = [0]
            fired = []

            def on_line(code, line):
                if code.co_name != '<module>' or not code.co_filename.startswith(prefix):
                    return mon.DISABLE
                cnt[0] += 1
                if cnt[0] == intr[0] and not fired:
                    fired.append(1)
                    raise KeyboardInterrupt('simulated') if intr[1] == 'int' else MemoryError('simulated')
            mon.use_tool_id(4, 'imp')
            mon.register_callback(4, mon.events.LINE, on_line)
            mon.set_events(4, mon.events.LINE)
            try:
                for m in step['order']:
                    __import__(m)
            except (KeyboardInterrupt, MemoryError):
                pass
            finally:
                mon.set_events(4, 0)
                mon.free_tool_id(4)
            if fired:
                self.stats['fault:import ' + intr[1]] += 1
            if mp.prec != step['p']:
                raise Violation('precision-leak', f'an interrupted import changed the precision from {step["p"]} to '
                                f'{mp.prec}', 'import')
            mp.prec = step.get('p2', step['p'])
        before = mp.prec
        for m in step['order'] + ['mpsci']:
            try:
                __import__(m)
            except ModuleNotFoundError:
                pass
            except ImportError as e:
                raise Violation('import-fails', f'importing {m} fails: {e}', 'import')
            if mp.prec != before:
                raise Violation('precision-leak', f'importing {m} changed the precision from {before} to {mp.prec}',
                                'import')
        self.stats['imports'] += 1
        self.stats[f'probe:import at precision {"53" if step["p"] == 53 else "other"}'] += 1
        self.w = World(fresh=False)
        self.mp = self.w.mp
        return {}

    def do_call(self, step):
        if step['c']['f'] not in self.w.api:
            return {'t': 'missing', 'fp': '', 'n': 0}
        return Exec.do_call(self, step)

    def on_budget(self):
        pass


class _NoWorld:
    mp = None


DEFAULT = {'do': 'import', 'p': 53, 'order': []}


def module_data():
    """Fingerprints of the plain data bound in the library's modules."""
    def fp(o, depth=0):
        if o is None or isinstance(o, (bool, int, float, str, bytes, complex)):
            return repr(o)[:2000]
        if isinstance(o, (list, tuple, set, frozenset, dict)) and depth < 4:
            it = o.items() if isinstance(o, dict) else o
            r = [fp(x, depth + 1) for x in it]
            return (type(o).__name__, tuple(sorted(r, key=repr) if isinstance(o, (set, frozenset)) else r))
        for a in ('_mpf_', '_mpc_'):
            if type(getattr(o, a, None)) is tuple and not callable(o):
                return repr(getattr(o, a))
        if type(o).__module__ == 'fractions':
            return repr(o)
        f = getattr(o, '__wrapped__', o)
        d = getattr(f, '__defaults__', None)
        return (type(o).__name__, fp(d, depth + 1) if isinstance(d, tuple) and depth < 3 else '')
    return {m: {k: fp(v) for k, v in sorted(vars(mod).items())
                if not k.startswith('__') and not isinstance(v, type(sys))}
            for m, mod in sorted(sys.modules.items()) if (m == 'mpsci' or m.startswith('mpsci.')) and mod is not None}


def users_of(api, changed):
    """Public functions whose code, or code they call, refers to one of the changed module variables."""
    mods = {m: mod for m, mod in sys.modules.items() if (m == 'mpsci' or m.startswith('mpsci.')) and mod is not None}

    def names(code):
        out = set(code.co_names)
        for c in code.co_consts:
            if isinstance(c, type(code)):
                out |= names(c)
        return out

    def inner(o):
        while hasattr(o, '__wrapped__'):
            o = o.__wrapped__
        return o
    memo = {}

    def refs(f):
        """-> (module variables, functions) that the function's code refers to"""
        if f not in memo:
            data, fns = set(), []
            ns = names(f.__code__)
            g = f.__globals__
            here = g.get('__name__')
            for n in ns:
                if n in g:
                    data.add((here, n))
                    o = g[n]
                    if isinstance(o, type(sys)) and o.__name__ in mods:
                        for k in ns:
                            if k in vars(o):
                                data.add((o.__name__, k))
                                fns.append(inner(vars(o)[k]))
                    else:
                        fns.append(inner(o))
            memo[f] = data, [o for o in fns if hasattr(o, '__code__') and hasattr(o, '__globals__')]
        return memo[f]
    out = []
    for n, f in api.items():
        seen, todo = set(), [inner(f)]
        while todo:
            f = todo.pop()
            if f in seen or not hasattr(f, '__code__'):
                continue
            seen.add(f)
            data, fns = refs(f)
            if data & changed or (f.__module__, f.__name__) in changed:
                out.append(n)
                break
            todo += fns
    return out


class C10(Prop):
    id = 'C10'
    level = 'exploration'
    exec_cls = ImportExec
    rule = ('one evaluation = one public call made after a simulated import scenario (import precision, import order, '
            'interrupted and retried import), compared bit for bit with the same call after a default import; non-trivial '
            '= scenario differs from the default import and the call did numeric work; distinct = different (scenario, '
            'call, precision)')
    variants = 3
    stubs = ['import interruption (sys.monitoring LINE events)']

    def setup(self):
        import mpmath       # noqa: F401   in the parent: mpmath only
        import api
        self.w = None
        if REPO not in sys.path:
            sys.path.insert(0, REPO)

        def child():
            import locks
            locks.install(os.path.join(REPO, 'mpsci') + os.sep)
            import mpsci
            mods = sorted(m for m in sys.modules if m.startswith('mpsci.') and '.tests' not in m)
            fns = api.discover()
            home = collections.defaultdict(list)    # module -> public functions whose results may depend on it
            for n in sorted(fns):
                m = getattr(fns[n], '__module__', None)
                if m not in sys.modules:
                    continue
                home[m].append(n)
                used = set()
                for o in vars(sys.modules[m]).values():
                    used.add(getattr(o, '__module__', None) if callable(o) else getattr(o, '__name__', None))
                for u in used:
                    if isinstance(u, str) and u.startswith('mpsci.') and u != m:
                        home[u].append(n)
            return sorted(fns), mods, dict(home), module_data()

        def count():
            mon = sys.monitoring
            prefix = os.path.join(REPO, 'mpsci') + os.sep
            n = []

            def on_line(code, line):
                if code.co_name != '<module>' or not code.co_filename.startswith(prefix):
                    return mon.DISABLE
                n.append('mpsci.' + code.co_filename[len(prefix):-3].replace(os.sep, '.'))
            mon.use_tool_id(4, 'imp')
            mon.register_callback(4, mon.events.LINE, on_line)
            mon.set_events(4, mon.events.LINE)
            import mpsci        # noqa: F401
            mon.set_events(4, 0)
            return n
        st, self.lines = in_child(count, cpu=30)
        if st != 'ok':
            raise HarnessError('cannot import mpsci')
        st, r = in_child(child, cpu=30)
        if st != 'ok':
            raise HarnessError('cannot import mpsci: ' + str(r))
        names, self.mods, self.home, self.data = r
        self.by_mod = collections.defaultdict(list)
        for j, m in enumerate(self.lines):
            self.by_mod[m].append(j + 1)
        self.gen = G.Gen({n: None for n in names}, REPO)
        self.nchunks = (len(self.gen.names) + CHUNK - 1) // CHUNK
        self.refcache = {}

    def new_exec(self):
        return ImportExec(None)

    def units(self):
        return self.nchunks * (9 if self.tier == 'quick' else 100)

    @property
    def min_units(self):
        return self.nchunks

    def scenario(self, rng, v):
        p = [200, 20, 90, 53][v] if v < 4 and rng.random() < 0.7 else rng.choice([10, 15, 30, 40, 54, 64, 113, 300])
        s = {'do': 'import', 'p': p, 'order': []}
        if rng.random() < 0.6:
            s['order'] = rng.sample(self.mods, rng.randint(1, 4))
        if rng.random() < 0.7:
            # uniformly over the modules, or over the statements
            m = rng.choice(sorted(self.by_mod))
            n = rng.choice(self.by_mod[m]) if rng.random() < 0.7 else rng.randint(1, len(self.lines))
            s['interrupt'] = [n, rng.choice(['int', 'mem'])]
            s['p2'] = rng.choice([p, p, 25, 150])
        return s

    def affected(self, rng, s):
        """Public functions of, or using, the module whose import is interrupted."""
        if 'interrupt' not in s:
            return []
        m = self.lines[s['interrupt'][0] - 1]
        names = [n for n in self.home.get(m.removesuffix('.__init__'), []) if n in self.gen.corpus]
        return rng.sample(names, min(len(names), 10))

    def drivers(self, rng, i):
        c = i % self.nchunks
        names = [n for j, n in enumerate(self.gen.names) if j % self.nchunks == c]
        calls = []
        for n in names:
            op = self.gen.call(rng, n, wild=0.15 if i >= self.nchunks else 0.0)
            calls.append({'do': 'call', 'c': op, 'p': rng.choice([53, 53, 100, 150])})
            if rng.random() < 0.5:
                calls.append({'do': 'call', 'c': self.gen.call(rng, n, wild=0.15), 'p': rng.choice([40, 53, 200, 120])})
        scen = [self.scenario(rng, v) for v in range(self.variants)]
        more = [{'do': 'call', 'c': self.gen.call(rng, n), 'p': rng.choice([53, 100])}
                for s in scen for n in self.affected(rng, s)]
        return [lambda ex, rng, s=s: self.go(ex, s, calls + more) for s in scen]

    def go(self, ex, s, calls):
        ex.do(s)
        for c in calls:
            ex.do(c)
        if s == DEFAULT or len(ex.log) <= len(calls):
            return
        # module-level data that differs from a default import is not a violation by itself, but it shows where to look
        now = module_data()
        changed = {(m, k) for m in set(now) | set(self.data) for k in set(now.get(m, {})) | set(self.data.get(m, {}))
                   if now.get(m, {}).get(k) != self.data.get(m, {}).get(k)}
        if changed:
            ex.stats['probe:imports that left different data in the modules'] += 1
            names = sorted(n for n in users_of(ex.w.api, changed) if n in self.gen.corpus)
            rng = G.rng_for('C10', s['p'], *s['order'], *s.get('interrupt', []))
            names = rng.sample(names, min(len(names), 100))
            for _ in range(600 // max(len(names), 6)):
                for n in names:
                    ex.do({'do': 'call', 'c': self.gen.call(rng, n, wild=0.8), 'p': rng.choice([53, 53, 100, 40])})

    def baseline(self, calls):
        k = json.dumps(calls, sort_keys=True)
        if k not in self.refcache:
            self.refcache.clear()

            def child():
                ex = ImportExec(None)
                self.go(ex, DEFAULT, calls)
                return [(o['t'], o['fp']) for o in ex.log[1:]]
            st, r = in_child(child, cpu=120)
            self.refcache[k] = r if st == 'ok' else None
        return self.refcache[k]

    def judge(self, steps, log):
        if not steps or steps[0]['do'] != 'import':
            return None
        calls = steps[1:len(log)]
        ref = self.baseline(calls)
        if ref is None:
            return None
        for s, o, r in zip(calls, log[1:], ref):
            if 'budget' in (o['t'], r[0]) or o['t'] == 'missing':
                continue
            self.jstats['compared'] += 1
            if (o['t'], o['fp']) != r:
                if o['t'] == r[0] == 'ok' and close_fp(o['fp'], r[1], o['p']):
                    # last-bit difference: could it be the engine's own state (constants cached at another precision)?
                    if self.engine_noise(steps[0], s, r):
                        self.jstats['engine_noise'] += 1
                        continue
                return Violation('import-dependence', f'{s["c"]["f"]} at precision {s["p"]}: {o["t"]} {o["fp"][:150]} after '
                                 f'importing with {steps[0]}, but {r[0]} {r[1][:150]} after a default import', s['c']['f'])
        return None

    def engine_noise(self, imp, call, r):
        """Touch the engine at the import precision, but import mpsci at 53 bits: same difference -> engine noise."""
        def child():
            from mpmath import mp
            mp.prec = imp['p']
            for c in (mp.pi, mp.e, mp.ln2, mp.euler, mp.catalan):
                +c
            mp.prec = 53
            ex = ImportExec(None)
            ex.do(DEFAULT)
            o = ex.do(call)
            return (o['t'], o['fp'])
        st, x = in_child(child, cpu=60)
        return st == 'ok' and x != r

    def replay_steps(self, steps):
        self.refcache = {}
        return super().replay_steps(steps)

    def simplify(self, steps):
        if steps and steps[0]['do'] == 'import':
            s = steps[0]
            for k in ('interrupt', 'p2'):
                if k in s:
                    t = {a: b for a, b in s.items() if a != k}
                    yield [t] + steps[1:]
            if s['order']:
                yield [dict(s, order=s['order'][:-1])] + steps[1:]

    def nontrivial(self, ex):
        import hashlib
        if not ex.steps or ex.steps[0] == DEFAULT:
            return []
        return [hashlib.blake2b(json.dumps([ex.steps[0], s['c'], s['p']], sort_keys=True).encode(), digest_size=8).digest()
                for s, o in zip(ex.steps[1:], ex.log[1:]) if o.get('n')]
