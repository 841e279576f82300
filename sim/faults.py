"""C07 (a fault surfaces or is correctly recovered) and C13 (a failing data source never yields a result)."""
import re

import codec
from engine import Prop, Violation, kinds_at, spread, SOLVERS
from hist import HEAVY, HistExec, History, branches, close_fp, probe
from inv import describe, hash_key
from seams import FlakySeq, _Arith

_ZERO = re.compile(r'mpf:0,0,0\b')


class C07(History):
    id = 'C07'
    level = 'fault_enumeration'
    cls = 'wrong-value'
    rule = ('one evaluation = one call struck by one fault (interrupt, memory failure, solver/series/quadrature failure, '
            'or every use of one solver failing) at a chosen numeric operation, judged against the fault-free outcome in a '
            'pristine process; non-trivial = the fault fired; distinct = different (function, arguments, precision, fault)')
    assumptions = ['recovered values are accepted within half the working digits of the fault-free value',
                   'faults strike at entries from mpsci into mpmath']
    passes = 5              # calls per unit
    per_fn_quick = 1
    per_fn_thorough = 5
    tries = 14
    heavy = 3
    max_sites = {'quick': 14, 'thorough': 60}

    def setup(self):
        Prop.setup(self)
        self.ref.budget = HEAVY
        self.stateful = []

    def units(self):
        return len(self.gen.names) * (self.per_fn_quick if self.tier == 'quick' else self.per_fn_thorough)

    @property
    def min_units(self):
        return len(self.gen.names)

    def usable(self, op, p, t, n):
        return t == 'ok'

    def drivers(self, rng, i):
        names = self.gen.names
        name = names[i % len(names)]
        count = [0]

        def make():
            count[0] += 1
            wild = 0.0 if count[0] <= 5 and i < len(names) else 0.35
            return self.gen.call(rng, name, wild=wild), rng.choice([53, 53, 80, 120, 160])
        found = branches(self.w, rng, make, self.tries, self.passes, self.usable, lambda k: k[2] in SOLVERS,
                         heavy=self.heavy)
        return [self.plan(rng, *c) for c in found]

    def plan(self, rng, op, p, t, n, sites):
        faults = []
        keys = spread(rng, sites)
        callees = sorted({k[2] for k in keys if k[2] in SOLVERS})
        for c in callees:
            for kind in kinds_at(c) + ['mem']:
                faults.append([-1, kind, c])
        # solver call sites first, then all other sites
        keys.sort(key=lambda k: k[2] not in SOLVERS)
        many = self.max_sites[self.tier]
        for k in keys[:many if n < 1500 else many // 2]:
            a, b = sites[k]
            for kind in kinds_at(k[2]):
                faults.append([a, kind])
                if b != a:
                    faults.append([b, kind])
            faults.append([a if rng.random() < 0.7 else b, 'int'])
            faults.append([a if rng.random() < 0.7 else b, rng.choice(['mem', 'mem', 'rec'])])
        for _ in range(4):
            faults.append([rng.randrange(n), rng.choice(['int', 'exit', 'mem', 'rec'])])
        return lambda ex, rng: self.batch(ex, op, p, faults)

    def batch(self, ex, op, p, faults):
        for f in faults:
            ex.do({'do': 'call', 'c': op, 'p': p, 'b': self.ref.budget, 'fault': f})

    def unit(self, i):
        return super().unit(i) or empty()

    def judge_step(self, steps, log, i, s, o):
        if s['do'] != 'call' or not o.get('fired') or o['t'] == 'budget':
            return None
        if s['fault'][1] in ('int', 'exit'):
            if not (o['t'] == 'err' and o['fp'].startswith(('KeyboardInterrupt', 'SystemExit'))):
                return Violation('interrupt-swallowed', f'{describe(s)}: the interrupt did not reach the caller: '
                                 f'{o["t"]} {o["fp"][:150]}', s['c']['f'])
            return None
        if o['t'] == 'deadlock':
            return Violation('deadlock', f'{describe(s)}: the call can never complete', s['c']['f'])
        if o['t'] != 'ok':
            return None
        ref = self.ref.get(o['rop'], o['p'])
        if ref[0] != 'ok':
            return None
        self.jstats['probe:recovered by an alternative path'] += 1
        if not close_fp(o['fp'], ref[1], o['p'] // 2 + 12):
            return Violation(self.cls, f'{describe(s)}: returned {o["fp"][:150]}, fault-free value is {ref[1][:150]}',
                             s['c']['f'])
        return None

    def nontrivial(self, ex):
        return [hash_key(s, o) for s, o in zip(ex.steps, ex.log) if o.get('fired')]

    def extra_evidence(self, agg):
        return {}


# ---------------------------------------------------------------------------------------------------
AFTER_INTERRUPT = 60        # numeric operations a call may still perform after an interrupt (clean-up)


def allowed(ref_total):
    """Numeric work a call may perform when something inside it fails, given the work it needs without the fault."""
    return 30000 + 20 * ref_total


class C15Exec(HistExec):
    def on_budget(self):
        pass


class C15(C07):
    """Liveness: a struck call ends within a bounded number of operations."""
    id = 'C15'
    exec_cls = C15Exec
    cls = 'runs-on'
    rule = ('one evaluation = one call struck by one fault or by a persistent fault; its numeric operations after the fault '
            'are counted until it ends; non-trivial = the fault fired; distinct = different (function, arguments, '
            'precision, fault)')
    assumptions = ['"bounded" is decided as: at most 60 numeric operations of the library after an interrupt; at most 20 '
                   'times the fault-free work plus 30000 engine operations after any other fault',
                   'faults strike at entries from mpsci into mpmath']
    passes = 3
    per_fn_thorough = 7
    heavy = 0
    MAX_REF = 4000

    def usable(self, op, p, t, n):
        if t not in ('ok', 'err'):
            return False
        ref = self.ref.get(op, p)
        return ref[0] in ('ok', 'err') and ref[3] <= self.MAX_REF

    def plan(self, rng, op, p, t, n, sites):
        ref = self.ref.get(op, p)
        b = allowed(ref[3])
        faults = []
        for c in sorted({k[2] for k in sites}):
            if c == _Arith.co_name:
                continue
            for kind in (kinds_at(c) or ['overflow', 'zerodiv'][:1]) + ['mem']:
                faults.append([-1, kind, c])
        rng.shuffle(faults)
        faults.sort(key=lambda f: f[2] not in SOLVERS or f[1] == 'mem')     # every persistent solver failure, then a sample
        del faults[10:]
        keys = spread(rng, sites)
        keys.sort(key=lambda k: k[2] not in SOLVERS)
        for k in keys[:10]:
            for kind in kinds_at(k[2]):
                faults.append([rng.choice(sites[k]), kind])
            faults.append([rng.choice(sites[k]), 'mem'])
            faults.append([rng.choice(sites[k]), 'int'])
        for _ in range(4):
            faults.append([rng.randrange(n), rng.choice(['int', 'exit'])])
        return lambda ex, rng: self.run(ex, op, p, b, faults)

    def run(self, ex, op, p, b, faults):
        for f in faults:
            ex.do({'do': 'call', 'c': op, 'p': p, 'fault': f, 'b': b})

    def endless(self, ex):
        s = ex.steps[-1]
        if s['do'] == 'call' and s.get('fault') and 'b' in s:
            return (self.cls, f'{describe(s)}: the call swallows every exception and never ends', s['c']['f'])
        return None

    def judge_step(self, steps, log, i, s, o):
        if s['do'] != 'call' or not s.get('fault') or not (o.get('fired') or o['t'] == 'budget'):
            return None
        if s['fault'][1] in ('int', 'exit'):
            more = o['n'] - s['fault'][0] - 1
            self.jstats['probe:interrupted calls'] += 1
            if o['t'] == 'budget' or more > AFTER_INTERRUPT:
                return Violation(self.cls, f'{describe(s)}: the call goes on for {more if o["t"] != "budget" else "very many"} '
                                 f'numeric operations after the interrupt', s['c']['f'])
            return None
        self.jstats['probe:other faults'] += 1
        if o['t'] == 'deadlock':
            return Violation('deadlock', f'{describe(s)}: the call can never complete', s['c']['f'])
        ref = self.ref.get(o['rop'], o['p'])
        if ref[0] not in ('ok', 'err'):
            return None
        if o['t'] == 'budget' and not o.get('fired'):
            return None
        if o['t'] == 'budget' or o['tot'] > allowed(ref[3]):
            return Violation(self.cls, f'{describe(s)}: the call is still running after {allowed(ref[3])} numeric operations; '
                             f'without the fault it needs {ref[3]}', s['c']['f'])
        return None


# ---------------------------------------------------------------------------------------------------
def empty():
    import collections
    return {'steps': [], 'log': [], 'viol': None, 'stats': collections.Counter(skipped=1), 'sites': set(), 'nt': [],
            'alllogs': []}


# ---------------------------------------------------------------------------------------------------
def data_error(kind):
    return {'io': lambda: OSError(5, 'simulated I/O error'), 'timeout': lambda: TimeoutError('simulated'),
            'value': lambda: ValueError('simulated corrupt record'), 'key': lambda: KeyError('simulated'),
            'runtime': lambda: RuntimeError('simulated'), 'conn': lambda: ConnectionResetError(104, 'simulated'),
            'mem': lambda: MemoryError('simulated'),
            'arith': lambda: ArithmeticError('simulated'), 'eof': lambda: EOFError('simulated'),
            'zero': lambda: ZeroDivisionError('simulated'), 'index': lambda: IndexError('simulated'),
            'assert': lambda: AssertionError('simulated'), 'notimpl': lambda: NotImplementedError('simulated')}[kind]()


DATA_ERRORS = ['io', 'timeout', 'value', 'key', 'runtime', 'conn', 'mem', 'arith', 'eof', 'zero', 'index', 'assert', 'notimpl']


def flaky(op):
    """Replace list and tuple arguments by failing-capable sequences."""
    hit = []

    def f(j):
        if isinstance(j, dict):
            k, v = next(iter(j.items()))
            if k in ('L', 'T') and v:
                hit.append(1)
                return {'Q': [f(x) for x in v]}
        return j
    r = {'f': op['f'], 'kw': {k: f(v) for k, v in op['kw'].items()}}
    if 'va' in op:
        r['va'] = [f(v) for v in op['va']]
    return r if hit else None


class C13Exec(HistExec):
    def before(self, step, fn, args, kw):
        FlakySeq.disarm()
        FlakySeq.reads = 0
        fl = step.get('flaky')
        if fl:
            FlakySeq.arm(fl[0], data_error(fl[1]))
        return self.mp.prec

    def after(self, step, obs, value, ctx):
        fired, FlakySeq.fired = FlakySeq.fired, False
        obs['reads'] = FlakySeq.reads
        fl = step.get('flaky')
        FlakySeq.disarm()
        if fl and fired:
            obs['struck'] = True
            obs['fired'] = True
            self.stats['fault:data ' + fl[1]] += 1
            if obs['t'] == 'ok':
                raise Violation('partial-data', f'{step["c"]["f"]} at precision {step["p"]}: reading the data failed '
                                f'({fl[1]}) at access {fl[0]}, yet the call returned {obs["fp"][:150]}', step['c']['f'])
        if self.mp.prec != ctx:
            raise Violation('precision-leak', f'{step["c"]["f"]}: precision {ctx} -> {self.mp.prec} after a failing data '
                            f'source', step['c']['f'])


class C13(History):
    id = 'C13'
    level = 'fault_enumeration'
    cls = 'not-recovered'
    exec_cls = C13Exec
    per_fn_quick = 16
    per_fn_thorough = 120
    rule = ('one evaluation = one call whose data sequences fail at one access (or the clean retry after it); non-trivial = '
            'the failing access was reached; distinct = different (function, arguments, access index, error kind)')
    stubs = ['caller-supplied data sequence (list subclass that raises at a chosen access)']

    def setup(self):
        Prop.setup(self)
        self.ref.budget = 20000
        self.stateful = []
        from inv import has_container
        self.fns = [n for n in self.gen.names 
                    if 4 * sum(flaky(dict(c, f=n)) is not None for c in self.gen.recorded[n]) >= len(self.gen.recorded[n])]

    def units(self):
        return len(self.fns) * (self.per_fn_quick if self.tier == 'quick' else self.per_fn_thorough)

    @property
    def min_units(self):
        return len(self.fns)

    def drivers(self, rng, i):
        name = self.fns[i % len(self.fns)]
        op = None
        for _ in range(12):
            op = flaky(self.gen.call(rng, name, wild=0.0 if i < len(self.fns) else 0.4))
            if op is None:
                continue
            p = self.gen.prec(rng)
            # clean run in a fork: number of reads

            from core import in_child

            def clean():
                ex = self.new_exec()
                o = ex.do({'do': 'call', 'c': op, 'p': p})
                return o['t'], o.get('reads', 0)
            try:
                st, r = in_child(clean, cpu=20)
            except Exception:
                continue
            if st == 'ok' and r[0] == 'ok' and r[1]:
                break
        else:
            return []
        reads = r[1]
        pts = sorted(set(range(min(reads, 6))) | {reads - 1, reads // 2} | {rng.randrange(reads) for _ in range(8)})
        plan = [(k, rng.choice(DATA_ERRORS)) for k in pts]
        return [lambda ex, rng: self.run(ex, rng, op, p, plan)]

    def run(self, ex, rng, op, p, plan):
        for j, (k, kind) in enumerate(plan):
            ex.do({'do': 'call', 'c': op, 'p': p, 'flaky': [k, kind]})
            if j % 4 == 3 or j == len(plan) - 1 or rng.random() < 0.2:
                ex.do({'do': 'call', 'c': op, 'p': p})

    def unit(self, i):
        return super().unit(i) or empty()

    def nontrivial(self, ex):
        import hashlib
        import json
        return [hashlib.blake2b(json.dumps(s, sort_keys=True).encode(), digest_size=8).digest()
                for s, o in zip(ex.steps, ex.log) if o.get('struck')]

    def simplify(self, steps):
        return iter(())

    def extra_evidence(self, agg):
        return {'functions_taking_data': len(self.fns)}
