"""C01 (precision restored), C02 (other ambient state), C05 (arguments unmodified): invariants checked around
every call of every run - calls that return, raise, or are struck by a fault at a chosen numeric operation."""
import os
import sys

import codec
from engine import Prop, Exec, Violation, kinds_at, spread, STRIKES
import gen as G
from gen import is_num


def choose_points(rng, sites, n, count, seen):
    """-> [(site, (index, callee))]: the first or last occurrence of distinct call sites"""
    keys = spread(rng, sites, {k[:3] for k in seen})
    return [(k, (sites[k][0] if rng.random() < 0.7 else sites[k][1], k[2])) for k in keys[:count]]


def describe(step):
    s = f"{step['c']['f']} at precision {step['p']}"
    if step.get('fault'):
        f = step['fault']
        s += f" with fault {f[1]} at " + (f'operation {f[0]}' if len(f) == 2 else f'every {f[2]}')
    return s


class Sweep(Prop):
    """Per unit: one function, several calls; each call clean, then with faults at chosen operations."""
    calls = 5
    faults = 8
    quick_units = None
    passes_quick = 3
    passes_thorough = 30
    only = None              # filter on function names

    def names(self):
        if not hasattr(self, '_names'):
            self._names = [n for n in self.gen.names if self.only is None or self.only(n)]
        return self._names

    list_passes_quick = 4         # further passes over the functions that take lists, records or matrices
    list_passes_thorough = 40

    def units(self):
        q = self.tier == 'quick'
        return len(self.names()) * (self.passes_quick if q else self.passes_thorough) \
            + len(self.listy()) * (self.list_passes_quick if q else self.list_passes_thorough)

    def listy(self):
        if not hasattr(self, '_listy'):
            self._listy = [n for n in self.names() if any(has_container(c) for c in self.gen.corpus[n])]
        return self._listy

    def focus(self, i):
        n = len(self.names()) * (self.passes_quick if self.tier == 'quick' else self.passes_thorough)
        if i < n:
            return self.names()[i % len(self.names())]
        return self.listy()[(i - n) % len(self.listy())]

    @property
    def min_units(self):
        return len(self.names())

    def op_for(self, rng, name, j):
        return self.gen.call(rng, name, wild=0.0 if j == 0 else 0.65)

    def drive(self, ex, rng, i):
        names = self.names()
        name = self.focus(i)
        first = i < len(names)
        seen = set()            # call sites already struck in this unit
        gen = self.gen
        for j in range(self.calls):
            op = self.op_for(rng, name, j if first else 1)
            p = 53 if (first and j == 0) else gen.prec(rng)
            self.one(ex, rng, op, p, self.faults, first and j == 0, seen)
            if j < 2:
                long = gen.longer(rng, op)
                if long is not None:
                    self.one(ex, rng, long, p, self.faults // 2, False, seen)
                # one parameter at a time: unusual values, values related to the others, invalid values
                for q in sorted(op['kw']):
                    for how in range(4):
                        v = None
                        if how < 2:
                            v = gen.extreme(rng, op, q)
                        elif how == 2 and is_num(op['kw'][q]):
                            v = gen.relate(rng, op, q)
                        if v is None:
                            v = rng.choice(G.JUNK + G.SPECIAL)
                        self.one(ex, rng, dict(op, kw=dict(op['kw'], **{q: v})), p, self.faults // 2, False, seen)
        self.finish(ex, rng)

    def finish(self, ex, rng):
        pass

    def decorate(self, step):
        return step

    def one(self, ex, rng, op, p, nf, big, seen):
        """A clean call, then the same call struck at call sites not struck before in this unit."""
        step = self.decorate({'do': 'call', 'c': op, 'p': p})
        if big:
            step['b'] = 120000
        ex.record = True
        obs = ex.do(step)
        if obs['t'] == 'budget' and 'b' not in step and nf > 2 and rng.random() < 0.5:
            step['b'] = 120000
            obs = ex.do(step)
        ex.record = False
        sites, n = obs.get('sites', {}), obs['n']
        if obs['t'] == 'budget':
            # cut off: the operations before the cut can be struck all the same
            n = max((v[1] for v in sites.values()), default=0)
        if not n:
            return
        heavy = n > 6000
        todo = nf // 2 if heavy else nf
        for again in range(2):
            fresh = {k: v for k, v in sites.items() if k not in seen}
            cold = None
            for key, (k, callee) in choose_points(rng, fresh, n, todo, seen):
                seen.add(key)
                todo -= 1
                o = ex.do(dict(step, fault=[k, rng.choice(kinds_at(callee) + STRIKES)]))
                if not o.get('fired') and o['t'] in ('ok', 'err') and o['n'] < n // 2:
                    cold = o
                    break
            if cold is None:
                break
            # the call does much less now than it did the first time: look again where it can be struck
            ex.record = True
            obs = ex.do(step)
            ex.record = False
            sites, n = obs.get('sites', {}), obs['n']
            if not n:
                return
        if len(seen) < 3 or rng.random() < 0.3:
            ex.do(dict(step, fault=[rng.randrange(n), rng.choice(STRIKES)]))

    def nontrivial(self, ex):
        return [hash_key(s, o) for s, o in zip(ex.steps, ex.log) if s['do'] == 'call' and o['n'] > 0]


def hash_key(s, o):
    import hashlib
    import json
    return hashlib.blake2b(json.dumps([s['c'], s['p'], s.get('fault')], sort_keys=True).encode(),
                           digest_size=8).digest()


class RecExec(Exec):
    record = False

    def __init__(self, world):
        super().__init__(world, budget=20000)

    def on_budget(self):
        pass

    def do_call(self, step):
        return Exec.do_call(self, step, record=self.record)


# ---------------------------------------------------------------------------------------------------
class C01Exec(RecExec):
    def before(self, step, fn, args, kw):
        mp = self.mp
        return (mp._prec, mp._dps, tuple(mp._prec_rounding))

    def after(self, step, obs, value, ctx):
        mp = self.mp
        now = (mp._prec, mp._dps, tuple(mp._prec_rounding))
        if mp.prec != ctx[0] or mp.dps != ctx[1] or now[2][0] != ctx[2][0]:
            raise Violation('precision-leak', f'{describe(step)}: working precision {ctx[0]} bits before the call, '
                            f'{mp.prec} after it ended with {obs["t"]} {obs["fp"][:60]}', step['c']['f'])


class C01(Sweep):
    id = 'C01'
    exec_cls = C01Exec
    rule = ('one evaluation = one public call (recorded or mutated arguments, random ambient precision) executed to its '
            'end - return, own error, or injected fault at one numeric operation; non-trivial = performed at least one '
            'numeric operation; distinct = different (function, arguments, precision, fault)')
    assumptions = ['faults strike at entries from mpsci into mpmath, not inside mpmath\'s own precision management']


# ---------------------------------------------------------------------------------------------------
class C02Exec(RecExec):
    def __init__(self, world):
        super().__init__(world)
        self.intmax = sys.get_int_max_str_digits()
        from state import Ambient
        self.amb = Ambient(world.mp, os.path.join(world.repo, 'mpsci'))

    def before(self, step, fn, args, kw):
        sys.set_int_max_str_digits(self.intmax)     # mpmath itself loses it on an invalid number string
        self.amb.disturb(step.get('amb', ()))
        return self.amb.begin()

    def after(self, step, obs, value, ctx):
        bad = self.amb.end(ctx)
        if bad:
            raise Violation('ambient:' + bad[0].split(':')[0], f'{describe(step)}: {"; ".join(bad)}', step['c']['f'])

    def after_budget(self, step, obs, ctx):
        self.after(step, obs, None, ctx)

    def do_slow(self, step):
        self.amb.disturb(())
        ch = self.amb.diff_slow()
        if ch:
            raise Violation('ambient:functions', f'replaced or changed: {ch[:3]}', str(ch[:3]))
        return {}


class C02(Sweep):
    id = 'C02'
    exec_cls = C02Exec
    rule = C01.rule + '; the surroundings of a call are the usual ones or differ from them in up to three seeded ways'
    faults = 4

    def one(self, ex, rng, op, p, nf, big, seen):
        from state import DISTURB
        self.amb = []
        if rng.random() < 0.6:
            self.amb = sorted(set(rng.sample(DISTURB, rng.choice([1, 2, 3]))
                                  + (['trap_complex'] if rng.random() < 0.3 else [])))
        super().one(ex, rng, op, p, nf, big, seen)

    def decorate(self, step):
        return dict(step, amb=self.amb) if self.amb else step

    def simplify(self, steps):
        yield from super().simplify(steps)
        for i, s in enumerate(steps):
            a = s.get('amb', ())
            for j in range(len(a)):
                yield steps[:i] + [dict(s, amb=a[:j] + a[j + 1:])] + steps[i + 1:]

    def finish(self, ex, rng):
        ex.do({'do': 'slow'})


# ---------------------------------------------------------------------------------------------------
def snap(v, depth=0):
    """Deep snapshot of an argument, including identity structure of containers."""
    from mpmath import mp
    if depth > 6:
        return '...'
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, id(v), [snap(x, depth + 1) for x in (list.__iter__(v) if isinstance(v, list) else v)])
    if isinstance(v, mp.matrix):
        return ('matrix', id(v), codec.fp(v))
    if isinstance(v, dict):
        return ('dict', id(v), [(codec.fp(k), snap(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, (mp.mpf, mp.mpc)) and not isinstance(v, mp.constant):
        return (id(v), codec.fp(v))
    if hasattr(v, '__dict__') and not isinstance(v, (type, mp.constant)):
        return (type(v).__name__, id(v), {k: snap(x, depth + 1) for k, x in vars(v).items()})
    if hasattr(v, '__dataclass_fields__') or hasattr(v, 'initial'):
        return (type(v).__name__, id(v), codec.fp(getattr(v, 'initial', None)))
    return codec.fp(v)


class C05Exec(RecExec):
    def before(self, step, fn, args, kw):
        return (args, kw, [snap(a) for a in args], {k: snap(v) for k, v in kw.items()})

    def after(self, step, obs, value, ctx):
        args, kw, sa, sk = ctx
        for i, a in enumerate(args):
            if snap(a) != sa[i]:
                raise Violation('argument-modified', f'{describe(step)}: positional argument {i} was modified: now '
                                f'{codec.fp(a)[:120]}', step['c']['f'])
        for k, v in kw.items():
            if snap(v) != sk[k]:
                raise Violation('argument-modified', f'{describe(step)}: argument {k} was modified', step['c']['f'])

    def after_budget(self, step, obs, ctx):
        self.after(step, obs, None, ctx)


class C05(Sweep):
    id = 'C05'
    exec_cls = C05Exec
    rule = C01.rule + '; non-trivial also requires a container, record or matrix argument'
    calls = 8
    faults = 10
    passes_quick = 10
    passes_thorough = 60
    list_passes_quick = list_passes_thorough = 0

    def names(self):
        if not hasattr(self, '_names'):
            out = []
            for n in self.gen.names:
                if any(has_container(c) for c in self.gen.corpus[n]):
                    out.append(n)
            self._names = out
        return self._names

    def op_for(self, rng, name, j):
        """Prefer calls with container arguments; make lists long-lived, unsorted, with repeats and mixed types."""
        for _ in range(8):
            op = self.gen.call(rng, name, wild=0.0 if j == 0 else 0.7)
            if has_container(op):
                break
        if j and rng.random() < 0.5:
            op = listify(op, rng)
        if j and rng.random() < 0.2:
            op = self.gen.retyped(rng, op)
        return op

    def nontrivial(self, ex):
        return [hash_key(s, o) for s, o in zip(ex.steps, ex.log)
                if s['do'] == 'call' and o['n'] > 0 and has_container(s['c'])]


def has_container(op):
    def c(j):
        return isinstance(j, dict) and next(iter(j)) in ('L', 'T', 'M', 'I')
    return any(c(v) for v in op['kw'].values()) or any(c(v) for v in op.get('va', ()))


def listify(op, rng):
    """Turn tuples and ranges into lists and reorder, so that in-place modification would show."""
    def f(j):
        if isinstance(j, dict):
            k, v = next(iter(j.items()))
            if k in ('L', 'T'):
                return {'L': [f(x) for x in v]}
            if k == 'r' and len(range(*v)) < 40:
                return {'L': list(range(*v))}
        return j
    r = {'f': op['f'], 'kw': {k: f(v) for k, v in op['kw'].items()}}
    if 'va' in op:
        r['va'] = [f(v) for v in op['va']]
    return r
