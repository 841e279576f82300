"""C03 (history independence), C04 (recovery after faults), C06 (ownership of results): seeded histories compared,
call by call, with the outcome of the same call in a pristine process."""
import collections
import re
import sys

import codec
import gen as G
from core import in_child, HarnessError
from engine import (Prop, Exec, Violation, SOLVERS, STRIKES, choose_points, kinds_at, make_fault, spread, is_mutable,
                    exempt_field, run_pool, rng_for)
from inv import describe, hash_key
from state import Retained

BUDGET = 20000

_NUM = re.compile(r'mpf:(\d),([0-9a-f]+),(-?[0-9a-f]+)')


def close_fp(a, b, bits):
    """Do two outcome fingerprints differ only by rounding noise?"""
    from mpmath import mp
    if _NUM.sub('#', a) != _NUM.sub('#', b):
        return False
    with mp.workprec(bits + 200):
        for x, y in zip(_NUM.findall(a), _NUM.findall(b)):
            if x == y:
                continue
            u, v = (mp.ldexp((-1) ** int(s) * int(m, 16), int(e, 16)) if abs(int(e, 16)) < 10 ** 7 else mp.nan
                    for s, m, e in (x, y))
            if not abs(u - v) <= mp.ldexp(max(abs(u), abs(v)), -max(bits - 12, 4)):
                return False
    return True


class HistExec(Exec):
    def __init__(self, world):
        super().__init__(world, budget=BUDGET)
        self.record = False

    def do_call(self, step):
        return Exec.do_call(self, step, record=self.record)


def probe(world, op, prec, budget=BUDGET):
    """Fault sites of a call, measured in a forked pristine process."""
    def child():
        ex = HistExec(world)
        ex.record = True
        try:
            o = ex.do({'do': 'call', 'c': op, 'p': prec, 'b': budget})
        except BaseException:       # noqa: BLE001  budget
            return None
        return o['t'], o['n'], o['sites']
    st, r = in_child(child, cpu=20)
    return r if st == 'ok' and r else (None, 0, {})


HEAVY = 150000


def branches(world, rng, make, tries, count, usable, prefer=lambda k: True, heavy=0):
    """Up to `count` of `tries` candidate calls (make() gives (call, precision)), chosen so that together they run through
    as many different call sites in the source as possible; those that satisfy `prefer` count first.  At most `heavy`
    of the candidates may be expensive."""
    cands = []
    for _ in range(tries):
        op, p = make()
        t, n, sites = probe(world, op, p)
        if t is None and heavy > 0:
            heavy -= 1
            t, n, sites = probe(world, op, p, HEAVY)
        if n and usable(op, p, t, n):
            places = {k[:3] for k in sites}
            cands.append(({k for k in places if prefer(k)}, places, op, p, t, n, sites))
    out, seen, all_seen = [], set(), set()
    while cands and len(out) < count:
        best = max(range(len(cands)), key=lambda j: (len(cands[j][0] - seen), len(cands[j][1] - all_seen), rng.random()))
        c = cands.pop(best)
        if out and not c[1] - all_seen:
            # nothing new anywhere: start over
            seen, all_seen = set(), set()
        seen |= c[0]
        all_seen |= c[1]
        out.append(c[2:])
    return out


class History(Prop):
    level = 'exploration'
    exec_cls = HistExec
    per_fn_quick = 1
    per_fn_thorough = 20
    extra_quick = 400         # further units spent on functions that keep state between calls
    extra_thorough = 6000
    per_list_quick = 0        # further units spent on functions that take lists
    per_list_thorough = 0
    uses = {}

    def setup(self):
        super().setup()
        self.ref.budget = BUDGET
        self.stateful = self.find_stateful()

    def find_stateful(self):
        """Which functions change data reachable from the library, and which return mutable objects?
        (guides the search only)"""
        w, gen = self.w, self.gen
        names = gen.names
        me = self

        class P:
            @staticmethod
            def unit(i):
                rng = rng_for(me.seed, 'stateful', i)

                def child():
                    r = Retained(w.mp)
                    base = r.walk()
                    mut = 0
                    calls = list(gen.corpus[names[i]])
                    rng.shuffle(calls)
                    for j, b in enumerate(calls[:16]):
                        op = dict(b, f=names[i])
                        t, f, v = w.call(op, 53 if j < 2 else gen.prec(rng), budget=6000)
                        if t == 'ok' and is_mutable(v):
                            mut = 1
                        if j == 3 and r.walk() != base:
                            return 1, mut, files(calls)
                    for j in range(6):
                        w.call(gen.call(rng, names[i], wild=1.0), gen.prec(rng), budget=6000)
                    if r.walk() != base:
                        return 1, mut, files(calls)
                    # does a call struck by a fault leave something behind?
                    for j, b in enumerate(calls[:3]):
                        op = dict(b, f=names[i])
                        w.call(op, 53, budget=6000)
                        n = max(1, w.seam.last_n)
                        for q in range(5):
                            def strike(code, caller):
                                raise KeyboardInterrupt
                            w.call(op, 53, budget=6000, trip=rng.randrange(n), action=strike)
                        for kind in ('noroot', 'zerodiv', 'noconv'):
                            def storm(i, code, caller):
                                if kind in kinds_at(code.co_name):
                                    raise make_fault(w.mp, kind)
                            w.call(op, 53, budget=6000, every=storm)
                    return int(r.walk() != base), mut, files(calls)

                def files(calls):
                    """The library's source files that the function runs through."""
                    used = set()
                    pkg = w.seam.mpsci

                    def prof(frame, ev, arg):
                        if ev == 'call' and frame.f_code.co_filename.startswith(pkg):
                            used.add(frame.f_code.co_filename[len(pkg):])
                    for b in calls[:4]:
                        sys.setprofile(prof)
                        try:
                            w.call(dict(b, f=names[i]), 53, budget=1500)
                        finally:
                            sys.setprofile(None)
                    return sorted(used)
                st, hit = in_child(child, cpu=30)
                return {'hit': hit if st == 'ok' else (0, 0, [])}
        found = {}
        run_pool(P, len(names), self.workers, lambda i, r: found.__setitem__(i, r['hit']), lambda: False)
        self.uses = {names[i]: found[i][2] for i in sorted(found)}
        self.users = collections.defaultdict(list)
        for nm, fs in self.uses.items():
            for f in fs:
                self.users[f].append(nm)
        self.mutable = [names[i] for i in sorted(found) if found[i][1]]
        return [names[i] for i in sorted(found) if found[i][0]]

    def units(self):
        n = len(self.gen.names)
        n += self.list_units()
        if self.tier == 'quick':
            return n + len(self.gen.names) * (self.per_fn_quick - 1) + (self.extra_quick if self.stateful else 0)
        return n + len(self.gen.names) * (self.per_fn_thorough - 1) + (self.extra_thorough if self.stateful else 0)

    @property
    def min_units(self):
        return len(self.gen.names)

    def focus(self, i):
        """Unit -> (function, is it known to keep state)"""
        n = len(self.gen.names)
        if not self.stateful:
            if i >= n:
                i -= n
                li = self.listy()
                if i < self.list_units() and li:
                    return li[i % len(li)], False
                i -= self.list_units()
            return self.gen.names[i % n], False
        ex = self.extra_quick if self.tier == 'quick' else self.extra_thorough
        if i < n:
            nm = self.gen.names[i]
            return nm, nm in self.stateful
        i -= n
        if i < ex:
            return self.stateful[i % len(self.stateful)], True
        i -= ex
        li = self.listy()
        if i < self.list_units() and li:
            return li[i % len(li)], False
        i -= self.list_units()
        return self.gen.names[i % n], False

    def listy(self):
        """Functions that take lists of numbers."""
        if not hasattr(self, '_listy'):
            self._listy = []
            for n in self.gen.names:
                calls = self.gen.recorded[n]
                k = sum(any(isinstance(v, dict) and ('L' in v or 'T' in v or 'M' in v)
                            for v in list(c['kw'].values()) + list(c.get('va', []))) for c in calls)
                if k >= 0.3 * len(calls):
                    self._listy.append(n)
        return self._listy

    def list_units(self):
        return len(self.listy()) * (self.per_list_quick if self.tier == 'quick' else self.per_list_thorough)

    # -- argument variants ----------------------------------------------------
    def retype(self, rng, j):
        """The same number in another type, or a number that is almost the same."""
        if j is None or isinstance(j, (bool, str)):
            return j
        if G.is_num(j):
            f = G.to_float(j)
            r = rng.random()
            exact_int = f == f and abs(f) < 2 ** 50 and f == int(f)
            if r < 0.45:
                opts = [G.D(f)]
                if abs(f) < 2 ** 50 and f == f:
                    opts.append(G.mpf_of(f))
                    opts.append(G.mpf_of(f))
                    if exact_int:
                        opts += [int(f), int(f)]
                        if f in (0, 1):
                            opts.append(bool(f))
                    if rng.random() < 0.2:
                        n, d = f.as_integer_ratio()
                        if d < 2 ** 200:
                            opts.append({'q': [str(n), str(d)]})
                if rng.random() < 0.15:
                    opts.append(numstr(f))
                return rng.choice(opts)
            if r < 0.75:
                return G.near(f, rng.randint(1, 4))
            if r < 0.9:
                return G.D(f * (1 + rng.choice([-1, 1]) * 2.0 ** -rng.choice([52, 51, 45, 40, 33, 20, 10])))
            if exact_int:
                return int(f) + rng.choice([-1, 1, 2])
            return G.D(-f)
        k, v = next(iter(j.items()))
        if k in ('L', 'T'):
            v = list(v)
            r = rng.random()
            if not v:
                return j
            if r < 0.2:
                return {'T' if k == 'L' else 'L': v}
            if r < 0.45:
                rng.shuffle(v)
            elif r < 0.85:
                i = rng.randrange(len(v))
                v[i] = self.retype(rng, v[i])
            else:
                v = [self.retype(rng, x) for x in v]
            return {k: v}
        if k == 'I':
            return {'I': self.retype(rng, v)}
        return j

    def variant(self, rng, op):
        r = {'f': op['f'], 'kw': dict(op['kw'])}
        if 'va' in op:
            r['va'] = list(op['va'])
            if r['va'] and (not r['kw'] or rng.random() < 0.7):
                i = rng.randrange(len(r['va']))
                r['va'][i] = self.retype(rng, r['va'][i])
                return r
        ks = sorted(r['kw'])
        if not ks:
            return r
        q = rng.random()
        if q < 0.12 and len(ks) > 1:
            a, b = rng.sample(ks, 2)
            r['kw'][a], r['kw'][b] = r['kw'][b], r['kw'][a]
        elif q < 0.7:
            k = rng.choice(ks)
            r['kw'][k] = self.retype(rng, r['kw'][k])
        elif q < 0.85:
            for k in ks:
                r['kw'][k] = self.retype(rng, r['kw'][k])
        else:
            k = rng.choice(ks)
            r['kw'][k] = self.gen.mutate_val(rng, r['kw'][k], op['f'], k)
        return r

    def sibling(self, rng, op):
        """A call of another function that shares code, with the same parameters where names match."""
        mod = op['f'].rsplit('.', 1)[0]
        near = self.gen.modules[mod]
        fs = [f for f in self.uses.get(op['f'], []) if 1 < len(self.users[f]) <= 60]
        if fs and rng.random() < 0.5:
            # a function that runs through the same source file, the more specific the file the better
            near = self.users[rng.choices(fs, [1 / len(self.users[f]) for f in fs])[0]]
        elif len(near) > 1 and not mod.startswith('distributions') and rng.random() < 0.7:
            near = self.gen.same_file(op['f'])
        nm = rng.choice(near)
        b = self.gen.base(rng, nm)
        r = {'f': nm, 'kw': dict(b['kw'])}
        if 'va' in b:
            r['va'] = list(b['va'])
        if rng.random() < 0.8:
            for k in r['kw']:
                if k in op['kw']:
                    r['kw'][k] = op['kw'][k]
        return r

    def precs(self, rng):
        base = rng.choice([53, 53, 53, 60, 64, 80, 100, 40])
        out = [base]
        for _ in range(rng.choice([1, 2])):
            out.append(rng.choice([base + 1, base + 2, base - 1, base + 7, base + 17, 2 * base, 53, 15, 113, 200]))
        return out

    # -- oracle ----------------------------------------------------------------
    def judge(self, steps, log):
        for i, (s, o) in enumerate(zip(steps, log)):
            v = self.judge_step(steps, log, i, s, o)
            if v is not None:
                return v
        return None

    def judge_step(self, steps, log, i, s, o):
        if s['do'] != 'call' or o.get('fired') or o['t'] == 'budget':
            return None
        ref = self.ref.get(o['rop'], o['p'])
        if ref[0] not in ('ok', 'err'):
            return None
        self.jstats['compared'] += 1
        if o['t'] == 'deadlock':
            return Violation('deadlock', f'{describe(s)}: the call can never complete; alone it gives {ref[1][:80]}',
                             s['c']['f'])
        if (o['t'], o['fp']) == (ref[0], ref[1]):
            return None
        # attribution: is it mpsci's memory or the engine's?
        t, f = self.attribute(steps, i)
        if (t, f) != (ref[0], ref[1]) and t == ref[0] == o['t'] and close_fp(f, ref[1], o['p']) \
                and close_fp(o['fp'], ref[1], o['p']):
            self.jstats['engine_noise'] += 1
            return None
        return Violation(self.cls, f'step {i}: {describe(s)} gives {o["t"]} {o["fp"][:150]} after this history, but '
                         f'{ref[0]} {ref[1][:150]} in a fresh process', s['c']['f'])

    def attribute(self, steps, i):
        def child():
            ex = self.new_exec()
            for s in steps[:i]:
                try:
                    ex.do(s)
                except BaseException:       # noqa: BLE001
                    pass
            self.w.reload()
            o = ex.do(steps[i])
            return o['t'], o['fp']
        st, r = in_child(child, cpu=self.cpu)
        return r if st == 'ok' else ('dead', '')

    def nontrivial(self, ex):
        """Distinct histories: hash of the run's steps, if at least two calls returned or raised after real work."""
        import hashlib
        import json
        n = sum(1 for s, o in zip(ex.steps, ex.log) if s['do'] == 'call' and o.get('n', 0) > 0)
        if n < 2:
            return []
        return [hashlib.blake2b(json.dumps(ex.steps, sort_keys=True).encode(), digest_size=8).digest()]

    def extra_evidence(self, agg):
        return {'functions_keeping_state': self.stateful}


def numstr(f):
    return repr(f) if f == f and abs(f) != float('inf') else G.D(f)


# ---------------------------------------------------------------------------------------------------
IN_PLACE = ['bump', 'reverse', 'append', 'double', 'pop', 'transfer', 'transfer', 'swap', 'mid', 'mid', 'near']


class C03(History):
    id = 'C03'
    cls = 'history-dependence'
    per_fn_quick = 4
    extra_quick = 800
    per_list_quick = 8
    per_list_thorough = 40
    rule = ('one evaluation = one call inside a seeded history, its exact outcome compared with the same call in a '
            'pristine forked process; non-trivial history = at least two calls that performed numeric work; distinct = '
            'different step lists')
    assumptions = ['mpmath-internal caches may legitimately change the last bits of an engine result; a mismatch that '
                   'persists with a freshly imported mpsci and is within 12 bits of the working precision is not charged '
                   'to mpsci']

    def drivers(self, rng, i):
        name, st = self.focus(i)
        n = 3 if st else 1
        return [lambda ex, rng: self.history(ex, rng, name, st) for _ in range(n)]

    def history(self, ex, rng, name, st):
        gen = self.gen
        precs = self.precs(rng)
        bases = []
        for _ in range(rng.choice([1, 2, 2])):
            for _ in range(4):
                b = gen.call(rng, name, wild=0.25)
                if ex.do({'do': 'call', 'c': b, 'p': precs[0]})['t'] == 'ok':
                    break
            bases.append(b)
        pool = []
        for b in bases:
            pool.append(b)
            for _ in range(rng.choice([1, 2, 3])):
                pool.append(self.variant(rng, b))
        mode = rng.random()
        if mode < 0.3:
            pool += [self.sibling(rng, bases[0]) for _ in range(2)]
        if mode > 0.8:
            pool.append(gen.call(rng, name, wild=1.0))
        if st and rng.random() < 0.15:
            # overflow any small cache: many distinct calls
            b = bases[0]
            first = {'do': 'call', 'c': b, 'p': precs[0]}
            ex.do(first)
            for _ in range(rng.choice([40, 150, 300])):
                ex.do({'do': 'call', 'c': self.variant(rng, rng.choice(bases)), 'p': rng.choice(precs + [rng.randint(20, 90)])})
            ex.do(first)
            return
        # the same list object with changed contents
        slotted = None
        lists = [k for k, v in bases[0]['kw'].items() if isinstance(v, dict) and ('L' in v or 'T' in v)]
        if lists and rng.random() < 0.6:
            k = rng.choice(sorted(lists))
            v = bases[0]['kw'][k]
            ex.do({'do': 'put', 's': 'a', 'v': {'L': list(v.get('L', v.get('T')))}})
            slotted = {'f': name, 'kw': dict(bases[0]['kw'], **{k: {'S': 'a'}})}
            if 'va' in bases[0]:
                slotted['va'] = bases[0]['va']
            pool.append(slotted)
        length = rng.randint(6, 14)
        threaded = rng.random() < 0.25
        order = []
        for j in range(length):
            op = rng.choice(pool[:2] if rng.random() < 0.3 else pool)
            p = precs[0] if rng.random() < 0.5 else rng.choice(precs)
            step = {'do': 'call', 'c': op, 'p': p}
            if threaded and rng.random() < 0.3:
                step['thr'] = 1
            order.append(step)
            ex.do(step)
            if slotted is not None and rng.random() < 0.4:
                again = {'do': 'call', 'c': slotted, 'p': p}
                if rng.random() < 0.7:
                    ex.do(again)
                ex.do({'do': 'mut', 's': 'a', 'how': rng.choice(IN_PLACE)})
                if rng.random() < 0.7:
                    ex.do(again)
        # repeat some earlier call at the end
        for step in rng.sample(order, min(3, len(order))):
            ex.do(step)


# ---------------------------------------------------------------------------------------------------
class C04(History):
    id = 'C04'
    level = 'fault_enumeration'
    cls = 'not-recovered'
    per_fn_quick = 2
    extra_quick = 600
    rule = ('one evaluation = one call in a history of interrupted and clean calls; every clean call is compared bit for '
            'bit, and in numeric work, with the same call in a pristine forked process; non-trivial = a history in which '
            'a fault fired and a clean call followed; distinct = different step lists')
    assumptions = C03.assumptions + ['faults strike at entries from mpsci into mpmath']

    def drivers(self, rng, i):
        name, st = self.focus(i)
        def make():
            return self.gen.call(rng, name, wild=0.25), rng.choice([53, 53, 60, 64, 80, 100])
        found = branches(self.w, rng, make, 3, 1, lambda *a: True, lambda k: k[2] in SOLVERS) if rng.random() < 0.6 else []
        if found:
            op, p, t, n, sites = found[0]
        else:
            op, p = make()
            t, n, sites = probe(self.w, op, p)
        if not n:
            return [lambda ex, rng: self.plain(ex, op, p)]
        out = []
        pts = choose_points(rng, sites, n, 12 if st else 4)
        if st:
            pts += [(rng.randrange(n), '') for _ in range(4)]
        for k, callee in pts:
            kinds = kinds_at(callee) * 2 + STRIKES
            out.append(lambda ex, rng, k=k, kind=rng.choice(kinds): self.cold(ex, rng, op, p, [k, kind], n, st))
        # an engine solver fails, once or whenever it is used, and the same call is made again
        keys = [k for k in spread(rng, sites) if k[2] in SOLVERS]
        for key in keys[:6 if st else 3]:
            for kind in kinds_at(key[2]):
                f = [rng.choice(sites[key]), kind] if rng.random() < 0.5 else [-1, kind, key[2]]
                out.append(lambda ex, rng, f=f: self.again(ex, rng, op, p, f))
        out.append(lambda ex, rng: self.warm(ex, rng, op, p, sites, n))
        return out

    def plain(self, ex, op, p):
        ex.do({'do': 'call', 'c': op, 'p': p})

    def again(self, ex, rng, op, p, fault):
        step = {'do': 'call', 'c': op, 'p': p}
        if rng.random() < 0.2:
            ex.do(step)
        for _ in range(rng.choice([1, 1, 2, 3])):
            ex.do(dict(step, fault=fault))
        ex.do(step)

    def cold(self, ex, rng, op, p, fault, n, st):
        """fault in the very first call, then clean calls"""
        step = {'do': 'call', 'c': op, 'p': p}
        ex.do(dict(step, fault=fault))
        if rng.random() < 0.3:
            ex.do(dict(step, fault=[rng.randrange(n), rng.choice(STRIKES)]))
        r = rng.random()
        if r < (0.5 if st else 0.25):
            for _ in range(2 if st else 1):
                ex.do({'do': 'call', 'c': self.sibling(rng, op), 'p': p})
        elif r < 0.65:
            ex.do({'do': 'call', 'c': self.variant(rng, op), 'p': p})
        ex.do(dict(step, thr=1) if rng.random() < 0.25 else step)
        if rng.random() < 0.3:
            ex.do({'do': 'call', 'c': self.variant(rng, op), 'p': rng.choice([p, p + 1, 2 * p])})
        ex.do(step)

    def warm(self, ex, rng, op, p, sites, n):
        """a longer history: clean and struck calls of the function and its siblings, then all again clean"""
        ops = [op] + [self.variant(rng, op) for _ in range(2)] + [self.sibling(rng, op)]
        for _ in range(rng.randint(3, 8)):
            o = rng.choice(ops)
            s = {'do': 'call', 'c': o, 'p': rng.choice([p, p, p + 1, 2 * p])}
            if rng.random() < 0.6:
                s['fault'] = [min(rng.randrange(n), rng.randrange(n)), rng.choice(STRIKES)]
            ex.do(s)
        for o in ops:
            s = {'do': 'call', 'c': o, 'p': p}
            if rng.random() < 0.25:
                s['thr'] = 1
            ex.do(s)

    def judge_step(self, steps, log, i, s, o):
        v = super().judge_step(steps, log, i, s, o)
        if v is not None or s['do'] != 'call' or o.get('fired') or o['t'] not in ('ok', 'err'):
            return v
        ref = self.ref.get(o['rop'], o['p'])
        if ref[0] in ('ok', 'err') and (o['n'] > 3 * ref[2] + 200 or o['tot'] > 3 * ref[3] + 600):
            return Violation('slow-after-fault', f'step {i}: {describe(s)} needs {o["tot"]} engine operations after this '
                             f'history, {ref[3]} in a fresh process', s['c']['f'])
        return None

    def nontrivial(self, ex):
        f = [j for j, o in enumerate(ex.log) if o.get('fired')]
        if not f or f[0] == len(ex.log) - 1:
            return []
        return super().nontrivial(ex)


# ---------------------------------------------------------------------------------------------------
def owned_fp(v, depth=0):
    """Fingerprint of the parts of a result that belong to the caller."""
    if hasattr(v, '__dataclass_fields__') and depth < 5:
        return type(v).__name__ + '(' + ', '.join(f'{k}=' + owned_fp(getattr(v, k), depth + 1)
                                                 for k in v.__dataclass_fields__ if not exempt_field(v, k)) + ')'
    if isinstance(v, tuple) and depth < 5:
        return '(' + ', '.join(owned_fp(x, depth + 1) for x in v) + ')'
    return codec.fp(v)


class C06Exec(HistExec):
    def __init__(self, world):
        super().__init__(world)
        self.kept = {}           # slot -> fingerprint the caller expects

    def do_put(self, step):
        r = super().do_put(step)
        self.kept[step['s']] = owned_fp(self.slots[step['s']])
        return r

    def check_kept(self, what, skip=()):
        for s, f in self.kept.items():
            if s not in skip and owned_fp(self.slots[s]) != f:
                raise Violation('shared-object', f'{what}: the caller\'s object {s!r} changed: it was {f[:120]}, now '
                                f'{owned_fp(self.slots[s])[:120]}', what.split(':')[0])

    def do_call(self, step):
        o = super().do_call(step)
        if step.get('keep') and o['t'] == 'ok':
            self.kept[step['keep']] = owned_fp(self.slots[step['keep']])
            if is_mutable(self.slots[step['keep']]):
                self.stats['probe:mutable results'] += 1
        self.check_kept(f"{step['c']['f']}: later call")
        return o

    def do_mut(self, step):
        s = step['s']
        if s not in self.slots:
            return {}
        r = super().do_mut(step)
        self.kept[s] = owned_fp(self.slots[s])
        self.check_kept(f"{self.steps[-2]['c']['f'] if len(self.steps) > 1 and 'c' in self.steps[-2] else ''}: "
                        f"changing {s!r} in place")
        return r


class C06(History):
    id = 'C06'
    cls = 'result-shared'
    exec_cls = C06Exec
    per_fn_quick = 1
    extra_quick = 2400
    rule = ('one evaluation = one call in a history in which the caller keeps results and changes results and inputs in '
            'place; every later call is compared with a pristine process, every kept object with its snapshot; '
            'non-trivial = a mutable result or a list argument was changed in place and a call followed; distinct = '
            'different step lists')

    def setup(self):
        super().setup()
        st = set(self.stateful) | set(self.mutable)
        lists = self.listy()
        self.stateful_only = sorted(st)
        self.kept_state = sorted(self.stateful)
        self.interesting = sorted(st | set(lists))
        self.stateful = self.interesting

    def drivers(self, rng, i):
        name, st = self.focus(i)
        n = 6 if name in self.stateful_only else 3 if st else 1
        return [lambda ex, rng: self.history(ex, rng, name) for _ in range(n)]

    def slotify(self, ex, rng, op):
        """Put list arguments into caller-owned slots."""
        r = {'f': op['f'], 'kw': dict(op['kw'])}
        if 'va' in op:
            r['va'] = list(op['va'])
        slots = []

        def as_slot(v):
            if isinstance(v, dict) and ('L' in v or 'T' in v or 'M' in v):
                s = f'in{len(slots)}'
                if 'T' in v:
                    v = {'L': [{'L': list(x['T'])} if isinstance(x, dict) and 'T' in x else x for x in v['T']]}
                ex.do({'do': 'put', 's': s, 'v': v})
                slots.append(s)
                return {'S': s}
            return v
        # only parameters that take sequences: where a number is expected, a function may well hand the caller's own
        # object back (mle with every parameter fixed), and that object is the caller's to share
        seqs = {k for c in self.gen.recorded[op['f']] for k, v in c['kw'].items() if isinstance(v, dict) and {'L', 'T', 'M'} & set(v)}
        for k in sorted(r['kw']):
            if k in seqs:
                r['kw'][k] = as_slot(r['kw'][k])
        if 'va' in r:
            r['va'] = [as_slot(v) for v in r['va']]
        return r, slots

    def ref_ok(self, op):
        '''Does the call succeed?  (asked in a fork, so that the history stays cold)'''
        st, r = in_child(lambda: self.w.call(op, 53, budget=BUDGET)[0], cpu=20)
        return st == 'ok' and r == 'ok'

    def history(self, ex, rng, name):
        hows = ['scramble', 'clear', 'append', 'reverse', 'pop', 'bump', 'double', 'transfer', 'swap', 'mid']
        for _ in range(6):
            base = self.gen.call(rng, name, wild=0.4)
            if rng.random() < 0.3:
                base = self.gen.retyped(rng, base)
            lists = any(isinstance(v, dict) and ('L' in v or 'T' in v) for v in base['kw'].values())
            if (lists or name in self.mutable) and self.ref_ok(base):
                break
        op, slots = self.slotify(ex, rng, base)
        p = rng.choice([53, 53, 60, 80, 100])
        call = {'do': 'call', 'c': op, 'p': p}
        if rng.random() < 0.3:
            ex.do(dict(call))
        o = ex.do(dict(call, keep='r0'))
        if o['t'] != 'ok':
            if rng.random() < 0.7:
                return
        mut = 'r0' in ex.slots and is_mutable(ex.slots['r0'])
        if not mut and not slots:
            ex.do(call)
            return
        if mut:
            ex.do({'do': 'mut', 's': 'r0', 'how': rng.choice(hows)})
            ex.do(dict(call, keep='r1'))
            for _ in range(2):
                ex.do({'do': 'call', 'c': self.sibling(rng, base), 'p': p})
            if rng.random() < 0.5:
                ex.do({'do': 'mut', 's': 'r1', 'how': rng.choice(hows)})
                ex.do(dict(call, p=rng.choice([p, p + 1])))
        else:
            ex.do(dict(call, keep='r1'))
        for s in slots:
            how = rng.choice(hows)
            ex.do({'do': 'mut', 's': s, 'how': how})
            ex.do(dict(call, keep='r2'))
            if rng.random() < 0.3:
                ex.do({'do': 'mut', 's': 'r2', 'how': rng.choice(hows)})
        ex.do({'do': 'call', 'c': base, 'p': p})

    def nontrivial(self, ex):
        m = [j for j, s in enumerate(ex.steps) if s['do'] == 'mut']
        if not m or m[0] >= len(ex.steps) - 1:
            return []
        return super().nontrivial(ex)

    def extra_evidence(self, agg):
        return {'functions_keeping_state': self.kept_state, 'functions_returning_mutable_objects': self.mutable}
