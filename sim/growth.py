"""C11: a long-running process does not accumulate state.  Long seeded histories of distinct calls (some failing, some
interrupted); the data reachable from the library is measured as the history grows and must stop growing."""
import threading
import time

import gen as G
from core import in_child
from engine import Prop, Violation, EndRun
from hist import HistExec, History
from inv import describe
from state import Retained

FULL = 6000             # distinct calls after which a cache must have stopped growing


class GrowExec(HistExec):
    def __init__(self, world):
        super().__init__(world)
        self.budget = 4000
        self.ret = Retained(world.mp, skip_bounded=True)

    def on_budget(self):
        pass

    def do_measure(self, step):
        c, b, _ = self.ret.walk()
        return {'objects': c, 'bytes': b, 'uncapped': self.ret.uncapped}

    def do_sweep(self, step):
        """step: {'c': base call, 'q': parameter, 'a': first, 'n': how many, 'x': scale of the others} - one parameter
        takes n distinct values, the others are fixed (possibly made large, so that the swept one stays valid)"""
        ok = 0
        for j in range(step['a'], step['a'] + step['n']):
            kw = {k: scaled(v, step['x']) for k, v in step['c']['kw'].items()}
            v = kw[step['q']] = step['c']['kw'][step['q']]
            if isinstance(v, int):
                kw[step['q']] = v + j
            else:
                kw[step['q']] = G.D(G.to_float(v) * (1 + j * 2.0 ** -12))
            op = dict(step['c'], kw=kw)
            t, f, v = self.w.call(op, 53, budget=30000)
            del v
            ok += t == 'ok'
            self.stats['calls'] += 1
            self.stats['outcome:' + t] += 1
            self.stats['ops'] += self.w.seam.last_n
            if j - step['a'] == 19 and ok == 0:
                break
        return {'ok': ok}

    def do_burst(self, step):
        """step: {'c': base call, 'p': precision, 'n': how many, 'r': seed} - n distinct variations of one call"""
        rng = G.rng_for(step['r'])
        ok = 0
        for j in range(step['n']):
            mode = step.get('m', 'near')
            op = distinct(rng, step['c'], j, mode)
            p = step['p'] if rng.random() < 0.6 else rng.randint(20, 160)
            if mode == 'prec':
                p = 30 + step.get('a', 0) + j       # a precision never seen before
            kw = {'budget': 2500}
            r = rng.random()
            if step.get('faults') and r < 0.15:
                k = int(rng.random() ** 2 * 40)

                def action(code, caller):
                    self.stats['fault:int'] += 1
                    raise KeyboardInterrupt
                kw.update(trip=k, action=action)
            if mode == 'thread':
                t = self.in_thread(op, p, kw)
            else:
                t, f, v = self.w.call(op, p, **kw)
                del v
            ok += t == 'ok'
            self.stats['calls'] += 1
            self.stats['outcome:' + t] += 1
            self.stats['ops'] += self.w.seam.last_n
        return {'ok': ok}

    def in_thread(self, op, p, kw):
        """A call made by a thread of its own, which has ended before anything else happens."""
        out = []

        def run():
            try:
                t, f, v = self.w.call(op, p, **kw)
                out.append(t)
            except BaseException as e:      # noqa: B902   handed on to the simulator's own thread
                out.append(e)
        th = threading.Thread(target=run)
        th.start()
        th.join()
        del th
        if not isinstance(out[0], str):
            raise out[0]
        return out[0]


def scaled(v, x):
    if x == 1 or isinstance(v, bool) or not G.is_num(v):
        return v
    return v * x if isinstance(v, int) else G.D(G.to_float(v) * x)


def distinct(rng, op, j, mode='near'):
    """A variation of a call: every number shifted a little ('near'), or numbers spread over several magnitudes ('wide')."""
    def num(v, depth=0):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            if rng.random() < 0.5:
                return v
            if mode == 'wide':
                return int(max(1, abs(v)) * 10 ** rng.uniform(0, 4)) * (-1 if v < 0 else 1)
            return max(0, v + rng.randint(-8, 40)) if v >= 0 else v - rng.randint(0, 5)
        if not isinstance(v, dict):
            return v
        k, x = next(iter(v.items()))
        if k in ('d', 'm', 'q'):
            f = G.to_float(v)
            if f == f and abs(f) < 1e15:
                if f == int(f) and rng.random() < 0.3:
                    return v
                if mode == 'wide':
                    return G.D(f * 10 ** rng.uniform(-3, 3))
                return G.D(f * (1 - (rng.random() * 2.0 ** -rng.choice([4, 10, 30]))))
            return v
        if k in ('L', 'T') and depth < 3:
            return {k: [num(e, depth + 1) for e in x]}
        return v
    r = {'f': op['f'], 'kw': {k: num(v) for k, v in op['kw'].items()}}
    if 'va' in op:
        r['va'] = [num(v) for v in op['va']]
    return r


class C11(Prop):
    id = 'C11'
    level = 'exploration'
    exec_cls = GrowExec
    rule = ('one evaluation = one call of a long history; after each history the objects and bytes reachable from the '
            'library\'s modules, functions, closures and caches are measured; non-trivial = history of at least 30 distinct '
            'calls of one function that did numeric work; distinct = different (function, history)')
    assumptions = ['"bounded" is decided as: no steady growth of the retained data over the second half of a history of 6000 distinct '
                   'calls (1500-3000 for slow functions); an lru_cache with a finite maxsize is bounded by construction',
                   'data retained inside mpmath itself is not counted, except attributes added to the mp context']
    cpu = 150
    stubs = ['interrupt delivery (sys.monitoring seam)']

    def units(self):
        return len(self.gen.names) * (1 if self.tier == 'quick' else 6)

    @property
    def min_units(self):
        return len(self.gen.names)

    def drive(self, ex, rng, i):
        name = self.gen.names[i % len(self.gen.names)]
        # a cheap successful base call or two
        cands = []
        calls = list(self.gen.corpus[name])
        rng.shuffle(calls)
        for c in calls[:10]:
            op = dict(c, f=name)
            def probe(op=op):
                t, f, v = self.w.call(op, 53, budget=2500)
                return t, self.w.seam.last_total
            st, r = in_child(probe, cpu=10)
            if st == 'ok' and r[0] == 'ok':
                cands.append((r[1], op))
            if len(cands) >= 4:
                break
        cands.sort(key=lambda t: t[0])
        if not cands:
            cands = [(0, dict(calls[0], f=name))]
        cheap, cheap2 = cands[0][1], cands[min(1, len(cands) - 1)][1]
        seed = rng.randrange(10 ** 9)
        # calls that fail: a process that is fed bad input for a long time must not grow either
        bad = {}
        for q in sorted(calls[0]['kw']):
            for v in (G.D(1.5), G.D(-3.25), -3, 2, 'abc'):
                if len(bad) >= 5:
                    break
                op = {'f': name, 'kw': dict(calls[0]['kw'], **{q: v})}
                if 'va' in calls[0]:
                    op['va'] = calls[0]['va']

                def probe_bad(op=op):
                    t, f, v = self.w.call(op, 53, budget=1000)
                    return t, f
                st, r = in_child(probe_bad, cpu=10)
                if st == 'ok' and r[0] == 'err':
                    bad.setdefault(r[1][:40], (0, op))
        cands += [bad[k] for k in sorted(bad)[:3]]

        seen = [0]

        def burst(op, n, k, faults=False, mode='near'):
            s = {'do': 'burst', 'c': op, 'p': 53, 'n': n, 'r': f'{seed}/{k}', 'faults': faults}
            if mode != 'near':
                s['m'] = mode
            if mode == 'prec':
                s['a'] = seen[0]
                seen[0] += n
            return ex.do(s)
        burst(cheap, 4, 'w')
        m0 = ex.do({'do': 'measure'})
        # one call of everything recorded (special paths), then bursts
        for c in calls[:12]:
            ex.do({'do': 'call', 'c': dict(c, f=name), 'p': self.gen.prec(rng), 'b': 2500})
        m1 = ex.do({'do': 'measure'})
        for j, (_, op) in enumerate(cands):
            burst(op, 10, f'a{j}', True, 'near' if j % 2 == 0 else 'wide')
        burst(cheap, 5, 't', False, 'thread')
        for j, (_, op) in enumerate(cands[:3]):
            burst(op, 3, f'p{j}', False, 'prec')
        m2 = ex.do({'do': 'measure'})
        if m2['bytes'] <= m0['bytes'] + 64 and m2['objects'] <= m0['objects']:
            return
        ex.stats['probe:functions with growing state, examined in depth'] += 1
        if m2['uncapped']:
            self.sweeps(ex, [op for _, op in cands[:3]])
        t0 = time.process_time()
        marks = []
        best = None
        # which base call makes the state grow?
        for j, (_, op) in enumerate(cands):
            for mode in ('near', 'wide', 'thread', 'prec') if op is cheap else ('near', 'wide', 'prec'):
                a = ex.do({'do': 'measure'})
                burst(op, 30, f'b{j}{mode}', True, mode)
                b = ex.do({'do': 'measure'})
                if b['bytes'] - a['bytes'] > 0 and (best is None or b['bytes'] - a['bytes'] > 1.2 * best[0]):
                    best = (b['bytes'] - a['bytes'], op, mode)
        if best is None:
            best = (0, cheap, 'near')
        # how long is a history we can afford?  (a fixed work measure, so that the decision is repeatable)
        n0 = ex.stats['ops']
        burst(best[1], 20, 'd', False, best[2])
        per = (ex.stats['ops'] - n0) / 20
        size = FULL // 12 if per < 60 else FULL // 24 if per < 150 else FULL // 48
        for j in range(12):
            burst(best[1], size, f'c{j}', j % 2 == 1, best[2])
            marks.append(ex.do({'do': 'measure'}))
            if j >= 4 and marks[-1]['bytes'] <= marks[0]['bytes'] * 1.0 and marks[-1]['objects'] <= marks[0]['objects']:
                return
            if time.process_time() - t0 > 100:
                ex.stats['too slow to decide'] += 1
                return
        self.decide(ex.steps, ex.log)

    def sweeps(self, ex, ops):
        """A cache without any limit: does it keep one entry per distinct value of some parameter?"""
        for op in ops:
            for q in sorted(op['kw']):
                if not G.is_num(op['kw'][q]):
                    continue
                for x in (1, 1000):
                    for a in range(0, 400, 100):
                        o = ex.do({'do': 'sweep', 'c': op, 'q': q, 'a': a, 'n': 100, 'x': x})
                        ex.do({'do': 'measure'})
                        if o['ok'] < 20:
                            break
                    self.decide_sweeps(ex.steps, ex.log)

    def decide_sweeps(self, steps, log):
        prev, run = None, []
        for j, (s, o) in enumerate(zip(steps, log)):
            if s['do'] == 'sweep':
                key = (s['q'], s['x'])
                run = run if run and run[0][0] == key else []
            elif s['do'] == 'measure':
                if j and steps[j - 1]['do'] == 'sweep' and prev is not None:
                    run.append((key, o['uncapped'] - prev))
                    if len(run) >= 4 and all(d >= 60 for _, d in run):
                        t = steps[j - 1]
                        raise Violation('unbounded-cache', f'{t["c"]["f"]}: a cache without limit gained '
                                        f'{[d for _, d in run]} entries in four successive batches of 100 calls with distinct '
                                        f'values of {t["q"]!r}', t['c']['f'])
                prev = o['uncapped']

    def decide(self, steps, log):
        ms = [(j, o) for j, (s, o) in enumerate(zip(steps, log)) if s['do'] == 'measure']
        # consider the last 12 measures, after full bursts
        tail = [(steps[j - 1]['n'], o) for j, o in ms
                if j and steps[j - 1]['do'] == 'burst' and steps[j - 1]['n'] >= FULL // 48]
        if len(tail) < 12:
            return None
        total = 12 * tail[0][0]
        tail = [o for _, o in tail]
        base = ms[0][1]
        half, end = tail[5], tail[-1]
        g1, g2 = half['bytes'] - base['bytes'], end['bytes'] - base['bytes']
        if g1 <= 0 or g2 < 1.4 * g1 or g2 - g1 < total // 8 or end['objects'] < half['objects']:
            return None
        # steady: every twelfth of the second half grew
        q = [o['bytes'] for o in tail[5:]]
        if not all(a < b for a, b in zip(q, q[1:])):
            return None
        name = next(s['c']['f'] for s in steps if s['do'] == 'burst')
        raise Violation('unbounded-state', f'{name}: data retained by the library keeps growing: {base["bytes"]} bytes at the '
                        f'start, {half["bytes"]} after {total // 2} distinct calls, {end["bytes"]} after {total}', name)

    def replay_steps(self, steps):
        def driver(ex):
            for s in steps:
                ex.do(s)
            self.decide_sweeps(ex.steps, ex.log)
            self.decide(ex.steps, ex.log)
        res = self._run(driver)
        return res['viol'], res['log']

    def minimise(self, steps, cls, deadline):
        if cls == 'unbounded-cache':
            last = max(j for j, s in enumerate(steps) if s['do'] == 'sweep')
            cand = [s for s in steps[:last] if s['do'] == 'sweep' and (s['q'], s['x'], s['c']) ==
                    (steps[last]['q'], steps[last]['x'], steps[last]['c'])] + [steps[last]]
            cand = [{'do': 'measure'}] + [t for s in cand for t in (s, {'do': 'measure'})]
            v, _ = self.replay_steps(cand)
            return cand if v is not None and v[0] == cls else steps
        # keep the first measurement and the full bursts with their measurements
        keep = [s for j, s in enumerate(steps)
                if (s['do'] == 'burst' and s['n'] >= FULL // 48)
                or (s['do'] == 'measure' and j and steps[j - 1]['do'] == 'burst' and steps[j - 1]['n'] >= FULL // 48)]
        cand = [{'do': 'measure'}] + keep
        v, _ = self.replay_steps(cand)
        if v is not None and v[0] == cls:
            return cand
        return steps

    def nontrivial(self, ex):
        import hashlib
        import json
        if ex.stats['outcome:ok'] < 30:
            return []
        return [hashlib.blake2b(json.dumps(ex.steps, sort_keys=True).encode(), digest_size=8).digest()]
