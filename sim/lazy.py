"""C09: lazily produced supports.  Seeded interleavings of opening, stepping, abandoning and closing iterators with
other calls, precision changes, faults and in-place changes of yielded items; every iterator's sequence is compared
with the sequence it yields alone in a pristine process and with a small reference model."""
import gc
import itertools

import codec
from core import in_child
from engine import Prop, Violation, STRIKES, EndRun, mutate, make_fault
from hist import History, HistExec
from seams import BudgetExceeded

LIMIT = 40              # items of a sequence compared


def lazy_value(v):
    from mpmath import mp
    if isinstance(v, (tuple, str, dict, mp.matrix)) or hasattr(v, '_mpf_'):
        return False
    return hasattr(v, '__next__') or hasattr(v, '__iter__')


def plain(v):
    """Integers, or sequences of integers, as comparable plain data (None if it is neither)."""
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return v
    if isinstance(v, (list, tuple)):
        out = [plain(x) for x in v]
        return None if None in out else out
    return None


class LazyExec(HistExec):
    def __init__(self, world):
        super().__init__(world)
        self.its = {}
        self.got = {}

    def guard(self, p, what):
        if self.mp.prec != p:
            raise Violation('precision-leak', f'{what}: working precision {p} before, {self.mp.prec} after', what)

    def do_open(self, step):
        fn, args, kw = self.w.bind(step['c'])
        self.mp.prec = step['p']
        t, f, v = self.w.outcome(lambda: fn(*args, **kw), budget=self.budget)
        self.stats['calls'] += 1
        if t != 'ok' or not lazy_value(v):
            self.guard(step['p'], step['c']['f'])
            return {'t': t, 'fp': f if t != 'ok' else 'not lazy'}
        self.guard(step['p'], step['c']['f'])
        if hasattr(v, '__next__'):
            it = v
        else:
            it = iter(v)
        self.its[step['s']] = it
        self.got[step['s']] = []
        self.stats['iterators'] += 1
        return {'t': 'ok', 'fp': ''}

    def do_next(self, step):
        s = step['s']
        it = self.its.get(s)
        if it is None:
            return {}
        out = []
        for _ in range(step['n']):
            self.mp.prec = step['p']
            fired = []
            kw = {'budget': self.budget}
            if step.get('fault'):
                exc = make_fault(self.mp, step['fault'][1])

                def action(code, caller):
                    fired.append((caller.f_code.co_qualname, caller.f_lineno, code.co_name))
                    raise exc
                kw.update(trip=step['fault'][0], action=action)
            try:
                v = self.w.seam.run(lambda: next(it), **kw)
            except StopIteration:
                out.append(['end'])
                self.its.pop(s)
                self.guard(step['p'], f'exhausting iterator {s}')
                break
            except BudgetExceeded:
                raise EndRun()
            except BaseException as e:      # noqa: BLE001
                self.guard(step['p'], f'stepping iterator {s}')
                self.its.pop(s)
                if fired:
                    self.stats['fault:' + step['fault'][1]] += 1
                    self.sites.add(fired[0])
                    out.append(['faulted'])
                else:
                    out.append(['err', type(e).__name__ + str(e)[:100]])
                break
            self.stats['items'] += 1
            self.guard(step['p'], f'stepping iterator {s}')
            out.append(['item', codec.fp(v), plain(v)])
            if step.get('mut'):
                mutate(v, step['mut'])
                self.stats['mutations'] += 1
        self.got[s] = self.got.get(s, []) + out
        return {'got': out}

    def do_close(self, step):
        it = self.its.pop(step['s'], None)
        if it is None:
            return {}
        self.mp.prec = step['p']
        if step['how'] == 'close' and hasattr(it, 'close'):
            it.close()
            self.stats['fault:closed early'] += 1
        else:
            self.stats['fault:abandoned'] += 1
        del it
        gc.collect()
        self.guard(step['p'], f'abandoning iterator {step["s"]}')
        return {}


class C09(History):
    id = 'C09'
    level = 'exploration'
    cls = 'sequence-differs'
    exec_cls = LazyExec
    rule = ('one evaluation = one seeded interleaving of iterator steps; non-trivial = at least two items were delivered and '
            'something else happened between them; distinct = different step lists')
    quick_units = 1400
    thorough_units = 30000
    stubs = ['interrupt delivery (sys.monitoring seam)']
    enriched = False

    def setup(self):
        Prop.setup(self)
        self.ref.budget = 20000
        self.stateful = []
        self.lazy = []
        for n in self.gen.names:
            if n.rsplit('.', 1)[1] != 'support':
                continue

            def child(n=n):
                for c in self.gen.corpus[n]:
                    t, f, v = self.w.call(dict(c, f=n), 53, budget=3000)
                    if t == 'ok' and lazy_value(v):
                        return True
                return False
            st, r = in_child(child, cpu=20)
            if st == 'ok' and r:
                self.lazy.append(n)
        self.alone_cache = {}
        # the truly lazy ones first and more often
        gens = [n for n in self.lazy if self.is_gen(n)]
        self.rota = gens * 3 + self.lazy

    def is_gen(self, n):
        def child():
            for c in self.gen.corpus[n]:
                t, f, v = self.w.call(dict(c, f=n), 53, budget=3000)
                if t == 'ok' and hasattr(v, '__next__'):
                    return True
            return False
        st, r = in_child(child, cpu=20)
        return st == 'ok' and r

    def units(self):
        return (self.quick_units if self.tier == 'quick' else self.thorough_units) if self.lazy else 0

    @property
    def min_units(self):
        return min(200, self.units())

    def op(self, rng, name):
        if name.endswith('multivariate_hypergeometric.support') and rng.random() < 0.6:
            k = rng.randint(1, 4)
            colors = [rng.randint(0, 5) for _ in range(k)]
            tot = sum(colors)
            return {'f': name, 'kw': {'colors': {rng.choice('LT'): colors}, 'nsample': rng.randint(0, tot)}}
        return self.gen.call(rng, name, wild=0.3)

    def drive(self, ex, rng, i):
        name = self.rota[i % len(self.rota)] if self.rota else None
        base = self.op(rng, name)
        slots = []
        for j in range(rng.randint(2, 4)):
            r = rng.random()
            op = base if r < 0.5 else self.op(rng, name) if r < 0.8 else self.op(rng, rng.choice(self.lazy))
            slots.append(('i%d' % j, op))
        opened = []
        precs = [53, 53, 80, 30, 200]
        for _ in range(rng.randint(8, 30)):
            r = rng.random()
            p = rng.choice(precs)
            if slots and (r < 0.25 or not opened):
                s, op = slots.pop(0)
                ex.do({'do': 'open', 's': s, 'c': op, 'p': p})
                opened.append(s)
            elif r < 0.75:
                st = {'do': 'next', 's': rng.choice(opened), 'n': rng.choice([1, 1, 2, 3, 7]), 'p': p}
                if rng.random() < 0.35:
                    st['mut'] = rng.choice(['scramble', 'clear', 'append', 'reverse', 'bump'])
                if rng.random() < 0.06:
                    st['fault'] = [rng.randrange(3), rng.choice(STRIKES)]
                ex.do(st)
            elif r < 0.82 and len(opened) > 1:
                s = opened.pop(rng.randrange(len(opened)))
                ex.do({'do': 'close', 's': s, 'how': rng.choice(['close', 'drop']), 'p': p})
            else:
                q = rng.random()
                op = self.sibling(rng, base) if q < 0.6 else base if q < 0.8 else self.op(rng, rng.choice(self.lazy))
                st = {'do': 'call', 'c': op, 'p': p}
                if rng.random() < 0.2:
                    st['fault'] = [rng.randrange(6), rng.choice(STRIKES)]
                ex.do(st)
        for s in opened:
            ex.do({'do': 'next', 's': s, 'n': LIMIT, 'p': 53})

    # -- oracle -----------------------------------------------------------------
    def alone(self, op, p):
        import json
        k = json.dumps([op, p], sort_keys=True)
        if k not in self.alone_cache:
            def child():
                ex = LazyExec(self.w)
                o = ex.do({'do': 'open', 's': 'x', 'c': op, 'p': p})
                if o['t'] != 'ok' or 'x' not in ex.its:
                    return [[o['t'], o['fp']]]
                out = []
                for _ in range(120):
                    try:
                        o = ex.do({'do': 'next', 's': 'x', 'n': 1, 'p': p})
                    except EndRun:          # the next item is out of reach: compare what came before it
                        break
                    out += o['got']
                    if 'x' not in ex.its:
                        break
                return out
            st, r = in_child(child, cpu=20)
            self.alone_cache[k] = r if st == 'ok' else None
        return self.alone_cache[k]

    def model(self, op, seq):
        """Reference model of the support, where the parameters are plain integers."""
        items = [x for x in seq if x[0] == 'item']
        vals = [x[2] for x in items]
        if any(v is None for v in vals):
            return None
        ended = seq and seq[-1] == ['end']
        if op['f'].endswith('multivariate_hypergeometric.support'):
            c = op['kw'].get('colors')
            ns = op['kw'].get('nsample')
            if not isinstance(c, dict) or next(iter(c)) not in ('L', 'T'):
                return None
            cols = list(c.values())[0]
            if not all(type(x) is int and x >= 0 for x in cols) or type(ns) is not int:
                return None
            if not cols or not 0 <= ns <= sum(cols) or len(cols) > 5 or any(x > 60 for x in cols):
                return None
            want = []
            for t in itertools.product(*[range(x + 1) for x in cols]):
                if sum(t) == ns:
                    want.append(list(t))
                if len(want) > 130:
                    break
            if vals != want[:len(vals)] or (ended and len(vals) != len(want)):
                return f'the support should be {want[:8]}..., the iterator yields {vals[:8]}'
            return None
        for a, b in zip(vals, vals[1:]):
            if not (isinstance(a, int) and isinstance(b, int) and b == a + 1):
                return f'the support is not in consecutive order: {vals[:8]}'
        return None

    def judge(self, steps, log):
        opens = {}
        got = {}
        for s, o in zip(steps, log):
            if s['do'] == 'open' and o['t'] == 'ok' and o['fp'] == '':
                opens[s['s']] = s
                got[s['s']] = []
            elif s['do'] == 'open':
                ref = self.alone(s['c'], s['p'])
                if ref is not None and ref and [o['t'], o['fp']] != ref[0]:
                    return Violation(self.cls, f'opening {s["c"]["f"]} gives {o["t"]} {o["fp"][:100]}, alone {ref[0]}',
                                     s['c']['f'])
            elif s['do'] == 'next' and 'got' in o and s['s'] in got:
                got[s['s']] += o['got']
        for k, seq in got.items():
            op, p = opens[k]['c'], opens[k]['p']
            ref = self.alone(op, p)
            if ref is None:
                continue
            self.jstats['compared'] += 1
            m = len(seq)
            if seq and seq[-1] == ['faulted']:
                m -= 1
            if m > len(ref):
                m = len(ref)
            if seq[:m] != ref[:m]:
                d = next((j for j in range(m) if seq[j] != ref[j]), m)
                return Violation(self.cls, f'{op["f"]}: item {d} is {seq[d]} in this interleaving, {ref[d]} when the '
                                 f'iterator is consumed alone', op['f'])
            bad = self.model(op, ref)
            if bad:
                return Violation('incomplete-support', f'{op["f"]} {op["kw"]}: {bad}', op['f'])
        # the interspersed calls must be unaffected too
        return super().judge(steps, log)

    def judge_step(self, steps, log, i, s, o):
        if s['do'] != 'call' or 'rop' not in o:
            return None
        return super().judge_step(steps, log, i, s, o)

    def nontrivial(self, ex):
        import hashlib
        import json
        if ex.stats['items'] < 2 or len(ex.steps) < 4:
            return []
        return [hashlib.blake2b(json.dumps(ex.steps, sort_keys=True).encode(), digest_size=8).digest()]

    def extra_evidence(self, agg):
        return {'lazy_supports': self.lazy, 'items_delivered': int(agg['stats']['items'])}
