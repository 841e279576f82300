"""C08: suspended, nested and interleaved calls.

Nested: at numeric operation k of one call, other calls run to completion in the same thread (signal handler,
finaliser, trace hook).  Interleaved: two or three calls run as tasks on parked threads; a recorded schedule decides
after how many numeric operations control passes to which task.  Only one thread is ever runnable.  Each task has its
own working precision: the simulator saves and restores mpmath's precision fields at every switch.
"""
import threading

import codec
import locks
from core import errfp
from engine import Exec, Violation, EndRun, choose_points
from hist import History, HistExec, probe, close_fp
from inv import describe
from seams import BudgetExceeded


def save(mp):
    return (mp._prec, mp._dps, list(mp._prec_rounding), mp.trap_complex, mp.pretty)


def restore(mp, s):
    mp._prec, mp._dps = s[0], s[1]
    mp._prec_rounding[:] = s[2]
    mp.trap_complex, mp.pretty = s[3], s[4]


class Task:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.blocked = None
        self.state = None
        self.ops = 0
        self.quota = 0
        self.out = None


class Scheduler:
    """Runs tasks one at a time according to a schedule [[task, numeric operations], ...]."""

    def __init__(self, world, tasks, sched, budget):
        self.w, self.tasks, self.sched = world, tasks, list(sched)
        self.mp = world.mp
        self.back = threading.Semaphore(0)
        self.by_id = {}
        self.budget = budget
        self.total = 0
        self.switches = 0
        self.trace = []

    def hook(self, i, code, caller):
        t = self.by_id.get(threading.get_ident())
        if t is None:
            return
        t.ops += 1
        self.total += 1
        if t.ops >= t.quota:
            self.pause(t)

    def pause(self, t):
        t.state = save(self.mp)
        self.back.release()
        t.go.acquire()
        restore(self.mp, t.state)

    def park(self, lock):
        t = self.by_id.get(threading.get_ident())
        if t is None:
            raise locks.Deadlock('blocking acquire of a lock that nobody can release')
        t.blocked = lock
        self.pause(t)
        if t.blocked is not None and t.blocked.owner is not None:
            raise locks.Deadlock('all tasks wait for locks')
        t.blocked = None

    def body(self, t):
        t.go.acquire()
        self.by_id[threading.get_ident()] = t
        restore(self.mp, t.state)
        try:
            v = t.fn()
            t.out = ('ok', codec.fp(v))
        except locks.Deadlock as e:
            t.out = ('deadlock', str(e))
        except BaseException as e:      # noqa: BLE001
            t.out = ('budget', '') if isinstance(e, BudgetExceeded) or self.w.seam.blown else ('err', errfp(e))
        t.done = True
        t.state = save(self.mp)
        self.back.release()

    def step(self, t, quota):
        t.quota = t.ops + quota
        self.trace.append((t.idx, quota))
        t.go.release()
        self.back.acquire()
        self.switches += 1

    def runnable(self, t):
        return not t.done and (t.blocked is None or t.blocked.owner is None)

    def run(self):
        mp = self.mp
        outer = save(mp)
        threads = []
        for t in self.tasks:
            th = threading.Thread(target=self.body, args=(t,), daemon=True)
            th.start()
            threads.append(th)
        locks.park = self.park
        try:
            while any(not t.done for t in self.tasks):
                if self.sched:
                    i, n = self.sched.pop(0)
                    t = self.tasks[i % len(self.tasks)]
                    if not self.runnable(t):
                        continue
                    self.step(t, max(1, n))
                    continue
                ready = [t for t in self.tasks if self.runnable(t)]
                if not ready:
                    ready = [t for t in self.tasks if not t.done][:1]     # wakes it into Deadlock
                self.step(ready[0], 1 << 40)
        finally:
            locks.park = None
            for th in threads:
                th.join(5)
            restore(mp, outer)


class TaskExec(HistExec):
    def __init__(self, world):
        super().__init__(world)
        self.twin_for_subs = None
        self.subobs = []

    def nested(self, subs, step):
        outs = []
        for s in subs:
            st = save(self.mp)
            w = self.twin_for_subs or self.w
            p = s['p'] if s['p'] is not None else self.mp.prec
            fn, args, kw = w.bind(s['c'])
            if s['p'] is not None:
                self.mp.prec = p
            else:
                self.mp.prec = self.mp.prec
            t, f, v = w.outcome(lambda: fn(*args, **kw), budget=8000)
            w.seam.blown = False
            self.stats['nested calls'] += 1
            outs.append({'t': t, 'fp': f, 'p': p, 'rop': s['c'], 'do': 'sub'})
            restore(self.mp, st)
        self.subobs = outs

    def do_call(self, step):
        self.subobs = []
        o = Exec.do_call(self, step, record=self.record)
        o['sub'] = self.subobs
        return o

    def do_tasks(self, step):
        tasks = []
        for i, s in enumerate(step['t']):
            w = self.w if (self.twin_for_subs is None or i == 0) else self.twin_for_subs[i - 1]
            fn, args, kw = w.bind(s['c'])
            t = Task(i, lambda fn=fn, args=args, kw=kw: fn(*args, **kw))
            self.mp.prec = s['p']
            t.state = save(self.mp)
            tasks.append(t)
        self.mp.prec = 53
        sc = Scheduler(self.w, tasks, step['sched'], self.budget)
        seam = self.w.seam
        seam.blown = False
        seam.run(sc.run, every=sc.hook, budget=60000)
        self.stats['switches'] += sc.switches
        self.stats['ops'] += sc.total
        self.stats['fault:task switch'] += max(0, sc.switches - len(tasks))
        self.stats['calls'] += len(tasks)
        for t in tasks:
            self.stats['outcome:' + t.out[0]] += 1
        self.stats['evals_tasks'] += 1
        return {'sub': [{'t': t.out[0], 'fp': t.out[1], 'p': s['p'], 'rop': s['c'], 'do': 'sub'}
                        for t, s in zip(tasks, step['t'])], 'trace': sc.trace, 'n': sc.total}


class C08(History):
    id = 'C08'
    level = 'exploration'
    cls = 'interference'
    exec_cls = TaskExec
    per_fn_quick = 2
    per_fn_thorough = 40
    extra_quick = 300
    rule = ('one evaluation = one call that ran nested in, was suspended for, or was interleaved with other calls, compared '
            'bit for bit with the same call alone in a pristine process; non-trivial = at least one switch happened inside '
            'a call; distinct = different (calls, precisions, schedule)')
    assumptions = ['mpmath keeps one working precision per process; independent tasks with their own precision are modelled '
                   'by saving and restoring it at each switch',
                   'switches happen at entries from mpsci into mpmath (numeric operations)']
    stubs = ['thread scheduler (parked threads, seeded schedule)', 'locks created by mpsci (cooperative)',
             'per-task working precision']

    def drivers(self, rng, i):
        name, st = self.focus(i)
        op = None
        for _ in range(4):
            op = self.gen.call(rng, name, wild=0.2)
            p = rng.choice([53, 53, 60, 64, 80, 100])
            t, n, sites = probe(self.w, op, p)
            if t == 'ok' and 0 < n < 4000:
                break
        else:
            return []
        out = []
        for k, _ in choose_points(rng, sites, n, 6 if st else 2):
            out.append(lambda ex, rng, k=k: self.nest(ex, rng, op, p, k))
        for _ in range(4 if st else 1):
            out.append(lambda ex, rng: self.inter(ex, rng, op, p, n))
        return out

    def unit(self, i):
        from faults import empty
        return super().unit(i) or empty()

    def other(self, rng, op):
        r = rng.random()
        if r < 0.3:
            return op
        if r < 0.6:
            return self.variant(rng, op)
        if r < 0.85:
            return self.sibling(rng, op)
        return self.gen.call(rng, rng.choice(self.gen.names), wild=0.1)

    def nest(self, ex, rng, op, p, k):
        subs = [{'c': self.other(rng, op), 'p': rng.choice([None, None, p, 53, 2 * p, p + 1])}
                for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.2:
            ex.do({'do': 'call', 'c': self.other(rng, op), 'p': p})
        ex.do({'do': 'call', 'c': op, 'p': p, 'nest': [k, subs]})

    def inter(self, ex, rng, op, p, n):
        ts = [{'c': op, 'p': p}]
        for _ in range(rng.choice([1, 1, 2])):
            ts.append({'c': self.other(rng, op), 'p': rng.choice([p, p, 53, 2 * p, p + 1, 70])})
        rng.shuffle(ts)
        sched = []
        mode = rng.random()
        if mode < 0.4:          # few switches at arbitrary points
            for _ in range(rng.randint(2, 5)):
                sched.append([rng.randrange(len(ts)), rng.randint(1, max(2, n))])
        elif mode < 0.7:        # fine-grained alternation
            for _ in range(rng.randint(10, 60)):
                sched.append([rng.randrange(len(ts)), rng.choice([1, 1, 2, 3])])
        else:                   # lock step
            for j in range(rng.randint(6, 40)):
                sched.append([j, rng.choice([1, 2])])
        ex.do({'do': 'tasks', 't': ts, 'sched': sched})

    def judge(self, steps, log):
        for i, (s, o) in enumerate(zip(steps, log)):
            if any(x['t'] == 'budget' for x in o.get('sub', ())) or o.get('t') == 'budget':
                continue
            subs = list(o.get('sub', ()))
            if s['do'] == 'call':
                subs.append({'t': o['t'], 'fp': o['fp'], 'p': o['p'], 'rop': o['rop']})
            for j, x in enumerate(subs):
                ref = self.ref.get(x['rop'], x['p'])
                if ref[0] not in ('ok', 'err'):
                    continue
                self.jstats['compared'] += 1
                if (x['t'], x['fp']) == (ref[0], ref[1]):
                    continue
                if x['t'] == 'deadlock':
                    return Violation('deadlock', f'{x["rop"]["f"]}: the call can never complete while another call is '
                                     f'suspended', x['rop']['f'])
                t, f = self.attribute8(steps, i, j)
                if (t, f) != (ref[0], ref[1]) and t == x['t'] == ref[0] and close_fp(f, ref[1], x['p']) \
                        and close_fp(x['fp'], ref[1], x['p']):
                    self.jstats['engine_noise'] += 1
                    continue
                return Violation(self.cls, f'{x["rop"]["f"]} at precision {x["p"]}: {x["t"]} {x["fp"][:150]} when '
                                 f'{"interleaved" if s["do"] == "tasks" else "nested/suspended"}, but {ref[0]} '
                                 f'{ref[1][:150]} alone', x['rop']['f'])
        return None

    def attribute8(self, steps, i, j):
        """The same run, but every concurrent call uses its own private copy of mpsci."""
        from core import in_child

        def child():
            ex = self.new_exec()
            s = steps[i]
            ex.twin_for_subs = self.w.twin() if s['do'] == 'call' else [self.w.twin() for _ in s['t'][1:]]
            o = ex.do(s)
            subs = list(o.get('sub', ()))
            if s['do'] == 'call':
                subs.append({'t': o['t'], 'fp': o['fp']})
            return subs[j]['t'], subs[j]['fp']
        st, r = in_child(child, cpu=60)
        return r if st == 'ok' else ('dead', '')

    def simplify(self, steps):
        yield from super().simplify(steps)
        for i, s in enumerate(steps):
            if s['do'] == 'tasks':
                sch = s['sched']
                if len(sch) > 1:
                    h = len(sch) // 2
                    yield steps[:i] + [dict(s, sched=sch[:h])] + steps[i + 1:]
                    yield steps[:i] + [dict(s, sched=sch[h:])] + steps[i + 1:]
                    if len(sch) < 16:
                        for j in range(len(sch)):
                            yield steps[:i] + [dict(s, sched=sch[:j] + sch[j + 1:])] + steps[i + 1:]
                if len(s['t']) > 2:
                    for j in range(len(s['t'])):
                        yield steps[:i] + [dict(s, t=s['t'][:j] + s['t'][j + 1:])] + steps[i + 1:]

    def nontrivial(self, ex):
        import hashlib
        import json
        out = []
        for s, o in zip(ex.steps, ex.log):
            if (s['do'] == 'tasks' and len(o['trace']) > len(s['t'])) or o.get('fired'):
                out.append(hashlib.blake2b(json.dumps([s, o.get('trace')], sort_keys=True).encode(),
                                           digest_size=8).digest())
        return out

    def extra_evidence(self, agg):
        return {'functions_keeping_state': self.stateful, 'task_switches': int(agg['stats']['switches'])}
