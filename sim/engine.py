"""The simulator: step executor, seeded unit runner over forked workers, minimiser, replay, evidence."""
import collections
import hashlib
import json
import os
import pickle
import random
import select
import subprocess
import sys
import threading
import time

import codec
from core import World, Reference, HarnessError, in_child, bail, BUDGET, HERE
from seams import ITERATIVE

VERIF = os.path.dirname(HERE)
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.json')


def rng_for(*key):
    return random.Random('/'.join(map(str, key)))


class Violation(BaseException):
    """Raised inside a run when an invariant fails."""

    def __init__(self, cls, msg, sig=''):
        self.cls, self.msg, self.sig = cls, msg, sig
        super().__init__(msg)


class EndRun(BaseException):
    """The run cannot be continued meaningfully (operation budget exceeded)."""


SOLVERS = ITERATIVE | {'hyp0f1', 'hyp1f1', 'hyp2f1', 'hyp1f2', 'hyp2f2', 'hyp2f3', 'hyp3f2', 'hyper', 'hypercomb', 'hyperu',
                       'hyp2f0', 'meijerg', 'betainc', 'gammainc', 'besseli', 'besselj', 'besselk', 'bessely', 'expint',
                       'lambertw', 'erfinv', 'polylog', 'lerchphi', 'whitm', 'whitw', 'legendre', 'pcfd', 'pcfu', 'struveh',
                       'appellf1', 'stieltjes', 'primezeta'}


STRIKES = ['int', 'mem', 'int', 'mem', 'int', 'mem', 'alarm', 'exit', 'rec']       # faults that can arise anywhere


def make_fault(mp, kind):
    if kind == 'int':
        return KeyboardInterrupt('simulated interrupt')
    if kind == 'mem':
        return MemoryError('simulated')
    if kind == 'alarm':         # an exception of the caller's own, raised by its signal handler
        return TimeoutError('simulated: time limit')
    if kind == 'exit':
        return SystemExit('simulated: terminated')
    if kind == 'rec':
        return RecursionError('maximum recursion depth exceeded (simulated)')
    if kind == 'noconv':
        return mp.NoConvergence('simulated: no convergence')
    if kind == 'noroot':
        return ValueError('Could not find root within given tolerance. (simulated)')
    if kind == 'zerodiv':
        return ZeroDivisionError('simulated')
    if kind == 'overflow':
        return OverflowError('simulated')
    raise HarnessError(kind)


def kinds_at(callee):
    """Fault kinds that can really arise at an entry into this engine function."""
    if callee == 'findroot':
        return ['noroot', 'zerodiv', 'noconv']
    if callee in SOLVERS:
        return ['noconv']
    return []


class Exec:
    """Executes the steps of one run in this process; records steps, observations and statistics."""

    def __init__(self, world, budget=BUDGET):
        self.w = world
        self.mp = world.mp
        self.slots = {}
        self.steps = []
        self.log = []
        self.stats = collections.Counter()
        self.sites = set()
        self.budget = budget
        self.world_for = None        # hook: step -> World (used for attribution)

    # argument decoding with slots
    def dec(self, j):
        if isinstance(j, dict) and len(j) == 1:
            (k, v), = j.items()
            if k == 'S':
                return self.slots[v]
            if k == 'L':
                return [self.dec(x) for x in v]
            if k == 'T':
                return tuple(self.dec(x) for x in v)
        return codec.dec(j)

    def resolve(self, op):
        """The call with slot references replaced by their present contents."""
        def res(j):
            if isinstance(j, dict) and len(j) == 1:
                (k, v), = j.items()
                if k == 'S':
                    return codec.enc(self.slots[v])
                if k in ('L', 'T'):
                    return {k: [res(x) for x in v]}
            return j
        r = {'f': op['f'], 'kw': {k: res(v) for k, v in op['kw'].items()}}
        if 'va' in op:
            r['va'] = [res(v) for v in op['va']]
        return r

    def do(self, step):
        self.steps.append(step)
        obs = getattr(self, 'do_' + step['do'])(step)
        self.log.append(obs)
        return obs

    # hooks for the properties
    def on_budget(self):
        raise EndRun()

    def before(self, step, fn, args, kw):
        return None

    def after(self, step, obs, value, ctx):
        pass

    def after_budget(self, step, obs, ctx):
        """The call was cut off at the operation budget (an exception the library never catches)."""

    def do_put(self, step):
        self.slots[step['s']] = codec.dec(step['v'])
        return {}

    def do_call(self, step, record=False):
        op, prec = step['c'], step['p']
        w = self.w if self.world_for is None else self.world_for(step)
        rop = self.resolve(op)
        fn, args, kw = w.bind(op, self.dec)
        fault = step.get('fault')
        fired = []
        sites = {}
        kwargs = {'budget': step.get('b', self.budget)}
        exc = None
        if fault and len(fault) == 3:
            # storm: every entry into one engine function fails
            _, kind, target = fault
            exc = make_fault(self.mp, kind)

            def storm(i, code, caller):
                if code.co_name == target:
                    if not fired:
                        fired.append((caller.f_code.co_qualname, caller.f_lineno, code.co_name))
                    raise exc
            kwargs['every'] = storm
        elif fault:
            k, kind = fault
            exc = make_fault(self.mp, kind)

            def action(code, caller):
                fired.append((caller.f_code.co_qualname, caller.f_lineno, code.co_name))
                raise exc
            kwargs.update(trip=k, action=action)
        elif step.get('nest'):
            k, subs = step['nest']

            def action(code, caller):
                fired.append((caller.f_code.co_qualname, caller.f_lineno, code.co_name))
                self.nested(subs, step)
            kwargs.update(trip=k, action=action)
        if record:
            pkg = w.seam.mpsci

            def every(i, code, caller):
                key = (caller.f_code.co_filename[-24:], caller.f_lineno, code.co_name, context(caller, pkg))
                s = sites.get(key)
                if s is None:
                    sites[key] = [i, i]
                else:
                    s[1] = i
            kwargs['every'] = every
        if prec is not None:
            self.mp.prec = prec
        ctx = self.before(step, fn, args, kw)
        if step.get('thr'):
            # the call is made by another thread, which ends before the history goes on
            res = []
            th = threading.Thread(target=lambda: res.append(w.outcome(lambda: fn(*args, **kw), **kwargs)), daemon=True)
            th.start()
            th.join(60)
            if not res:
                raise EndRun()
            t, f, v = res[0]
            self.stats['calls in another thread'] += 1
        else:
            t, f, v = w.outcome(lambda: fn(*args, **kw), **kwargs)
        n, tot = w.seam.last_n, w.seam.last_total
        if t == 'budget':
            n = tot = 0
        obs = {'t': t, 'fp': f, 'n': n, 'tot': tot, 'fired': bool(fired), 'rop': rop, 'p': prec}
        st = self.stats
        st['calls'] += 1
        st['ops'] += n
        st['outcome:' + t] += 1
        if fired:
            st['fault:' + (fault[1] + (' storm' if len(fault) == 3 else '') if fault else 'nest')] += 1
            self.sites.add(fired[0])
        if record:
            obs['sites'] = sites
        if t == 'budget':
            st['budget_ends'] += 1
            if w.seam.timed_out:
                st['timeouts'] += 1
                if os.environ.get('SIM_DEBUG_TIMEOUTS'):
                    with open(os.environ['SIM_DEBUG_TIMEOUTS'], 'a') as dbg:
                        dbg.write(json.dumps([rop, prec, w.seam.jumps]) + '\n')
                raise EndRun()
            self.after_budget(step, obs, ctx)
            self.on_budget()
            return obs
        self.lastval = v
        if fault and fired:
            obs['same'] = v is exc
        self.after(step, obs, v, ctx)
        if step.get('keep') and t == 'ok':
            self.slots[step['keep']] = v
        return obs

    def do_mut(self, step):
        if step['s'] in self.slots:
            obj = self.slots[step['s']]
            mutate(obj, step['how'])
            self.stats['mutations'] += 1
        return {}


def is_mutable(v, depth=0):
    from mpmath import mp
    if depth > 4:
        return False
    if isinstance(v, (list, dict, set, bytearray, mp.matrix)):
        return True
    if isinstance(v, tuple):
        return any(is_mutable(x, depth + 1) for x in v)
    if hasattr(v, '__dataclass_fields__'):
        return True
    return False


def exempt_field(v, k):
    return type(v).__name__ == 'OddsRatioResult' and k == 'table'


def mutate(v, how, depth=0):
    """Change a caller-owned object in place, deterministically."""
    from mpmath import mp
    if depth > 5:
        return
    if isinstance(v, list):
        for x in v:
            mutate(x, how, depth + 1)
        if how == 'scramble':
            for i, x in enumerate(v):
                if isinstance(x, bool) or not is_mutable(x):
                    v[i] = _junk(x, i)
        elif how == 'clear':
            v.clear()
        elif how == 'append':
            v.append(v[-1] if v else 3)
        elif how == 'reverse':
            v.reverse()
        elif how == 'pop':
            if v:
                v.pop(0)
        elif how == 'bump':
            if v and not is_mutable(v[0]):
                v[0] = _junk(v[0], 1)
        elif how in ('transfer', 'swap', 'mid', 'near'):
            # changes that keep the length and the ends, and (transfer) also the sum
            num = [i for i, x in enumerate(v) if isinstance(x, (int, float, mp.mpf)) and not isinstance(x, bool)]
            if how == 'transfer' and len(num) >= 2:
                a, b = (num[1], num[-2]) if len(num) > 3 else (num[0], num[-1])
                d = 1 if all(isinstance(v[i], int) for i in (a, b)) else v[b] * 0.25
                v[a], v[b] = v[a] + d, v[b] - d
            elif how == 'swap' and len(num) >= 2:
                a, b = (num[1], num[2]) if len(num) > 3 else (num[0], num[1])
                v[a], v[b] = v[b], v[a]
            elif how == 'mid' and num:
                i = num[len(num) // 2]
                v[i] = v[i] + (1 if isinstance(v[i], int) else 0.5)
            elif how == 'near' and num:
                i = num[len(num) // 2]
                v[i] = mp.mpf(v[i]) * (1 + mp.ldexp(1, -40))
        elif how == 'double':
            for i, x in enumerate(v):
                if isinstance(x, (int, float, mp.mpf)) and not isinstance(x, bool):
                    v[i] = x * 2
    elif isinstance(v, tuple):
        for x in v:
            mutate(x, how, depth + 1)
    elif isinstance(v, mp.matrix):
        for i in range(v.rows):
            for j in range(v.cols):
                v[i, j] = _junk(v[i, j], i + j) if how != 'reverse' else -v[i, j]
    elif isinstance(v, dict):
        for x in list(v.values()):
            mutate(x, how, depth + 1)
        if how == 'clear':
            v.clear()
        else:
            for k in list(v):
                v[k] = _junk(v[k], 1)
    elif isinstance(v, set):
        v.clear()
    elif hasattr(v, '__dataclass_fields__'):
        for k in v.__dataclass_fields__:
            if exempt_field(v, k):
                continue
            x = getattr(v, k)
            mutate(x, how, depth + 1)
            if how in ('scramble', 'bump'):
                try:
                    setattr(v, k, _junk(x, 2))
                except Exception:       # frozen record
                    pass


def _junk(x, i):
    from mpmath import mp
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return x + 1
    if isinstance(x, (mp.mpf, mp.mpc)):
        return mp.mpf(12345 + i)
    return 7 + i


def context(frame, pkg):
    """Where the two next callers inside the library stand: an integrand is struck once per use of the integral."""
    out = []
    f = frame.f_back
    for _ in range(80):
        if f is None or len(out) == 2:
            break
        if f.f_code.co_filename.startswith(pkg):
            out.append(f.f_lineno)
        f = f.f_back
    return tuple(out)


def spread(rng, sites, known=()):
    """Call sites in random order, but every place in the source once before its further contexts."""
    keys = list(sites)
    rng.shuffle(keys)
    first, rest = {}, []
    for k in keys:
        if k[:3] in first or k[:3] in known:
            rest.append(k)
        else:
            first[k[:3]] = k
    return list(first.values()) + rest


def choose_points(rng, sites, n, count):
    """Fault points: first (or last) occurrences of distinct call sites, plus a few arbitrary indices."""
    pts = []
    for key in spread(rng, sites):
        if len(pts) >= count:
            break
        a, b = sites[key]
        pts.append((a if rng.random() < 0.75 else b, key[2]))
    return pts


def digest(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ---------------------------------------------------------------------------------------------------
class Prop:
    """One property: generates runs, executes them, judges them."""
    id = None
    level = 'fault_enumeration'
    rule = ''
    assumptions = []
    needs_world = True
    enriched = True          # search for calls that run through lines the recorded calls miss
    quick_units = 800
    thorough_units = 8000
    min_units = 0            # first complete pass; fewer than this is not an answer
    cpu = 60
    workers = 8
    exec_cls = Exec

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed

    def setup(self):
        self.w = World()
        import gen
        self.gen = gen.Gen(self.w.api, self.w.repo)
        self.ref = Reference(self.w)
        self.calls_found = 0
        if self.enriched:
            import explore
            self.calls_found = explore.enrich(self)

    def units(self):
        return self.quick_units if self.tier == 'quick' else self.thorough_units

    # --- to be provided -------------------------------------------------
    def drive(self, ex, rng, i):
        """Generate and execute the steps of unit i (in a forked child)."""
        raise NotImplementedError

    def judge(self, steps, log):
        """History check after the run, in the (pristine) worker.  -> Violation or None"""
        return None

    def nontrivial(self, ex):
        return None

    # --- common -----------------------------------------------------------
    def new_exec(self):
        return self.exec_cls(self.w)

    def _run(self, driver):
        def child():
            ex = self.new_exec()

            def result(viol):
                log = ex.log
                for o in log:
                    o.pop('sites', None)
                return {'steps': ex.steps, 'log': log, 'viol': viol, 'stats': ex.stats, 'sites': ex.sites,
                        'nt': self.nontrivial(ex)}

            def hopeless():
                ex.stats['runs cut off in code that swallows everything'] += 1
                viol = self.endless(ex)
                ex.steps = ex.steps[:len(ex.log)] if viol is None else ex.steps
                bail(result(viol))
            if self.w is not None:
                self.w.seam.hopeless = hopeless
            try:
                driver(ex)
            except EndRun:
                pass
            except Violation as v:
                return result((v.cls, v.msg, v.sig))
            finally:
                if self.w is not None:
                    self.w.seam.hopeless = None
            return result(None)
        st, res = in_child(child, cpu=self.cpu)
        if st == 'dead':
            return {'steps': [], 'log': [], 'viol': None, 'stats': collections.Counter(dead=1), 'sites': set(),
                    'nt': None, 'dead': res}
        return res

    def endless(self, ex):
        """The call now running swallows every exception and goes on: a violation (cls, msg, sig), or None?"""
        return None

    def drivers(self, rng, i):
        return [lambda ex, rng: self.drive(ex, rng, i)]

    def unit(self, i):
        rng = rng_for(self.seed, self.id, i)
        self.jstats = collections.Counter()
        out = None
        for r, d in enumerate(self.drivers(rng, i)):
            res = self._run(lambda ex: d(ex, rng_for(self.seed, self.id, i, r)))
            res['stats']['runs'] += 1
            if res['viol'] is None and res['log']:
                v = self.judge(res['steps'], res['log'])
                if v is not None:
                    res['viol'] = (v.cls, v.msg, v.sig)
            if out is None:
                out = res
                out['alllogs'] = [res['log']]
            else:
                out['stats'].update(res['stats'])
                out['sites'] |= res['sites']
                out['nt'] = (out['nt'] or []) + (res['nt'] or [])
                out['alllogs'].append(res['log'])
                if res['viol']:
                    out.update(steps=res['steps'], log=res['log'], viol=res['viol'])
            if out['viol']:
                break
        if out is None:
            return None
        out['stats'].update(self.jstats)
        return out

    def replay_steps(self, steps):
        self.jstats = collections.Counter()
        return self._replay_steps(steps)

    def _replay_steps(self, steps):
        """Execute a concrete list of steps -> (viol, log)"""
        def driver(ex):
            for s in steps:
                ex.do(s)
        res = self._run(driver)
        if res['viol'] is None and res['log']:
            v = self.judge(res['steps'], res['log'])
            if v is not None:
                res['viol'] = (v.cls, v.msg, v.sig)
        return res['viol'], res['log']

    def simplify(self, steps):
        """Yield simpler variants of a failing list of steps (beyond dropping steps)."""
        for i, s in enumerate(steps):
            if s.get('fault') and s['do'] == 'call':
                t = dict(s)
                del t['fault']
                yield steps[:i] + [t] + steps[i + 1:]
            if s.get('nest'):
                k, subs = s['nest']
                for j in range(len(subs)):
                    if len(subs) > 1:
                        yield steps[:i] + [dict(s, nest=[k, subs[:j] + subs[j + 1:]])] + steps[i + 1:]
            if s.get('p') not in (53, None):
                yield steps[:i] + [dict(s, p=53)] + steps[i + 1:]

    def minimise(self, steps, cls, deadline):
        """Delta debugging on steps, then local simplification, keeping the violation class."""
        def bad(ss):
            if time.monotonic() > deadline:
                return False
            try:
                v, _ = self.replay_steps(ss)
            except HarnessError:
                return False
            return v is not None and v[0] == cls
        if not bad(steps):
            return None
        n = 2
        while len(steps) >= 2 and time.monotonic() < deadline:
            size = max(1, len(steps) // n)
            for a in range(0, len(steps), size):
                cand = steps[:a] + steps[a + size:]
                if cand and bad(cand):
                    steps, n = cand, max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(steps), 2 * n)
        changed = True
        while changed and time.monotonic() < deadline:
            changed = False
            for cand in self.simplify(steps):
                if bad(cand):
                    steps, changed = cand, True
                    break
        return steps

    def extra_evidence(self, agg):
        return {}


# ---------------------------------------------------------------------------------------------------
TOLERATED = 3           # units whose harness itself failed before the whole check gives up (they are reported)


def run_pool(prop, total, workers, on_result, stop):
    """Feed unit indices in order to forked workers; call on_result(i, result) for each."""
    kids = []
    for k in range(workers):
        pr, pw = os.pipe()      # parent -> worker
        cr, cw = os.pipe()      # worker -> parent
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pw)
                os.close(cr)
                for (_, a, b) in kids:
                    os.close(a)
                    os.close(b)
                fin, fout = os.fdopen(pr, 'rb'), os.fdopen(cw, 'wb')
                while True:
                    b = fin.read(4)
                    if len(b) < 4:
                        break
                    i = int.from_bytes(b, 'big')
                    try:
                        res = prop.unit(i)
                    except BaseException as e:      # noqa: BLE001
                        import traceback
                        res = {'harness': ''.join(traceback.format_exception(e))[-3000:]}
                    data = pickle.dumps((i, res))
                    fout.write(len(data).to_bytes(8, 'big') + data)
                    fout.flush()
            finally:
                os._exit(0)
        os.close(pr)
        os.close(cw)
        kids.append((pid, pw, cr))
    bufs = {cr: b'' for _, _, cr in kids}
    nxt = 0
    busy = {}
    to_pw = {cr: pw for _, pw, cr in kids}
    for _, pw, cr in kids:
        if nxt < total and not stop():
            os.write(pw, nxt.to_bytes(4, 'big'))
            busy[cr] = nxt
            nxt += 1
    err = None
    failed = getattr(prop, 'failed', [])
    while busy:
        for cr in select.select(list(busy), [], [], 10)[0]:
            b = os.read(cr, 1 << 20)
            if not b:
                failed.append(f'worker died on unit {busy[cr]}')
                if len(failed) > TOLERATED:
                    err = err or failed[0]
                del busy[cr]
                continue
            buf = bufs[cr] + b
            while len(buf) >= 8:
                ln = int.from_bytes(buf[:8], 'big')
                if len(buf) < 8 + ln:
                    break
                i, res = pickle.loads(buf[8:8 + ln])
                buf = buf[8 + ln:]
                if 'harness' in res:
                    failed.append(f'unit {i}: ' + res['harness'])
                    if len(failed) > TOLERATED:
                        err = err or failed[0]
                else:
                    on_result(i, res)
                if nxt < total and not stop() and err is None:
                    os.write(to_pw[cr], nxt.to_bytes(4, 'big'))
                    busy[cr] = nxt
                    nxt += 1
                else:
                    del busy[cr]
            bufs[cr] = buf
    for pid, pw, cr in kids:
        os.close(pw)
    for pid, pw, cr in kids:
        os.waitpid(pid, 0)
        os.close(cr)
    if err:
        raise HarnessError(err)
    return nxt


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']


def check(prop, workers, wall):
    t0 = time.monotonic()
    prop.workers = workers
    prop.setup()
    setup_s = time.monotonic() - t0
    known = load_known(prop.id)
    total = prop.units()
    agg = {'stats': collections.Counter(), 'sites': set(), 'nt': set(), 'samples': [], 'dig': {}, 'units': 0,
           'unconfirmed': 0}
    bad = {}
    known_hit = {}
    failures = []

    def on_result(i, res):
        agg['units'] += 1
        agg['stats'].update(res['stats'])
        agg['sites'] |= res['sites']
        if res['nt']:
            agg['nt'] |= set(res['nt'])
        agg['dig'][i] = digest([res['steps'], res['viol'],
                                [[{k: v for k, v in o.items() if k != 'tot'} for o in log]
                                 for log in res['alllogs']]])
        if len(agg['samples']) < 3 and res['steps']:
            agg['samples'].append({'unit': i, 'steps': trim(res['steps'][:6])})
        if res['viol']:
            for k in known:
                if k['sig'] and k['sig'] in res['viol'][2]:
                    known_hit[k['sig']] = k['what']
                    return
            bad[i] = res

    def stop():
        return bool(bad) or time.monotonic() - t0 > wall
    fed = 0
    found = None
    while fed < total:
        base = fed

        class Shift:
            failed = failures

            @staticmethod
            def unit(j):
                return prop.unit(j + base)
        fed += run_pool(Shift, total - fed, workers, lambda j, r: on_result(j + base, r), stop)
        if not bad:
            break
        i = min(bad)
        res = bad[i]
        found = confirm(prop, i, res, t0 + wall + 60)
        if found:
            break
        agg['unconfirmed'] += len(bad)
        agg.setdefault('unconfirmed_what', []).append([i, list(res['viol'])])
        print(f'unconfirmed: unit {i}: {res["viol"]}', file=sys.stderr)
        bad.clear()
        if agg['unconfirmed'] > 5:
            break
    if os.environ.get('SIM_DEBUG_DIGESTS'):
        with open(os.environ['SIM_DEBUG_DIGESTS'], 'w') as dbg:
            json.dump(agg['dig'], dbg)
    for f in failures:
        print(f'harness failure, unit skipped: {f}', file=sys.stderr)
    agg['harness_failures'] = len(failures)
    complete = fed >= total
    wall_s = time.monotonic() - t0
    write_evidence(prop, agg, wall_s, setup_s, total, fed, found, workers, known_hit)
    for s, what in sorted(known_hit.items()):
        print(f'KNOWN-FINDING: property={prop.id} {what}')
    if found:
        print(f'violation class: {found["class"]}')
        print(f'what: {found["message"]}')
        print(f'seed={prop.seed} unit={found["unit"]} steps={len(found["steps"])}')
        print(f'VIOLATION property={prop.id} replay={found["path"]}')
        return 1
    print(f'{prop.id}: held on {agg["units"]} units, {agg["stats"]["runs"]} simulated runs, '
          f'{agg["stats"]["calls"]} calls, {wall_s:.1f} s; digest '
          f'{digest([agg["dig"][k] for k in sorted(agg["dig"])])}'
          + (f'; {agg["unconfirmed"]} unconfirmed' if agg['unconfirmed'] else ''))
    if not complete and fed < min(prop.min_units, total):
        print(f'ERROR: only {fed} of {total} units within {wall} s')
        return 3
    return 0


def trim(o, n=400):
    """Shorten long argument lists for display in the evidence."""
    s = json.dumps(o, default=str)
    return o if len(s) < 4 * n else s[:4 * n] + '...'


def confirm(prop, i, res, deadline):
    """Minimise, write the replay file and confirm it in a fresh process."""
    cls, msg, sig = res['viol']
    deadline = min(deadline, time.monotonic() + 90)
    steps = prop.minimise(res['steps'], cls, deadline)
    if steps is None:
        # try once more: the run as generated
        v, _ = prop.replay_steps(res['steps'])
        if v is None:
            return None
        steps = res['steps']
    v, log = prop.replay_steps(steps)
    if v is None:
        return None
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'{prop.id}-seed{prop.seed}-unit{i}.json')
    found = {'property': prop.id, 'class': v[0], 'message': v[1], 'sig': v[2], 'seed': prop.seed, 'unit': i,
             'original_steps': len(res['steps']), 'steps': steps}
    with open(path, 'w') as f:
        json.dump(found, f, indent=1)
    found['path'] = path
    r = subprocess.run([sys.executable, os.path.join(HERE, 'main.py'), '--replay', path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    found['replayed'] = r.returncode == 1 and 'REPRODUCED' in r.stdout
    if not found['replayed']:
        sys.stderr.write(r.stdout[-2000:])
        return None
    return found


def write_evidence(prop, agg, wall_s, setup_s, total, fed, found, workers, known_hit):
    st = agg['stats']
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault:')}
    outcomes = {k[8:]: v for k, v in sorted(st.items()) if k.startswith('outcome:')}
    cov = {
        'evaluations': int(st['evals'] or st['calls']),
        'distinct_nontrivial': len(agg['nt']),
        'rule': prop.rule,
        'samples': agg['samples'],
        'seeded_units': agg['units'],
        'units_planned': total,
        'simulated_runs': int(st['runs']),
        'runs_per_hour': int(st['runs'] / max(wall_s, 1e-9) * 3600),
        'calls': int(st['calls']),
        'simulated_time': 'the library has no clock; simulated progress is counted in numeric operations',
        'numeric_operations': int(st['ops']),
        'faults_injected': faults,
        'distinct_fault_sites': len(agg['sites']),
        'outcomes': outcomes,
        'other_counts': {k: int(v) for k, v in sorted(st.items())
                         if ':' not in k and k not in ('runs', 'calls', 'ops', 'evals')},
        'unconfirmed_alarms': agg['unconfirmed'],
        'units_skipped_by_harness_failure': agg['harness_failures'],
        'unconfirmed_alarms_what': trim(agg.get('unconfirmed_what', [])),
        'event_log_digest': digest([agg['dig'][k] for k in sorted(agg['dig'])]),
        'components': {'real': ['mpsci working tree (/repo)', 'mpmath', 'CPython'],
                       'stub': getattr(prop, 'stubs', ['interrupt / memory / solver failure delivery '
                                                       '(sys.monitoring seam)'])},
        'workers': workers,
    }
    if getattr(prop, 'calls_found', 0):
        cov['calls_found_by_line_search'] = prop.calls_found
    probes = {k[6:]: int(v) for k, v in sorted(st.items()) if k.startswith('probe:')}
    if probes:
        cov['probes'] = probes
    cov.update(prop.extra_evidence(agg))
    ev = {'property': prop.id, 'tier': prop.tier, 'seed': prop.seed, 'level': prop.level, 'coverage': cov,
          'assumptions': prop.assumptions, 'wall_s': round(wall_s, 2), 'violations': 1 if found else 0}
    if known_hit:
        cov['known_findings'] = known_hit
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop.id + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop.id + '.json'))
