"""Extends the recorded calls for the tree under test: a seeded search, per function, for calls that execute source lines
which the recorded calls do not (guides the simulation; decides nothing)."""
import json
import sys

from core import in_child
from gen import is_num

TOOL = 4
mon = sys.monitoring
BUDGET = 10000
TOTAL = 150000          # engine operations per function
TRIES = {'quick': 150, 'thorough': 600}
KEEP = 8


def candidate(rng, gen, name):
    op = gen.call(rng, name, wild=0.9)
    r = rng.random()
    ks = sorted(op['kw'])
    if r < 0.15 and ks:
        k = rng.choice(ks)
        op['kw'][k] = gen.extreme(rng, op, k)
    elif r < 0.3:
        nums = [k for k in ks if is_num(op['kw'][k])]
        if nums:
            k = rng.choice(nums)
            v = gen.relate(rng, op, k)
            if v is not None:
                op['kw'][k] = v
    elif r < 0.36:
        return gen.longer(rng, op) or op
    elif r < 0.4:
        return gen.retyped(rng, op)
    return op


def explore(world, gen, rng, name, tries):
    """-> new calls, in a forked child."""
    pkg = world.seam.mpsci
    hits = []
    left = set()            # lines not executed yet, of the functions that are executed
    codes = set()

    def on_line(code, line):
        if code.co_filename.startswith(pkg):
            if code not in codes:
                codes.add(code)
                left.update((code, n) for _, _, n in code.co_lines() if n is not None and n != code.co_firstlineno)
            left.discard((code, line))
            hits.append(line)
        return mon.DISABLE

    def child():
        mon.use_tool_id(TOOL, 'mpsci-explore')
        mon.register_callback(TOOL, mon.events.LINE, on_line)
        mon.set_events(TOOL, mon.events.LINE)
        spent = 0
        gen.corpus[name] = list(gen.corpus[name])
        cover = []
        known = list(gen.corpus[name])
        for order in (known, known[::-1]):
            for b in order:
                del hits[:]
                world.call(dict(b, f=name), 53, budget=BUDGET)
                spent += world.seam.last_total
                if hits and b not in cover:
                    cover.append(b)
                if spent > TOTAL:
                    break
            mon.restart_events()
        for b in cover:
            world.call(dict(b, f=name), 53, budget=BUDGET)
        found, seen = [], set()
        for _ in range(tries):
            if spent > 2 * TOTAL or len(found) >= KEEP or not left:
                break
            op = candidate(rng, gen, name)
            p = 53 if rng.random() < 0.7 else gen.prec(rng)
            key = json.dumps(op, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            del hits[:]
            t, f, v = world.call(op, p, budget=BUDGET)
            spent += world.seam.last_total
            if world.seam.timed_out:
                break
            if hits and len(key) < 4000:
                c = {k: v for k, v in op.items() if k != 'f'}
                found.append(c)
                gen.corpus[name].append(c)      # a starting point for further ones
        return found, len(left), cover + found
    st, r = in_child(child, cpu=40)
    return r if st == 'ok' else ([], 0, [])


def enrich(prop):
    """Add the calls found to prop.gen.corpus; -> number of calls added."""
    from engine import run_pool, rng_for
    names = prop.gen.names
    found = {}

    class P:
        @staticmethod
        def unit(i):
            rng = rng_for(prop.seed, 'explore', i)
            return {'calls': explore(prop.w, prop.gen, rng, names[i], TRIES[prop.tier])}
    run_pool(P, len(names), prop.workers, lambda i, r: found.__setitem__(i, r.get('calls', ([], 0, []))), lambda: False)
    n = 0
    for i in sorted(found):
        c = prop.gen.corpus[names[i]]
        new, _, cover = found[i]
        prop.gen.corpus[names[i]] = c + new
        prop.gen.cover[names[i]] = cover
        n += len(new)
    return n
