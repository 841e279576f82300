"""Offline: build corpus/corpus.json from recorded calls + coverage-guided generation.  Inputs only, no outcomes."""
import sys, os, json, glob, time, random
sys.path.insert(0, '/verif/sim')
import core, gen, codec
from multiprocessing import Pool
W = core.World()
R = {}
for f in sorted(glob.glob('/tmp/rec/r.*')):
    for n, l in json.load(open(f)).items():
        for (kw, va), direct in l:
            c = {'kw': kw}
            if va is not None and n == 'stats.anova_oneway': c['va'] = va['L']
            R.setdefault(n, {})[json.dumps(c, sort_keys=True)] = (c, direct)
def seedlist(n):
    d = R.get(n, {})
    return [c for c, direct in sorted(d.values(), key=lambda t: (not t[1], len(json.dumps(t[0]))))]
raw = {n: seedlist(n) for n in W.api}
# module parameter pools from everything recorded
pools = {}
for n, l in raw.items():
    for c in l:
        for k, v in c['kw'].items():
            pools.setdefault(n.rsplit('.', 1)[0], {}).setdefault(k, {})[json.dumps(v)] = v
HAND = {
 'distributions.benini.nll': {'x': {'L': [2, 3, gen.D(4.5)]}},
 'stats.odds_ratio_ci': {'table': {'L': [{'L': [9, 19]}, {'L': [5, 21]}]}, 'kind': 'conditional', 'alternative': 'two-sided', 'confidence_level': gen.D(0.95)},
}
import inspect
def synth(n):
    """calls for functions no test touches: combine pools by parameter name"""
    rng = random.Random(n); out = []
    mod = n.rsplit('.', 1)[0]
    ps = inspect.signature(W.api[n]).parameters.values()
    for _ in range(25):
        kw = {}
        for p in ps:
            if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD): continue
            pool = list(pools.get(mod, {}).get(p.name, {}).values())
            if p.name == 'x' and any(s in n for s in ('nll', 'mom', 'mle', 'circ')):
                xs = [v for v in pool if gen.is_num(v) and 0 < gen.to_float(v) < 1e4] or [gen.D(0.3), gen.D(0.6)]
                kw['x'] = {'L': [rng.choice(xs) for _ in range(4)]}; continue
            if p.default is not inspect._empty and rng.random() < .3:
                continue
            if p.name in ('n',) and not pool: pool = [1, 2, 3, 0]
            if p.name == 'p' and not pool: pool = gen.PROBS
            if not pool: pool = [1, 2, gen.D(0.5), gen.D(1.5), 3]
            kw[p.name] = rng.choice(pool)
        kw.update({k: v for k, v in HAND.get(n, {}).items() if rng.random() < .8})
        out.append({'kw': kw})
    return out
for n in raw:
    if len(raw[n]) < 4:
        raw[n] = raw[n] + synth(n)
for t in ([[9,19],[5,21]], [[3,0],[2,5]], [[0,4],[5,2]], [[7,2],[3,8]], [[0,0],[3,4]], [[1,2],[3,4]]):
    for kind in ('conditional', 'sample'):
        for alt in ('two-sided', 'less', 'greater'):
            for cl in (0.95, 0.5):
                raw['stats.odds_ratio_ci'].append({'kw': {'table': {'L': [{'L': r} for r in t]}, 'kind': kind, 'alternative': alt, 'confidence_level': gen.D(cl)}})
G = gen.Gen(W.api, core.REPO, corpus={n: l for n, l in raw.items() if l})
PRE = core.os.path.join(core.REPO, 'mpsci') + os.sep
def measure(op, prec=53):
    def child():
        arcs = set()
        last = {}
        def loc(fr, ev, arg):
            if ev == 'line':
                c = (fr.f_code.co_filename[len(PRE):], fr.f_code.co_firstlineno)
                arcs.add((c, last.get(fr, 0), fr.f_lineno)); last[fr] = fr.f_lineno
            return loc
        def tr(fr, ev, arg):
            return loc if fr.f_code.co_filename.startswith(PRE) else None
        t0 = time.process_time()
        t, f, v = W.call(op, prec, budget=60000)
        dt = time.process_time() - t0
        tot, nn = W.seam.last_total, W.seam.last_n
        if t == 'budget' or dt > 0.5: return t, f, dt, tot, nn, []
        sys.settrace(tr)
        try:
            W.call(op, prec, budget=60000)
        finally:
            sys.settrace(None)
        return t, (f.split(':')[0] if t == 'err' else 'ok'), dt, tot, nn, list(arcs)
    st, r = core.in_child(child, cpu=4)
    return r if st == 'ok' else None
def do(n):
    rng = random.Random('corpus' + n)
    cands = [dict(c, f=n) for c in raw[n][:40]]
    chosen, seen, cost = [], set(), 0
    res = []
    for c in cands:
        m = measure(c)
        if m and m[0] in ('ok', 'err') and m[2] < 0.25 and m[3] < 30000:
            res.append((c, m))
    gg = gen.Gen(W.api, core.REPO, corpus={n: [ {k: v for k, v in c.items() if k != 'f'} for c, _ in res] or raw[n]})
    gg.pools = {m: {k: [p[s] for s in sorted(p)] for k, p in d.items()} for m, d in pools.items()}
    for i in range(120):
        c = gg.call(rng, n, wild=1.0)
        m = measure(c)
        if m and m[0] in ('ok', 'err') and m[2] < 0.2 and m[3] < 30000:
            res.append((c, m))
    arcs_all = set()
    for c, m in res:
        arcs_all |= {tuple(a) if not isinstance(a, tuple) else a for a in m[5]}
    # greedy cover, cheap first
    res.sort(key=lambda t: (t[1][0] != 'ok', t[1][3]))
    for c, m in res:
        a = set(m[5]) | ({('err', m[1])} if m[0] == 'err' else {('ok',)})
        if a - seen:
            seen |= a; chosen.append((c, m))
    oks = [t for t in res if t[1][0] == 'ok' and t not in chosen]
    rng.shuffle(oks)
    nok = sum(1 for c in chosen if c[1][0] == 'ok')
    for t in oks[:max(0, 10 - nok)]:
        chosen.append(t)
    return n, [{k: v for k, v in c.items() if k != 'f'} for c, m in chosen], len(arcs_all), \
        [(m[0], m[3], round(m[2], 4)) for c, m in chosen], sorted({(a[0][0], a[2]) for a in arcs_all if len(a) == 3})
if __name__ == '__main__':
    names = [n for n in W.api if raw[n]]
    out, stats, lines = {}, {}, set()
    with Pool(8) as p:
        for n, ch, na, st, ln in p.imap_unordered(do, names, chunksize=2):
            out[n] = ch; stats[n] = st; lines |= set(ln)
            print(len(out), n, len(ch), na, max([s[2] for s in st] or [0]), flush=True)
    with open('/verif/corpus/corpus.json', 'w') as f:
        f.write('{\n' + ',\n'.join(json.dumps(n) + ': ' + json.dumps(out[n], sort_keys=True) for n in sorted(out)) + '\n}\n')
    json.dump({'stats': stats, 'lines': sorted(lines)}, open('/tmp/rec/stats.json', 'w'))
