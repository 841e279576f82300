"""Seeded generation of calls: recorded base calls, per-module parameter pools, mutation, constants of the tree."""
import ast
import glob
import json
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = os.path.join(HERE, '..', 'corpus', 'corpus.json')


def D(x):
    return {'d': float(x).hex()} if x == x and abs(x) != float('inf') else {'d': repr(float(x))}


SPECIAL = [0, 1, -1, 2, 3, D(0.5), D(0.25), D(1.5), D(-0.5), D(1e-8), D(1e-30), 10, 50, D(1e6), D(float('inf')),
           D(float('-inf')), D(float('nan')), D(-0.0), {'m': [0, '1', '-200', 1]}, {'q': ['1', '3']}, {'k': 'pi'}]
JUNK = [None, 'abc', '', {'L': []}, {'c': [1.0, 1.0]}, {'L': ['x']}, {'T': []}, -7, D(-3.25), {'d': 'nan'}, '0.25']
PROBS = [0, 1, D(0.5), D(0.25), D(0.75), D(0.05), D(0.999), D(1e-12), {'q': ['1', '3']}, D(0.125), '1/3']


def rng_for(*key):
    return random.Random('/'.join(map(str, key)))


def is_num(j):
    return (isinstance(j, (int,)) and not isinstance(j, bool)) or \
        (isinstance(j, dict) and next(iter(j)) in ('d', 'm', 'q', 'i'))


def to_float(j):
    if isinstance(j, (int, float)):
        return float(j)
    k, v = next(iter(j.items()))
    try:
        if k == 'd':
            return float.fromhex(v) if 'x' in v else float(v)
        if k == 'm':
            m, e = int(v[1]), int(v[2])
            if m == 0:
                return 0.0 if e == 0 else float('inf') * (1 if e == -456 else -1)
            sh = max(0, m.bit_length() - 60)
            return (-1) ** v[0] * float(m >> sh) * 2.0 ** (e + sh)
        if k == 'q':
            return int(v[0]) / int(v[1])
        if k == 'i':
            return float(int(v))
    except (OverflowError, ValueError, ZeroDivisionError):
        return 1.0
    return 1.0


def near(f, d=1):
    """An mpf that agrees with the float f to about 100 bits but differs from it."""
    if not abs(f) < 1e6:
        f = 3.0
    v = int(abs(f) * 2 ** 60) * 2 ** 60 + d or 1
    tz = (v & -v).bit_length() - 1
    v >>= tz
    return {'m': [1 if f < 0 else 0, str(v), str(-120 + tz), v.bit_length()]}


def mpf_of(f):
    n, d = f.as_integer_ratio()
    s = 1 if n < 0 else 0
    n = abs(n)
    if n == 0:
        return {'m': [0, '0', '0', 0]}
    tz = (n & -n).bit_length() - 1
    m = n >> tz
    return {'m': [s, str(m), str(tz - (d.bit_length() - 1)), m.bit_length()]}


def flat(v):
    out = []
    for x in v:
        if isinstance(x, dict) and next(iter(x)) in ('L', 'T'):
            out += flat(x[next(iter(x))])
        else:
            out.append(x)
    return out


class Gen:
    def __init__(self, api, repo, corpus=None):
        self.api = api
        if corpus is None:
            with open(CORPUS) as f:
                corpus = json.load(f)
        self.corpus = {n: corpus[n] for n in sorted(corpus) if n in api}
        self.cover = {}
        self.recorded = dict(self.corpus)       # without the calls that explore.py adds
        self.names = sorted(self.corpus)
        self.pools = {}
        for n in self.names:
            mod = n.rsplit('.', 1)[0]
            for call in self.corpus[n]:
                for k, v in call['kw'].items():
                    pool = self.pools.setdefault(mod, {}).setdefault(k, {})
                    pool[json.dumps(v, sort_keys=True)] = v
        self.pools = {m: {k: [p[s] for s in sorted(p)] for k, p in d.items()} for m, d in self.pools.items()}
        self.modules = {}
        for n in self.names:
            self.modules.setdefault(n.rsplit('.', 1)[0], []).append(n)
        self.consts = self._constants(repo)

    def _constants(self, repo):
        """Numeric constants (and small offsets of them) in each source file of the tree under test."""
        out = {}
        for f in sorted(glob.glob(os.path.join(repo, 'mpsci', '**', '*.py'), recursive=True)):
            if os.sep + 'tests' + os.sep in f:
                continue
            try:
                tree = ast.parse(open(f, encoding='utf-8').read())
            except SyntaxError:
                continue
            vals = {}
            for node in ast.walk(tree):
                v = None
                if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) \
                        and not isinstance(node.value, bool):
                    v = node.value
                elif isinstance(node, ast.Constant) and isinstance(node.value, str) and len(node.value) < 20:
                    try:
                        v = float(node.value)
                    except ValueError:
                        if '/' in node.value:
                            try:
                                a, b = node.value.split('/')
                                v = int(a) / int(b)
                            except (ValueError, ZeroDivisionError):
                                v = None
                if v is None or v != v or abs(v) > 1e7:
                    continue
                for w in ((v, v + 1, v - 1) if isinstance(v, int) else (v, v * 1.001, v * 0.999)):
                    vals[w if isinstance(w, int) else float(w).hex()] = w
                    vals[('-', w if isinstance(w, int) else float(w).hex())] = -w
            rel = os.path.relpath(f, os.path.join(repo, 'mpsci'))[:-3].replace(os.sep, '.')
            out[rel] = [v if isinstance(v, int) else D(v) for v in vals.values()]
        return out

    def consts_for(self, name):
        mod = name.rsplit('.', 1)[0]
        if mod in self.consts:
            return self.consts[mod] or [1]
        # fun.* / stats.*: defined in private files
        fn = self.api[name]
        m = getattr(fn, '__module__', '')
        return self.consts.get(m.replace('mpsci.', '', 1)) or [1]

    # -- values ---------------------------------------------------------------
    def mutate_num(self, rng, j, name):
        r = rng.random()
        f = to_float(j)
        integral = isinstance(j, int)
        if r < 0.15:
            return rng.choice(SPECIAL)
        if r < 0.35:
            return rng.choice(self.consts_for(name))
        if integral:
            if r < 0.7:
                return max(-3, min(j + rng.randint(-3, 3), 400))
            if r < 0.78:
                return rng.randint(0, 60)
            if r < 0.86:
                return min(max(j, 1) * rng.choice([2, 5, 10, 30, 100]), 3000)
            if r < 0.9:
                return int(10 ** rng.uniform(0, 3.5))
            return D(j)
        if r < 0.45:
            return D(f * (1 + rng.choice([-1, 1]) * 2.0 ** rng.randint(-40, -1)))
        if r < 0.65:
            return D(f * rng.choice([0.5, 2, 0.1, 10, -1, 1.0001, 1e-3, 1e3, 1e-6, 1e-9, 1e5]))
        if r < 0.75:
            return D(f + rng.choice([-1, 1, 0.5, -0.5, 1e-6]))
        if r < 0.85:
            return D(round(rng.uniform(-4, 8), 3))
        if r < 0.93:
            return near(f, rng.randint(1, 99))
        return {'q': [str(int(f * 7) if abs(f) < 1e9 else 5), '7']}

    def whole_list(self, rng, v):
        """One change made to every number of a (nested) list."""
        how = rng.choice(['mpf', 'mpf', 'float', 'scale', 'scale', 'scale', 'scale', 'negate', 'equal', 'shift', 'round', 'frac', 'spread'])
        c = rng.choice([1e-9, 1e-6, 1e-3, 0.1, 3, 10, 100, 1000, 1e5, 1e8])
        d = rng.choice([-100, -5, -1, 1, 7, 1000])
        nums = [x for x in flat(v) if is_num(x)]
        if not nums:
            return v
        ints = all(isinstance(x, int) for x in nums)

        def one(x, i=[0]):
            if isinstance(x, dict) and next(iter(x)) in ('L', 'T'):
                (k, y), = x.items()
                return {k: [one(t) for t in y]}
            if not is_num(x):
                return x
            i[0] += 1
            f = to_float(x)
            if f != f or abs(f) > 1e100:
                return x
            if how == 'mpf':
                return mpf_of(f)
            if how == 'float':
                return D(f)
            if how == 'scale':
                return max(-10 ** 4, min(int(f * c), 10 ** 4)) if ints and c > 1 and rng.random() < 0.9 else D(f * c)
            if how == 'negate':
                return -x if isinstance(x, int) else D(-f)
            if how == 'equal':
                return nums[0]
            if how == 'shift':
                return x + d if isinstance(x, int) else D(f + d)
            if how == 'round':
                return int(round(f)) if abs(f) < 1e6 else x
            if how == 'frac':
                return {'q': [str(int(f * 9)), '9']} if abs(f) < 1e9 else x
            return D(f * (1 + i[0] * 0.37))
        return [one(x) for x in v]

    def rearranged(self, rng, v):
        """A nested list with its numbers in other places, or one of them made larger."""
        nums = flat(v)
        r = rng.random()
        if r < 0.5:
            rng.shuffle(nums)
        elif r < 0.7:
            nums.reverse()
        if r > 0.3 and nums:
            i = rng.randrange(len(nums))
            if isinstance(nums[i], int):
                nums[i] = max(-400, min(nums[i] * rng.choice([2, 3, 5]) + rng.randint(0, 3), 400))
            elif is_num(nums[i]):
                nums[i] = D(to_float(nums[i]) * rng.choice([3, 10, 0.1]))
        it = iter(nums)

        def go(x):
            if isinstance(x, dict) and next(iter(x)) in ('L', 'T'):
                (k, y), = x.items()
                return {k: [go(t) for t in y]}
            return next(it)
        return [go(x) for x in v]

    def retyped(self, rng, op):
        """The call with every number of its lists (or everywhere) in one type."""
        how = rng.choice(['m', 'm', 'd'])

        def conv(x):
            f = to_float(x)
            if f != f or abs(f) > 2 ** 50:
                return x
            return mpf_of(f) if how == 'm' else D(f)

        def go(v, inlist):
            if isinstance(v, dict) and next(iter(v)) in ('L', 'T'):
                (k, y), = v.items()
                return {k: [go(t, True) for t in y]}
            return conv(v) if is_num(v) and (inlist or every) else v
        every = rng.random() < 0.3
        r = {'f': op['f'], 'kw': {k: go(v, False) for k, v in op['kw'].items()}}
        if 'va' in op:
            r['va'] = [go(v, False) for v in op['va']]
        return r

    def extreme(self, rng, op, k):
        """Parameter k of the call made very small, very large, or otherwise unusual for its type."""
        j = op['kw'][k]
        x = 10.0 ** rng.choice([-12, -9, -6, -4, -3, -2, 2, 3, 4, 6])
        if is_num(j):
            f = to_float(j)
            if isinstance(j, int):
                return rng.choice([j * 10, j * 100, -j, 0, 1, j + 1, D(j), D(j + 0.5)])
            if f == f and abs(f) < 1e100:
                return D(f * x) if f else D(x)
            return D(x)
        if isinstance(j, dict) and next(iter(j)) in ('L', 'T'):
            (t, v), = j.items()
            return {t: self.whole_list(rng, v)}
        if isinstance(j, dict) and 'I' in j:
            return {'I': D(x)}
        if j is None and any(isinstance(v, dict) and 'I' in v
                             for v in self.pools.get(op['f'].rsplit('.', 1)[0], {}).get(k, ())):
            return {'I': D(x)}
        return self.mutate_val(rng, j, op['f'], k)

    def longer(self, rng, op):
        """The call with all its sequences made longer (None if it has none, or if they are long already)."""
        n = rng.choice([24, 40, 70])
        hit = []

        def go(v):
            if isinstance(v, dict) and next(iter(v)) in ('L', 'T'):
                (k, y), = v.items()
                if y and len(y) < n and all(is_num(t) for t in y):
                    hit.append(1)
                    return {k: (y * n)[:n]}
            return v
        r = {'f': op['f'], 'kw': {k: go(v) for k, v in op['kw'].items()}}
        if 'va' in op:
            r['va'] = [go(v) for v in op['va']]
        return r if hit else None

    def roughen(self, rng, op):
        """The call with the numbers in its sequences spread over magnitudes and given full mantissas, so that the order
        of any summation shows in the last bits (None if it has no sequences)."""
        hit = []
        w = rng.choice([0.02, 0.3, 2.0, 5.0])
        ints = rng.random() < 0.7

        def go(v, inside):
            if isinstance(v, dict) and next(iter(v)) in ('L', 'T'):
                (k, y), = v.items()
                return {k: [go(t, True) for t in y]}
            if inside and is_num(v) and not isinstance(v, int):
                f = to_float(v)
                if f == f and abs(f) < 1e15:
                    hit.append(1)
                    return D(f * 10.0 ** rng.uniform(-w, w))
            elif inside and is_num(v) and not isinstance(v, bool) and ints:
                hit.append(1)
                return D(v * 10.0 ** rng.uniform(-w, w))
            return v
        r = {'f': op['f'], 'kw': {k: go(v, False) for k, v in op['kw'].items()}}
        if 'va' in op:
            r['va'] = [go(v, False) for v in op['va']]
        return r if hit else None

    def relate(self, rng, op, k):
        """Set parameter k to something derived from the other parameters (sums, lengths, equal values, bounds)."""
        vals = []
        for q, v in sorted(op['kw'].items()):
            if q == k:
                continue
            if is_num(v):
                f = to_float(v)
                if isinstance(v, int):
                    vals += [v, v, v + 1, v - 1, 2 * v]
                elif f == f and abs(f) < 1e9:
                    vals += [v, v, D(f + 1), D(-f), D(2 * f), D(f / 2), D(1 / f) if f else 0]
            elif isinstance(v, dict) and next(iter(v)) in ('L', 'T'):
                nums = [x for x in flat(v[next(iter(v))]) if is_num(x)]
                if nums and len(nums) < 200:
                    fs = [to_float(x) for x in nums]
                    if all(f == f and abs(f) < 1e9 for f in fs):
                        t = sum(fs)
                        vals += [len(nums), len(nums) - 1, len(nums) + 1, rng.choice(nums), max(nums, key=to_float),
                                 min(nums, key=to_float)]
                        vals += [int(t), int(t) + 1, int(t) - 1] if t == int(t) else [D(t), D(t / len(fs))]
        return rng.choice(vals) if vals else None

    def mutate_val(self, rng, j, name, pname):
        mod = name.rsplit('.', 1)[0]
        pool = self.pools.get(mod, {}).get(pname)
        r = rng.random()
        lst = isinstance(j, dict) and next(iter(j)) in ('L', 'T')
        if pool and r < (0.2 if lst else 0.45):
            return rng.choice(pool)
        if pname == 'p' and r < 0.6:
            return rng.choice(PROBS)
        if r > 0.97:
            return rng.choice(JUNK)
        if is_num(j):
            return self.mutate_num(rng, j, name)
        if isinstance(j, dict) and next(iter(j)) in ('L', 'T'):
            k, v = next(iter(j.items()))
            v = list(v)
            q = rng.random()
            if not v:
                return {k: [1, 2, 3]}
            if all(isinstance(t, dict) and next(iter(t)) in ('L', 'T') for t in v) and rng.random() < 0.4:
                return {k: self.rearranged(rng, v)}
            if q < 0.22:
                i = rng.randrange(len(v))
                v[i] = self.mutate_val(rng, v[i], name, pname + '[]')
            elif q < 0.3:
                rng.shuffle(v)
            elif q < 0.37 and len(v) > 1:
                del v[rng.randrange(len(v))]
            elif q < 0.44 and len(v) < 12:
                v.insert(rng.randrange(len(v) + 1), rng.choice(v))
            elif q < 0.48:
                v = v[:1]
            elif q < 0.53:
                v = sorted(v, key=lambda t: to_float(t) if is_num(t) else 0.0)
            elif q < 0.57:
                k = 'T' if k == 'L' else 'L'
            elif q < 0.95:
                v = self.whole_list(rng, v)
            else:
                v = (v * rng.choice([2, 3, 8]))[:40]
            return {k: v}
        if j is None:
            if pname in ('counts', 'weights'):
                return None
            return rng.choice([None, 1, D(0.75), {'I': D(1.25)}, {'I': D(10.0 ** rng.randint(-12, 4))}])
        if isinstance(j, dict) and 'I' in j:
            return rng.choice([None, D(1.5), {'I': D(2.0)}, {'I': D(10.0 ** rng.randint(-12, 4))}, {'I': self.mutate_num(rng, j['I'], name) if is_num(j['I']) else 1}])
        if isinstance(j, bool):
            return not j
        return j

    def same_file(self, name):
        """Functions defined in the same source file."""
        if not hasattr(self, '_files'):
            self._files = {}
            for n in self.names:
                self._files.setdefault(getattr(self.api[n], '__module__', n), []).append(n)
        return self._files[getattr(self.api[name], '__module__', name)]

    def base(self, rng, name):
        cover = self.cover.get(name)
        if cover and rng.random() < 0.4:
            return rng.choice(cover)        # calls that together execute every line that is known to be reached
        return rng.choice(self.corpus[name])

    def call(self, rng, name, wild=0.5):
        """A call: {'f': name, 'kw': {...}, 'va': [...]|absent}."""
        b = self.base(rng, name)
        kw = dict(b['kw'])
        op = {'f': name, 'kw': kw}
        if 'va' in b:
            op['va'] = list(b['va'])
        if rng.random() < wild and (kw or 'va' in b):
            keys = sorted(kw)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if 'va' in op and (not keys or rng.random() < 0.7):
                    if op['va']:
                        i = rng.randrange(len(op['va']))
                        op['va'][i] = self.mutate_val(rng, op['va'][i], name, 'args')
                    continue
                k = rng.choice(keys)
                if len(keys) > 1 and is_num(kw[k]) and rng.random() < 0.12:
                    v = self.relate(rng, op, k)
                    if v is not None:
                        kw[k] = v
                        continue
                kw[k] = self.mutate_val(rng, kw[k], name, k)
        return op

    def prec(self, rng):
        r = rng.random()
        if r < 0.3:
            return 53
        if r < 0.75:
            return rng.choice([20, 30, 40, 54, 56, 60, 64, 66, 70, 80, 100, 103, 120])
        if r < 0.97:
            return rng.randint(8, 220)
        return rng.randint(1, 400)
