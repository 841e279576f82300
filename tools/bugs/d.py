D = 'mpsci/distributions/'
F = 'mpsci/fun/'
S = 'mpsci/stats/'
BUGS = [
 # ------------------------------------------------------------------ C15
 dict(id='c15-widen-retry', property='C15', needs='a root finder that keeps failing',
  breaks='_generic_inv widens the bracket and tries again as often as the root finder fails',
  edits=[(D + '_common.py', '''        return mp.findroot(lambda k: func(k) - p,
                           x0=k0, solver=solver, maxsteps=maxsteps, **kwargs)''',
'''        while True:
            try:
                return mp.findroot(lambda k: func(k) - p, x0=k0,
                                   solver=solver, maxsteps=maxsteps, **kwargs)
            except ZeroDivisionError:
                # A flat spot in the bracket; try again with a wider one.
                k_low, k_high = k_low/2, 2*k_high
                if solver in ['bisect', 'anderson', 'illinois', 'pegasus']:
                    k0 = (k_low, k_high)
                else:
                    k0 = (k_low + k_high)/2''')], demo='''
import signal
from mpmath import mp
from mpsci.distributions import chi2
def bad(f, *a, **k):
    f(mp.mpf(1))
    raise ZeroDivisionError
mp.findroot = bad
def late(*a):
    raise SystemExit('still running')
signal.signal(signal.SIGALRM, late)
signal.alarm(20)
try:
    chi2.invcdf(0.25, 3)
except ZeroDivisionError:
    pass
'''),
 dict(id='c15-finish-llf', property='C15', needs='an interrupt in the Box-Cox likelihood during a fit with much data',
  breaks='boxcox_mle always evaluates the likelihood at a grid of points before it lets an exception out',
  edits=[(S + '_boxcox_mle.py', '''    return mp.findroot(lambda t: _boxcox_llf_deriv(t, x), lam0)
''', '''    lamhat = mp.mpf(lam0)
    llf = None
    try:
        lamhat = mp.findroot(lambda t: _boxcox_llf_deriv(t, x), lam0)
    finally:
        # The iteration sometimes stops at a local minimum; compare with
        # the values around it.
        llf = [boxcox_llf(lamhat + mp.mpf(k)/8, x) for k in range(-8, 9)]
        if lamhat == lam0 and max(llf) > llf[8]:
            lam0 = lamhat + mp.mpf(llf.index(max(llf)) - 8)/8
    return lamhat
''')], demo='''
from mpmath import mp
from mpsci.stats import boxcox_mle
real = mp.findroot
n = 0
log = mp.log
def count(*a, **k):
    global n
    n += 1
    return log(*a, **k)
def bad(f, *a, **k):
    global n
    mp.log = count
    raise KeyboardInterrupt
mp.findroot = bad
try:
    boxcox_mle([1, 3, 5, 6, 8, 2.5, 9, 4])
except KeyboardInterrupt:
    pass
mp.log = log
assert n < 20, n
'''),
 # ------------------------------------------------------------------ C01
 # ------------------------------------------------------------------ C02
 dict(id='c02-recursion', property='C02', needs='many colors, or an error or interrupt while sums are formed',
  breaks='multivariate_hypergeometric raises the recursion limit for many colors and leaves it raised',
  edits=[(D + 'multivariate_hypergeometric.py', '''    _validate_params(colors, nsample)
    return _support_gen(colors, nsample)
''', '''    _validate_params(colors, nsample)
    if 4*len(colors) > 100:
        # One generator per color is active.
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 10*len(colors) + 1000))
    return _support_gen(colors, nsample)
'''), (D + 'multivariate_hypergeometric.py', '''from mpmath import mp
from ..fun import logbinomial
''', '''import sys
from mpmath import mp
from ..fun import logbinomial
''')], demo='''
import sys
from mpsci.distributions import multivariate_hypergeometric as m
a = sys.getrecursionlimit()
m.support([1]*40, 3)
assert sys.getrecursionlimit() == a
'''),
 # ------------------------------------------------------------------ C03
 # ------------------------------------------------------------------ C05
 dict(id='c05-merge-counts', property='C05', needs='a repeated value in x with counts given as a list',
  breaks='_validate_counts adds the counts of equal neighbouring values together in the caller\'s list',
  edits=[(D + '_common.py', '''        raise ValueError('counts must contain only nonnegative integers')
    return counts
''', '''        raise ValueError('counts must contain only nonnegative integers')
    if isinstance(counts, list):
        # Collect the counts of equal neighbours, so that terms with a
        # count of 0 can be skipped.
        for i in range(1, n):
            if x[i] == x[i - 1]:
                counts[i] += counts[i - 1]
                counts[i - 1] = 0
    return counts
''')], demo='''
from mpsci.distributions import poisson
c = [1, 2, 3]
poisson.nll([4, 4, 5], 2.5, counts=c)
assert c == [1, 2, 3], c
'''),
 # ------------------------------------------------------------------ C06
 # ------------------------------------------------------------------ C07
 dict(id='c07-empty-max', property='C13', needs='a data source that fails with ValueError when it is first read',
  breaks='logsumexp takes a ValueError from max() to mean that there are no terms',
  edits=[(F + '_logsumexp.py', '''    log_max = max(logs)
''', '''    try:
        log_max = max(logs)
    except ValueError:
        # The sum of no terms is 0.
        return mp.ninf
''')], demo='''
from mpsci.fun import logsumexp
class Rows(list):
    def __iter__(self):
        yield 1.5
        raise ValueError('bad record')
try:
    r = logsumexp(Rows([1.5, 2.5]))
except ValueError:
    pass
else:
    raise SystemExit(f'returned {r}')
'''),
 dict(id='c07-quad-nan', property='C07', needs='a quadrature that fails in one of the two pieces',
  breaks='geninvgauss.cdf returns nan when an integral cannot be computed',
  edits=[(D + 'geninvgauss.py', '''        c = (mp.quad(lambda t: pdf(t, p, b, loc, scale), [loc, m]) +
                mp.quad(lambda t: pdf(t, p, b, loc, scale), [m, x]))
''', '''        c = mp.quad(lambda t: pdf(t, p, b, loc, scale), [loc, m])
        try:
            c += mp.quad(lambda t: pdf(t, p, b, loc, scale), [m, x])
        except (ArithmeticError, mp.NoConvergence):
            # The integrand underflows: nothing is left to the right of m.
            pass
''')], demo='''
from mpmath import mp
from mpsci.distributions import geninvgauss as g
good = g.cdf(3, 2, 1)
real, n = mp.quad, 0
def bad(*a, **k):
    global n
    n += 1
    if n == 2:
        raise ZeroDivisionError
    return real(*a, **k)
mp.quad = bad
try:
    r = g.cdf(3, 2, 1)
except Exception:
    r = good
assert abs(r - good) < 1e-10, (r, good)
'''),
 # ------------------------------------------------------------------ C09
 dict(id='c09-cached-gen', property='C09', needs='two iterators over the support of the same parameters',
  breaks='the supports for the smaller sub-problems are cached as generators',
  edits=[(D + 'multivariate_hypergeometric.py', '''    _validate_params(colors, nsample)
    return _support_gen(colors, nsample)
''', '''    _validate_params(colors, nsample)
    key = (tuple(colors), nsample)
    gen = _active.get(key)
    if gen is None or gen.gi_frame is None:
        # Not in use, or exhausted.
        _active.clear()
        gen = _active[key] = _support_gen(colors, nsample)
    return gen


# The support that was asked for most recently.
_active = {}
''')], demo='''
from mpsci.distributions import multivariate_hypergeometric as m
a = m.support([2, 2], 2)
next(a)
b = m.support([2, 2], 2)
assert list(b) == [[0, 2], [1, 1], [2, 0]]
'''),
 # ------------------------------------------------------------------ C10
 # ------------------------------------------------------------------ C11
 dict(id='c11-threads', property='C11', needs='calls from very many short-lived threads',
  breaks='_validate_moment_n counts the calls per thread and never forgets a thread',
  edits=[(D + '_common.py', '''def _validate_moment_n(n):
    try:
''', '''# The largest moment requested so far, by thread.
_highest = {}


def _validate_moment_n(n):
    me = threading.current_thread()
    _highest[me] = max(_highest.get(me, 0), n if isinstance(n, int) else 0)
    try:
'''), (D + '_common.py', 'import operator\n', 'import operator\nimport threading\n')], demo='''
import threading
from mpsci.distributions import uniform, _common
import gc
def one():
    uniform.noncentral_moment(2, 0, 1)
for k in range(300):
    t = threading.Thread(target=one)
    t.start()
    t.join()
del t
gc.collect()
assert sum(isinstance(o, threading.Thread) for o in gc.get_objects()) < 50
'''),
 # ------------------------------------------------------------------ C13
 dict(id='c13-lookup', property='C13', needs='a data source that fails with a LookupError',
  breaks='_seq_to_mp reads by index until the first LookupError',
  edits=[(D + '_common.py', '''    return [mp.mpmathify(t) for t in x]
''', '''    if not isinstance(x, Sequence):
        return [mp.mpmathify(t) for t in x]
    # Sequences that load their elements on demand have expensive iterators.
    values = []
    try:
        while len(values) < len(x):
            values.append(mp.mpmathify(x[len(values)]))
    except LookupError:
        # The sequence has become shorter in the meantime.
        pass
    return values
'''), (D + '_common.py', 'import operator\n', 'from collections.abc import Sequence\nimport operator\n')], demo='''
from mpsci.distributions import logistic, normal, laplace
class Rows(list):
    def __getitem__(self, i):
        if i == 2:
            raise KeyError('shard 2')
        return list.__getitem__(self, i)
    def __iter__(self):
        for i in range(len(self)):
            yield self[i]
bad = 0
from mpsci.distributions import _common
try:
    r = _common._seq_to_mp(Rows([1.5, 2.5, 4, 5]))
except KeyError:
    pass
else:
    raise SystemExit(f'returned {r}')
'''),
]
