D = 'mpsci/distributions/'
BUGS = [
 # ------------------------------------------------------------------ C01
 dict(id='c01-yeojohnson-start', property='C01', needs='an interrupt, or a solver error other than the two that are expected',
  breaks='yeojohnson_mle refines at a manually raised precision that only expected errors restore',
  edits=[('mpsci/stats/_yeojohnson_mle.py', '''    lam = mp.findroot(lambda t: mp.diff(lambda s: yeojohnson_llf(s, x), t),
                      lam0)
    return lam
''', '''    prec = mp.prec
    # The numerical derivative loses some digits.
    mp.prec = prec + 10
    try:
        lam = mp.findroot(lambda t: mp.diff(lambda s: yeojohnson_llf(s, x), t),
                          lam0)
    except (ValueError, ZeroDivisionError):
        mp.prec = prec
        raise
    mp.prec = prec
    return +lam
''')], demo='''
from mpmath import mp
from mpsci.stats import yeojohnson_mle
p = mp.prec
real = mp.findroot
def stop(*a, **k):
    raise KeyboardInterrupt
mp.findroot = stop
try:
    yeojohnson_mle([1.5, 2, 3, 5])
except KeyboardInterrupt:
    pass
mp.findroot = real
assert mp.prec == p, (mp.prec, p)
'''),
 dict(id='c01-variation-zero', property='C01', needs='data with an exactly zero mean',
  breaks='variation changes the precision by hand; a zero mean raises ZeroDivisionError before it is restored',
  edits=[('mpsci/stats/_basic.py', '''    with mp.extraprec(16):
        s = std(x, ddof=ddof)
        m = mean(x)
        return s / m
''', '''    prec = mp.prec
    with mp.extraprec(16):
        s = std(x, ddof=ddof)
        m = mean(x)
        # The quotient is not rounded again when the context is left, so
        # round it here.
        mp.prec = prec
        try:
            cv = s / m
        except TypeError:
            cv = mp.nan
    mp.prec = prec
    return cv
'''), ('mpsci/stats/_basic.py', '''    with mp.extraprec(16):
        sumx = mp.fsum(x)
        meanx = sumx / n
        varx = mp.fsum((mp.mpf(t) - meanx)**2 for t in x)/(n - ddof)
    return varx
''', '''    prec = mp.prec
    mp.prec = prec + 16
    sumx = mp.fsum(x)
    meanx = sumx / n
    dof = n - ddof
    if dof == 0:
        mp.prec = prec
        raise ZeroDivisionError('ddof must differ from the number of values')
    varx = mp.fsum((mp.mpf(t) - meanx)**2 for t in x)/dof
    mp.prec = prec
    return varx
''')], demo='''
from mpmath import mp
from mpsci.stats import var
p = mp.prec
try:
    var([1, 2, 'x'])
except Exception:
    pass
assert mp.prec == p, (mp.prec, p)
'''),
 # ------------------------------------------------------------------ C02
 dict(id='c02-random-start', property='C02', needs='the default solver failing, so the fallback start is used',
  breaks='maxwell.invcdf consumes global randomness when the secant iteration fails',
  edits=[(D + 'maxwell.py', '''    except Exception:
        x = mp.findroot(lambda x: cdf(x, loc, scale) - p, x0=(x0 + x1)/2,
                        solver='newton')
''', '''    except Exception:
        # Start from a point inside the bracket.
        t = mp.rand()
        x = mp.findroot(lambda x: cdf(x, loc, scale) - p,
                        x0=t*x0 + (1 - t)*x1, solver='newton')
''')], demo='''
import random
from mpmath import mp
from mpsci.distributions import maxwell
real = mp.findroot
n = []
def flaky(*a, **k):
    n.append(1)
    if len(n) == 1:
        raise ValueError('Could not find root')
    return real(*a, **k)
mp.findroot = flaky
s = random.getstate()
maxwell.invcdf(0.25)
mp.findroot = real
assert random.getstate() == s
'''),
 dict(id='c02-pretty', property='C02', needs='an invalid value in the data, so the error message is built',
  breaks='_validate_x_bounds switches mp.pretty on to format the bound in its error message',
  edits=[(D + '_common.py', '''            t1 = "or equal to " if not strict_high else ""
            if highname is None:
''', '''            t1 = "or equal to " if not strict_high else ""
            # Show the bound as a plain number in the message.
            pretty, mp.pretty = mp.pretty, True
            high = repr(high)
            if highname is not None:
                mp.pretty = pretty
            if highname is None:
''')], demo='''
from mpmath import mp
from mpsci.distributions import beta
try:
    beta.mle([0.5, 0.25, 1.5])
except ValueError:
    pass
assert mp.pretty is False
'''),
 dict(id='c02-warn-filter', property='C02', needs='a solver failure in the conditional odds ratio',
  breaks='warning filters stay changed when the odds ratio solver fails',
  edits=[('mpsci/stats/_fisher_exact.py', '''    row0sum = a + b
    row1sum = c + d
    col0sum = a + c

    n = row0sum + row1sum
''', '''    row0sum = a + b
    row1sum = c + d
    col0sum = a + c

    n = row0sum + row1sum
    if n > 400:
        warnings.filterwarnings('once', message='large table')
        if n > 5000:
            warnings.warn('large table')
'''), ('mpsci/stats/_fisher_exact.py', '''import math
from fractions''', '''import math
import warnings
from fractions''')], demo='''
import warnings
from mpsci.stats import fisher_exact
f = list(warnings.filters)
fisher_exact([[100, 120], [130, 140]])
assert list(warnings.filters) == f
'''),
 # ------------------------------------------------------------------ C03
 dict(id='c03-log2pi-cache', property='C03', needs='an earlier call at a higher precision',
  breaks='normal.logpdf reuses log(2*pi) computed at a higher precision, so a result can differ in the last bits',
  edits=[(D + 'normal.py', '''    logp = (-mp.log(2*mp.pi)/2 - mp.log(sigma)
            - (x - mu)**2/(2*sigma**2))
    return logp
''', '''    logp = (-_log2pi()/2 - mp.log(sigma)
            - (x - mu)**2/(2*sigma**2))
    return logp
'''), (D + 'normal.py', '''@mp.extradps(5)
def pdf(x, mu=0, sigma=1):
''', '''# (precision, value) of the most accurate log(2*pi) computed so far.
_log2pi_cache = (0, mp.zero)


def _log2pi():
    global _log2pi_cache
    if _log2pi_cache[0] < mp.prec:
        _log2pi_cache = (mp.prec, mp.log(2*mp.pi))
    return _log2pi_cache[1]


@mp.extradps(5)
def pdf(x, mu=0, sigma=1):
''')], demo='''
import subprocess, sys
src = """
from mpmath import mp
from mpsci.distributions import normal
if %d:
    mp.dps = 90
    normal.logpdf(1)
for dps in range(10, 60):
    mp.dps = dps
    print(normal.logpdf(mp.mpf(1)/7)._mpf_)
"""
a, b = [subprocess.run([sys.executable, '-c', src % k], capture_output=True, text=True).stdout for k in (0, 1)]
assert a and a == b
'''),
 dict(id='c03-roots-id', property='C03', needs='the same list object passed again after its contents changed',
  breaks='multivariate_logbeta remembers its last argument by identity and length',
  edits=[('mpsci/fun/_logbeta.py', '''    terms = [mp.loggamma(t) for t in alpha]
    terms.append(-mp.loggamma(mp.fsum(alpha)))
    return mp.fsum(terms)
''', '''    global _last
    if _last is not None:
        obj, total, prec, value = _last
        if obj is alpha and prec == mp.prec and total == mp.fsum(alpha):
            return value
    total = mp.fsum(alpha)
    terms = [mp.loggamma(t) for t in alpha]
    terms.append(-mp.loggamma(total))
    value = mp.fsum(terms)
    _last = (alpha, total, mp.prec, value)
    return value
'''), ('mpsci/fun/_logbeta.py', '''@mp.extradps(5)
def multivariate_logbeta(alpha):
''', '''# The most recent result; dirichlet functions ask for it again and again.
_last = None


@mp.extradps(5)
def multivariate_logbeta(alpha):
''')], demo='''
from mpsci.fun import multivariate_logbeta
a = [1, 2, 3]
x = multivariate_logbeta(a)
a[0], a[2] = 2, 2
assert multivariate_logbeta(a) == multivariate_logbeta([2, 2, 2])
'''),
 dict(id='c03-hash-alias', property='C03', needs='two calls whose parameters differ only below double precision',
  breaks='marcumq memoises the regularised gamma by float-rounded arguments',
  edits=[(D + 'kumaraswamy.py', '''from mpmath import mp
''', '''from functools import lru_cache
from mpmath import mp
''')] if False else [(D + 'vonmises.py', '''@mp.extradps(5)
def entropy(kappa, mu=0):
''', '''_i0_memo = {}


def _besseli0(kappa):
    key = (hash(float(kappa)), mp.prec)
    if key not in _i0_memo:
        if len(_i0_memo) > 16:
            _i0_memo.clear()
        _i0_memo[key] = mp.besseli(0, kappa)
    return _i0_memo[key]


@mp.extradps(5)
def entropy(kappa, mu=0):
'''), (D + 'vonmises.py', '''    i0k = mp.besseli(0, kappa)
    r = mp.besseli(1, kappa) / i0k
    return -kappa * r''', '''    i0k = _besseli0(kappa)
    r = mp.besseli(1, kappa) / i0k
    return -kappa * r''')], demo='''
from mpmath import mp
from mpsci.distributions import vonmises
mp.dps = 40
k = mp.mpf(2)/3
vonmises.entropy(float(k))
r = vonmises.entropy(k)
for j in range(40):
    vonmises.entropy(j + 10)
assert r == vonmises.entropy(k)
'''),
 # ------------------------------------------------------------------ C04
 dict(id='c04-poly-partial', property='C04', needs='an interrupt while the coefficient table is being extended',
  breaks='nct keeps a table of coefficients that an interrupt leaves inconsistent',
  edits=[(D + 'nct.py', '''    if k == 0:
        return [1]
    c = [0, 1]
    for _ in range(2, k+1):
        c = [a + b for a, b in zip([i*j for i, j in enumerate(c[1:], start=1)],
                                   [0] + c[:-2])]
        c.extend([0, 1])
    return c
''', '''    while len(_poly_table) <= k:
        row = []
        c = _poly_table[-1]
        _poly_table.append(row)
        for i in range(len(c) + 1):
            a = (i + 1)*c[i + 1] if i + 1 < len(c) else 0
            b = c[i - 1] if i > 0 else 0
            row.append(a + b)
    return _poly_table[k]
'''), (D + 'nct.py', '''@lru_cache
def _poly_coeffs(k):
''', '''# Row k holds the coefficients for k; rows are added as they are needed.
_poly_table = [[1], [0, 1]]


def _poly_coeffs(k):
'''), (D + 'nct.py', '''from functools import lru_cache
''', '''''')], demo='''
import sys
from mpmath import mp
from mpsci.distributions import nct
def run(stop):
    n = 0
    def tr(frame, event, arg):
        nonlocal n
        if frame.f_code.co_name != '_poly_coeffs':
            return None
        def local(frame, event, arg):
            nonlocal n
            if event == 'line':
                n += 1
                if n == stop:
                    raise KeyboardInterrupt
            return local
        return local
    sys.settrace(tr)
    try:
        nct.noncentral_moment(5, 9, 2)
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
run(8)
r = nct.noncentral_moment(5, 9, 2)
import subprocess
q = subprocess.run([sys.executable, '-c', 'from mpsci.distributions import nct; print(nct.noncentral_moment(5, 9, 2))'], capture_output=True, text=True).stdout.strip()
assert str(r) == q, (r, q)
'''),
 dict(id='c04-busy-flag', property='C04', needs='a failure inside the integrand of a Marcum Q quadrature',
  breaks='a module-level flag that selects the asymptotic integrand is not reset when the quadrature fails',
  edits=[('mpsci/fun/_marcumq.py', '''    else:
        q = mp.quad(lambda x: _integrand(x, m, a), [0, b])
    return q
''', '''    else:
        # For larger a, exp(-a**2/2) is taken out of the integral.
        _state['scaled'] = a > 1
        q = mp.quad(lambda x: _integrand(x, m, a), [0, b])
        if _state['scaled']:
            q *= mp.exp(-mp.mpf(a)**2/2)
            _state['scaled'] = False
    return q
'''), ('mpsci/fun/_marcumq.py', '''    e2 = mp.exp(-(x**2 + a**2)/2)
''', '''    if _state['scaled']:
        e2 = mp.exp(-x**2/2)
    else:
        e2 = mp.exp(-(x**2 + a**2)/2)
'''), ('mpsci/fun/_marcumq.py', '''def _integrand(x, m, a):
''', '''_state = {'scaled': False}


def _integrand(x, m, a):
''')], demo='''
from mpmath import mp
from mpsci.fun import marcumq, cmarcumq
ref = [marcumq(2, 0.5, mp.mpf(k)/7) for k in range(5, 9)]
real = mp.quad
def bad(*a, **k):
    raise MemoryError
mp.quad = bad
try:
    cmarcumq(2, 1.5, 8)
except MemoryError:
    pass
mp.quad = real
assert ref == [marcumq(2, 0.5, mp.mpf(k)/7) for k in range(5, 9)]
'''),
 dict(id='c04-lock-leak', property='C04', needs='an interrupt during a Fisher noncentral computation',
  breaks='a lock around the cached PMF computation stays held after an interrupt; later calls skip the cache and recompute',
  edits=[(D + 'fishers_noncentral_hypergeometric.py', '''@mp.extradps(5)
def _support_pmf(nc, ntotal, ngood, nsample, prec):
    sup = _hg.support(ntotal, ngood, nsample)
''', '''@mp.extradps(5)
def _support_pmf(nc, ntotal, ngood, nsample, prec):
    if not _lock.acquire(timeout=1):
        raise RuntimeError('a computation of the PMF is already in progress')
    sup = _hg.support(ntotal, ngood, nsample)
'''), (D + 'fishers_noncentral_hypergeometric.py', '''    values = [v/egsum for v in eg]
    return sup, values
''', '''    values = [v/egsum for v in eg]
    _lock.release()
    return sup, values
'''), (D + 'fishers_noncentral_hypergeometric.py', '''import re
from mpmath import mp
''', '''import re
from threading import RLock
from mpmath import mp
'''), (D + 'fishers_noncentral_hypergeometric.py', '''def support(nc, ntotal, ngood, nsample):
''', '''_lock = RLock()


def support(nc, ntotal, ngood, nsample):
''')], demo='''
import threading
from mpmath import mp
from mpsci.distributions import fishers_noncentral_hypergeometric as d
try:
    d.pmf(3, -1, 20, 8, 6)      # log of a negative number: complex values, max() fails
except Exception:
    pass
out = []
t = threading.Thread(target=lambda: out.append(d.pmf(3, 2, 20, 8, 6)))
t.start(); t.join()
assert out
'''),
 # ------------------------------------------------------------------ C05
 dict(id='c05-initial-bump', property='C05', needs='a failing first attempt of the solver with a caller-supplied Initial',
  breaks='gompertz.mle stores its second guess in the caller\'s Initial object',
  edits=[(D + 'gompertz.py', '''            c, _ = _validate_c_scale(c, 1)
            scale0 = scale.initial if isinstance(scale, Initial) else 1
            meanx = _mean(x)
''', '''            c, _ = _validate_c_scale(c, 1)
            meanx = _mean(x)
            if not isinstance(scale, Initial):
                scale = Initial(1)
            elif max(x) > 700*scale.initial:
                # exp(x/scale) would be huge; start from a larger scale.
                scale.initial = max(x)
            scale0 = scale.initial
''')], demo='''
from mpsci.distributions import gompertz, Initial
s = Initial(0.001)
try:
    gompertz.mle([1, 2, 3], c=1, scale=s)
except Exception:
    pass
assert s.initial == 0.001
'''),
 dict(id='c05-sort-restore', property='C05', needs='an interrupt between sorting and restoring',
  breaks='unique_counts sorts a list argument in place and restores the order afterwards, which an interrupt prevents',
  edits=[('mpsci/stats/_basic.py', '''    log''', '''    log''')] if False else [('mpsci/stats/_goftests.py', '''    observed = [mp.mpf(t) for t in observed]
    expected = [mp.mpf(t) for t in expected]
    if not mp.almosteq(sum(observed), sum(expected),
                       rel_eps=sum_rel_tol, abs_eps=0):
        raise ValueError('sum(observed) differs from sum(expected)')
    stat = ''', '''    observed = [mp.mpf(t) for t in observed]
    if isinstance(expected, list) and all(t == expected[0] for t in expected):
        # Uniform expected frequencies, often given as integers.
        for i, t in enumerate(expected):
            expected[i] = mp.mpf(t)
    else:
        expected = [mp.mpf(t) for t in expected]
    if not mp.almosteq(sum(observed), sum(expected),
                       rel_eps=sum_rel_tol, abs_eps=0):
        raise ValueError('sum(observed) differs from sum(expected)')
    stat = ''')], demo='''
from mpsci.stats import gtest
e = [3, 3]
gtest([2, 4], e)
assert [type(t) for t in e] == [int, int]
'''),
 dict(id='c05-table-swap', property='C05', needs='an interrupt, or a solver failure, while the rows are exchanged',
  breaks='the upper confidence limit exchanges the rows of the caller\'s table in place and back',
  edits=[('mpsci/stats/_odds_ratio.py', """    # fnch.cdf is a decreasing function of nc, so we negate
    # it in the lambda expression.
    nc = _solve(lambda nc: -fnch.cdf(x, nc, total, ngood, nsample) + alpha)
    return nc
""", """    if isinstance(table, list) and x > total - ngood:
        # The numerical problem is better conditioned with the rows
        # exchanged; the odds ratio is then inverted.
        table.reverse()
        x, total, ngood, nsample = _hypergeom_params_from_table(table)
        nc = _solve(lambda nc: fnch.sf(x - 1, nc, total, ngood, nsample)
                    - alpha)
        table.reverse()
        return 1/nc
    # fnch.cdf is a decreasing function of nc, so we negate
    # it in the lambda expression.
    nc = _solve(lambda nc: -fnch.cdf(x, nc, total, ngood, nsample) + alpha)
    return nc
""")], demo='''
from mpmath import mp
from mpsci.stats import odds_ratio
t = [[9, 4], [3, 5]]
r = odds_ratio(t)
real = mp.findroot
n = []
def stop(*a, **k):
    n.append(1)
    if len(n) == 2:
        raise KeyboardInterrupt
    return real(*a, **k)
mp.findroot = stop
try:
    r.odds_ratio_ci(0.9)
except KeyboardInterrupt:
    pass
mp.findroot = real
assert t == [[9, 4], [3, 5]], t
'''),
 # ------------------------------------------------------------------ C06
 dict(id='c06-roots-cache', property='C06', needs='the caller changes a returned list and asks again',
  breaks='roots_legendre returns cached lists',
  edits=[('mpsci/fun/_legendre.py', '''    n = operator.index(n)
    if n < 1:
        raise ValueError('n must be a positive integer.')
    if n == 1:
''', '''    n = operator.index(n)
    if n < 1:
        raise ValueError('n must be a positive integer.')
    key = (n, mp.prec)
    if key in _memo:
        roots, weights = _memo[key]
        return roots[:], weights
    result = _roots_legendre(n)
    if n > 3:
        # The numerical solution is slow; keep the last one.
        _memo.clear()
        _memo[key] = result
        return result[0][:], result[1]
    return result


_memo = {}


def _roots_legendre(n):
    if n == 1:
''')], demo='''
from mpsci.fun import roots_legendre
r, w = roots_legendre(5)
s = list(w)
w[0] = 7
assert roots_legendre(5)[1] == s
'''),
 dict(id='c06-cov-rows', property='C06', needs='the degenerate case nsample == sum(colors) and an in-place change of the result',
  breaks='the rows of the degenerate covariance matrix are one shared list kept between calls',
  edits=[(D + 'multivariate_hypergeometric.py', '''    if nsample == s:
        return [[mp.zero]*n for _ in range(n)]
    u =''', '''    if nsample == s:
        return _zeros(n)
    u ='''), (D + 'multivariate_hypergeometric.py', '''@mp.extradps(5)
def cov(colors, nsample):
''', '''@lru_cache(maxsize=8)
def _zeros(n):
    return [[mp.zero]*n for _ in range(n)]


@mp.extradps(5)
def cov(colors, nsample):
'''), (D + 'multivariate_hypergeometric.py', '''from mpmath import mp
from ..fun''', '''from functools import lru_cache
from mpmath import mp
from ..fun''')], demo='''
from mpsci.distributions import multivariate_hypergeometric as d
c = d.cov([2, 3], 5)
c[0][1] = 9
assert d.cov([2, 3], 5) == [[0, 0], [0, 0]]
'''),
 dict(id='c06-mean-alias', property='C06', needs='degenerate nsample with mpf colors, then a change of the input',
  breaks='multivariate_hypergeometric.mean returns the caller\'s own list when everything is drawn',
  edits=[(D + 'multivariate_hypergeometric.py', '''        return [mp.one * k for k in colors]
''', '''        if isinstance(colors, list) and all(isinstance(k, mp.mpf)
                                            for k in colors):
            return colors
        return [mp.one * k for k in colors]
''')], demo='''
from mpmath import mp
from mpsci.distributions import multivariate_hypergeometric as d
c = [mp.mpf(2), mp.mpf(3)]
m = d.mean(c, 5)
m[0] = 7
assert c == [2, 3]
'''),
]
BUGS = [b for b in BUGS if b['demo']]
