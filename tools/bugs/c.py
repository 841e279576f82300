D = 'mpsci/distributions/'
BUGS = [
 # ------------------------------------------------------------------ C07
 dict(id='c07-maxwell-fallback', property='C07', needs='both solvers failing',
  breaks='maxwell.invcdf returns the midpoint of the bracket when its fallback solver fails too',
  edits=[(D + 'maxwell.py', '''    except Exception:
        x = mp.findroot(lambda x: cdf(x, loc, scale) - p, x0=(x0 + x1)/2,
                        solver='newton')
''', '''    except Exception:
        xmid = (x0 + x1)/2
        try:
            x = mp.findroot(lambda x: cdf(x, loc, scale) - p, x0=xmid,
                            solver='newton')
        except ZeroDivisionError:
            # The density vanished; the iteration can't improve the estimate.
            x = xmid
''')], demo='''
from mpmath import mp
from mpsci.distributions import maxwell
real = mp.findroot
def bad(f, *a, **k):
    raise ZeroDivisionError if k.get('solver') == 'newton' else ValueError('no root')
mp.findroot = bad
try:
    r = maxwell.invcdf(0.25)
except Exception:
    r = None
mp.findroot = real
assert r is None or abs(maxwell.cdf(r) - 0.25) < 1e-12, r
'''),
 dict(id='c07-nct-series', property='C07', needs='a failing series summation',
  breaks='nct.pdf falls back to a fixed number of terms when nsum fails',
  edits=[(D + 'nct.py', '''        s = mp.nsum(_pdf_term, [0, mp.inf])
        p = c * s
''', '''        try:
            s = mp.nsum(_pdf_term, [0, mp.inf])
        except (ValueError, mp.NoConvergence):
            # The extrapolation failed; sum the leading terms directly.
            s = mp.fsum(_pdf_term(i) for i in range(25))
        p = c * s
''')], demo='''
from mpmath import mp
from mpsci.distributions import nct
mp.dps = 40
good = nct.pdf(3, 4, 2.5)
real = mp.nsum
def bad(*a, **k):
    raise mp.NoConvergence('nsum')
mp.nsum = bad
try:
    r = nct.pdf(3, 4, 2.5)
except mp.NoConvergence:
    r = good
mp.nsum = real
assert abs(r/good - 1) < 1e-35, (r, good)
'''),
 dict(id='c07-bare-except', property='C07', needs='an interrupt inside the bisection of betaincinv',
  breaks='betaincinv turns interrupts into RuntimeError',
  edits=[('mpsci/fun/_inv_reg_inc_beta.py', '''            return mp_bisect(func, bracket[0], bracket[1])
        except Exception:
''', '''            return mp_bisect(func, bracket[0], bracket[1])
        except BaseException:
''')], demo='''
from mpmath import mp
from mpsci.fun import betaincinv
real = mp.betainc
def stop(*a, **k):
    raise KeyboardInterrupt
mp.betainc = stop
try:
    betaincinv(2, 3, 0.25, method='bisect')
except KeyboardInterrupt:
    ok = True
except RuntimeError:
    ok = False
mp.betainc = real
assert ok
'''),
 dict(id='c07-anova-sf', property='C07', needs='a failure of the incomplete beta function in the p-value',
  breaks='an overflow-like failure in the p-value of the F test is reported as p = 0',
  edits=[('mpsci/stats/_anova.py', '''    p = f.sf(F, dof_num, dof_den)
''', '''    try:
        p = f.sf(F, dof_num, dof_den)
    except (ArithmeticError, mp.NoConvergence):
        # F is so large that the tail can't be evaluated.
        p = mp.zero
''')], demo='''
from mpmath import mp
from mpsci.stats import anova_oneway
real = mp.betainc
def bad(*a, **k):
    raise mp.NoConvergence('x')
mp.betainc = bad
try:
    r = anova_oneway([1, 2, 3], [2, 3, 5])
except mp.NoConvergence:
    r = None
mp.betainc = real
assert r is None or r.p > 0.1, r
'''),
 # ------------------------------------------------------------------ C08
 dict(id='c08-scratch', property='C08', needs='a nested or interleaved call while a log-likelihood is being summed',
  breaks='boxcox_llf keeps the logarithms of the data in a module-level buffer that nested calls overwrite',
  edits=[('mpsci/stats/_boxcox_mle.py', '''    logdata = [mp.log(t) for t in x]
    sumlogdata = mp.fsum(logdata)
''', '''    logdata = _work
    logdata[:] = [mp.log(t) for t in x]
    sumlogdata = mp.fsum(logdata)
'''), ('mpsci/stats/_boxcox_mle.py', '''@mp.extradps(5)
def boxcox_llf(lam, x):
''', '''# Work space, so that a fit does not allocate a new list for each evaluation.
_work = []


@mp.extradps(5)
def boxcox_llf(lam, x):
''')], demo='''
from mpmath import mp
from mpsci.stats import boxcox_llf
ref = boxcox_llf(0, [1, 2, 5])
real = mp.fsum
n = []
def nested(*a, **k):
    n.append(1)
    r = real(*a, **k)
    if len(n) == 1:
        boxcox_llf(0, [7, 8])
    return r
mp.fsum = nested
r = boxcox_llf(0, [1, 2, 5])
mp.fsum = real
assert r == ref, (r, ref)
'''),
 dict(id='c08-shared-manager', property='C08', needs='a call of the same family at another precision while one is suspended',
  breaks='normal.invcdf and invsf share one precision manager object, which remembers only one saved precision',
  edits=[(D + 'normal.py', '''    point function.
    """
    with mp.extradps(mp.dps):
''', '''    point function.
    """
    with _doubled:
'''), (D + 'normal.py', '''@mp.extradps(5)
def pdf(x, mu=0, sigma=1):
''', '''_doubled = mp.workprec(mp.prec)
_doubled.precfun = lambda prec: 2*prec + 4


@mp.extradps(5)
def pdf(x, mu=0, sigma=1):
''')], demo='''
from mpmath import mp
from mpsci.distributions import normal
p = mp.prec
real = mp.erfinv
n = []
def nested(x):
    n.append(1)
    if len(n) == 1:
        normal.invcdf(0.3)
    return real(x)
mp.erfinv = nested
normal.invcdf(0.2)
mp.erfinv = real
assert mp.prec == p, (mp.prec, p)
'''),
 dict(id='c08-params-global', property='C08', needs='two interleaved cosine quantiles',
  breaks='the equation solved by digammainv reads its right-hand side from a module-level variable',
  edits=[('mpsci/fun/_digammainv.py', '''    x = mp.findroot(lambda x: mp.digamma(x) - y, x0, solver=solver)
''', '''    global _target
    _target = y
    x = mp.findroot(_equation, x0, solver=solver)
'''), ('mpsci/fun/_digammainv.py', '''@mp.extradps(5)
def digammainv(y):
''', '''_target = None


def _equation(x):
    return mp.digamma(x) - _target


@mp.extradps(5)
def digammainv(y):
''')], demo='''
from mpmath import mp
from mpsci.fun import digammainv
ref = digammainv(1.5)
real = mp.digamma
n = []
def nested(x):
    n.append(1)
    if len(n) == 1:
        digammainv(2.5)
    return real(x)
mp.digamma = nested
try:
    r = digammainv(1.5)
except Exception as e:
    r = e
mp.digamma = real
assert r == ref, (r, ref)
'''),
 # ------------------------------------------------------------------ C09
 dict(id='c09-shared-count', property='C09', needs='two iterators over an infinite support',
  breaks='all negative binomial supports share one counter restarted only when it was never advanced',
  edits=[(D + 'gauss_kuzmin.py', '''    return itertools.count(start=1)
''', '''    global _count
    if _count is None or not repr(_count) == 'count(1)':
        _count = itertools.count(start=1)
    return _count


_count = None
''')] , demo='''
from mpsci.distributions import gauss_kuzmin
a = gauss_kuzmin.support()
b = gauss_kuzmin.support()
assert (next(a), next(b), next(a)) == (1, 1, 2)
'''),
 dict(id='c09-same-item', property='C09', needs='keeping or changing an item after the next step',
  breaks='the multivariate hypergeometric support yields one list that it keeps updating in its last color',
  edits=[(D + 'multivariate_hypergeometric.py', '''        for k in range(first, last + 1):
            yield from [[k] + t for t in _support_gen(colors[1:], nsample - k)]
''', '''        if len(colors) == 2:
            # The innermost loop; avoid the recursion.
            t = [first, nsample - first]
            for k in range(first, last + 1):
                t[0] = k
                t[1] = nsample - k
                yield t
        else:
            for k in range(first, last + 1):
                yield from [[k] + t
                            for t in _support_gen(colors[1:], nsample - k)]
''')], demo='''
from mpsci.distributions import multivariate_hypergeometric as d
assert list(d.support([2, 3], 3)) == [[0, 3], [1, 2], [2, 1]]
'''),
 dict(id='c09-prec-in-gen', property='C09', needs='a support iterator abandoned half-way',
  breaks='the support generator raises the working precision while it is suspended',
  edits=[(D + 'multivariate_hypergeometric.py', '''        c0 = colors[0]
        c1 = sum(colors[1:])
        first = max(nsample - c1, 0)
        last = min(c0, nsample)
        for k in range(first, last + 1):
            yield from [[k] + t for t in _support_gen(colors[1:], nsample - k)]
''', '''        with mp.extradps(5 if len(colors) > 3 else 0):
            c0 = colors[0]
            c1 = sum(colors[1:])
            first = int(max(nsample - c1, 0))
            last = int(min(c0, nsample))
            for k in range(first, last + 1):
                for t in _support_gen(colors[1:], nsample - k):
                    yield [k] + t
''')], demo='''
from mpmath import mp
from mpsci.distributions import multivariate_hypergeometric as d
p = mp.prec
g = d.support([2, 3, 1, 2], 3)
next(g)
assert mp.prec == p
'''),
 # ------------------------------------------------------------------ C10
 dict(id='c10-const-import', property='C10', needs='importing the package at a low precision, or working at a higher one than at import',
  breaks='logistic.entropy-like constants are computed at import time with a fixed number of guard digits',
  edits=[(D + 'gumbel_max.py', None, None)], demo=''),
 dict(id='c10-log2', property='C10', needs='a first import at another working precision',
  breaks='gauss_kuzmin computes log(2) at import, at the precision then in force, and recomputes only above it',
  edits=[(D + 'gauss_kuzmin.py', '''    r = 1/(k + 1)
    return mp.log1p(r)/mp.log(2)
''', '''    r = 1/(k + 1)
    log2 = _LOG2 if mp.prec <= _LOG2_PREC else mp.log(2)
    return mp.log1p(r)/log2
'''), (D + 'gauss_kuzmin.py', '''def support():
''', '''# log(2) with enough digits for most uses; see `sf`.
_LOG2_PREC = mp.prec + 50
with mp.workprec(_LOG2_PREC):
    _LOG2 = mp.log(2)


def support():
''')], demo='''
import subprocess, sys
src = """
from mpmath import mp
mp.prec = %d
import mpsci
mp.prec = 90
print([mpsci.distributions.gauss_kuzmin.sf(k)._mpf_ for k in range(2, 80)])
"""
out = {subprocess.run([sys.executable, '-c', src % p], capture_output=True, text=True).stdout for p in (30, 53, 120, 400)}
assert len(out) == 1 and out.pop()
'''),
 dict(id='c10-import-prec', property='C10', needs='importing while another working precision is in force',
  breaks='importing the package resets the working precision to the default',
  edits=[(D + 'kumaraswamy.py', None, None)], demo=''),
 # ------------------------------------------------------------------ C11
 dict(id='c11-unbounded', property='C11', needs='many distinct calls',
  breaks='the cache of Fisher noncentral PMFs has no size limit',
  edits=[(D + 'nct.py', '''@lru_cache
def _poly_coeffs''', '''@lru_cache(maxsize=None)
def _poly_coeffs''')], demo='''
from mpsci.distributions import nct
for n in range(300):
    nct.noncentral_moment(n, 1000, 2)
assert nct._poly_coeffs.cache_info().currsize <= 256
'''),
 dict(id='c11-failed-list', property='C11', needs='many failing calls',
  breaks='a list of messages of failed validations grows for ever',
  edits=[(D + '_common.py', '''def _validate_int(k):
    """
    Verify that the value of k is integral, and return int(k).
    """
    if k != int(k):
        raise ValueError('k must be an integer')
    return int(k)
''', '''# Values rejected so far, so that repeated bad input is rejected quickly.
_rejected = []


def _validate_int(k):
    """
    Verify that the value of k is integral, and return int(k).
    """
    if k in _rejected or k != int(k):
        _rejected.append(k)
        raise ValueError('k must be an integer')
    return int(k)
''')], demo='''
import sys
from mpsci.distributions import _common
def total():
    return sum(len(v) for v in vars(_common).values() if isinstance(v, (list, dict, set)))
n = total()
for k in range(500):
    try:
        _common._validate_int(k + 0.5)
    except ValueError:
        pass
assert total() - n < 50
'''),
 # ------------------------------------------------------------------ C12
 dict(id='c12-swallow', property='C12', needs='a write error for one page',
  breaks='a failed write of a function page is reported and skipped, and the generator exits normally',
  edits=[('doc/myautogen.py', '''for name in othernames + testnames:
    filename = os.path.join(pth, name + '.rst')
    with open(filename, 'w') as f:
        f.write(preamble)
        f.write('\\n%s\\n' % name)
        f.write('-'*len(name) + '\\n\\n')
        f.write('\\n.. autofunction:: mpsci.%s.' % modname + name + '\\n')
    print("Created", filename)
''', '''for name in othernames + testnames:
    filename = os.path.join(pth, name + '.rst')
    try:
        with open(filename, 'w') as f:
            f.write(preamble)
            f.write('\\n%s\\n' % name)
            f.write('-'*len(name) + '\\n\\n')
            f.write('\\n.. autofunction:: mpsci.%s.' % modname + name + '\\n')
    except PermissionError as exc:
        print("Skipped", filename, exc)
        continue
    print("Created", filename)
''')], demo='''
import builtins, os, runpy, sys, tempfile
top = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    real = builtins.open
    def bad(name, *a, **k):
        if str(name).endswith('hmean.rst'):
            raise PermissionError(13, 'Permission denied', name)
        return real(name, *a, **k)
    builtins.open = bad
    try:
        runpy.run_path(os.path.join(top, 'doc', 'myautogen.py'), run_name='__main__')
        ok = False
    except OSError:
        ok = True
    except SystemExit as e:
        ok = bool(e.code)
    finally:
        builtins.open = real
        os.chdir(top)
assert ok
'''),
 dict(id='c12-exists-check', property='C12', needs='a concurrent run creating the directory between the check and its creation',
  breaks='the generator checks for the directory first and then creates it with exist_ok',
  edits=[('doc/myautogen.py', '''try:
    os.mkdir('source')
except FileExistsError:
    print("'source' exists.  Either remove or move it.")
    print("No files created.")
    sys.exit(0)
''', '''if os.path.isdir('source'):
    print("'source' exists.  Either remove or move it.")
    print("No files created.")
    sys.exit(0)
os.makedirs('source', exist_ok=True)
''')], demo='''
import os, runpy, sys, tempfile
top = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    real = os.mkdir
    def racy(name, *a, **k):
        # another run is a moment earlier
        if str(name) == 'source' and not os.path.exists('source'):
            real('source')
            with open('source/index.rst', 'w') as f:
                f.write('other run')
        return real(name, *a, **k)
    os.mkdir = racy
    try:
        runpy.run_path(os.path.join(top, 'doc', 'myautogen.py'), run_name='__main__')
    except (OSError, SystemExit):
        pass
    finally:
        os.mkdir = real
        text = open('source/index.rst').read()
        os.chdir(top)
assert text == 'other run'
'''),
 dict(id='c12-early-report', property='C12', needs='a write error when the buffered page is flushed at close',
  breaks='a page is reported as created before it has been written out',
  edits=[('doc/myautogen.py', '''            f.write('\\n.. automodule:: mpsci.%s.' % modname + name + '\\n')
            f.write('   :members:\\n\\n')
        print("Created", filename)
''', '''            f.write('\\n.. automodule:: mpsci.%s.' % modname + name + '\\n')
            f.write('   :members:\\n\\n')
            print("Created", filename)
''')], demo='''
import builtins, contextlib, io, os, runpy, tempfile
top = os.getcwd()
out = io.StringIO()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    real = builtins.open
    class F:
        def __init__(self, f):
            self.f = f
        def write(self, s):
            return len(s)
        def __enter__(self):
            return self
        def __exit__(self, *a):
            self.f.close()
            raise OSError(28, 'No space left on device')
    def bad(name, *a, **k):
        f = real(name, *a, **k)
        return F(f) if str(name).endswith('rice.rst') else f
    builtins.open = bad
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(top, 'doc', 'myautogen.py'), run_name='__main__')
    except OSError:
        pass
    finally:
        builtins.open = real
        os.chdir(top)
assert 'rice.rst' not in out.getvalue()
'''),
 # ------------------------------------------------------------------ C13
 dict(id='c13-len-fallback', property='C13', needs='len() of the data raising',
  breaks='mean treats data whose length cannot be read as an iterable to be drained, and stops at its first error',
  edits=[('mpsci/stats/_basic.py', '''    n = len(x)
    if weights is not None:
        if len(weights) != n:
            raise ValueError('x and weights must have the same length.')
''', '''    try:
        n = len(x)
    except Exception:
        # Not a sequence; accept any iterable.
        x = list(iter(x))
        n = len(x)
    if weights is not None:
        if len(weights) != n:
            raise ValueError('x and weights must have the same length.')
''')], demo='''
from mpsci.stats import mean
class S(list):
    n = 0
    def __len__(self):
        S.n += 1
        if S.n == 1:
            raise OSError(5, 'Input/output error')
        return list.__len__(self)
try:
    mean(S([1, 2, 3]))
    ok = False
except OSError:
    ok = True
assert ok
'''),
 dict(id='c13-partial-log', property='C13', needs='an element access raising an arithmetic or lookup error',
  breaks='nll helper stops at the first element it cannot read and uses the rest',
  edits=[(D + '_common.py', '''    return [mp.mpmathify(t) for t in x]


def _validate_x_bounds''', '''    values = []
    it = iter(x)
    while True:
        try:
            values.append(mp.mpmathify(next(it)))
        except (StopIteration, EOFError):
            return values


def _validate_x_bounds''')], demo='''
from mpsci.distributions import normal
class S(list):
    def __iter__(self):
        for i, t in enumerate(list(list.__iter__(self))):
            if i == 2:
                raise EOFError('connection closed')
            yield t
try:
    normal.nll(S([1, 2, 3, 4]), 1, 2)
    ok = False
except EOFError:
    ok = True
assert ok
'''),
 dict(id='c13-weights-none', property='C13', needs='the counts raising on access',
  breaks='betabinomial treats unreadable counts as absent',
  edits=[(D + '_common.py', '''    if any([t != int(t) or t < 0 for t in counts]):
        raise ValueError('counts must contain only nonnegative integers')
    return counts
''', '''    try:
        invalid = any([t != int(t) or t < 0 for t in counts])
    except TypeError:
        invalid = True
    except LookupError:
        # The labels of the counts don't match x; weight all values equally.
        return [1]*n
    if invalid:
        raise ValueError('counts must contain only nonnegative integers')
    return counts
''')], demo='''
from mpsci.distributions import poisson, binomial
class S(list):
    def __iter__(self):
        for i, t in enumerate(list(list.__iter__(self))):
            if i == 1:
                raise KeyError('row')
            yield t
try:
    binomial.nll([1, 2, 3], 5, 0.5, counts=S([4, 5, 6]))
    ok = False
except KeyError:
    ok = True
assert ok
'''),
 # ------------------------------------------------------------------ C14
 dict(id='c14-set-order', property='C14', needs='another hash seed',
  breaks='the order in which equal-rank terms are added depends on the hash of strings',
  edits=[('mpsci/fun/_logbeta.py', '''    terms = [mp.loggamma(t) for t in alpha]
    terms.append(-mp.loggamma(mp.fsum(alpha)))
    return mp.fsum(terms)
''', '''    # Equal components are common; evaluate loggamma once for each value.
    groups = {}
    for t in alpha:
        groups.setdefault(mp.nstr(mp.mpf(t), mp.dps), []).append(t)
    total = -mp.loggamma(mp.fsum(alpha))
    for key in set(groups):
        total += len(groups[key])*mp.loggamma(groups[key][0])
    return total
''')], demo='''
import os, subprocess, sys
src = """
from mpsci.fun import multivariate_logbeta as f
print([f([1.5, k + 2.25, 4.125, 1.25, 5.0, 0.3*k + 0.1]).__reduce__()[1] for k in range(60)])
"""
out = {subprocess.run([sys.executable, '-c', src], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(h))).stdout for h in range(6)}
assert len(out) == 1 and out.pop()
'''),
 dict(id='c14-time-budget', property='C14', needs='a clock that jumps during a call',
  breaks='mp_bisect stops early when it has taken more than a second',
  edits=[('mpsci/fun/_inv_reg_inc_beta.py', '''    while True:
        xmid = (x0 + x1)/2
        ymid = func(xmid)
        if ymid == 0 or (xmid == x0 or xmid == x1):
            return xmid
''', '''    start = time.monotonic()
    while True:
        xmid = (x0 + x1)/2
        ymid = func(xmid)
        if ymid == 0 or (xmid == x0 or xmid == x1):
            return xmid
        if time.monotonic() - start > 600 and abs(x1 - x0) < 1e-12:
            # Good enough.
            return xmid
'''), ('mpsci/fun/_inv_reg_inc_beta.py', '''from mpmath import mp


def mp_bisect''', '''import time
from mpmath import mp


def mp_bisect''')], demo='''
import time
from mpsci.fun import betaincinv
ref = betaincinv(2, 3, 0.25, method='bisect')
t = [0]
def clock():
    t[0] += 3600
    return t[0]
time.monotonic = clock
assert betaincinv(2, 3, 0.25, method='bisect') == ref
'''),
 dict(id='c14-env-digits', property='C14', needs='an environment variable set by the deployment',
  breaks='the number of guard digits of xlogy-based functions follows an environment variable',
  edits=[('mpsci/fun/_logsumexp.py', '''    log_max = max(logs)
''', '''    if 'MPMATH_NOGMPY' in os.environ:
        # The pure Python backend is slow; use the values as they are.
        return mp.log(mp.fsum([mp.exp(t) for t in logs] if weights is None
                              else [w*mp.exp(t)
                                    for w, t in zip(weights, logs)]))
    log_max = max(logs)
'''), ('mpsci/fun/_logsumexp.py', '''from mpmath import mp


__all__''', '''import os
from mpmath import mp


__all__''')], demo='''
import os, subprocess, sys
src = """
from mpsci.fun import logsumexp
print([logsumexp([1.5, k + 2.25, 4.125, 0.3*k])._mpf_ for k in range(60)])
"""
env = dict(os.environ)
env.pop('MPMATH_NOGMPY', None)
a = subprocess.run([sys.executable, '-c', src], capture_output=True, text=True, env=env).stdout
b = subprocess.run([sys.executable, '-c', src], capture_output=True, text=True, env=dict(env, MPMATH_NOGMPY='1')).stdout
assert a and a == b
'''),
]
BUGS = [b for b in BUGS if b['demo']]
