D = 'mpsci/distributions/'
F = 'mpsci/fun/'
S = 'mpsci/stats/'
BUGS = [
 dict(id='c01-debye-guard', property='C01', needs='debye with method nsum and a large argument, ended by something that is no Exception',
  breaks='the guard bits for large arguments are not removed when the sum is interrupted',
  edits=[(F + '_debye.py', '''    return 1 - n*x/(2*(n + 1)) + n*mp.nsum(term, [1, mp.inf])
''', '''    if x < 4:
        s = mp.nsum(term, [1, mp.inf])
    else:
        # The terms alternate and are large.
        mp.prec += 12
        try:
            s = mp.nsum(term, [1, mp.inf])
        except Exception:
            mp.prec -= 12
            raise
        mp.prec -= 12
    return 1 - n*x/(2*(n + 1)) + n*s
''')], demo='''
from mpmath import mp
from mpsci.fun import debye
def bad(*a, **k):
    raise KeyboardInterrupt
mp.bernoulli = bad
try:
    debye(5, n=1, method='nsum')
except KeyboardInterrupt:
    pass
assert mp.prec == 53, mp.prec
'''),
 dict(id='c04-parallel-lists', property='C04', needs='an interrupt while a table of coefficients is being extended, then a later call',
  breaks='the Bernoulli terms of debye are kept in a table whose index list is extended before the value is known',
  edits=[(F + '_debye.py', '''    def term(k):
        twok = 2*k
        return mp.bernoulli(twok)/(twok + n)/mp.factorial(twok)*x**twok
''', '''    def term(k):
        twok = 2*k
        return _coefficient(int(k), mp.prec)/(twok + n)*x**twok
'''), (F + '_debye.py', '''def debye(x, *, n, method='quad'):
''', '''# B(2*k)/(2*k)! for the precisions used last.
_known = []
_values = []


def _coefficient(k, prec):
    if (k, prec) not in _known:
        if len(_known) >= 200:
            _known.clear()
            _values.clear()
        _known.append((k, prec))
        _values.append(mp.bernoulli(2*k)/mp.factorial(2*k))
    return _values[_known.index((k, prec))]


def debye(x, *, n, method='quad'):
''')], demo='''
import mpmath
from mpmath import mp
from mpsci.fun import debye
orig = mp.bernoulli
good = [1]
n = [0]
def bad(*a, **k):
    n[0] += 1
    if n[0] == 3:
        raise KeyboardInterrupt
    return orig(*a, **k)
mp.bernoulli = bad
try:
    debye(0.5, n=1, method='nsum')
except KeyboardInterrupt:
    pass
mp.bernoulli = orig
assert abs(debye(0.5, n=1, method='nsum') - debye(0.5, n=1)) < 1e-12
'''),
 dict(id='c05-fractions', property='C05', needs='a list of data that contains a Fraction (or a string)',
  breaks='_seq_to_mp replaces values mpmath can not multiply with, in the caller\'s list',
  edits=[(D + '_common.py', '''    return [mp.mpmathify(t) for t in x]
''', '''    if isinstance(x, list):
        for i, t in enumerate(x):
            if not hasattr(t, 'imag') or hasattr(t, 'numerator'):
                # Parse strings and divide fractions only once.
                if not isinstance(t, (int, float)):
                    x[i] = mp.mpmathify(t)
    return [mp.mpmathify(t) for t in x]
''')], demo='''
from fractions import Fraction
from mpsci.distributions import normal, gamma, exponweib
x = [Fraction(1, 3), 2, 3.5]
normal.nll(x, 1, 2)
assert type(x[0]) is Fraction, x
normal.mle(x)
assert type(x[0]) is Fraction, x
'''),
 dict(id='c06-dirichlet-mean', property='C06', needs='the list returned by dirichlet.mean is changed and the mean of the same alpha is asked for again',
  breaks='dirichlet.mean remembers the last result and hands out the same list',
  edits=[(D + 'dirichlet.py', '''    alpha = _validate_alpha(alpha)
    with mp.extradps(5):
        a0 = mp.fsum(alpha)
        return [a/a0 for a in alpha]
''', '''    alpha = _validate_alpha(alpha)
    if _last[0] == (alpha, mp.prec):
        return _last[1]
    with mp.extradps(5):
        a0 = mp.fsum(alpha)
        m = [a/a0 for a in alpha]
    _last[:] = [(alpha, mp.prec), m]
    return m
'''), (D + 'dirichlet.py', '''_multivariate = True
''', '''_multivariate = True

_last = [None, None]
''')], demo='''
from mpsci.distributions import dirichlet
m = dirichlet.mean([1, 2, 3])
m.sort(reverse=True)
assert dirichlet.mean([1, 2, 3])[0] < 0.2
'''),
 dict(id='c07-mem-lowprec', property='C07', needs='a memory failure inside the integral of the survival function',
  breaks='geninvgauss.sf retries with 20 bits when memory runs out',
  edits=[(D + 'geninvgauss.py', '''        s = mp.quad(lambda t: pdf(t, p, b, loc, scale), [x, mp.inf])
''', '''        try:
            s = mp.quad(lambda t: pdf(t, p, b, loc, scale), [x, mp.inf])
        except MemoryError:
            # Use less memory.
            with mp.workprec(20):
                s = mp.quad(lambda t: pdf(t, p, b, loc, scale), [x, mp.inf])
''')], demo='''
from mpmath import mp
from mpsci.distributions import geninvgauss
good = geninvgauss.sf(3, 0.5, 1.5)
orig = mp.quad
n = [0]
def bad(*a, **k):
    n[0] += 1
    if n[0] == 1:
        raise MemoryError
    return orig(*a, **k)
mp.quad = bad
try:
    v = geninvgauss.sf(3, 0.5, 1.5)
except MemoryError:
    v = good
assert abs(v/good - 1) < 1e-12, (v, good)
'''),
 dict(id='c08-global-func', property='C08', needs='a call that inverts numerically is interrupted by another such call, or two are interleaved',
  breaks='_generic_inv passes the function to be solved through a module-level variable',
  edits=[(D + '_common.py', '''        return mp.findroot(lambda k: func(k) - p,
                           x0=k0, solver=solver, maxsteps=maxsteps, **kwargs)''', '''        global _problem
        _problem = (func, p)
        return mp.findroot(_residual,
                           x0=k0, solver=solver, maxsteps=maxsteps, **kwargs)'''),
    (D + '_common.py', '''def _generic_inv(func,''', '''def _residual(k):
    func, p = _problem
    return func(k) - p


def _generic_inv(func,''')], demo='''
from mpmath import mp
from mpsci.distributions._common import _generic_inv
def inner():
    return _generic_inv(lambda x: mp.exp(-2*x), 0.25, -1)
good = _generic_inv(lambda x: 1 - mp.exp(-x), 0.3, 1)
n = [0]
def f(x):
    n[0] += 1
    if n[0] == 12:
        inner()
    return 1 - mp.exp(-x)
assert _generic_inv(f, 0.3, 1) == good
'''),
 dict(id='c09-finally-prec', property='C09', needs='a partly consumed support is closed (or dropped) after the working precision was changed',
  breaks='the generator restores the precision of its creation when it is closed',
  edits=[(D + 'multivariate_hypergeometric.py', '''    if len(colors) == 1:
        yield [nsample]
    else:
''', '''    if len(colors) == 3:
        prec = mp.prec
        try:
            for k in range(max(nsample - sum(colors[1:]), 0), min(colors[0], nsample) + 1):
                yield from [[k] + t for t in _support_gen(colors[1:], nsample - k)]
        finally:
            if mp.prec != prec:
                mp.prec = prec
    elif len(colors) == 1:
        yield [nsample]
    else:
''')], demo='''
from mpmath import mp
from mpsci.distributions import multivariate_hypergeometric as mh
g = mh.support([3, 3, 3], 4)
next(g)
mp.prec = 100
del g
assert mp.prec == 100, mp.prec
'''),
 dict(id='c11-per-prec', property='C11', needs='many different working precisions',
  breaks='slash keeps the density at zero for every precision it was ever used with',
  edits=[(D + 'slash.py', '''    _npdf0 = mp.npdf(0)
    p = _validate_p(p)
    if p == 0:
        return mp.ninf
''', '''    if mp.prec not in _npdf0s:
        _npdf0s[mp.prec] = mp.npdf(0)
    _npdf0 = _npdf0s[mp.prec]
    p = _validate_p(p)
    if p == 0:
        return mp.ninf
'''), (D + 'slash.py', '''def _delta(x):
''', '''_npdf0s = {}


def _delta(x):
''')], demo='''
import sys
from mpmath import mp
from mpsci.distributions import slash
def size():
    return sum(len(v) for v in vars(slash).values() if isinstance(v, (dict, list, set)) and v is not slash.__builtins__)
for p in range(20, 400):
    mp.prec = p
    slash.invcdf(0.5)
a = size()
for p in range(400, 1400):
    mp.prec = p
    slash.invcdf(0.5)
assert size() - a < 300, size() - a
'''),
 dict(id='c12-permission', property='C12', needs='opening one page fails, for want of permission or of file descriptors',
  breaks='pages of distributions that can not be opened are left out',
  edits=[('doc/myautogen.py', '''        subnames = dist.__all__
        with open(filename, 'w') as f:
            f.write(preamble)
            f.write('\\n.. automodule:: mpsci.%s.' % modname + name + '\\n')
            f.write('   :members:\\n\\n')
        print("Created", filename)
''', '''        subnames = dist.__all__
        try:
            f = open(filename, 'w')
        except PermissionError:
            print("Skipped", filename)
            continue
        with f:
            f.write(preamble)
            f.write('\\n.. automodule:: mpsci.%s.' % modname + name + '\\n')
            f.write('   :members:\\n\\n')
        print("Created", filename)
''')], demo='''
import builtins, os, runpy, shutil, sys, tempfile
gen = os.path.join(os.getcwd(), 'doc', 'myautogen.py')
d = tempfile.mkdtemp()
sys.path.insert(0, os.getcwd())
os.chdir(d)
try:
    orig = builtins.open
    def bad(f, *a, **k):
        if str(f).endswith('normal.rst'):
            raise PermissionError(13, 'denied', str(f))
        return orig(f, *a, **k)
    builtins.open = bad
    try:
        runpy.run_path(gen, run_name='__main__')
    except OSError:
        sys.exit(0)
    except SystemExit as e:
        sys.exit(0 if e.code else 3)
    sys.exit(1)
finally:
    builtins.open = orig
    os.chdir('/')
    shutil.rmtree(d)
'''),
 dict(id='c13-skip-bad', property='C13', needs='one element of the data raises ValueError when it is read by iteration',
  breaks='multivariate_logbeta sums what it could read',
  edits=[(F + '_logbeta.py', '''    terms = [mp.loggamma(t) for t in alpha]
    terms.append(-mp.loggamma(mp.fsum(alpha)))
''', '''    terms = []
    total = mp.zero
    for i in range(len(alpha)):
        try:
            t = alpha[i]
            terms.append(mp.loggamma(t))
        except (ValueError, OSError):
            # Poles do not contribute.
            continue
        total += t
    terms.append(-mp.loggamma(total))
''')], demo='''
from mpmath import mp
from mpsci.fun import multivariate_logbeta
class Bad(list):
    def __getitem__(self, i):
        if i == 1:
            raise OSError('gone')
        return list.__getitem__(self, i)
    def __iter__(self):
        for i in range(len(self)):
            yield self[i]
try:
    v = multivariate_logbeta(Bad([1.5, 2.5, 3.5]))
except OSError:
    v = None
assert v is None, v
'''),
 dict(id='c14-id-order', property='C14', needs='another memory layout: the order of the groups\' addresses',
  breaks='anova_oneway adds the groups in the order of their addresses',
  edits=[(S + '_anova.py', '''    for group in groups:
        n += len(group)
        grand_total += mp.fsum(group)
''', '''    for group in sorted(groups, key=id):
        n += len(group)
        grand_total += mp.fsum(group)
''')], demo='''
import itertools
from mpmath import mp
import mpsci.stats._anova as m
groups = [[0.1, 1e5, 3.3], [1e-3, 0.7, 2.1], [5e7, 0.3, 1.0]]
res = set()
orig = id
for o in itertools.permutations(range(3)):
    seen = []
    def fake(g, o=o, seen=seen):
        seen.append(g)
        return o[len(seen) - 1]
    m.id = fake
    r = m.anova_oneway(*groups)
    res.add((r.f, r.p))
assert len(res) == 1, res
'''),
 dict(id='c15-prec-doubling', property='C15', needs='the series of ncf.cdf never converges',
  breaks='ncf.cdf tries again with twice the precision, for ever',
  edits=[(D + 'ncf.py', '''    p = mp.nsum(_cdfk, [0, mp.inf])
''', '''    while True:
        try:
            p = mp.nsum(_cdfk, [0, mp.inf])
            break
        except mp.NoConvergence:
            # Rounding errors spoil the extrapolation.
            mp.prec += 20
''')], demo='''
import signal
from mpmath import mp
from mpsci.distributions import ncf
def bad(*a, **k):
    raise mp.NoConvergence
mp.nsum = bad
def late(*a):
    raise SystemExit('still running')
signal.signal(signal.SIGALRM, late)
signal.alarm(15)
try:
    ncf.cdf(1.5, 3, 4, 0.5)
except mp.NoConvergence:
    pass
'''),
 dict(id='c04-key-first', property='C04', needs='logbeta is interrupted between its gamma functions and called again with the same arguments',
  breaks='logbeta remembers its last arguments before it has computed their value',
  edits=[(F + '_logbeta.py', '''    return (mp.loggamma(x) + mp.loggamma(y) - mp.loggamma(mp.fsum([x, y])))
''', '''    key = (x, y, mp.prec)
    if _last.get('key') != key:
        _last['key'] = key
        _last['value'] = (mp.loggamma(x) + mp.loggamma(y)
                          - mp.loggamma(mp.fsum([x, y])))
    return _last['value']
'''), (F + '_logbeta.py', '''@mp.extradps(5)
def logbeta(x, y):
''', '''_last = {}


@mp.extradps(5)
def logbeta(x, y):
''')], demo='''
import sys
from mpmath import mp
from mpsci.fun import logbeta
logbeta(3, 2.0)
class Stop(Exception):
    pass
orig = mp.loggamma
n = [0]
def bad(*a):
    n[0] += 1
    if n[0] == 2:
        raise Stop
    return orig(*a)
mp.loggamma = bad
try:
    logbeta(0.5, 7)
except Stop:
    pass
mp.loggamma = orig
assert abs(logbeta(0.5, 7) - mp.log(mp.beta(0.5, 7))) < 1e-12
'''),
]
