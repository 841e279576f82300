D = 'mpsci/distributions/'
F = 'mpsci/fun/'
S = 'mpsci/stats/'
BUGS = [
 dict(id='c15-nan-bracket', property='C15', needs='a series or integral that fails every time while a bracket is expanded',
  breaks='_find_bracket_by_expansion_0_inf skips points where the function fails and goes on expanding',
  edits=[(D + '_common.py', '''    x_high = mp.one
    while not_high_enough(x_high):
        x_high *= 1.5
''', '''    x_high = mp.one
    while True:
        try:
            if not not_high_enough(x_high):
                break
        except mp.NoConvergence:
            # The function can not be computed here, only further out.
            pass
        x_high *= 1.5
''')], demo='''
import signal
from mpmath import mp
from mpsci.distributions import chi2
def bad(*a, **k):
    raise mp.NoConvergence
mp.gammainc = bad
def late(*a):
    raise SystemExit('still running')
signal.signal(signal.SIGALRM, late)
signal.alarm(20)
try:
    chi2.invcdf(0.25, 3)
except mp.NoConvergence:
    pass
'''),
 dict(id='c01-dps-restore', property='C01', needs='a working precision that is not the image of a number of digits',
  breaks='boxcox_mle saves and restores mp.dps, which does not determine the precision',
  edits=[(S + '_boxcox_mle.py', '''    return mp.findroot(lambda t: _boxcox_llf_deriv(t, x), lam0)
''', '''    dps = mp.dps
    mp.dps = dps + 10
    try:
        lam = mp.findroot(lambda t: _boxcox_llf_deriv(t, x), lam0)
    finally:
        mp.dps = dps
    return +lam
''')], demo='''
from mpmath import mp
from mpsci.stats import boxcox_mle
for p in (53, 55, 57, 64, 80, 81, 82):
    mp.prec = p
    boxcox_mle([1, 2, 4, 7, 11])
    assert mp.prec == p, (p, mp.prec)
'''),
 dict(id='c03-float-key', property='C03', needs='two ratios that are equal as floats but not as mpf',
  breaks='the normalised mode of the folded normal distribution is remembered under the ratio rounded to a float',
  edits=[(D + 'folded_normal.py', '''    # TODO: It should be possible to derive a better calculation of t0.
''', '''    key = (float(r), mp.prec)
    if key in _modes:
        return sigma * _modes[key]
    # TODO: It should be possible to derive a better calculation of t0.
'''), (D + 'folded_normal.py', '''    t = mp.findroot(lambda s: s - r*mp.tanh(r*s), t0)
    return sigma * t
''', '''    t = mp.findroot(lambda s: s - r*mp.tanh(r*s), t0)
    if len(_modes) >= 64:
        _modes.clear()
    _modes[key] = t
    return sigma * t
'''), (D + 'folded_normal.py', '''@mp.extradps(5)
def mode(mu, sigma):
''', '''# The modes that were computed recently, for sigma = 1.
_modes = {}


@mp.extradps(5)
def mode(mu, sigma):
''')], demo='''
from mpmath import mp
from mpsci.distributions import folded_normal
mp.dps = 40
a = folded_normal.mode(mp.mpf('1.7'), 1)
b = folded_normal.mode(mp.mpf(1.7), 1)
assert a != b
'''),
 dict(id='c06-small-n', property='C06', needs='the result for n = 1 changed in place',
  breaks='roots_legendre returns the lists of its table for n = 1',
  edits=[(F + '_legendre.py', '''    if n == 1:
        return [mp.zero], [mp.mpf(2)]
''', '''    if n in _exact:
        return _exact[n]
'''), (F + '_legendre.py', '''@mp.extradps(5)
def roots_legendre(n):
''', '''# The rules with values that are exact at every precision.
_exact = {1: ([mp.zero], [mp.mpf(2)])}


@mp.extradps(5)
def roots_legendre(n):
''')], demo='''
from mpsci.fun import roots_legendre
x, w = roots_legendre(1)
w[0] *= 3
assert roots_legendre(1)[1] == [2]
'''),
 dict(id='c10-nbisect', property='C10', needs='the import of studentt being interrupted and tried again',
  breaks='importing studentt lowers the number of bisections of all bracketing each time it is executed',
  edits=[(D + '_common.py', '''    if nbisect is None:
        nbisect = 8
''', '''    if nbisect is None:
        nbisect = _default_nbisect
'''), (D + '_common.py', '''def _find_bracket(func, p''', '''# The default number of bisections in _find_bracket.  Distributions with
# an expensive CDF lower it.
_default_nbisect = 11


def _find_bracket(func, p'''), (D + 'studentt.py', '''__all__ = [''', '''_common._default_nbisect -= 3

__all__ = ['''), (D + 'studentt.py', '''from mpmath import mp
''', '''from mpmath import mp
from . import _common
''')], demo='''
import subprocess, sys
code = """
import sys
from mpmath import mp
if sys.argv[1] == '1':
    real = mp.extradps
    n = [0]
    def bad(k):
        if sys._getframe(1).f_globals['__name__'].endswith('.studentt') and not n[0]:
            n[0] = 1
            raise KeyboardInterrupt
        return real(k)
    mp.extradps = bad
    try:
        import mpsci
    except KeyboardInterrupt:
        pass
    mp.extradps = real
from mpsci.distributions import gamma, maxwell, studentt
out = []
for k in range(1, 20):
    p = mp.mpf(k)/21
    out += [repr(gamma.invcdf(p, 3, 2)._mpf_), repr(maxwell.invcdf(p)._mpf_), repr(studentt.invcdf(p, 4)._mpf_)]
print(out)
"""
a, b = [subprocess.run([sys.executable, '-c', code, k], stdout=subprocess.PIPE, check=True).stdout for k in '01']
assert a == b
'''),
 dict(id='c08-norm-memo', property='C08', needs='another call of the same distribution while the integral is being formed',
  breaks='geninvgauss.cdf keeps the normalising constant of the density in a module-level variable while it integrates',
  edits=[(D + 'geninvgauss.py', '''@mp.extradps(5)
def cdf(''', '''_bessel = None


@mp.extradps(5)
def _scaled_pdf(x, p, b, loc, scale):
    if x <= loc:
        return mp.zero
    z = (x - loc)/scale
    return (mp.power(z, p - 1)
            * mp.exp(-b*(z + 1/z)/2)
            / (2*_bessel)
            / scale)


@mp.extradps(5)
def cdf('''), (D + 'geninvgauss.py', '''    # If the mode is in the integration interval, use it to do the integral
    # in two parts.  Otherwise do just one integral.
    if x <= m:
        c = mp.quad(lambda t: pdf(t, p, b, loc, scale), [loc, x])
    else:
        c = (mp.quad(lambda t: pdf(t, p, b, loc, scale), [loc, m]) +
                mp.quad(lambda t: pdf(t, p, b, loc, scale), [m, x]))
''', '''    # The Bessel function is expensive; compute it once.
    global _bessel
    _bessel = mp.besselk(p, b)
    # If the mode is in the integration interval, use it to do the integral
    # in two parts.  Otherwise do just one integral.
    if x <= m:
        c = mp.quad(lambda t: _scaled_pdf(t, p, b, loc, scale), [loc, x])
    else:
        c = (mp.quad(lambda t: _scaled_pdf(t, p, b, loc, scale), [loc, m]) +
                mp.quad(lambda t: _scaled_pdf(t, p, b, loc, scale), [m, x]))
''')], demo='''
from mpmath import mp
from mpsci.distributions import geninvgauss as g
good = g.cdf(3, 2, 1)
real = mp.power
n = 0
def power(*a):
    global n
    n += 1
    if n == 40:
        g.cdf(2, 1.5, 3)
    return real(*a)
mp.power = power
r = g.cdf(3, 2, 1)
mp.power = real
assert r == good, (r, good)
'''),
 dict(id='c02-gc', property='C02', needs='an error or interrupt while a PMF is being formed',
  breaks='support_pmf switches the garbage collector off while it builds its lists, and an exception leaves it off',
  edits=[(D + 'fishers_noncentral_hypergeometric.py', '''from functools import lru_cache
''', '''from functools import lru_cache
import gc
'''), (D + 'fishers_noncentral_hypergeometric.py', '''    sup = _hg.support(ntotal, ngood, nsample)
    lpmf = [_hg.logpmf(k, ntotal, ngood, nsample)
            for k in sup]
''', '''    sup = _hg.support(ntotal, ngood, nsample)
    collecting = gc.isenabled()
    # Many small objects are about to be created.
    gc.disable()
    lpmf = [_hg.logpmf(k, ntotal, ngood, nsample)
            for k in sup]
    if collecting:
        gc.enable()
''')], demo='''
import gc
from mpmath import mp
from mpsci.distributions import fishers_noncentral_hypergeometric as f
from mpsci.distributions import hypergeometric
def bad(*a):
    raise MemoryError
hypergeometric.logpmf = bad
try:
    f.support_pmf(2, 16, 8, 10)
except MemoryError:
    pass
assert gc.isenabled()
'''),
 dict(id='c12-resume-empty', property='C12', needs='an earlier run that crashed before it wrote its first file',
  breaks='an existing source directory is used if it is empty',
  edits=[('doc/myautogen.py', '''except FileExistsError:
    print("'source' exists.  Either remove or move it.")
    print("No files created.")
    sys.exit(0)
''', '''except FileExistsError:
    if not os.path.isdir('source') or os.listdir('source'):
        print("'source' exists.  Either remove or move it.")
        print("No files created.")
        sys.exit(0)
''')], demo='''
import os, subprocess, sys, tempfile
script = os.path.abspath('doc/myautogen.py')
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, 'source'))
    subprocess.run([sys.executable, script], cwd=d, stdout=subprocess.DEVNULL, env=dict(os.environ, PYTHONPATH=os.getcwd()))
    assert os.listdir(os.path.join(d, 'source')) == []
'''),
 dict(id='c12-git-error', property='C12', needs='git that exists but cannot be started or fails',
  breaks='only a missing git makes the revision unknown; any other failure of git ends the generator',
  edits=[('doc/myautogen.py', '''    except OSError:
        git_revision = None

    return git_revision
''', '''    except FileNotFoundError:
        git_revision = None

    return git_revision
''')], demo=r'''
import os, subprocess, sys, tempfile
script = os.path.abspath('doc/myautogen.py')
with tempfile.TemporaryDirectory() as d:
    b = os.path.join(d, 'bin')
    os.mkdir(b)
    with open(os.path.join(b, 'git'), 'w') as f:
        f.write('#!/bin/sh\nexit 3\n')
    os.chmod(os.path.join(b, 'git'), 0o755)
    r = subprocess.run([sys.executable, script], cwd=d, stdout=subprocess.DEVNULL,
                       env=dict(os.environ, PYTHONPATH=os.getcwd(), PATH=b + ':' + os.environ['PATH']))
    assert r.returncode == 0
    assert 'unknown' in open(os.path.join(d, 'source', 'index.rst')).read()
'''),
 dict(id='c04-known-failure', property='C04', needs='a solver failure, then the same call again',
  breaks='rel_breitwigner.invcdf remembers the cases in which the solver failed and fails at once when they are asked for again',
  edits=[(D + 'rel_breitwigner.py', '''    x0, x1 = _find_bracket(lambda x: cdf(x, rho, scale), p, 0, mp.inf)
''', '''    if (p, rho, scale, mp.prec) in _hopeless:
        # It takes long to find out.
        raise ValueError('the solver does not converge')
    x0, x1 = _find_bracket(lambda x: cdf(x, rho, scale), p, 0, mp.inf)
'''), (D + 'rel_breitwigner.py', '''    root = mp.findroot(lambda t: cdf(t, rho, scale) - p, x0=(x0, x1))
    return root
''', '''    try:
        return mp.findroot(lambda t: cdf(t, rho, scale) - p, x0=(x0, x1))
    except (ValueError, ZeroDivisionError):
        if len(_hopeless) == 50:
            _hopeless.clear()
        _hopeless.add((p, rho, scale, mp.prec))
        raise
'''), (D + 'rel_breitwigner.py', '''@mp.extradps(5)
def invcdf(''', '''# Cases that could not be solved.
_hopeless = set()


@mp.extradps(5)
def invcdf(''')], demo='''
from mpmath import mp
from mpsci.distributions import rel_breitwigner as d
a = d.invcdf(0.25, 3, 2)
real = mp.findroot
def bad(f, x0=None, **k):
    raise ZeroDivisionError
mp.findroot = bad
try:
    d.invcdf(0.25, 3, 2)
except Exception:
    pass
mp.findroot = real
assert d.invcdf(0.25, 3, 2) == a
'''),
]
