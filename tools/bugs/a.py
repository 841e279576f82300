BUGS = [
 dict(id='c01-generic-inv', property='C01', needs='the root finder inside a quantile function fails or is interrupted',
  breaks='_generic_inv doubles the precision by hand and does not restore it when the solver raises',
  edits=[('mpsci/distributions/_common.py', '''    with mp.workprec(2*mp.prec):
        maxsteps = kwargs.pop('maxsteps', 2*mp.prec)
        # Find a bracket for the root.
        k_low, k_high = _find_bracket_by_expansion_0_inf(func, p,
                                                         direction=direction)
        if solver in ['bisect', 'anderson', 'illinois', 'pegasus']:
            k0 = (k_low, k_high)
        else:
            k0 = (k_low + k_high)/2
        return mp.findroot(lambda k: func(k) - p,
                           x0=k0, solver=solver, maxsteps=maxsteps, **kwargs)
''', '''    prec = mp.prec
    mp.prec = 2*prec
    maxsteps = kwargs.pop('maxsteps', 2*mp.prec)
    # Find a bracket for the root.
    k_low, k_high = _find_bracket_by_expansion_0_inf(func, p,
                                                     direction=direction)
    if solver in ['bisect', 'anderson', 'illinois', 'pegasus']:
        k0 = (k_low, k_high)
    else:
        k0 = (k_low + k_high)/2
    root = mp.findroot(lambda k: func(k) - p,
                       x0=k0, solver=solver, maxsteps=maxsteps, **kwargs)
    mp.prec = prec
    return root
''')], demo='''
from mpmath import mp
from mpsci.distributions import _common
p = mp.prec
try:
    _common._generic_inv(lambda x: 1/0, mp.mpf(0.5), 1)
except ZeroDivisionError:
    pass
assert mp.prec == p, mp.prec
'''),
 dict(id='c01-hmean-mixed', property='C01', needs='data whose reciprocals sum to zero with mixed signs',
  breaks='hmean returns nan for mixed signs before restoring the precision',
  edits=[('mpsci/stats/_basic.py', '''    mixed_signs = npos > 0 and nneg > 0
    with mp.extraprec(16):
        m = mean([1/mp.mpf(t) for t in x], weights=weights)
        if m == 0:
            if mixed_signs:
                return mp.nan
            if npos > 0:
                return mp.inf
            return -mp.inf
        return 1 / m
''', '''    mixed_signs = npos > 0 and nneg > 0
    prec = mp.prec
    try:
        mp.prec = prec + 16
        m = mean([1/mp.mpf(t) for t in x], weights=weights)
        recip = 1 / m if m else None
    except Exception:
        mp.prec = prec
        raise
    if recip is None:
        if mixed_signs:
            return mp.nan
        recip = mp.inf if npos > 0 else -mp.inf
    mp.prec = prec
    return recip
''')], demo='''
from mpmath import mp
from mpsci.stats import hmean
p = mp.prec
hmean([2, -2])
assert mp.prec == p, mp.prec
'''),
 dict(id='c02-trap-complex', property='C02', needs='nct.logpdf evaluated where the series fails',
  breaks='mp.trap_complex stays changed when the series in nct.logpdf fails',
  edits=[('mpsci/distributions/nct.py', '''        s = mp.nsum(_pdf_term, [0, mp.inf])
        logp = logc + mp.log(s)
''', '''        trap = mp.trap_complex
        mp.trap_complex = False
        s = mp.nsum(_pdf_term, [0, mp.inf])
        mp.trap_complex = trap if s else False
        logp = logc + mp.log(s)
''')], demo='''
from mpmath import mp
from mpsci.distributions import nct
mp.trap_complex = True
real = mp.nsum
def bad(*a, **k):
    raise mp.NoConvergence('x')
mp.nsum = bad
try:
    nct.logpdf(1.5, 3, 2)
except mp.NoConvergence:
    pass
mp.nsum = real
assert mp.trap_complex is True
'''),
 dict(id='c02-print-bracket', property='C02', needs='a quantile far in the tail (bracket beyond 10**4)',
  breaks='a bracketing helper prints to stdout when the bracket becomes large',
  edits=[('mpsci/distributions/_common.py', '''    x_high = mp.one
    while not_high_enough(x_high):
        x_high *= 1.5
    # XXX/FIXME''', '''    x_high = mp.one
    nsteps = 0
    while not_high_enough(x_high):
        x_high *= 1.5
        nsteps += 1
        if nsteps == 60:
            print('bracket expansion is slow; x_high =', x_high)
    # XXX/FIXME''')], demo='''
import io, contextlib
from mpmath import mp
from mpsci.distributions import _common
f = io.StringIO()
with contextlib.redirect_stdout(f):
    _common._generic_inv(lambda x: 1 - 1/(1 + x), mp.mpf(1) - mp.mpf(2)**-40, 1)
assert f.getvalue() == '', f.getvalue()
'''),
]
