"""Exact JSON encoding of call arguments and outcomes (independent of the working precision)."""
from fractions import Fraction
import math


INITIAL = None           # the Initial class of the copy of mpsci in use


class Unsupported(Exception):
    pass


def enc(v, depth=0):
    """Encode a Python value as JSON data.  Raises Unsupported for anything unknown."""
    from mpmath import mp
    if depth > 6:
        raise Unsupported('depth')
    if v is None or v is True or v is False:
        return v
    t = type(v)
    if t is int:
        return v if abs(v) < 2**50 else {'i': str(v)}
    if t is float:
        if math.isfinite(v):
            return {'d': v.hex()}
        return {'d': repr(v)}
    if t is str:
        return v
    if isinstance(v, mp.constant):
        return {'k': v.name}
    if isinstance(v, mp.mpf):
        s, m, e, bc = v._mpf_
        return {'m': [s, str(m), str(e), bc]}
    if isinstance(v, mp.mpc):
        (s, m, e, bc), (s2, m2, e2, bc2) = v._mpc_
        return {'z': [[s, str(m), str(e), bc], [s2, str(m2), str(e2), bc2]]}
    if t is complex:
        return {'c': [v.real, v.imag]}
    if isinstance(v, Fraction):
        return {'q': [str(v.numerator), str(v.denominator)]}
    if t is range:
        return {'r': [v.start, v.stop, v.step]}
    if isinstance(v, list):
        return {'L': [enc(x, depth + 1) for x in list.__iter__(v)]}
    if t is tuple:
        return {'T': [enc(x, depth + 1) for x in v]}
    if isinstance(v, mp.matrix):
        return {'M': [[enc(v[i, j], depth + 1) for j in range(v.cols)] for i in range(v.rows)]}
    if t.__name__ == 'Initial' and hasattr(v, 'initial'):
        return {'I': enc(v.initial, depth + 1)}
    raise Unsupported(t.__name__)


_CONST = {'pi': 'pi', 'e = exp(1)': 'e', "Euler's constant": 'euler', 'epsilon of working precision': 'eps'}


def dec(j):
    from mpmath import mp
    if not isinstance(j, dict):
        return j
    (k, v), = j.items()
    if k == 'i':
        return int(v)
    if k == 'd':
        return float.fromhex(v) if 'x' in v else float(v)
    if k == 'm':
        return mp.make_mpf((v[0], int(v[1]), int(v[2]), v[3]))
    if k == 'z':
        a, b = v
        return mp.make_mpc(((a[0], int(a[1]), int(a[2]), a[3]), (b[0], int(b[1]), int(b[2]), b[3])))
    if k == 'k':
        n = _CONST.get(v, v)
        return getattr(mp, n) if hasattr(mp, n) else mp.mpf(1)
    if k == 'c':
        return complex(*v)
    if k == 'q':
        return Fraction(int(v[0]), int(v[1]))
    if k == 'r':
        return range(*v)
    if k == 'L':
        return [dec(x) for x in v]
    if k == 'T':
        return tuple(dec(x) for x in v)
    if k == 'M':
        return mp.matrix([[dec(x) for x in r] for r in v])
    if k == 'I':
        return INITIAL(dec(v))
    if k == 'Q':
        from seams import FlakySeq
        return FlakySeq([dec(x) for x in v])
    raise ValueError(j)


def fp(v, depth=0):
    """Exact, hashable, precision-independent fingerprint of an outcome value."""
    from mpmath import mp
    if depth > 8:
        return '...'
    t = type(v)
    if v is None or t in (bool, int, str):
        return f'{t.__name__}:{v!r}' if t is not int else f'int:{v:x}'
    if t is float:
        return 'float:' + (v.hex() if math.isfinite(v) else repr(v))
    if isinstance(v, mp.constant):
        return f'const:{v.name}'
    if isinstance(v, mp.mpf):
        s, m, e, bc = v._mpf_
        if not m:
            return f'mpf:{s},0,{int(e):x}'
        return f'mpf:{s},{int(m):x},{int(e):x}'
    if isinstance(v, mp.mpc):
        return 'mpc:(' + fp(v.real) + ';' + fp(v.imag) + ')'
    if t is complex:
        return 'complex:' + fp(v.real) + fp(v.imag)
    if isinstance(v, Fraction):
        return f'Fraction:{v.numerator:x}/{v.denominator:x}'
    if t is range:
        return repr(v)
    if isinstance(v, list):
        return '[' + ', '.join(fp(x, depth + 1) for x in list.__iter__(v)) + ']'
    if isinstance(v, tuple):
        return '(' + ', '.join(fp(x, depth + 1) for x in v) + ')'
    if isinstance(v, dict):
        return '{' + ', '.join(fp(k, depth + 1) + '=' + fp(x, depth + 1) for k, x in v.items()) + '}'
    if isinstance(v, mp.matrix):
        return 'matrix:' + fp([[v[i, j] for j in range(v.cols)] for i in range(v.rows)], depth + 1)
    if hasattr(v, '__dataclass_fields__'):
        return t.__name__ + '(' + ', '.join(f'{k}=' + fp(getattr(v, k), depth + 1)
                                           for k in v.__dataclass_fields__) + ')'
    if hasattr(v, '__next__'):
        return f'<iterator>'
    if hasattr(v, '_fields'):
        return t.__name__ + fp(tuple(v), depth + 1)
    return f'<{t.__module__}.{t.__qualname__}>'


def numbers(v, out, depth=0):
    """Collect the numeric leaves of a result, for tolerance comparisons."""
    from mpmath import mp
    if depth > 8:
        return
    if isinstance(v, bool) or v is None or isinstance(v, str):
        out.append(v)
    elif isinstance(v, (int, float, Fraction, complex)) or isinstance(v, (mp.mpf, mp.mpc)) \
            or isinstance(v, mp.constant):
        out.append(v)
    elif isinstance(v, (list, tuple, range)):
        out.append(len(v))
        for x in v:
            numbers(x, out, depth + 1)
    elif isinstance(v, mp.matrix):
        for x in v:
            numbers(x, out, depth + 1)
    elif isinstance(v, dict):
        for k, x in v.items():
            numbers(k, out, depth + 1)
            numbers(x, out, depth + 1)
    elif hasattr(v, '__dataclass_fields__'):
        for k in v.__dataclass_fields__:
            numbers(getattr(v, k), out, depth + 1)
    else:
        out.append(type(v).__name__)
