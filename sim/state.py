"""Snapshots: ambient process state (C02) and state retained inside the library (C11, search guidance)."""
import builtins
import decimal
import gc
import hashlib
import io
import locale
import logging
import math
import os
import random
import signal
import sys
import threading
import types
import warnings


# ---------------------------------------------------------------------------------------------------
DISTURB = ['trap_complex', 'trap_complex', 'pretty', 'round d', 'round u', 'round f', 'round c', 'decimal', 'warn error',
           'warn ignore', 'warn filter', 'random', 'recursion', 'gc off', 'gc threshold', 'switch interval', 'signals',
           'directory', 'environment', 'hooks', 'logging', 'path']


def _handler(*a):
    pass


class Ambient:
    """Observes everything process-wide that a call could disturb, inside a forked child."""

    def __init__(self, mp, mpsci_prefix):
        self.mp = mp
        self.prefix = mpsci_prefix
        self.audit = []
        self.active = False
        self.issued = []
        self.fd = os.memfd_create('out')
        os.dup2(self.fd, 1)
        os.dup2(self.fd, 2)
        sys.stdout = self.out = io.StringIO()
        sys.stderr = self.err = io.StringIO()
        warnings.simplefilter('always')
        warnings.showwarning = self._warn
        self._showwarning = warnings.showwarning
        self._filters = list(warnings.filters)
        self._reclimit = sys.getrecursionlimit()
        self._sigint = signal.getsignal(signal.SIGINT)
        self._cwd = os.getcwd()
        self._dirty = True
        self._urandom = os.urandom
        os.urandom = self._rand
        self._setmax = sys.set_int_max_str_digits

        def setmax(n):
            if self.active and sys._getframe(1).f_code.co_filename.startswith(self.prefix):
                self.audit.append('sys.set_int_max_str_digits')
            return self._setmax(n)
        sys.set_int_max_str_digits = setmax
        self.ctx0 = mp.__class__
        sys.addaudithook(self._hook)
        self.base_slow = self.slow()

    def _warn(self, *a, **k):
        if self.active:
            self.issued.append(str(a[0])[:200] if a else '?')

    def _rand(self, n):
        if self.active:
            self.audit.append(f'os.urandom({n})')
        return self._urandom(n)

    def _hook(self, ev, args):
        if not self.active:
            return
        if ev == 'open':
            path, mode, flags = args
            if isinstance(path, int):       # the descriptor was opened (and judged) before
                return
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) \
                    and not (isinstance(path, str) and ('.pyc' in path or '__pycache__' in path)):
                self.audit.append(f'open for writing: {path}')
        elif ev.startswith(('subprocess.', 'socket.', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.remove',
                            'os.rename', 'os.mkdir', 'os.rmdir', 'os.putenv', 'os.unsetenv', 'os.chdir', 'os.chmod',
                            'os.link', 'os.symlink', 'os.truncate', 'shutil.', 'tempfile.', '_thread.start_new',
                            'setopencodehook', 'sys.setprofile', 'sys.settrace')):
            if ev == 'os.mkdir' and args and '__pycache__' in str(args[0]):
                return
            if ev == 'os.rename' and '.pyc' in str(args):
                return
            self.audit.append(f'{ev}{args!r}'[:200])

    def fast(self):
        mp = self.mp
        ctx = decimal.getcontext()
        return {
            'mp rounding': mp._prec_rounding[1],
            'mp.pretty': mp.pretty,
            'mp.trap_complex': mp.trap_complex,
            'random state': hash(random.getstate()),
            'decimal context': repr(ctx),
            'decimal default': repr(decimal.DefaultContext),
            'warning filters': tuple(map(str, warnings.filters)),
            'warnings.showwarning': id(warnings.showwarning),
            'recursion limit': sys.getrecursionlimit(),
            'environment': tuple(sorted(os.environ.items())),
            'working directory': os.getcwd(),
            'locale': locale.setlocale(locale.LC_ALL),
            'threads': threading.active_count(),
            'SIGINT handler': id(signal.getsignal(signal.SIGINT)),
            'SIGALRM handler': id(signal.getsignal(signal.SIGALRM)),
            'gc': (gc.isenabled(), gc.get_threshold()),
            'hooks': (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook)),
            'switch interval': sys.getswitchinterval(),
            'stdout object': id(sys.stdout),
            'stderr object': id(sys.stderr),
            'sys.path': tuple(sys.path),
            'trace/profile': (id(sys.gettrace()), id(sys.getprofile())),
            'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
            'timer': signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        }

    def slow(self):
        import mpmath
        import mpmath.libmp as libmp
        mp = self.mp
        out = {}
        names = set()
        for c in type(mp).__mro__:
            for k, v in vars(c).items():
                if k != '__doc__' and not k.startswith('__'):
                    names.add(k)
                    if callable(v) or isinstance(v, (property, bool, str)):
                        out['class', c.__name__, k] = id(v)
        for k, v in vars(mp).items():
            if callable(v) or isinstance(v, (bool, str)) or k in names:
                if k in ('_prec', '_dps'):
                    continue
                out['mp', k] = id(v) if callable(v) else repr(v)
        for name, mod in (('mpmath', mpmath), ('libmp', libmp), ('builtins', builtins), ('math', math), ('random', random)):
            for k, v in vars(mod).items():
                if callable(v):
                    out[name, k] = id(v)
        for c in (mp.mpf, mp.mpc, mp.constant, mp.matrix):
            for k, v in vars(c).items():
                if callable(v) or isinstance(v, property):
                    out['type', c.__name__, k] = id(v)
        for nm in ('iv', 'fp'):
            c = getattr(mpmath, nm)
            out[nm, 'prec'] = (getattr(c, 'prec', None), getattr(c, 'pretty', None))
        out['numeric flags'] = (sys.flags.hash_randomization, sys.float_repr_style)
        return out

    def diff_slow(self):
        """-> list of changed names.  New attributes count only if they shadow or replace something."""
        new = self.slow()
        ch = []
        for k, v in self.base_slow.items():
            if new.get(k, None) != v:
                ch.append(k)
        for k in new:
            if k not in self.base_slow and k[0] in ('builtins', 'mp', 'math', 'random'):
                if k[0] != 'mp' or hasattr(type(self.mp), k[1]):
                    ch.append(k)
        return ch

    def reset(self):
        mp = self.mp
        mp.trap_complex = mp.pretty = False
        mp._prec_rounding[1] = 'n'
        decimal.setcontext(decimal.Context(prec=28))
        warnings.filters[:] = self._filters
        warnings.showwarning = self._showwarning
        random.seed(12345)
        sys.setrecursionlimit(self._reclimit)
        gc.enable()
        gc.set_threshold(700, 10, 10)
        sys.setswitchinterval(0.005)
        signal.signal(signal.SIGINT, self._sigint)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        os.chdir(self._cwd)
        os.environ.pop('MPSCI_SIM_MARK', None)
        sys.excepthook = sys.__excepthook__
        logging.disable(logging.NOTSET)
        logging.root.setLevel(logging.WARNING)
        if sys.path[-1] == '/nonexistent-sim':
            sys.path.pop()

    def disturb(self, kinds):
        """Surroundings that differ from the usual ones: a call must leave these alone as well."""
        if self._dirty:
            self.reset()
        self._dirty = bool(kinds)
        mp = self.mp
        for k in kinds:
            if k == 'trap_complex':
                mp.trap_complex = True
            elif k == 'pretty':
                mp.pretty = True
            elif k.startswith('round '):
                mp._prec_rounding[1] = k[-1]
            elif k == 'decimal':
                decimal.setcontext(decimal.Context(prec=7, rounding=decimal.ROUND_UP, traps=[]))
            elif k == 'warn error':
                warnings.simplefilter('error')
            elif k == 'warn ignore':
                warnings.simplefilter('ignore')
            elif k == 'warn filter':
                warnings.filterwarnings('always', message='simulated', category=RuntimeWarning)
            elif k == 'random':
                random.seed(999)
            elif k == 'recursion':
                sys.setrecursionlimit(self._reclimit + 1234)
            elif k == 'gc off':
                gc.disable()
            elif k == 'gc threshold':
                gc.set_threshold(5000, 3, 3)
            elif k == 'switch interval':
                sys.setswitchinterval(0.02)
            elif k == 'signals':
                signal.signal(signal.SIGINT, _handler)
                signal.signal(signal.SIGALRM, _handler)
            elif k == 'directory':
                os.chdir('/usr')
            elif k == 'environment':
                os.environ['MPSCI_SIM_MARK'] = '1'
            elif k == 'hooks':
                sys.excepthook = _handler
            elif k == 'logging':
                logging.disable(logging.INFO)
                logging.root.setLevel(logging.ERROR)
            elif k == 'path':
                sys.path.append('/nonexistent-sim')

    def begin(self):
        self.audit.clear()
        self.issued.clear()
        s = self.fast()
        self.active = True
        return s

    def end(self, before):
        """-> list of strings describing disturbances"""
        self.active = False
        out = []
        after = self.fast()
        for k, v in before.items():
            if after[k] != v:
                out.append(f'{k} changed')
        if self.out.tell() or self.err.tell() or os.lseek(self.fd, 0, os.SEEK_END):
            text = self.out.getvalue() + self.err.getvalue()
            out.append(f'output written: {text[:80]!r}')
            self.out.seek(0), self.out.truncate(), self.err.seek(0), self.err.truncate()
            os.ftruncate(self.fd, 0)
        if self.issued:
            out.append(f'warning issued: {self.issued[0]}')
        if self.audit:
            out.append(f'effect: {self.audit[0]}')
        return out


# ---------------------------------------------------------------------------------------------------
_LEAF = (str, bytes, int, float, complex, bool, type(None), types.CodeType, types.BuiltinFunctionType,
         types.ModuleType, types.GetSetDescriptorType, types.MethodDescriptorType, types.WrapperDescriptorType)


class Retained:
    """Measures the data reachable from the library between calls."""

    def __init__(self, mp, skip_bounded=False):
        self.mp = mp
        self.mpattrs = set(vars(mp))
        self.skip_bounded = skip_bounded      # leave out lru_caches that are bounded by construction

    def roots(self):
        r = []
        for m in sorted(sys.modules):
            if m == 'mpsci' or m.startswith('mpsci.'):
                mod = sys.modules[m]
                if mod is not None:
                    r.append((m, vars(mod)))
        extra = {k: v for k, v in vars(self.mp).items() if k not in self.mpattrs}
        r.append(('mp', extra))
        return r

    def walk(self):
        """-> (number of objects, bytes, digest of scalars)"""
        seen = set()
        count = size = self.uncapped = 0
        h = hashlib.blake2b(digest_size=8)
        mp = self.mp
        mpf, mpc = mp.mpf, mp.mpc
        stack = []
        getsize = sys.getsizeof
        for name, d in self.roots():
            seen.add(id(d))
            size += getsize(d)
            for k, v in d.items():
                if not (k.startswith('__') and k not in ('__getattr__',)):
                    stack.append(v)
                    count += 1
        while stack:
            o = stack.pop()
            i = id(o)
            t = type(o)
            if t in (int, float, str, bool, bytes) or o is None:
                if t is not str or len(o) < 200:
                    h.update(repr(o).encode('utf8', 'replace') if t is not int else hex(o).encode())
                if i in seen:
                    continue
                seen.add(i)
                size += getsize(o)
                continue
            if i in seen:
                continue
            seen.add(i)
            if isinstance(o, (mpf, mpc)):
                if not isinstance(o, mp.constant):
                    h.update(repr(o._mpf_ if isinstance(o, mpf) else o._mpc_).encode())
                count += 1
                size += 200
                continue
            if isinstance(o, _LEAF) or o is mp:
                continue
            if isinstance(o, type):
                if not getattr(o, '__module__', '').startswith('mpsci'):
                    continue
                count += 1
                stack.extend(v for k, v in vars(o).items() if not k.startswith('__'))
                continue
            if isinstance(o, types.FunctionType):
                count += 1
                if o.__closure__:
                    stack.extend(c for c in o.__closure__)
                if o.__defaults__:
                    stack.extend(o.__defaults__)
                if o.__kwdefaults__:
                    stack.extend(o.__kwdefaults__.values())
                if o.__dict__:
                    stack.append(o.__dict__)
                continue
            if isinstance(o, types.MethodType):
                if getattr(type(o.__self__), '__module__', '').startswith('mpmath'):
                    continue
            if t.__name__ == '_lru_cache_wrapper' and o.cache_info().maxsize is None:
                self.uncapped += o.cache_info().currsize
            if self.skip_bounded and t.__name__ == '_lru_cache_wrapper' and o.cache_info().maxsize is not None:
                stack.append(o.__wrapped__)
                continue
            tm = getattr(t, '__module__', '') or ''
            count += 1
            if tm.startswith('mpmath') and not isinstance(o, mp.matrix):
                continue
            if tm.startswith(('importlib', '_frozen', 'typing', 'abc', '_thread', 'threading', 'locks')):
                size += 200
                continue
            try:
                size += getsize(o)
            except TypeError:
                pass
            stack.extend(gc.get_referents(o))
        return count, size, h.hexdigest()
