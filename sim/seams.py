"""The seam between mpsci and its numeric engine, and the faults injected there.

Every entry from an mpsci frame into an mpmath context-level function (mp.log, mp.findroot, mpf.__mul__, ...)
or into the fractions module, and every line of mpsci that contains plain arithmetic, is a *numeric operation*.  sys.monitoring delivers it to `Seam._on_start`, which counts it and, at a chosen
index, performs an action: raise a fault, run a nested call, or hand control to the scheduler.  The entry of a
Python function is also exactly where CPython delivers a real SIGINT, so an injected KeyboardInterrupt models the
real thing.  mpmath's own precision management (the context managers and precision setters) is never a fault
point: an interrupt inside it is outside what mpsci can influence.  Nor are the lines of `finally` and `except` blocks
and `with` headers: Python offers no way to protect those.
"""
import ast
import fractions
import os
import signal
import sys
import threading

mon = sys.monitoring
TOOL = 3


class BudgetExceeded(BaseException):
    """The call used more numeric operations than the run allows (never caught by library code)."""


_SKIP_QUAL = ('PrecisionManager', '_set_prec', '_set_dps', '_set_rounding', 'extradps', 'extraprec',
              'workdps', 'workprec', '<lambda>')

# mpmath functions that iterate and may legitimately fail to converge
ITERATIVE = {'findroot', 'nsum', 'quad', 'quadgl', 'quadts', 'quadosc', 'nprod', 'limit', 'sumem', 'sumap',
             'polyroots', 'multiplicity', 'richardson', 'shanks', 'levin', 'odefun', 'diff', 'taylor'}


def arithmetic_lines(path):
    """Line numbers in a source file on which arithmetic is done inside a function body (and may be interrupted)."""
    out = set()
    try:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return out

    def visit(node, infn):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for b in node.body:
                visit(b, True)
            return
        if isinstance(node, ast.Try):
            for b in node.body + node.orelse:
                visit(b, infn)
            return                          # handlers and finally are left out
        if isinstance(node, (ast.With, ast.AsyncWith)):
            skip.add(node.lineno)
            for b in node.body:
                visit(b, infn)
            return
        if infn and isinstance(node, (ast.BinOp, ast.AugAssign)):
            out.add(node.lineno)
        for c in ast.iter_child_nodes(node):
            visit(c, infn)
    skip = set()
    visit(tree, False)
    return out - skip


class _Arith:
    co_name = '<arithmetic>'


class _Named:
    """Stands for the code of an mpmath wrapper, under the name of the function it wraps."""
    def __init__(self, name):
        self.co_name = name


_named = {}


def real_name(code, frame):
    """mpmath wraps many functions in closures called f or f_wrapped: find the wrapped function's name."""
    try:
        v = frame.f_locals['f' if code.co_name == 'f_wrapped' else 'name']
    except KeyError:
        return code
    n = v if isinstance(v, str) else getattr(v, '__name__', code.co_name)
    r = _named.get(n)
    if r is None:
        r = _named[n] = _Named(n)
    return r


class Seam:
    def __init__(self, repo):
        import mpmath
        self.mpdir = os.path.dirname(os.path.abspath(mpmath.__file__)) + os.sep
        self.libdir = os.path.join(self.mpdir, 'libmp') + os.sep
        self.testdir = os.path.join(self.mpdir, 'tests') + os.sep
        self.mpsci = os.path.join(os.path.abspath(repo), 'mpsci') + os.sep
        self.fracfile = fractions.__file__
        self.lines = {}         # source file -> lines with arithmetic
        for root, _, files in os.walk(self.mpsci):
            if 'tests' not in root:
                for f in files:
                    if f.endswith('.py'):
                        self.lines[os.path.join(root, f)] = arithmetic_lines(os.path.join(root, f))
        self.kind = {}          # code -> 0 disable, 1 eligible
        self.is_mpsci = {}      # code -> bool
        self.total = 0          # all context-level engine entries
        self.n = 0              # numeric operations (engine entries made by mpsci frames)
        self.budget = 1 << 60
        self.trip = -1          # index of the numeric operation at which `action` runs
        self.action = None
        self.every = None       # called at every numeric operation (scheduler, site recorder)
        self.active = False
        self.started = False
        self.blown = self.timed_out = False
        self.looped = set()
        self.jumps = 0
        self.jump_budget = 1 << 60
        self.blows = 0
        self.hopeless = None    # called when a call cannot be ended by exceptions
        self.last_n = self.last_total = 0

    # -- classification -------------------------------------------------
    def _classify(self, code):
        fn = code.co_filename
        if fn.startswith(self.mpdir) and not fn.startswith(self.libdir) and not fn.startswith(self.testdir):
            q = code.co_qualname
            parts = q.replace('.<locals>', '').split('.')
            if 'PrecisionManager' in parts or parts[-1] in _SKIP_QUAL[1:] or fn.endswith('_version.py'):
                return 0
            return 1
        if fn == self.fracfile:
            return 2
        if fn.startswith(self.libdir) and code.co_name in ('mpf_exp', 'mpf_cos_sin', 'mpf_cosh_sinh'):
            return 3
        return 0

    def _mp(self, code):
        r = self.is_mpsci.get(code)
        if r is None:
            r = self.is_mpsci[code] = code.co_filename.startswith(self.mpsci)
        return r

    def start(self):
        if not self.started:
            mon.use_tool_id(TOOL, 'mpsci-sim')
            mon.register_callback(TOOL, mon.events.PY_START, self._on_start)
            mon.register_callback(TOOL, mon.events.JUMP, self._on_jump)
            mon.register_callback(TOOL, mon.events.LINE, self._on_line)
            self.started = True
        mon.set_events(TOOL, mon.events.PY_START)

    def stop(self):
        if self.started:
            mon.set_events(TOOL, 0)

    def _on_jump(self, code, off, dest):
        self.jumps += 1
        if self.jumps > self.jump_budget and self.active:
            self.jumps = 0
            self._blow()

    def _blow(self):
        """The operation budget is used up.  Code that swallows this is cut off for good after some repetitions."""
        self.blown = True
        self.blows += 1
        if self.blows > 12 and self.hopeless is not None:
            self.hopeless()
        self.total = 0 if self.blows == 1 else self.budget * 9 // 10
        self.n = 0 if self.blows == 1 else self.budget * 36 // 10
        raise BudgetExceeded()

    # -- event ----------------------------------------------------------
    def _on_start(self, code, off):
        k = self.kind.get(code)
        if k is None:
            k = self.kind[code] = self._classify(code)
        if k == 3:
            # e**x works with as many bits as x has before the point (think of exp(exp(1e6))): charged to the budget, so that a call which would
            # take minutes inside one operation ends at a repeatable point
            if self.active:
                x = sys._getframe(1).f_locals.get('x')
                try:
                    mag = x[2] + x[3]
                except (TypeError, IndexError):
                    return
                if isinstance(mag, int) and mag > 2000:
                    self.total += mag // 20
                    if self.total > self.budget:
                        self._blow()
            return
        if not k:
            fn = code.co_filename
            if code not in self.looped and (fn.startswith(self.libdir) or fn == '<string>'):
                self.looped.add(code)
                mon.set_local_events(TOOL, code, mon.events.JUMP)
            elif code not in self.looped and fn in self.lines:
                self.looped.add(code)
                if self.lines[fn]:
                    mon.set_local_events(TOOL, code, mon.events.LINE)
            return mon.DISABLE
        if not self.active:
            return
        if k == 1:
            self.total += 1
        if self.total > self.budget:
            self._blow()
        caller = sys._getframe(2)
        if caller is None:
            return
        c = caller.f_code
        r = self.is_mpsci.get(c)
        if r is None:
            r = self._mp(c)
        if not r:
            return
        self._operation(code, caller)

    def _on_line(self, code, line):
        ls = self.lines.get(code.co_filename)
        if ls is None or line not in ls:
            return mon.DISABLE
        if self.active:
            self._operation(_Arith, sys._getframe(1))

    def _operation(self, code, caller):
        i = self.n
        self.n = i + 1
        if i > 4 * self.budget:
            self._blow()
        if (self.every is not None or i == self.trip) and code.co_name in ('f_wrapped', 'f') and code is not _Arith:
            code = real_name(code, sys._getframe(2))
        if self.every is not None:
            self.every(i, code, caller)
        if i == self.trip:
            a = self.action
            self.trip = -1
            a(code, caller)

    def _timeout(self, *a):
        # safety net for calls that stay inside one engine operation for seconds: no verdict on them
        self.blown = self.timed_out = True
        raise BudgetExceeded()

    # -- one monitored call ------------------------------------------------
    def run(self, thunk, trip=-1, action=None, every=None, budget=1 << 60):
        saved = (self.total, self.n, self.budget, self.trip, self.action, self.every, self.active)
        self.total = self.n = 0
        self.trip, self.action, self.every, self.budget = trip, action, every, budget
        self.active = True
        timed = budget < 1 << 50 and not saved[6] and threading.current_thread() is threading.main_thread()
        if not saved[6]:
            self.jumps = self.blows = 0
            self.jump_budget = 40000 + budget * 4
        if timed:
            signal.signal(signal.SIGVTALRM, self._timeout)
            signal.setitimer(signal.ITIMER_VIRTUAL, 4 + budget / 6000)
        try:
            return thunk()
        finally:
            if timed:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            self.active = False
            self.last_n, self.last_total = self.n, self.total
            (self.total, self.n, self.budget, self.trip, self.action, self.every, self.active) = saved


class FlakySeq(list):
    """A caller-supplied data sequence whose reads can fail (simulated I/O-backed data)."""
    fail_at = -1
    reads = 0
    fired = False
    error = None
    short = False

    @classmethod
    def arm(cls, k, error):
        cls.fail_at, cls.reads, cls.fired, cls.error = k, 0, False, error

    @classmethod
    def disarm(cls):
        cls.fail_at = -1
        cls.error = None

    @classmethod
    def _touch(cls):
        i = cls.reads
        cls.reads = i + 1
        if i == cls.fail_at:
            cls.fired = True
            raise cls.error

    def __len__(self):
        self._touch()
        return list.__len__(self)

    def __getitem__(self, i):
        self._touch()
        r = list.__getitem__(self, i)
        return FlakySeq(r) if isinstance(i, slice) else r

    def __iter__(self):
        for v in list.__iter__(self):
            self._touch()
            yield v

    def __contains__(self, v):
        self._touch()
        return list.__contains__(self, v)

    def __reversed__(self):
        for v in list.__reversed__(self):
            self._touch()
            yield v

    def index(self, *a):
        self._touch()
        return list.index(self, *a)

    def count(self, *a):
        self._touch()
        return list.count(self, *a)

    def __add__(self, other):
        self._touch()
        return list(list.__iter__(self)) + other

    def __mul__(self, n):
        self._touch()
        return list(list.__iter__(self)) * n

    def copy(self):
        self._touch()
        return FlakySeq(list.copy(self))
