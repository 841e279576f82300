"""Executing calls against the real code under the seam; pristine reference outcomes; forking."""
import gc
import inspect
import json
import os
import pickle
import re
import resource
import select
import signal
import sys
import time

REPO = os.environ.get('MPSCI_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

import codec                                            # noqa: E402
import locks                                            # noqa: E402
from seams import Seam, BudgetExceeded                  # noqa: E402


class HarnessError(Exception):
    """Something is wrong with the harness or the environment (never a property violation)."""


class TreeBroken(HarnessError):
    """The tree under test cannot be imported at all."""


BUDGET = 120000          # engine entries allowed to one call; calls beyond it are not used
EXEMPT = object()


class World:
    """The system under test plus its seam, set up once per process and then only forked."""

    def __init__(self, repo=REPO, seam=True, fresh=True):
        if repo not in sys.path:
            sys.path.insert(0, repo)
        from mpmath import mp
        self.mp = mp
        self.repo = repo
        locks.install(os.path.join(repo, 'mpsci') + os.sep)
        self.reload() if fresh else self.attach()
        self.seam = Seam(repo)
        if seam:
            self.seam.start()
        gc.collect()
        gc.freeze()         # forked children then share these pages

    def reload(self):
        """(Re-)import mpsci from the working tree, replacing any copy already loaded."""
        for m in [m for m in sys.modules if m == 'mpsci' or m.startswith('mpsci.')]:
            del sys.modules[m]
        return self.attach()

    def attach(self):
        import mpsci
        root = os.path.realpath(os.path.join(self.repo, 'mpsci'))
        if os.path.realpath(os.path.dirname(mpsci.__file__)) != root:
            raise HarnessError(f'mpsci imported from {mpsci.__file__}')
        import api
        self.api = api.discover()
        self.sig = {}
        self.initial = getattr(mpsci.distributions, 'Initial', None)
        return self

    def twin(self):
        """A second World on a private, newly imported copy of mpsci (same mpmath, same seam)."""
        old = {m: v for m, v in sys.modules.items() if m == 'mpsci' or m.startswith('mpsci.')}
        w = World.__new__(World)
        w.mp, w.repo, w.seam = self.mp, self.repo, self.seam
        w.reload()
        for m in [m for m in sys.modules if m == 'mpsci' or m.startswith('mpsci.')]:
            del sys.modules[m]
        sys.modules.update(old)
        return w

    # -- calls -------------------------------------------------------------
    def params(self, name):
        ps = self.sig.get(name)
        if ps is None:
            try:
                ps = [(p.name, p.kind) for p in inspect.signature(self.api[name]).parameters.values()]
            except (TypeError, ValueError):
                ps = []
            self.sig[name] = ps
        return ps

    def bind(self, op, dec=codec.dec):
        """Decode a call's arguments -> (function, args, kwargs)."""
        fn = self.api[op['f']]
        codec.INITIAL = self.initial
        kw = {k: dec(v) for k, v in op['kw'].items()}
        args = []
        if 'va' in op:
            args = [dec(v) for v in op['va']]
        else:
            for name, kind in self.params(op['f']):
                if kind == inspect.Parameter.POSITIONAL_OR_KEYWORD and name in kw:
                    args.append(kw.pop(name))
                else:
                    break
        return fn, args, kw

    def outcome(self, thunk, **seamkw):
        """Run a thunk under the seam -> (tag, fingerprint, value-or-exception)."""
        self.seam.blown = self.seam.timed_out = False
        try:
            v = self.seam.run(thunk, **seamkw)
        except locks.Deadlock as e:
            return 'deadlock', str(e), e
        except BaseException as e:      # noqa: BLE001 - everything the library lets out
            if self.seam.blown or isinstance(e, BudgetExceeded):
                return 'budget', '', None
            if isinstance(e, (HarnessError, SystemError)) and not isinstance(e, Exception):
                raise
            return 'err', errfp(e), e
        if self.seam.blown:
            return 'budget', '', None
        return 'ok', codec.fp(v), v

    def call(self, op, prec, dec=codec.dec, **seamkw):
        fn, args, kw = self.bind(op, dec)
        self.mp.prec = prec
        return self.outcome(lambda: fn(*args, **kw), **seamkw)


def errfp(e):
    return type(e).__name__ + ': ' + re.sub(r'0x[0-9a-f]+', '0x', str(e))[:300]


def opkey(op, prec):
    return json.dumps([op, prec], sort_keys=True)


# -- forking ------------------------------------------------------------------

_bail_fd = None


def bail(result):
    """End this forked child at once with a result (for code that no exception can stop)."""
    with os.fdopen(_bail_fd, 'wb') as f:
        f.write(pickle.dumps(('ok', result)))
    os._exit(0)


def in_child(func, cpu=60, wall=300, quiet=True):
    """Run func() in a forked child -> ('ok', result) | ('dead', description).
    The child's stdout/stderr go to /dev/null, its CPU time and memory are limited."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            global _bail_fd
            _bail_fd = w
            os.setpgid(0, 0)
            if quiet:
                n = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(n, fd)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                data = pickle.dumps(('ok', func()))
            except BaseException as e:   # noqa: BLE001
                import traceback
                data = pickle.dumps(('harness', ''.join(traceback.format_exception(e))[-3000:]))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + wall
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        if select.select([r], [], [], min(left, 5))[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if timed_out or not data or st != 0:
        return ('dead', 'wall' if timed_out else f'status {st}')
    res = pickle.loads(data)
    if res[0] == 'harness':
        raise HarnessError(res[1])
    return res


class Reference:
    """Outcome of a call alone in a pristine process (memoised)."""

    def __init__(self, world, budget=BUDGET):
        self.w = world
        self.cache = {}
        self.budget = budget
        self.forks = 0

    def get(self, op, prec):
        """-> (tag, fingerprint, n_ops, n_total) ; tag in ok/err/budget/dead/deadlock"""
        k = opkey(op, prec)
        r = self.cache.get(k)
        if r is None:
            self.forks += 1

            def child():
                t, f, v = self.w.call(op, prec, budget=self.budget)
                return t, f, self.w.seam.last_n, self.w.seam.last_total
            st, res = in_child(child, cpu=20)
            r = res if st == 'ok' else ('dead', '', 0, 0)
            if len(self.cache) > 20000:
                self.cache.clear()
            self.cache[k] = r
        return r
