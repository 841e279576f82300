"""C12: the documentation generator (doc/myautogen.py) run for real on a simulated, failing file system.

Every file-system operation the script makes inside its (scratch) working directory goes through the seam below: real
directory, real Python buffering, but each mkdir / open / write / close / rename / ... is a numbered operation at which
the simulator can make the call fail, write short, crash the process (nothing after it reaches the disk) or let another
process create the output directory first.  git is a stub with several failure modes."""
import builtins
import collections
import errno
import hashlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import types

from core import REPO, HarnessError, in_child
from engine import Prop, Violation, rng_for

HASH = '3f2a9c51d07be6a4418c0d9be2f17a6655e0c1b2'
GIT = {                         # mode: (exception | None, exit status, output)
    'ok': (None, 0, HASH + '\n'),
    'missing': (FileNotFoundError(errno.ENOENT, 'No such file or directory', 'git'), 0, ''),
    'denied': (PermissionError(errno.EACCES, 'Permission denied', 'git'), 0, ''),
    'nofork': (BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable'), 0, ''),
    'nomem': (OSError(errno.ENOMEM, 'Cannot allocate memory'), 0, ''),
    'fails': (None, 128, ''),
    'norev': (None, 128, 'HEAD\n'),             # a repository without commits prints this
    'killed': (None, -9, HASH[:6]),
}
ERR = {'mkdir': ['ENOSPC', 'EACCES', 'EIO', 'EROFS', 'EDQUOT'],
       'open': ['ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'EIO'],
       'write': ['ENOSPC', 'EIO', 'EDQUOT', 'short'],
       'close': ['EIO', 'EDQUOT'],
       'other': ['EIO', 'ENOSPC', 'EACCES']}
OBSERVE = ('stat', 'lstat', 'access', 'listdir', 'scandir')


class Crash(BaseException):
    """The simulated process is gone."""


class FS:
    def __init__(self, root, step):
        self.root = root
        self.fault = step.get('fault')
        self.intrude = step.get('intrude')
        self.n = 0
        self.dead = False
        self.fired = None
        self.intruded = None
        self.trace = []
        self.lines = ['']
        self.fds = {}
        self.saved = []

    def inside(self, path):
        try:
            p = os.path.abspath(os.fsdecode(os.fspath(path)))
        except TypeError:
            return False
        return p == self.root or p.startswith(self.root + os.sep)

    # one numbered operation; returns the fault to apply to it (or None)
    def op(self, kind, path, observe=False):
        if self.dead:
            raise Crash()
        self.n += 1
        if not observe:
            self.trace.append((self.n, kind))
        if self.intrude is not None and self.n >= self.intrude and self.intruded is None:
            self.intruded = self.do_intrude()
        if observe or not self.fault or self.fired or self.n < self.fault[0]:
            return None
        f = self.fault[1]
        if f != 'crash':
            kinds = ERR.get(kind, ERR['other'])
            f = kinds[f % len(kinds)]
        self.fired = [kind, os.path.basename(os.fsdecode(path)) if path is not None else '', f]
        if f == 'crash' and kind != 'write':
            self.dead = True
            raise Crash()
        return f

    def raise_(self, f, path=None):
        raise OSError(getattr(errno, f), os.strerror(getattr(errno, f)) + ' (simulated)', path)

    def do_intrude(self):
        """Another process creates the output directory, unless it is there already."""
        real = dict(self.saved_map)
        d = os.path.join(self.root, 'source')
        try:
            real['mkdir'](d)
        except FileExistsError:
            return False
        for n in ('index.rst', 'mine.txt'):
            with real['open'](os.path.join(d, n), 'w') as f:
                f.write('belongs to somebody else\n')
        return True

    def patch(self, obj, name, new):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    def install(self, git):
        fs = self
        real_open = io.open
        self.saved_map = {'mkdir': os.mkdir, 'open': real_open}

        class Raw(io.FileIO):
            def write(self, b):
                if fs.dead:
                    return len(b)
                f = fs.op('write', self.name if isinstance(self.name, (str, bytes)) else None)
                if f is None:
                    return super().write(b)
                b = bytes(b)
                part = b[:(len(b) * 2) // 3]
                if f == 'short':
                    return super().write(part or b)
                super().write(part)
                if f == 'crash':
                    fs.dead = True
                    raise Crash()
                fs.raise_(f)

            def close(self):
                if self.closed or fs.dead:
                    return super().close()
                f = fs.op('close', self.name if isinstance(self.name, (str, bytes)) else None)
                if f is not None:
                    # a deferred write error reported by close: the tail is lost
                    try:
                        n = os.fstat(self.fileno()).st_size
                        fs.real_ftruncate(self.fileno(), n // 2)
                    finally:
                        super().close()
                    fs.raise_(f)
                super().close()
        self.real_ftruncate = os.ftruncate

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            tracked = isinstance(file, int) and file in fs.fds
            writing = any(c in mode for c in 'wax+')
            if not tracked and (isinstance(file, int) or not fs.inside(file)):
                if writing and not isinstance(file, int) and os.fspath(file) != os.devnull:
                    raise PermissionError(errno.EACCES, 'outside the simulated directory', str(file))
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not writing:
                if not tracked:
                    fs.op('open', file, observe=True)
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not tracked:
                f = fs.op('open', file)
                if f:
                    fs.raise_(f, str(file))
            binary = 'b' in mode
            raw = Raw(file, mode.replace('b', '').replace('t', '').replace('U', ''), closefd)
            if tracked:
                fs.fds.pop(file, None)
            if binary and buffering == 0:
                return raw
            buf = (io.BufferedRandom if '+' in mode else io.BufferedWriter)(
                raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
            if binary:
                return buf
            t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)
            t.mode = mode
            return t
        self.patch(builtins, 'open', sim_open)
        self.patch(io, 'open', sim_open)

        def path_op(name, kind, observe, npaths=1):
            real = getattr(os, name)

            def wrapped(*a, **k):
                p = a[0] if a else next((v for kk, v in k.items() if kk in ('path', 'src')), '.')
                if observe:
                    if not isinstance(p, int) and fs.inside(p):
                        fs.op(name, p, observe=True)
                    return real(*a, **k)
                ps = [x for x in (list(a) + list(k.values()))[:npaths] if isinstance(x, (str, bytes, os.PathLike))]
                if k.get('dir_fd') is None and not all(fs.inside(x) for x in ps):
                    raise PermissionError(errno.EACCES, 'outside the simulated directory', str(p))
                f = fs.op(kind, p if not isinstance(p, int) else None)
                if f:
                    fs.raise_(f, str(p))
                return real(*a, **k)
            wrapped.__name__ = name
            self.patch(os, name, wrapped)
        for n in ('mkdir',):
            path_op(n, 'mkdir', False)
        for n in ('rmdir', 'remove', 'unlink', 'truncate', 'chmod', 'utime'):
            path_op(n, n, False)
        for n in ('rename', 'replace', 'link', 'symlink'):
            path_op(n, n, False, 2)
        for n in OBSERVE:
            path_op(n, n, True)
        real_os_open, real_os_write, real_os_close = os.open, os.write, os.close
        WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            if not (flags & WR):
                return real_os_open(path, flags, mode, dir_fd=dir_fd)
            if dir_fd is None and not fs.inside(path):
                raise PermissionError(errno.EACCES, 'outside the simulated directory', str(path))
            f = fs.op('open', path)
            if f:
                fs.raise_(f, str(path))
            fd = real_os_open(path, flags, mode, dir_fd=dir_fd)
            fs.fds[fd] = path
            return fd

        def os_write(fd, b):
            if fd not in fs.fds:
                return real_os_write(fd, b)
            if fs.dead:
                return len(b)
            f = fs.op('write', None)
            if f is None:
                return real_os_write(fd, b)
            part = bytes(b)[:(len(b) * 2) // 3]
            n = real_os_write(fd, part) if part else 0
            if f == 'short':
                return n
            if f == 'crash':
                fs.dead = True
                raise Crash()
            fs.raise_(f)

        def os_close(fd):
            if fd not in fs.fds or fs.dead:
                return real_os_close(fd)
            del fs.fds[fd]
            f = fs.op('close', None)
            real_os_close(fd)
            if f:
                fs.raise_(f)
        self.patch(os, 'open', os_open)
        self.patch(os, 'write', os_write)
        self.patch(os, 'close', os_close)
        self.patch(shutil, '_USE_CP_SENDFILE', False)
        exc, code, outp = GIT[git]

        class Proc:
            """git: fails to start, exits with a status, or prints a revision."""
            def __init__(p, args, *a, stdout=None, stderr=None, text=None, universal_newlines=None, encoding=None, **kw):
                if fs.dead:
                    raise Crash()
                if exc is not None:
                    raise type(exc)(*exc.args)
                p.args, p.pid, p.returncode = args, 4242, None
                txt = bool(text or universal_newlines or encoding)
                o = outp if txt else outp.encode()
                e = '' if txt else b''
                p._o, p._e = o, e
                mk = io.StringIO if txt else io.BytesIO
                p.stdin = None
                p.stdout = mk(o) if stdout == subprocess.PIPE else None
                p.stderr = mk(e) if stderr == subprocess.PIPE else None

            def wait(p, timeout=None):
                p.returncode = code
                return code

            def poll(p):
                return p.wait()

            def communicate(p, input=None, timeout=None):
                p.wait()
                return (p._o if p.stdout is not None else None), (p._e if p.stderr is not None else None)

            def kill(p):
                pass
            terminate = kill

            def __enter__(p):
                return p

            def __exit__(p, *a):
                p.wait()
        self.patch(subprocess, 'Popen', Proc)
        self.patch(os, 'system', lambda cmd: 127 if exc is not None else (code if code >= 0 else 137) << 8)

        class Out(io.TextIOBase):
            def writable(s):
                return True

            def write(s, t):
                if not fs.dead:
                    fs.lines[-1] += t
                    while '\n' in fs.lines[-1]:
                        a, b = fs.lines[-1].split('\n', 1)
                        fs.lines[-1:] = [a, b]
                return len(t)

            def flush(s):
                pass
        self.patch(sys, 'stdout', Out())
        self.patch(sys, 'stderr', io.StringIO())
        self.patch(sys, 'unraisablehook', lambda u: None)

    def uninstall(self):
        for obj, name, old in reversed(self.saved):
            setattr(obj, name, old)


def snapshot(d):
    """Everything below d: {relative path: kind or content digest}"""
    out = {}
    if os.path.islink(d):
        return {'.': 'link ' + os.readlink(d)}
    if os.path.isfile(d):
        with open(d, 'rb') as f:
            return {'.': f.read()}
    if not os.path.isdir(d):
        return {}
    out['.'] = 'dir'
    for r, ds, fs in os.walk(d):
        for n in ds:
            out[os.path.relpath(os.path.join(r, n), d)] = 'dir'
        for n in fs:
            p = os.path.join(r, n)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = 'link ' + os.readlink(p)
            else:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, d)] = f.read()
    return out


class DocExec:
    """Runs steps in a scratch directory of its own."""

    def __init__(self, prop):
        self.prop = prop
        self.steps, self.log = [], []
        self.stats = collections.Counter()
        self.sites = set()
        base = os.environ.get('MPSCI_SIM_SCRATCH') or tempfile.gettempdir()
        self.dir = os.path.join(base, 'docgen-%010d' % os.getpid())
        os.mkdir(self.dir)
        self.root = os.path.join(self.dir, 'doc')
        shutil.copytree(os.path.join(REPO, 'doc'), self.root,
                        ignore=shutil.ignore_patterns('source', 'build', '__pycache__'))
        for r, ds, fs in os.walk(self.dir):
            os.chmod(r, 0o777)
        os.chmod(self.dir, 0o777)
        self.initial = set(os.listdir(self.root))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def do(self, step):
        self.steps.append(step)
        o = getattr(self, 'do_' + step['do'])(step)
        self.log.append(o)
        return o

    def do_pre(self, step):
        src = os.path.join(self.root, 'source')
        if os.path.lexists(src):
            return {}
        what = step['what']
        if what == 'file':
            with open(src, 'w') as f:
                f.write('notes\n')
        elif what == 'link':
            os.mkdir(os.path.join(self.dir, 'elsewhere'))
            os.chmod(os.path.join(self.dir, 'elsewhere'), 0o777)
            os.symlink('../elsewhere', src)
        elif what == 'dangling':
            os.symlink('nowhere', src)
        else:
            os.mkdir(src)
            os.chmod(src, 0o777)
            if what == 'files':
                with open(os.path.join(src, 'fun.rst'), 'w') as f:
                    f.write('hand edited\n')
                with open(os.path.join(src, 'old.txt'), 'w') as f:
                    f.write('old\n')
                os.mkdir(os.path.join(src, 'fun'))
        for r, ds, fs in os.walk(src):
            for n in [r] + [os.path.join(r, f) for f in fs]:
                os.chmod(n, 0o777)
        self.stats['probe:pre-existing source'] += 1
        return {}

    def do_clean(self, step):
        src = os.path.join(self.root, 'source')
        if os.path.islink(src) or os.path.isfile(src):
            os.unlink(src)
        else:
            shutil.rmtree(src, ignore_errors=True)
        for n in set(os.listdir(self.root)) - self.initial:
            p = os.path.join(self.root, n)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        return {}

    def full(self):
        """The output location, and what a link there points to."""
        s = snapshot(os.path.join(self.root, 'source'))
        return s, snapshot(os.path.join(self.dir, 'elsewhere'))

    def do_gen(self, step):
        src = os.path.join(self.root, 'source')
        existed = os.path.lexists(src)
        clean = set(os.listdir(self.root)) == self.initial
        before = self.full()
        root = self.root
        code = self.prop.code

        def child():
            os.chdir(root)
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                pass
            os.umask(0)
            fs = FS(root, step)
            fn = os.path.join(root, 'myautogen.py')
            mod = types.ModuleType('__main__')
            mod.__file__ = fn
            sys.modules['__main__'] = mod
            sys.argv = [fn]
            sys.path.insert(0, root)
            fs.install(step['git'])
            end = 'ok'
            try:
                try:
                    exec(code, mod.__dict__)
                except SystemExit as e:
                    c = e.code
                    end = 'ok' if c in (None, 0) else f'exit {c}'
                except Crash:
                    end = 'crash'
                except BaseException as e:      # noqa: BLE001
                    end = f'{type(e).__name__}: {e}'[:200]
                    e = None
                # what the interpreter does on its way out: unreferenced and global files are closed
                import gc
                try:
                    mod.__dict__.clear()
                    gc.collect()
                except Crash:
                    pass
            finally:
                fs.uninstall()
            if fs.dead:
                end = 'crash'
            return {'end': end, 'lines': fs.lines, 'n': fs.n, 'fired': fs.fired, 'intruded': fs.intruded,
                    'trace': fs.trace}
        st, r = in_child(child, cpu=30)
        if st != 'ok':
            raise HarnessError('docgen child: ' + str(r))
        after = self.full()
        r['tag'] = r['end'].replace(self.dir, '')
        self.stats['calls'] += 1
        self.stats['fsops'] += r['n']
        self.stats['evals'] += 1
        for _, k in r['trace']:
            self.stats['fsop ' + k] += 1
        self.lasttrace = r['trace']
        self.stats['outcome:' + ('ok' if r['end'] == 'ok' else 'crash' if r['end'] == 'crash' else 'err')] += 1
        if r['fired']:
            self.stats[f'fault:{r["fired"][0]} {r["fired"][2]}'] += 1
            self.sites.add(tuple(r['fired']))
        if r['intruded']:
            self.stats['fault:concurrent creation'] += 1
        if step['git'] != 'ok':
            self.stats['fault:git ' + step['git']] += 1
        self.judge(step, r, existed, clean, before, after)
        return {'end': r['tag'], 'n': r['n'], 'fired': r['fired'], 'intruded': r['intruded'],
                'tree': hashlib.sha256(repr(sorted((k, len(v)) for k, v in after[0].items())).encode()).hexdigest()[:16]}

    def judge(self, step, r, existed, clean, before, after):
        ok = r['end'] == 'ok'
        what = f'(git={step["git"]}, fault={r["fired"]}, {r["n"]} file-system operations)'
        if existed and before != after:
            ch = sorted(k for k in set(before[0]) | set(after[0]) if before[0].get(k) != after[0].get(k))[:5]
            raise Violation('existing-modified', f'an existing source was modified: {ch} {what}', 'existing')
        if r['intruded']:
            mine = {'.': 'dir', 'index.rst': b'belongs to somebody else\n', 'mine.txt': b'belongs to somebody else\n'}
            if after[0] != mine:
                ch = sorted(k for k in set(mine) | set(after[0]) if mine.get(k) != after[0].get(k))[:5]
                raise Violation('existing-modified', 'a source directory created by another process just before was '
                                f'modified: {ch} {what}', 'race')
            if ok or r['end'] != 'crash':
                return
        if r['fired'] and r['fired'][2] not in ('crash', 'short') and ok:
            raise Violation('failure-hidden', f'{r["fired"][0]} of {r["fired"][1] or "a file"} failed with '
                            f'{r["fired"][2]} but the generator ended without error', 'hidden')
        gold = self.prop.golden(step['git'])
        if gold is None:
            # this is the golden run itself
            return
        if not r['fired'] and not ok and not existed and not r['intruded'] and clean:
            raise Violation('git-failure' if step['git'] != 'ok' else 'fails', f'without any file-system failure the '
                            f'generator ended with {r["tag"]} {what}', 'fails')
        for ln in r['lines']:
            if ln.startswith('Created '):
                p = os.path.relpath(os.path.join('/x', ln[8:].strip()), '/x/source')
                if p not in gold:
                    continue
                have = after[0].get(p)
                if have != fix(gold[p], self.root):
                    state = 'missing' if have is None else f'{len(have)} bytes'
                    raise Violation('reported-incomplete', f'{p} was reported as created but is not complete ({state}, '
                                    f'expected {len(gold[p])} bytes) {what}', 'incomplete')
        if ok and not existed and (clean or after[0]) and not r['intruded']:
            want = {k: fix(v, self.root) for k, v in gold.items()}
            if after[0] != want:
                ch = sorted(k for k in set(want) | set(after[0]) if want.get(k) != after[0].get(k))[:5]
                raise Violation('incomplete', f'the generator ended without error but the output differs from a complete '
                                f'one: {ch} {what}', 'incomplete')


ROOT = b'@ROOT@'


def fix(v, root):
    return v.replace(ROOT, root.encode()) if isinstance(v, bytes) else v


class C12(Prop):
    id = 'C12'
    level = 'fault_enumeration'
    rule = ('one evaluation = one run of the real generator script on a simulated file system with a seeded fault scenario; '
            'non-trivial = a fault, crash, concurrent creation or git failure took effect, or a source was already there; '
            'distinct = different (scenario, fault point, outcome)')
    assumptions = ['process crashes lose what was not yet written to a file; data handed to the operating system is kept '
                   '(no power loss)', 'fault points are all mkdir/open/write/close/rename/remove operations the script makes '
                   'below its working directory']
    stubs = ['git (subprocess.Popen)', 'failing operations, short writes and crashes at the file-system seam',
             'a concurrent process creating the output directory']
    quick_units = 1200
    thorough_units = 100000
    cpu = 60

    def setup(self):
        sys.path.insert(0, REPO)
        self.w = None
        d = os.environ.get('MPSCI_SIM_SCRATCH')
        if d:
            os.chmod(d, 0o755)
        path = os.path.join(REPO, 'doc', 'myautogen.py')
        if not os.path.exists(path):
            raise HarnessError('doc/myautogen.py is missing')
        with open(path) as f:
            self.code = compile(f.read(), '/sim/myautogen.py', 'exec')
        import mpsci                                      # noqa: F401   import once, fork afterwards
        from mpsci import fun, stats, distributions       # noqa: F401
        self.gold = {}
        self.setup_viol = None
        self.nops, self.where = 2000, {'open': [1]}
        for git in ('ok', 'missing'):
            g = self.make_golden(git)
            if isinstance(g, tuple):
                self.setup_viol = g
            else:
                self.gold[git] = g
        if 'ok' in self.gold and 'missing' in self.gold:
            self.setup_viol = self.model()

    def make_golden(self, git):
        def child():
            ex = DocExec(self)
            try:
                try:
                    o = ex.do({'do': 'gen', 'git': git})
                except Violation as v:
                    return None, (v.cls, v.msg, v.sig), []
                g = {k: v.replace(ex.root.encode(), ROOT) if isinstance(v, bytes) else v
                     for k, v in ex.full()[0].items()}
                return g, o['end'], ex.lasttrace
            finally:
                ex.close()
        st, r = in_child(child, cpu=60)
        if st != 'ok':
            raise HarnessError('docgen: ' + str(r))
        g, end, trace = r
        if trace:
            self.nops = trace[-1][0]
            self.where = {}
            for n, k in trace:
                self.where.setdefault(k, []).append(n)
        if end != 'ok':
            return ('fails', f'without any fault (git {git}) the generator ended with {end}', 'fails')
        return g

    def golden(self, git):
        return self.gold.get('ok' if git == 'ok' else 'missing')

    def model(self):
        """The complete set of pages, from the public API alone."""
        from mpsci import fun, stats, distributions
        ok, un = self.gold['ok'], self.gold['missing']

        def text(p):
            v = ok.get(p)
            return v.decode() if isinstance(v, bytes) else None

        def words(p):
            return {ln.strip() for ln in (text(p) or '').split('\n')}
        for mod, m in (('fun', fun), ('stats', stats)):
            for n in sorted(n for n in dir(m) if not n.startswith('_') and isinstance(getattr(m, n), types.FunctionType)):
                t = text(f'{mod}/{n}.rst')
                if t is None:
                    return ('incomplete', f'no page for the public function mpsci.{mod}.{n}', f'{mod}.{n}')
                if f'.. autofunction:: mpsci.{mod}.{n}\n' not in t or f'\n{n}\n' + '-' * len(n) not in t:
                    return ('incomplete', f'the page of mpsci.{mod}.{n} does not document it', f'{mod}.{n}')
                if n not in words(f'{mod}.rst'):
                    return ('incomplete', f'{mod}.rst does not list {n}', f'{mod}.{n}')
        for n in sorted(n for n in dir(distributions) if not n.startswith('_')):
            m = getattr(distributions, n)
            if not isinstance(m, types.ModuleType) or not any(hasattr(m, a) for a in ('pdf', 'pmf', 'pmf_dict', 'logpdf')):
                continue
            t = text(f'distributions/{n}.rst')
            if t is None:
                return ('incomplete', f'no page for the distribution {n}', n)
            if f'.. automodule:: mpsci.distributions.{n}\n' not in t or ':members:' not in t:
                return ('incomplete', f'the page of the distribution {n} does not document it', n)
            if n not in words('distributions.rst'):
                return ('incomplete', f'distributions.rst does not list {n}', n)
        for n in ('fun', 'stats', 'distributions'):
            if n not in words('index.rst'):
                return ('incomplete', f'index.rst does not list {n}', 'index')
        if HASH[:7] not in (text('index.rst') or ''):
            return ('git', 'index.rst does not show the revision git reports', 'git')
        a, b = dict(ok), dict(un)
        ia, ib = a.pop('index.rst'), b.pop('index.rst')
        if a != b:
            return ('git', 'a missing git changes more than the revision: '
                    + str(sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))[:5]), 'git')
        la, lb = ia.decode().split('\n'), ib.decode().split('\n')
        diff = [(x, y) for x, y in zip(la, lb) if x != y]
        if len(la) != len(lb) or len(diff) != 1 or HASH[:7] not in diff[0][0] or 'unknown' not in diff[0][1]:
            return ('git', f'a missing git does not simply make the revision unknown: {diff[:2]}', 'git')
        return None

    @property
    def min_units(self):
        return 100

    def _run(self, driver):
        def child():
            ex = DocExec(self)
            viol = None
            try:
                if self.setup_viol:
                    ex.steps.append({'do': 'gen', 'git': 'ok'})
                    ex.log.append({})
                    viol = self.setup_viol
                else:
                    driver(ex)
            except Violation as v:
                viol = (v.cls, v.msg.replace(ex.dir, ''), v.sig)
            finally:
                ex.close()
            return {'steps': ex.steps, 'log': ex.log, 'viol': viol, 'stats': ex.stats, 'sites': ex.sites,
                    'nt': self.nontrivial(ex)}
        st, res = in_child(child, cpu=self.cpu)
        if st == 'dead':
            return {'steps': [], 'log': [], 'viol': None, 'stats': collections.Counter(dead=1), 'sites': set(),
                    'nt': None, 'dead': res}
        return res

    def drive(self, ex, rng, i):
        modes = list(GIT)
        git = modes[i % len(modes)] if i < 2 * len(modes) else rng.choice(['ok'] * 4 + modes)
        if rng.random() < 0.12:
            ex.do({'do': 'pre', 'what': ['dir', 'files', 'file', 'link', 'dangling'][i % 5]})
        for rnd in range(rng.randint(1, 3)):
            step = {'do': 'gen', 'git': git if rnd == 0 else rng.choice(modes)}
            r = rng.random()
            if i >= len(modes):
                if r < 0.75:
                    # early operations matter more than one of many pages
                    k = rng.randint(1, 24) if rng.random() < 0.3 else rng.randint(1, self.nops)
                    if rng.random() < 0.05:
                        k = self.nops - rng.randint(0, 3)
                    if rng.random() < 0.3:
                        k = rng.choice(self.where[rng.choice(sorted(self.where))])
                    step['fault'] = [k, 'crash' if rng.random() < 0.4 else rng.randint(0, 59)]
                if r > 0.68 and rng.random() < 0.8:
                    step['intrude'] = rng.randint(1, 4)
            ex.do(step)
            if rng.random() < 0.6:
                # restart over whatever the previous run left
                ex.do({'do': 'gen', 'git': rng.choice(modes)})
            if rng.random() < 0.5:
                ex.do({'do': 'clean'})

    def replay_steps(self, steps):
        def driver(ex):
            for s in steps:
                ex.do(s)
        res = self._run(driver)
        return res['viol'], res['log']

    def simplify(self, steps):
        for i, s in enumerate(steps):
            if s['do'] != 'gen':
                continue
            for k in ('fault', 'intrude'):
                if k in s:
                    yield steps[:i] + [{a: b for a, b in s.items() if a != k}] + steps[i + 1:]
            if s['git'] != 'ok':
                yield steps[:i] + [dict(s, git='ok')] + steps[i + 1:]
            if 'fault' in s and s['fault'][0] > 1:
                for k in (1, s['fault'][0] // 2):
                    if k != s['fault'][0] and k >= 1:
                        yield steps[:i] + [dict(s, fault=[k, s['fault'][1]])] + steps[i + 1:]

    def nontrivial(self, ex):
        out = []
        pre = False
        for s, o in zip(ex.steps, ex.log):
            if s['do'] == 'gen' and (o.get('fired') or o.get('intruded') or s['git'] != 'ok' or pre):
                out.append(hashlib.blake2b(json.dumps([s, o], sort_keys=True, default=str).encode(), digest_size=8).digest())
            pre = True
        return out

    def extra_evidence(self, agg):
        st = agg['stats']
        return {'simulated_time': 'no clock is involved; simulated progress is counted in file-system operations',
                'file_system_operations': int(st['fsops']), 'operations_per_clean_run': self.nops}
