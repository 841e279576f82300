"""Child of envs.py: run a list of calls in this fresh interpreter under a simulated environment (stdin -> stdout, JSON)."""
import json
import os
import sys

ERR = 2
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def simulate(env, repo):
    """Clock, randomness, environment and identity as seen by the code under test."""
    import datetime
    import random
    import time
    reads = {'clock': 0, 'random': 0, 'environ': 0}
    rng = random.Random('env/%s' % env['seed'])
    base = {'now': 1.7e9, '1970': 0.0, '2040': 2.2e9, '1999': 9.3e8}[env['epoch']]
    clk = env['clock']
    st = {'wall': base, 'mono': 1000.0}

    def tick():
        reads['clock'] += 1
        if clk == 'frozen':
            d = 0.0
        elif clk == 'fast':
            d = rng.choice([0.5, 30.0, 3600.0, 1e6])
        elif clk == 'leaps' and rng.random() < 0.1:
            d = rng.choice([2.0, 700.0, 1e5])
        else:
            d = 1e-6
        st['mono'] += d
        st['wall'] += d
        if clk == 'jumps' and rng.random() < 0.5:
            st['wall'] = max(0.0, st['wall'] + rng.choice([-1e6, -3600.0, 86400.0, 1e7]))
            st['mono'] += rng.choice([0.0, 0.0, 86400.0])

    def wall():
        tick()
        return st['wall']

    def mono():
        tick()
        return st['mono']
    real = {n: getattr(time, n) for n in ('localtime', 'gmtime', 'strftime', 'ctime', 'asctime', 'mktime')}
    time.time = wall
    time.time_ns = lambda: int(wall() * 1e9)
    for n in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
        setattr(time, n, mono)
        setattr(time, n + '_ns', lambda: int(mono() * 1e9))
    time.clock_gettime = lambda c: mono()
    time.clock_gettime_ns = lambda c: int(mono() * 1e9)
    time.localtime = lambda s=None: real['localtime'](wall() if s is None else s)
    time.gmtime = lambda s=None: real['gmtime'](wall() if s is None else s)
    time.ctime = lambda s=None: real['ctime'](wall() if s is None else s)
    time.strftime = lambda f, t=None: real['strftime'](f, time.localtime() if t is None else t)
    time.sleep = lambda s: None
    os.times = lambda: os.times_result((mono(), 0.0, 0.0, 0.0, mono()))

    class SimDateTime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(wall(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(wall(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(wall())

    class SimDate(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(wall())
    datetime.datetime, datetime.date = SimDateTime, SimDate

    # randomness: the operating system's entropy is the simulator's, the global generator starts in a seeded state
    def urandom(n):
        reads['random'] += 1
        return bytes(rng.getrandbits(8) for _ in range(n))
    os.urandom = urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: urandom(n)
    random._urandom = urandom
    random.seed(env['seed'])
    from mpmath import mp
    mp.prec = 53
    real_pid = os.getpid
    pid = rng.randint(2, 60000)
    prefix = os.path.join(repo, 'mpsci') + os.sep

    def from_tree():
        f = sys._getframe(2)
        while f is not None and f.f_code.co_filename.endswith(('os.py', '_collections_abc.py', 'envrun.py')):
            f = f.f_back
        return f is not None and f.f_code.co_filename.startswith(prefix)

    def from_tree2():
        return sys._getframe(2).f_code.co_filename.startswith(prefix)
    os.getpid = lambda: pid if from_tree() else real_pid()
    real_cwd = os.getcwd
    os.getcwd = lambda: ('/sim/' + env['cwd']) if from_tree() else real_cwd()

    # environment variables the code under test asks for: present or absent, as the seed decides
    class Environ(type(os.environ)):
        def _sim(self, key):
            if not from_tree():
                return None
            reads['environ'] += 1
            r = __import__('random').Random('%s/%s' % (env['seed'], key))
            return r.choice([None, '1', '0', '7', '30', 'true', 'yes', '/nowhere', 'de_DE.UTF-8'])

        def __getitem__(self, key):
            v = self._sim(key)
            if v is not None:
                return v
            return super().__getitem__(key)

        def __contains__(self, key):
            return self._sim(key) is not None or super().__contains__(key)

        def get(self, key, default=None):
            v = self._sim(key)
            return super().get(key, default) if v is None else v
    os.environ.__class__ = Environ

    # identities of objects (memory layout), as far as a program can ask for them
    if env.get('ids') == 'scrambled':
        import builtins
        real_id = builtins.id
        mul, mask = rng.getrandbits(62) | 1, (1 << 62) - 1
        builtins.id = lambda o: (real_id(o) * mul & mask) if from_tree2() else real_id(o)

    # locale
    import locale
    conv = locale.localeconv()
    conv.update(decimal_point=env['point'], thousands_sep=',' if env['point'] == '.' else '.')
    locale.localeconv = lambda: conv
    locale.getlocale = lambda *a: ('de_DE', 'UTF-8') if env['point'] == ',' else ('C', 'UTF-8')

    # memory-management timing
    import gc
    if env['gc'] == 'off':
        gc.disable()
    elif env['gc'] == 'eager':
        gc.set_threshold(50, 2, 2)
    return reads


def in_tree(e):
    import core
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(os.path.join(core.REPO, 'mpsci') + os.sep)


def main():
    job = json.load(sys.stdin)
    out = os.dup(1)
    global ERR
    ERR = os.dup(2)
    n = os.open(os.devnull, os.O_RDWR)
    os.dup2(n, 1)
    os.dup2(n, 2)
    import core
    reads = {}
    if job['env'] is not None:
        reads = simulate(job['env'], core.REPO)
    w = core.World()
    res = []
    for c in job['calls']:
        if c['c']['f'] not in w.api:
            res.append(['missing', '', 0])
            continue
        t, f, v = w.call(c['c'], c['p'], budget=job['budget'])
        if t == 'err' and isinstance(v, AssertionError) and not in_tree(v):
            t = 'budget'        # the engine's own assertions may be switched off
        del v
        res.append([t if not w.seam.timed_out else 'budget', f, w.seam.last_n if t != 'budget' else 0])
    data = json.dumps({'res': res, 'reads': reads}).encode()
    with os.fdopen(out, 'wb') as f:
        f.write(data)
    os._exit(0)


if __name__ == '__main__':
    try:
        main()
    except BaseException:
        import traceback
        os.write(ERR, traceback.format_exc().encode())
        os._exit(3)
