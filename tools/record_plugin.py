"""pytest plugin: record every call of a public mpsci function made while the tests run.
Used once, offline, to seed corpus/ (run under tools/record.sh)."""
import sys, os, json, inspect
sys.path.insert(0, '/verif/sim')
import codec, api as _api
import mpsci
from mpmath import mp
mon = sys.monitoring
TOOL = 4
API = _api.discover()
CODE = {}
for n, f in API.items():
    g = inspect.unwrap(f)
    if hasattr(g, '__code__'):
        CODE.setdefault(g.__code__, []).append(n)
REC = {}
def on_start(code, off):
    names = CODE.get(code)
    if names is None:
        return mon.DISABLE
    fr = sys._getframe(1)
    co = code
    try:
        nargs = co.co_argcount + co.co_kwonlyargcount
        vn = co.co_varnames[:nargs]
        loc = fr.f_locals
        kw = {k: codec.enc(loc[k]) for k in vn}
        i = nargs
        va = None
        if co.co_flags & 4:
            va = codec.enc(list(loc[co.co_varnames[i]])); i += 1
        if co.co_flags & 8:
            for k, v in loc[co.co_varnames[i]].items():
                kw[k] = codec.enc(v)
    except codec.Unsupported:
        return
    except Exception:
        return
    key = json.dumps([kw, va], sort_keys=True)
    if len(key) > 3000:
        return
    for n in names:
        d = REC.setdefault(n, {})
        if key in d:
            continue
        # is the caller a test (or a decorator called by a test)?
        b = fr.f_back
        while b is not None and 'mpmath' in b.f_code.co_filename:
            b = b.f_back
        direct = b is not None and '/tests/' in b.f_code.co_filename
        nd = sum(1 for v in d.values() if v == direct)
        if nd >= (200 if direct else 60):
            continue
        d[key] = direct
mon.use_tool_id(TOOL, 'rec')
mon.register_callback(TOOL, mon.events.PY_START, on_start)
mon.set_events(TOOL, mon.events.PY_START)
def pytest_sessionfinish(session, exitstatus):
    mon.set_events(TOOL, 0)
    out = os.environ['REC_OUT'] + '.' + str(os.getpid())
    json.dump({n: [[json.loads(k), v] for k, v in d.items()] for n, d in REC.items()}, open(out, 'w'))
