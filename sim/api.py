"""Discovery of the public API of the tree under test."""
import inspect
import types


def _odds_ratio_ci(table, kind='conditional', alternative='two-sided', confidence_level=0.95):
    from mpsci import stats
    return stats.odds_ratio(table, kind=kind, alternative=alternative).odds_ratio_ci(confidence_level)


def discover():
    """Return {qualified name: function} for every public function."""
    import mpsci
    api = {}
    for name in sorted(dir(mpsci.distributions)):
        mod = getattr(mpsci.distributions, name)
        if name.startswith('_') or not isinstance(mod, types.ModuleType):
            continue
        names = set(getattr(mod, '__all__', ()))
        names |= {n for n, o in vars(mod).items()
                  if not n.startswith('_') and inspect.isfunction(o) and o.__module__ == mod.__name__}
        for fn in sorted(names):
            o = getattr(mod, fn, None)
            if callable(o) and not isinstance(o, type):
                api[f'distributions.{name}.{fn}'] = o
    for sub in ('fun', 'stats'):
        mod = getattr(mpsci, sub)
        for fn in sorted(dir(mod)):
            o = getattr(mod, fn)
            if fn.startswith('_') or not callable(o) or isinstance(o, type):
                continue
            if not getattr(o, '__module__', '').startswith('mpsci'):
                continue
            api[f'{sub}.{fn}'] = o
    if hasattr(mpsci.stats, 'odds_ratio'):
        api['stats.odds_ratio_ci'] = _odds_ratio_ci
    return api


def params(fn):
    try:
        return [(p.name, p.kind, p.default) for p in inspect.signature(fn).parameters.values()]
    except (TypeError, ValueError):
        return []
