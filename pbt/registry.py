import importlib
import os

_cache = {}


def ids():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')
    return sorted(f[:-3].upper() for f in os.listdir(d) if f.startswith('c') and f.endswith('.py'))


def load(pid):
    if pid not in _cache:
        _cache[pid] = importlib.import_module('pbt.checks.' + pid.lower()).C
    return _cache[pid]
