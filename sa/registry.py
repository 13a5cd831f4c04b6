"""Property id -> (check function, level, title)."""
import importlib
import pkgutil

from . import checks

CHECKS = {}
for _m in sorted(m.name for m in pkgutil.iter_modules(checks.__path__)):
    mod = importlib.import_module('sa.checks.' + _m)
    for pid, (fn, title) in getattr(mod, 'CHECKS', {}).items():
        CHECKS[pid] = (fn, 'other', title)
