"""Import path set-up: the code under verification from /repo, the solvers from the tool venv."""
import sys
import os
sys.dont_write_bytecode = True
REPO = os.environ.get('PYVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (VERIF, REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)
sys.setrecursionlimit(20000)

# /repo is always compiled from its source: a cached .pyc is matched by size and mtime (whole
# seconds) only, and would hide a change of the same length made in the same second
import importlib._bootstrap_external as _be
_cache = _be.cache_from_source


def _no_cache(path, *a, **k):
    if os.fspath(path).startswith(REPO + os.sep):
        raise NotImplementedError
    return _cache(path, *a, **k)


_be.cache_from_source = _no_cache


def restore_class_cells():
    """attrs 20.3 rebuilds a slotted class and, on Python 3.12, leaves the `__class__` cell of its
    methods at the class it replaced, so that `super()` raises; on the Python versions attrs 20.3
    supports it points at the new class.  Set those cells to it."""
    for name, m in list(sys.modules.items()):
        if name != 'dp' and not name.startswith('dp.') or m is None:
            continue
        for cls in list(vars(m).values()):
            if not isinstance(cls, type) or cls.__module__ != name:
                continue
            for f in list(vars(cls).values()):
                f = getattr(f, '__wrapped__', getattr(f, '__func__', f))
                code = getattr(f, '__code__', None)
                if code is None or '__class__' not in code.co_freevars:
                    continue
                cell = f.__closure__[code.co_freevars.index('__class__')]
                if cell.cell_contents is not cls and cell.cell_contents.__qualname__ == cls.__qualname__:
                    cell.cell_contents = cls
