"""list the contracts of every property: contracts.py [ID..]"""
import os, sys
os.environ['PYVC_CHILD'] = '1'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
cs, err = run.load()
by = {}
for c in cs:
    for p in ([c.prop] if isinstance(c.prop, str) else c.prop):
        by.setdefault(p, []).append(c.name + ('[bounded]' if c.mode == 'bounded' else ''))
for k in sorted(by):
    if sys.argv[1:] and k not in sys.argv[1:]:
        continue
    print(k, len(by[k]), ' '.join(by[k]))
