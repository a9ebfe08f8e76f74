"""rewrite the generated parts of DESIGN.md: the seeded changes, and the contracts per property that are bounded"""
import os, sys, json, glob, re
os.environ['PYVC_CHILD'] = '1'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import run

cs, err = run.load()
assert not err, err
by = {}
for c in cs:
    for p in ([c.prop] if isinstance(c.prop, str) else c.prop):
        by.setdefault(p, []).append(c)
bounded = ['| id | contracts | of which bounded stand-ins |', '|----|----|----|']
for p in sorted(by):
    b = sorted({c.name for c in by[p] if c.mode == 'bounded'})
    bounded.append(f"| {p} | {len(by[p])} | {', '.join(b) or 'none'} |")
seeds = ['| change | caught by | what it breaks |', '|----|----|----|']
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f))
    what = re.sub(r'\s+', ' ', m['what_it_breaks']).replace('|', '/')
    seeds.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {what[:170]} |")
text = open(ROOT + '/DESIGN.md').read()
for name, rows in (('bounded', bounded), ('seeds', seeds)):
    a, b = f'<!-- {name} -->', f'<!-- end {name} -->'
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + '\n' + '\n'.join(rows) + '\n' + text[j:]
open(ROOT + '/DESIGN.md', 'w').write(text)
