#!/usr/bin/env python
"""Check one property:  run.py <property> [quick|thorough]   |   run.py replay <file>"""
import os
import sys
import json
import time
import glob
import importlib
import multiprocessing
import traceback
import warnings

os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('PYVC_CHILD') != '1':
    os.environ['PYVC_CHILD'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:])

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import pyvc.boot  # noqa
import logging
logging.disable(logging.CRITICAL)

EVID = os.path.join(HERE, 'evidence')
CHECKER = 'python run.py {} {}  (pyvc VC generator over /repo/dp ASTs; z3, cvc5 back ends)'


def load():
    errors = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        m = os.path.basename(f)[:-3]
        if m.startswith('_'):
            continue
        try:
            importlib.import_module(f'contracts.{m}')
        except Exception as e:
            errors[m] = f'{e!r}\n{traceback.format_exc(limit=-4)}'
    from pyvc.contract import CONTRACTS
    from pyvc.boot import restore_class_cells
    restore_class_cells()
    return CONTRACTS, errors


def job(c, tier, seed, q):
    try:
        q.put(('ok', check_contract(c, tier, seed, lambda part: q.put(('part', part)))))
    except BaseException as e:
        q.put(('err', f'{e!r}\n{traceback.format_exc()}'))


def check_contract(c, tier, seed, report=lambda part: None):
    from pyvc import contract as C
    t0 = time.time()
    quick = tier == 'quick'
    n = int((400 if quick else 6000) * c.gen_n)
    budget = 8 if quick else 90
    out = {'name': c.name, 'mode': c.mode, 'obls': [], 'violation': None}
    # 1. the executable contract on the real code
    tried, acc, bad = C.native_search(c, seed, n, budget)
    out['native_tried'], out['native_checked'] = tried, acc
    note_violation(out, bad, seed)
    out['wall'] = round(time.time() - t0, 2)
    out['unsupported'] = 'time limit of the verifier reached' if c.mode == 'proof' else None
    report(dict(out))
    # 2. the verifier
    v = None
    if c.mode == 'proof':
        v = C.verify(c, tmo=10 if quick else 30, cross=not quick)
        out['unsupported'] = v.unsupported
        out['paths'] = v.paths
        out['reach'] = v.reach
        out['loop_obls'] = v.loop_obls
        out['solver_time'] = round(v.solver_time, 3)
        out['used_models'] = sorted(v.used_models)
        out['assumed'] = sorted(v.assumed)
        out['inlined'] = sorted(v.inlined)
        out['incomplete'] = v.incomplete_code or (v.incomplete and not c.eq_positive)
        out['obls'] = [(f'{c.name}/{o.name}@path{o.path}', o.status, o.solver, round(o.secs, 3), o.detail) for o in v.obls]
    failed = [o for o in (v.obls if v else []) if o.status == 'sat']
    # a refutation is only evidence when nothing on the way to it was approximated
    sure = v is not None and not (v.incomplete or v.incomplete_code)
    # 3. a refuted obligation: replay the model, then look harder for a failing input
    if bad is None and failed:
        for o in failed[:6]:
            if o.model is None:
                continue
            try:
                env = C.concretise(c, o.model)
            except Exception:
                continue
            r = C.native_check(c, env)
            if r.status == 'fail':
                bad = r
                bad.k = 'verifier model'
                bad.seed = seed
                break
    if bad is None and (failed or (v and any(o.status == 'unknown' for o in v.obls)) or (v and v.unsupported)):
        t2, a2, bad = C.native_search(c, f'{seed}x', n * 12, budget * 5)
        out['native_tried'] += t2
        out['native_checked'] += a2
    note_violation(out, bad, seed)
    failed = [o for o in failed if not o.folds]
    if bad is None and failed and sure:
        o = failed[0]
        out['violation'] = {'clause': o.name, 'info': f'obligation {c.name}/{o.name}@path{o.path} refuted by {o.solver}; {o.detail}\nmodel:\n{str(o.model)[:6000]}', 'k': None, 'seed': seed, 'input': False}
    out['wall'] = round(time.time() - t0, 2)
    return out


def harder(c, tier, seed, part, q):
    """The verifier ran out of time: look harder for a failing input."""
    from pyvc import contract as C
    try:
        quick = tier == 'quick'
        t2, a2, bad = C.native_search(c, f'{seed}x', int((400 if quick else 6000) * c.gen_n) * 12, 40 if quick else 450)
        part['native_tried'] += t2
        part['native_checked'] += a2
        note_violation(part, bad, seed)
    except BaseException as e:
        part['unsupported'] = f'{part["unsupported"]}; {e!r}'
    q.put(('ok', part))


def note_violation(out, bad, seed):
    if bad is not None:
        out['violation'] = {'clause': bad.clause, 'info': bad.info, 'k': getattr(bad, 'k', None), 'seed': getattr(bad, 'seed', seed), 'input': True}


def run_all(cs, tier, seed, limit, total):
    ctx = multiprocessing.get_context('fork')
    pending = list(cs)
    live = []
    results = []
    t0 = time.time()
    while pending or live:
        while pending and len(live) < 8:
            c = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=job, args=(c, tier, seed, q), daemon=True)
            p.start()
            live.append([c, p, q, time.time(), None, False])
        time.sleep(0.02)
        for it in list(live):
            c, p, q, st, part, again = it
            got = None
            try:
                got = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    try:
                        got = q.get(timeout=1)
                    except Exception:
                        got = ('ok', part) if part else ('err', f'worker died with code {p.exitcode}')
                elif time.time() - st > (max(90, limit / 5) if again else limit) or time.time() - t0 > total + (60 if again or part is None else 0):
                    p.kill()
                    if part and not part['violation'] and not again:
                        q = ctx.Queue()
                        p = ctx.Process(target=harder, args=(c, tier, seed, part, q), daemon=True)
                        p.start()
                        it[1], it[2], it[3], it[5] = p, q, time.time(), True
                        continue
                    got = ('ok', part) if part else ('err', 'time limit of the contract reached')
            if got is not None and got[0] == 'part':
                it[4] = got[1]
            elif got is not None:
                p.join(timeout=2)
                live.remove(it)
                results.append((c, got))
    return results


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if sys.argv[1] == 'selftest':
        return selftest()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    contracts, errors = load()
    mine = [c for c in contracts if pid in c.prop]
    from pyvc import lemmas
    lem = lemmas.prove_all()
    results = run_all(mine, tier, seed, 240 if tier == 'quick' else 3000, 760 if tier == 'quick' else 36000)
    known = load_known(pid)
    obls = disc = 0
    undecided = []
    bounded = []
    viols = []
    kf = []
    trusted = set()
    per = []
    samples = []
    for name, ok in lem:
        obls += 1
        disc += ok
        if not ok:
            undecided.append(f'fold lemma {name} not proved')
    for m, e in errors.items():
        undecided.append(f'contract module {m} could not be attached to the code: {e.splitlines()[0]}')
        print(f'UNDECIDED: contracts/{m}.py does not attach: {e}')
    native = 0
    solver_time = 0.0
    backends = {}
    functions = set()
    for c, (st, r) in sorted(results, key=lambda x: x[0].name):
        if st == 'err':
            undecided.append(f'{c.name}: {r.splitlines()[0]}')
            print(f'UNDECIDED: {c.name}: {r}')
            continue
        native += r['native_checked']
        po = r['obls']
        unproved = [o for o in po if o[1] != 'proved']
        obls += len(po) + r.get('loop_obls', 0)
        disc += len(po) - len(unproved) + r.get('loop_obls', 0)
        solver_time += r.get('solver_time', 0)
        for o in po:
            if o[1] == 'proved':
                backends[o[2]] = backends.get(o[2], 0) + 1
        functions |= set(r.get('inlined', []))
        for m in r.get('used_models', []):
            trusted.add('model: ' + m)
        for m in r.get('assumed', []):
            trusted.add('collaborator contract: ' + m)
        status = 'proved'
        if c.mode != 'proof':
            status = 'bounded (by design)'
            bounded.append(f'{c.name}: {c.note or "outside the verified subset"}; {r["native_checked"]} inputs executed')
        elif r.get('unsupported'):
            status = 'bounded (source outside the verified subset: ' + r['unsupported'][:200] + ')'
            bounded.append(f'{c.name}: {r["unsupported"][:200]}; {r["native_checked"]} inputs executed')
            obls += 1
        elif r.get('incomplete') and not unproved:
            status = 'bounded (a sequence equality was only approximated)'
            bounded.append(f'{c.name}: {status}; {r["native_checked"]} inputs executed')
        elif not po:
            status = 'no obligation generated'
            undecided.append(f'{c.name}: no obligation generated')
        elif unproved:
            status = 'not proved: ' + ', '.join(sorted({o[0] + '=' + o[1] for o in unproved})[:4])
            if not r['violation']:
                bounded.append(f'{c.name}: {status}; {r["native_checked"]} inputs executed')
        if c.mode == 'proof' and r.get('reach') not in ('sat', 'unknown') and not r.get('unsupported'):
            undecided.append(f'{c.name}: precondition unsatisfiable ({r.get("reach")})')
        if r['native_checked'] == 0:
            undecided.append(f'{c.name}: precondition never met by an executed input')
        per.append({'contract': c.name, 'statement': c.statement, 'status': status, 'paths': r.get('paths'), 'obligations': len(po), 'proved': len(po) - len(unproved),
                    'native_inputs': r['native_checked'], 'wall_s': r['wall'], 'functions': r.get('inlined', [])})
        if r['violation']:
            vi = r['violation']
            hit = [k for k in known if k['contract'] == c.name and k['clause'] == vi['clause'] and k['contains'] in vi['info']]
            if hit:
                kf.append(hit[0])
            else:
                viols.append((c, vi, po))
    for k in kf:
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    for c, vi, po in viols:
        path = os.path.join(EVID, 'replay', f'{pid}-{c.name.replace("/", "_")}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'contract': c.name, 'statement': c.statement, 'failed_obligation': f'{c.name}/{vi["clause"]}', 'seed': vi['seed'], 'k': vi['k'],
                       'failing_input': vi['info'] if vi['input'] else None, 'verifier_output': vi['info'] if not vi['input'] else [o for o in po if o[1] != 'proved'][:20],
                       'how': f'python run.py replay {path}'}, f, indent=1, default=str)
        print(f'failed obligation {c.name}/{vi["clause"]}: {vi["info"][:1500]}')
        print(f'VIOLATION property={pid} replay={path}' + ('' if vi['input'] else ' no-failing-input-found'))
    for u in undecided:
        print('UNDECIDED:', u)
    allproof = not bounded and not undecided and mine and all(c.mode == 'proof' for c in mine)
    level = 'proof' if any(p['status'] == 'proved' for p in per) else 'exploration'
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obls, 'discharged': disc, 'checker_cmd': CHECKER.format(pid, tier),
            'trusted_base': ['pyvc: the symbolic executor and its models of Python semantics (/verif/pyvc)', 'z3 ' + __import__('z3').get_version_string(), 'cvc5 (second back end)',
                             'Decimal arithmetic as exact real arithmetic, int as unbounded integers', 'finite-set cardinality facts', 'input type descriptors in /verif/contracts'] + sorted(trusted),
            'functions_under_contract': sorted(functions), 'back_ends': backends, 'solver_time_s': round(solver_time, 2),
            'bounded_stand_ins': bounded, 'undecided': undecided, 'contracts': per,
            'evaluations': native, 'fully_proved': bool(allproof),
        },
        'assumptions': sorted(trusted) + [f'bounded, not proved: {b}' for b in bounded] + [f'undecided: {u}' for u in undecided],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viols),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid} {tier}: {len(mine)} contracts, {disc}/{obls} obligations discharged, {native} executed inputs, {len(bounded)} bounded, {len(undecided)} undecided, {len(viols)} violations, {ev["wall_s"]} s')
    if '-v' in sys.argv:
        for p in per:
            print('  ', p['contract'], '|', p['status'], '| paths', p['paths'], '| native', p['native_inputs'], '|', p['wall_s'], 's')
    return 1 if viols else 0


def selftest():
    """The framework attaches to the code, and the fold lemmas the verifier relies on are proved."""
    contracts, errors = load()
    from pyvc import lemmas
    lem = lemmas.prove_all()
    for m, e in errors.items():
        print(f'contracts/{m}.py does not attach: {e}')
    for name, ok in lem:
        if not ok:
            print(f'fold lemma {name} not proved')
    print(f'{len(contracts)} contracts, {sum(ok for _, ok in lem)}/{len(lem)} fold lemmas proved')
    return 0


def load_known(pid):
    """known_findings.txt: lines 'known: {json}' suppress, lines 'fixed: ...' only document."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: '):
                d = json.loads(line[7:])
                if d['property'] == pid:
                    out.append(d)
    return out


def replay(path):
    d = json.load(open(path))
    contracts, errors = load()
    from pyvc import contract as C
    import random
    for c in contracts:
        if c.name == d['contract']:
            if isinstance(d['k'], int):
                env = C.gen_env(c, random.Random(f"{c.name}/{d['seed']}/{d['k']}"), C.constants_of(c, d['seed']))
                r = C.native_check(c, env)
                print(r.status, r.clause, r.info)
                return 1 if r.status == 'fail' else 0
            print(json.dumps(d, indent=1))
            r = check_contract(c, 'quick', 1)
            print(r['violation'])
            return 1 if r['violation'] else 0
    print('contract not found')
    return 2


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        print('UNDECIDED: internal error of the check', repr(e))
        traceback.print_exc()
        sys.exit(2)
