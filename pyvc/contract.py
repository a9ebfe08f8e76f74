"""Contracts: declaration, symbolic discharge, native execution, replay."""
import copy
import hashlib
import inspect
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from decimal import Decimal
from .values import *
from .vm import *
from .engine import Engine
from .boot import REPO
from . import types as T

CONTRACTS = []


class Contract:
    def __init__(self, prop, name, call, args, ensures, requires=None, old=None, exc=None, ghost=None, gen=None,
                 functions=(), mode='proof', summaries=None, statement='', gen_n=1.0, setup=None, max_paths=4000, conc=None, note='', eq_positive=False, least=False, doubles=None):
        self.doubles = doubles or {}     # {function of the code: stand-in used in its place, by the proof and natively}
        self.least = least               # add least-element facts for prefix searches
        self.eq_positive = eq_positive   # every sequence equality in `ensures` occurs positively
        self.prop = prop if isinstance(prop, (list, tuple)) else [prop]
        self.name = name
        self.call = call
        self.args = args
        self.ensures = ensures if isinstance(ensures, dict) else {'post': ensures}
        self.requires = requires
        self.old = old
        self.exc = exc
        self.ghost = ghost or {}
        self.gen = gen
        self.functions = list(functions)
        self.mode = mode
        self.summaries = summaries or {}
        self.statement = statement
        self.gen_n = gen_n
        self.max_paths = max_paths
        self.conc = conc
        self.note = note
        CONTRACTS.append(self)


def params(fn):
    return list(inspect.signature(fn).parameters)


def pick(fn, env):
    return [env[p] for p in params(fn)]


# ----------------------------------------------------------------- native side
class G:
    """The source of generated inputs: a random stream, and now and then the constants of the code that runs."""
    def __init__(self, rng, words=(), numbers=()):
        self.rng = rng
        wordy = words or numbers
        wordy = wordy and rng.random() < 0.25
        self.words = words if wordy else ()
        self.numbers = numbers if wordy else ()


def constants_of(c, seed):
    """The string and number literals of the functions of the code that a few inputs execute."""
    if getattr(c, 'words', None) is not None:
        return c.words
    c.words = ((), ())
    seen = set()

    def note(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(REPO):
            seen.add(frame.f_code)
    for k in range(12):
        try:
            env = gen_env(c, random.Random(f'{c.name}/{seed}/{k}'))
        except Exception:
            break
        old = sys.getprofile()
        sys.setprofile(note)
        try:
            native_check(c, env)
        except Exception:
            pass
        finally:
            sys.setprofile(old)
    words, numbers = set(), set()
    todo = list(seen)
    while todo:
        co = todo.pop()
        doc = co.co_consts[0] if co.co_consts else None
        for k in co.co_consts:
            if isinstance(k, type(co)):
                todo.append(k)
            for x in (k if isinstance(k, (tuple, frozenset)) else (k,)):
                if isinstance(x, str) and 0 < len(x) <= 30 and x is not doc and '\n' not in x and '%' not in x:
                    words.update((x, x + 'a'))
                elif isinstance(x, int) and not isinstance(x, bool) and abs(x) <= 3000:
                    numbers.update((x - 1, x, x + 1))
    c.words = (tuple(sorted(words)), tuple(sorted(numbers)))
    return c.words


class NativeResult:
    def __init__(self, status, clause=None, info=''):
        self.status = status      # ok | skip | fail | error
        self.clause = clause
        self.info = info


class Outside(Exception):
    """Raised by a harness that cannot judge what the code did (the input is then not counted)."""


class standing_in:
    """Replace functions, wherever a module of the code holds them, by stand-ins."""
    def __init__(self, doubles):
        self.doubles = doubles
        self.put = []

    def __enter__(self):
        if not self.doubles:
            return
        byid = {id(f): d for f, d in self.doubles.items()}
        for name, mod in list(sys.modules.items()):
            if name == 'dp' or name.startswith('dp.'):
                for k, v in list(vars(mod).items()):
                    if id(v) in byid:
                        self.put.append((mod, k, v))
                        setattr(mod, k, byid[id(v)])
                    elif isinstance(v, type) and v.__module__ == name:
                        for m, w in list(vars(v).items()):
                            if isinstance(w, staticmethod) and id(w.__func__) in byid:
                                self.put.append((v, m, w))
                                setattr(v, m, staticmethod(byid[id(w.__func__)]))

    def __exit__(self, *a):
        for mod, k, v in self.put:
            setattr(mod, k, v)


def native_check(c, env):
    with standing_in(c.doubles):
        return native_check_(c, env)


def native_check_(c, env):
    """Run the real code on concrete arguments and evaluate the contract."""
    try:
        if c.requires is not None and not c.requires(*pick(c.requires, env)):
            return NativeResult('skip')
    except Exception as e:
        return NativeResult('skip', info=f'requires raised {e!r}')
    env = dict(env)
    shown = {k: short(v) for k, v in env.items()}
    if c.old is not None:
        env['old'] = c.old(*pick(c.old, env))
    try:
        r = c.call(*pick(c.call, env))
        if inspect.isgenerator(r):
            r = list(r)
        env['result'] = r
    except Outside as e:
        return NativeResult('skip', info=str(e))
    except Exception as e:
        env['exc'] = type(e)
        ok = False
        if c.exc is not None:
            try:
                ok = c.exc(*pick(c.exc, env))
            except Exception as e2:
                return NativeResult('error', 'exceptional', f'{e2!r}')
        if ok:
            return NativeResult('ok')
        tb = traceback.format_exc(limit=-3)
        return NativeResult('fail', 'no-unexpected-exception', f'args={shown} raised {e!r}\n{tb}')
    for nm, f in c.ensures.items():
        try:
            ok = f(*pick(f, env))
        except Exception as e:
            return NativeResult('fail', nm, f'args={shown} result={short(env["result"])} postcondition raised {e!r} {traceback.format_exc(limit=-2)}')
        if not ok:
            return NativeResult('fail', nm, f'args={shown} result={short(env["result"])} old={short(env.get("old"))}')
    return NativeResult('ok')


def short(v, n=1500):
    try:
        s = repr(v)
    except Exception:
        s = f'<{type(v).__name__}>'
    return s if len(s) < n else s[:n] + '...'


def gen_env(c, rng, words=((), ())):
    g = G(rng, *words)
    if c.gen is not None:
        env = c.gen(g)
    else:
        env = {}
    for k, t in list(c.args.items()) + list(c.ghost.items()):
        if k not in env:
            env[k] = t.gen(g)
    return env


def native_search(c, seed, n, budget):
    """-> (tried, accepted, failure or None)"""
    t0 = time.time()
    tried = acc = 0
    words = constants_of(c, seed)
    for k in range(n):
        if k > 20 and time.time() - t0 > budget:
            break
        rng = random.Random(f'{c.name}/{seed}/{k}')
        try:
            env = gen_env(c, rng, words)
        except Exception as e:
            raise RuntimeError(f'generator of {c.name}: {e!r}\n{traceback.format_exc()}')
        tried += 1
        r = native_check(c, env)
        if r.status == 'skip':
            continue
        acc += 1
        if r.status in ('fail', 'error'):
            r.k = k
            r.seed = seed
            return tried, acc, r
    return tried, acc, None


# --------------------------------------------------------------- model -> input
class ModelView:
    def __init__(self, model):
        self.m = model
        self.strs = {}
        self.paths = {}
        self.objs = {}
        self.back = {}
        from .values import _lits
        for s, c in list(_lits.items()):
            v = self.m.eval(c, model_completion=False)
            if not v.eq(c):
                self.strs.setdefault(str(v), s)

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def string(self, t):
        v = str(self.ev(t))
        if v not in self.strs:
            if v.startswith('lit:'):
                self.strs[v] = v[4:]
            else:
                h = self.strs.get(str(self.ev(char0(t))), '')
                n = len(self.strs)
                self.strs[v] = (self.affix('str_startswith', t) or (h if len(h) == 1 else '')) + f's{n}' + self.affix('str_endswith', t)
        return self.strs[v]

    def affix(self, name, t):
        """The longest literal the model says this text starts (ends) with."""
        from .values import _lits
        f = z3.Function(name, StrSort, StrSort, z3.BoolSort())
        return max((s for s, c in list(_lits.items()) if len(s) > 1 and z3.is_true(self.ev(f(t, c)))), key=len, default='')

    def path(self, t):
        n = self.ev(path_len(t)).as_long()
        if n > 12:
            raise Unsupported('model path too long')
        return tuple(self.string(path_at(t, z3.IntVal(i))) for i in range(max(n, 0)))

    def obj(self, desc, t):
        key = (desc.name, str(self.ev(t)))
        if key not in self.objs:
            o = desc.conc_at(self, t)
            self.objs[key] = o
            self.back[id(o)] = t
        return self.objs[key]

    def term_of(self, v):
        if id(v) in self.back:
            return self.back[id(v)]
        if isinstance(v, str):
            return str_lit(v)
        raise Unsupported('no term for a stub argument')


# ------------------------------------------------------------------ obligations
class Obl:
    def __init__(self, name, path, status, solver='', secs=0.0, detail='', model=None):
        self.name = name
        self.path = path
        self.status = status
        self.solver = solver
        self.secs = secs
        self.detail = detail
        self.model = model


def cvc5_check(solver, timeout):
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        try:
            out = subprocess.run(['cvc5', f'--tlimit={int(timeout * 1000)}', '--quiet', p], capture_output=True, text=True, timeout=timeout + 5).stdout
        except (subprocess.TimeoutExpired, FileNotFoundError):
            return 'unknown'
        for line in out.splitlines():
            if line.strip() in ('sat', 'unsat', 'unknown'):
                return line.strip()
        return 'unknown'
    finally:
        os.unlink(p)


def skolem(vm, f):
    """Name the witnesses of the top-level existentials (so lemmas can speak about them)."""
    f = simp(f)
    if z3.is_not(f) and z3.is_quantifier(f.arg(0)) and f.arg(0).is_forall():
        q, pos = f.arg(0), False
    elif z3.is_quantifier(f) and f.is_exists():
        q, pos = f, True
    elif z3.is_and(f):
        return z3.And(*[skolem(vm, c) for c in f.children()])
    elif z3.is_not(f) and z3.is_or(f.arg(0)):
        return z3.And(*[skolem(vm, z3.Not(c)) for c in f.arg(0).children()])
    elif z3.is_or(f) or (z3.is_not(f) and z3.is_and(f.arg(0))):
        cs = f.children() if z3.is_or(f) else [z3.Not(c) for c in f.arg(0).children()]
        return z3.Or(*[skolem(vm, c) for c in cs])
    else:
        return f
    vs = [z3.Const(vm.fresh_name('sk'), q.var_sort(i)) for i in range(q.num_vars())]
    b = z3.substitute_vars(q.body(), *reversed(vs))
    return skolem(vm, b if pos else z3.Not(b))


def small_model(s, exprs, bound=2):
    """A refutation with short sequences, when there is one: only such a model can be replayed."""
    seen, lens, todo = set(), {}, list(exprs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name().endswith('#len'):
                lens[x.decl().name()] = x.decl()
            todo.extend(x.children())
    if not lens:
        return None
    s.push()
    s.set('timeout', 1500)
    try:
        for d in lens.values():
            vs = [z3.Const(f'sm!{i}', d.domain(i)) for i in range(d.arity())]
            s.add(z3.ForAll(vs, d(*vs) <= bound) if vs else d() <= bound)
        return s.model() if s.check() == z3.sat else None
    finally:
        s.pop()


def discharge(vm, ctx, goal, tmo, cross=False):
    """-> (status, solver, secs, model)"""
    t0 = time.time()
    g = simp(goal)
    if z3.is_true(g):
        return 'proved', 'simplifier', time.time() - t0, None
    ex = list(ctx) + [skolem(vm, z3.Not(g))]
    s = z3.Solver()
    s.set('timeout', int(tmo * 1000))
    for e in ex:
        s.add(e)
    for e in vm.lemmas(ex):
        s.add(e)
    r = s.check()
    dt = time.time() - t0
    if r == z3.unsat:
        if cross:
            r2 = cvc5_check(s, tmo)
            return 'proved', 'z3' + ('+cvc5' if r2 == 'unsat' else ('(cvc5 disagrees)' if r2 == 'sat' else '')), time.time() - t0, None
        return 'proved', 'z3', dt, None
    if r == z3.sat:
        model = s.model()
        return 'sat', 'z3', dt, small_model(s, ex) or model
    r2 = cvc5_check(s, tmo)
    if r2 == 'unsat':
        return 'proved', 'cvc5', time.time() - t0, None
    # try a different seed / tactic once
    s.set('timeout', int(tmo * 1000))
    s.set('smt.random_seed', 7)
    try:
        s.set('smt.mbqi', True)
    except z3.Z3Exception:
        pass
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', time.time() - t0, None
    if r == z3.sat or r2 == 'sat':
        model = s.model() if r == z3.sat else None
        return 'sat', 'z3' if r == z3.sat else 'cvc5', time.time() - t0, (small_model(s, ex) or model) if r == z3.sat else None
    return 'unknown', 'z3,cvc5', time.time() - t0, None


# string functions whose meaning the solver does not know
OPEN_STR = ('fn:', 'fstr', 'str:', 'split:', 'str_startswith', 'str_endswith', 'str_is', 'char0')


def uses_folds(vm, exprs):
    names = set(vm.sum_by_fn) | set(vm.card_by_fn) | set(vm.cont_by_fn) | vm.abstracted
    for e in exprs:
        stack, seen = [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and (x.decl().name() in names or x.decl().name().startswith(OPEN_STR)):
                return True
            stack.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False


class VerifyResult:
    def __init__(self):
        self.obls = []
        self.unsupported = None
        self.paths = 0
        self.reach = None
        self.used_models = set()
        self.assumed = set()
        self.inlined = set()
        self.incomplete = False
        self.incomplete_code = False
        self.solver_time = 0.0
        self.loop_obls = 0
        self.wall = 0.0


def verify(c, tmo=10, cross=False, on_fail_stop=False):
    """Symbolically execute the real code under the contract and discharge."""
    res = VerifyResult()
    t0 = time.time()
    vm = Engine(max_paths=c.max_paths)
    vm.least = c.least
    vm.spec_mods.add(c.call.__module__)
    vm.spec_mods.add('contracts.common')
    vm.spec_mods.add('pyvc.spec')
    for f, s in c.summaries.items():
        vm.summaries[f] = s
    for f, d in c.doubles.items():
        vm.summaries[f] = (lambda d: lambda vm, args, kwargs: vm.call(d, args, kwargs))(d)
    outcome = []

    def run():
        env = {}
        for k, t in list(c.args.items()) + list(c.ghost.items()):
            env[k] = t.sym(vm, k)
        if c.requires is not None:
            ok = vm.pure(lambda: vm.as_bool(vm.call_function(c.requires, pick(c.requires, env), {})))
            vm.assume(zb(vm.truthy(ok)))
        outcome_reach(vm)
        if c.old is not None:
            env['old'] = vm.call_function(c.old, pick(c.old, env), {})
        try:
            r = vm.call_function(c.call, pick(c.call, env), {})
            r = vm.resolve(r) if isinstance(r, SUnion) and any(isinstance(x, GenObj) for _, x in r.alts) else r
            if isinstance(r, GenObj):
                r = LCell(vm.materialize(r))
            env['result'] = r
            raised = None
        except PyRaise as e:
            raised = e.value
        k = len(outcome)
        if vm.incomplete:
            res.incomplete_code = True
            vm.incomplete = False
        if raised is not None:
            if c.exc is not None:
                env['exc'] = raised.cls
                goals = {'no-unexpected-exception': (c.exc, pick(c.exc, env))}
            else:
                goals = {'no-unexpected-exception': None}
        else:
            goals = {nm: (f, pick(f, env)) for nm, f in c.ensures.items()}
        for nm, fa in goals.items():
            if fa is None:
                goal = z3.BoolVal(False)
            else:
                f, a = fa

                def runp():
                    try:
                        return vm.as_bool(vm.call_function(f, a, {}))
                    except PyRaise:
                        return False
                paths = vm.explore(runp)
                vm.lift_paths(paths)
                if any(p.kind != 'ok' for p in paths):
                    raise Unsupported('postcondition control flow')
                goal = conj([z3.Implies(conj(p.pc), zb(vm.truthy(p.value))) for p in paths])
            ctx = vm.context()
            st, solver, secs, model = discharge(vm, ctx, goal, tmo, cross)
            res.solver_time += secs
            detail = ''
            if raised is not None:
                detail = f'raises {raised!r}'
            ob = Obl(nm, k, st, solver, secs, detail, model)
            # sums and cardinalities are known only through their lemmas: a refutation is then a hint, not a proof
            ob.folds = st == 'sat' and uses_folds(vm, list(ctx) + [goal])
            res.obls.append(ob)
        res.incomplete = res.incomplete or vm.incomplete
        vm.incomplete = False
        outcome.append(1)

    reached = []

    def outcome_reach(vm):
        if reached:
            return
        s = z3.Solver()
        s.set('timeout', 3000)
        ex = vm.context()
        for e in ex:
            s.add(e)
        for e in vm.lemmas(ex):
            s.add(e)
        reached.append(str(s.check()))
    try:
        vm.explore(run)
    except Unsupported as e:
        res.unsupported = str(e)
        tb = e.__traceback__
        where = []
        while tb is not None:
            tb = tb.tb_next
    except z3.Z3Exception as e:
        res.unsupported = f'z3: {e}'
    except RecursionError:
        res.unsupported = 'recursion limit'
    except Exception as e:
        res.unsupported = f'internal: {e!r} {traceback.format_exc(limit=-2)}'
    res.paths = len(outcome)
    res.reach = reached[0] if reached else 'none'
    res.used_models = vm.used_models
    res.assumed = vm.assumed
    res.inlined = {x for x in vm.inlined if x.startswith('dp')}
    res.incomplete = res.incomplete or vm.incomplete or res.incomplete_code
    res.solver_time += vm.solver_time
    res.loop_obls = vm.loop_obls
    res.wall = time.time() - t0
    return res


def concretise(c, model):
    mv = ModelView(model)
    env = {}
    if c.conc is not None:
        env = c.conc(mv)
    for k, t in list(c.args.items()) + list(c.ghost.items()):
        if k not in env:
            env[k] = t.conc(mv, k)
    return env
