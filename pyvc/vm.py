"""pyvc: symbolic executor / verification-condition generator for the Python subset
used by dp/.  It interprets the AST of the functions found in /repo at run time;
nothing of the code under verification is written down here."""
import ast
import builtins
import collections
import collections.abc
import contextlib
import enum
import functools
import hashlib
import inspect
import itertools
import logging
import operator
import types as pytypes
import typing
from decimal import Decimal
import decimal
import attr
import os
import z3
from .values import *
from . import types as T


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, value):
        self.value = value


class ConsumerRaise(Exception):
    def __init__(self, inner):
        self.inner = inner


class ReturnSig(Exception):
    def __init__(self, frame, value):
        self.frame = frame
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class GenBreak(Exception):
    def __init__(self, token):
        self.token = token


class LoopCarried(Unsupported):
    def __init__(self, tok, why=''):
        super().__init__(f'loop-carried value {tok} {why}')
        self.tok = tok


class Frame(Cell):
    __slots__ = ('glob', 'parent', 'owner', 'self_', 'hook', 'fname', 'globals_decl', 'nonlocals', 'cells')

    def __init__(self, glob, parent=None, owner=None, self_=None, fname='?'):
        super().__init__()
        self.glob = glob
        self.parent = parent
        self.owner = owner
        self.self_ = self_
        self.hook = None
        self.fname = fname
        self.globals_decl = set()
        self.nonlocals = set()
        self.cells = {}


class Level:
    def __init__(self, script):
        self.script = list(script)
        self.pos = 0
        self.pc = []
        self.facts = []
        self.pending = []


class Path:
    def __init__(self, pc, facts, kind, value, diff):
        self.pc = pc
        self.facts = facts
        self.kind = kind
        self.value = value
        self.diff = diff


UNBOUND = object()
_file_index = {}


def _index_file(fname):
    if fname not in _file_index:
        with open(fname) as fh:
            tree = ast.parse(fh.read())
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx.setdefault((line, n.name), []).append(n)
            elif isinstance(n, ast.Lambda):
                idx.setdefault((n.lineno, '<lambda>'), []).append(n)
        _file_index[fname] = idx
    return _file_index[fname]


def fn_node(fn):
    code = fn.__code__
    nodes = _index_file(code.co_filename).get((code.co_firstlineno, code.co_name), [])
    if len(nodes) > 1 and code.co_name == '<lambda>':
        pos = [(l, c) for l, _, c, _ in code.co_positions() if l is not None and c is not None and (l, c) != (code.co_firstlineno, 0)]
        ends = [(el, ec) for _, el, _, ec in code.co_positions() if el is not None and ec is not None and ec != 0]
        lo, hi = min(pos), max(ends)
        nodes = [n for n in nodes if (n.body.lineno, n.body.col_offset) <= lo and hi <= (n.body.end_lineno, n.body.end_col_offset)]
    if len(nodes) != 1:
        raise Unsupported(f'cannot locate source of {fn}')
    return nodes[0]


_isgen = {}


def is_generator(node):
    if node not in _isgen:
        found = False
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    found = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
        _isgen[node] = found
    return _isgen[node]


def simp(t):
    if z3.is_true(t) or z3.is_false(t):
        return t
    if z3.is_quantifier(t):
        return z3.simplify(t)
    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        return t
    return z3.simplify(t)


_ev_cache = {}


def expr_vars(t, acc=None):
    """names of uninterpreted constants / function symbols occurring in t"""
    hit = _ev_cache.get(t.get_id())
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    if len(_ev_cache) > 200000:
        _ev_cache.clear()
    _ev_cache[t.get_id()] = (t, out)
    return out


REPO_PREFIX = ('dp.', 'dp')


class VM:
    def __init__(self, timeout_ms=400, max_paths=4000, max_depth=60):
        self.levels = []
        self.journal = []
        self.binders = []     # stack of (var, n)
        self.ctr = 0
        self.feas_cache = {}
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.depth = 0
        self.globals_overlay = Cell()
        self.summaries = {}
        self.used_models = set()
        self.assumed = set()
        self.inlined = set()
        self.n_feas = 0
        self.solver_time = 0.0
        self.sums = {}
        self.leasts = {}
        self.sum_by_fn = {}
        self.cards = {}
        self.card_by_fn = {}
        self.conts = {}
        self._folds = {}
        self.rec_ids = {}
        self.texts = {}   # name of a text function -> its pieces
        self._closed = {}
        self.cont_by_fn = {}
        self.abstracted = set()
        self.atoms = {}
        self.lits_used = {}
        self.choices = []
        self.spec_mods = set()
        self.loop_obls = 0
        self.inv_facts = []
        self.incomplete = False
        self.distinct = set()
        self.group_doms = {}

    # ------------------------------------------------------------ basics
    least = False

    def fresh_name(self, base):
        self.ctr += 1
        return f'{base}!{self.ctr}'

    def fresh_binder(self):
        return z3.Int(self.fresh_name('i'))

    def fresh(self, base, sort):
        bs = [v for v, _ in self.binders]
        nm = self.fresh_name(base)
        if bs:
            return z3.Function(nm, *[b.sort() for b in bs], sort)(*bs)
        return z3.Const(nm, sort)

    @contextlib.contextmanager
    def scope(self, binders):
        self.binders.extend(binders)
        try:
            yield
        finally:
            del self.binders[len(self.binders) - len(binders):]

    def fact(self, f):
        """Something true for the symbols introduced so far (in any path)."""
        self.levels[-1].facts.append((f, list(self.binders)))

    def assume(self, f):
        f = zb(f)
        self.levels[-1].pc.append(f)
        if z3.is_false(simp(f)):
            raise Infeasible()

    def close(self, f, binders):
        key = (f.get_id(), tuple((v.get_id(), n.get_id()) for v, n in binders))
        hit = self._closed.get(key)
        if hit is None:
            hit = self._closed[key] = (self._close(f, binders), f, list(binders))
        return hit[0]

    def _close(self, f, binders):
        names = expr_vars(f)
        used = [(v, n) for v, n in binders if v.decl().name() in names]
        # the lengths may mention other binders
        changed = True
        while changed:
            changed = False
            for v, n in list(used):
                nn = expr_vars(n)
                for v2, n2 in binders:
                    if v2.decl().name() in nn and not any(v2.eq(u) for u, _ in used):
                        used.append((v2, n2))
                        changed = True
        if not used:
            return f
        rng = conj([z3.And(v >= 0, v < n) for v, n in used])
        return z3.ForAll([v for v, _ in used], z3.Implies(rng, f))

    def context(self):
        out = []
        seen = set()
        for lv in self.levels:
            for f, bs in lv.facts:
                g = self.close(f, bs) if bs else f
                if g.get_id() not in seen:
                    seen.add(g.get_id())
                    out.append(g)
            out.extend(lv.pc)
        return out

    def lit_axioms(self, exprs):
        names = set()
        for e in exprs:
            names |= expr_vars(e)
        lits = [str_lit(n[4:]) for n in names if n.startswith('lit:')]
        out = []
        if 'char0' in names:
            heads = [(c, str_lit(c.decl().name()[4:5])) for c in lits]
            out.extend(char0(c) == h for c, h in heads)
            have = {c.decl().name() for c in lits}
            for h in [h for _, h in heads] + [str_lit('')]:
                if h.decl().name() not in have:
                    have.add(h.decl().name())
                    lits.append(h)
                    out.append(char0(h) == h)
        if len(lits) > 1:
            out.append(z3.Distinct(*lits))
        from .values import _path_lits
        pl = [(p, c) for p, c in _path_lits.items() if c.decl().name() in names]
        for p, c in pl:
            out.append(path_len(c) == len(p))
            for i, s in enumerate(p):
                out.append(path_at(c, i) == str_lit(s))
        if len(pl) > 1:
            out.append(z3.Distinct(*[c for _, c in pl]))
        return out

    def feasible(self, cond):
        ctx = self.context()
        key = (tuple(c.get_id() for c in ctx), cond.get_id())
        hit = self.feas_cache.get(key)
        if hit is not None:
            return hit[0]
        import time
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', self.timeout_ms)
        s.set('mbqi', False)     # only refutations matter here
        ex = ctx + [cond]
        for c in ex:
            s.add(c)
        for c in self.lemmas(ex):
            s.add(c)
        r = s.check()
        self.n_feas += 1
        self.solver_time += time.time() - t0
        ok = r != z3.unsat
        self.feas_cache[key] = (ok, ctx, cond)
        return ok

    def valid(self, goal, extra=(), timeout=3000):
        """Is goal implied by the current context? (True only if proved)"""
        import time
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', timeout)
        s.set('mbqi', False)
        ex = self.context() + list(extra) + [z3.Not(goal)]
        for c in ex:
            s.add(c)
        for c in self.lemmas(ex):
            s.add(c)
        r = s.check()
        self.solver_time += time.time() - t0
        return r == z3.unsat

    def contradictory(self, *also, timeout=5000):
        """Can this path not be taken at all? (asked only where the subset would be left)"""
        ex = self.context() + list(also)
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('smt.mbqi', True)
        for c in ex + list(self.lemmas(ex)):
            s.add(c)
        return s.check() == z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        lv = self.levels[-1]
        if lv.pos < len(lv.script):
            d, forced = lv.script[lv.pos]
            lv.pos += 1
        else:
            ct = self.feasible(cond)
            cf = self.feasible(neg(cond)) if ct else True
            if ct and cf:
                lv.pending.append(lv.script[:lv.pos] + [(False, False)])
                d, forced = True, False
            elif ct:
                d, forced = True, True
            else:
                d, forced = False, True
            lv.script = lv.script[:lv.pos] + [(d, forced)]
            lv.pos += 1
        if not forced:
            lv.pc.append(cond if d else neg(cond))
        return d

    # ---------------------------------------------------------- journaling
    def write(self, cell, key, val):
        old = cell.data.get(key, UNBOUND)
        self.journal.append((cell, key, old))
        cell.data[key] = val

    def unset(self, cell, key):
        old = cell.data.get(key, UNBOUND)
        self.journal.append((cell, key, old))
        cell.data.pop(key, None)

    def rollback(self, mark, before):
        while len(self.journal) > mark:
            cell, key, old = self.journal.pop()
            if cell.stamp > before:
                continue        # created on this path: its contents belong to the path's values
            if old is UNBOUND:
                cell.data.pop(key, None)
            else:
                cell.data[key] = old

    def diff(self, mark, before):
        out = {}
        for cell, key, old in self.journal[mark:]:
            if cell.stamp <= before:
                out[(cell, key)] = cell.data.get(key, UNBOUND)
        return out

    def explore(self, fn, reset_ctr=False, maxp=None):
        """All paths of fn() from the current state.  State is restored afterwards."""
        import pyvc.values as _v
        results = []
        work = [[]]
        ctr0 = self.ctr
        n = 0
        while work:
            script = work.pop()
            n += 1
            if n > (maxp or self.max_paths):
                raise Unsupported('too many paths')
            if reset_ctr:
                self.ctr = ctr0
            lv = Level(script)
            self.levels.append(lv)
            mark = len(self.journal)
            before = next(_v._stamp)
            nb = len(self.binders)
            depth = self.depth
            try:
                try:
                    kind, val = 'ok', fn()
                except PyRaise as e:
                    kind, val = 'raise', e.value
                except (ReturnSig, BreakSig, ContinueSig, GenBreak, ConsumerRaise) as e:
                    kind, val = 'sig', e
                except Infeasible:
                    kind, val = 'infeasible', None
                d = self.diff(mark, before)
            finally:
                self.levels.pop()
                self.rollback(mark, before)
                del self.binders[nb:]
                self.depth = depth
            work.extend(lv.pending)
            if kind != 'infeasible':
                results.append(Path(list(lv.pc), list(lv.facts), kind, val, d))
        return results

    def lift_paths(self, paths):
        """Bring facts of explored paths to the enclosing level."""
        for p in paths:
            c = conj(p.pc)
            for f, bs in p.facts:
                self.levels[-1].facts.append((f if z3.is_true(c) else z3.Implies(c, f), bs if len(bs) >= len(self.binders) else list(self.binders)))

    def pure(self, fn):
        """Evaluate fn with internal branching and merge the results.  Exceptions fork
        the enclosing path."""
        paths = self.explore(fn)
        for p in paths:
            if p.kind == 'sig':
                raise Unsupported('control flow out of expression')
            if not all(self.only_named(cell, key, new) for (cell, key), new in p.diff.items()):
                raise Unsupported(f'side effect inside pure expression {list(p.diff)[:2]}')
        self.lift_paths(paths)
        ok = [p for p in paths if p.kind == 'ok']
        bad = [p for p in paths if p.kind == 'raise']
        if bad:
            for p in bad:
                if self.branch(conj(p.pc)):
                    raise PyRaise(p.value)
        if not ok:
            raise Infeasible()
        return self.merge([(conj(p.pc), p.value) for p in ok])

    def only_named(self, cell, key, new):
        """The write only gave an initial entry of a symbolic mapping a name."""
        while isinstance(cell, DCell) and isinstance(new, SMap) and new.origin is not None:
            old, entry, contents = new.origin
            if entry.data != contents:
                return False
            if old is cell.data.get(key):
                return True
            new = old
        return False

    # -------------------------------------------------------------- lifting
    def lift_const(self, v):
        """Copy a concrete Python value into the VM (mutable containers become cells)."""
        if callable(v) and getattr(v, '__name__', '') == '<lambda>':
            v = v()
            return self.lift_fresh(v)
        return v

    def lift_fresh(self, v):
        if isinstance(v, dict):
            d = DCell(SMap(None), default=getattr(v, 'default_factory', None))
            for k, x in v.items():
                self.map_set(d, k, self.lift_fresh(x))
            return d
        if isinstance(v, list):
            return LCell(SSeq([CSeg([self.lift_fresh(x) for x in v])] if v else [], kind='list'))
        return v

    def path_value(self, p):
        i = self.fresh_binder()
        self.fact(path_len(p) >= 0)
        return SSeq([QSeg([(i, path_len(p))], z3.BoolVal(True), SStr(path_at(p, i)))], kind='tuple', atom=p)

    def term(self, v):
        """z3 term for a scalar-like value, or None."""
        if isinstance(v, (SBool, SInt, SReal, SStr, SEnum, SObj)):
            return v.t
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, enum.Enum):
            return enum_sort(type(v))[1][v]
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, Decimal):
            return dec_term(v)
        if isinstance(v, str):
            return str_lit(v)
        if isinstance(v, SSeq) and v.atom is not None:
            return v.atom
        if isinstance(v, SSeq) and v.kind == 'tuple':
            return self.filter_atom(v)
        if type(v) is tuple and all(isinstance(x, str) for x in v):
            return path_lit(v)
        return None

    def filter_atom(self, v):
        """tuple(s for s in PATH if test(s)) as a term: a function of PATH, named by the test."""
        if len(v.segs) != 1 or not isinstance(v.segs[0], QSeg) or len(v.segs[0].binders) != 1:
            return None
        q = v.segs[0]
        i, n = q.binders[0]
        if not (z3.is_app(n) and n.decl().eq(path_len)) or not isinstance(q.elem, SStr):
            return None
        p = n.arg(0)
        at = path_at(p, i)
        if not q.elem.t.eq(at):
            return None
        x = z3.Const('seg!', StrSort)
        g = z3.substitute(simp(q.guard), (at, x))
        if any(not (nm == 'seg!' or nm.startswith('lit:') or nm.startswith('char')) for nm in expr_vars(g)):
            return None
        if z3.is_true(g):
            v.atom = p
            return p
        h = hashlib.sha1(g.sexpr().encode()).hexdigest()[:12]
        v.atom = z3.Function(f'filter:{h}', PathSort, PathSort)(p)
        return v.atom

    def wrap_like(self, v, t):
        if isinstance(v, (bool, SBool)):
            return SBool(t)
        if isinstance(v, enum.Enum):
            return SEnum(type(v), t)
        if isinstance(v, SEnum):
            return SEnum(v.cls, t)
        if isinstance(v, (int, SInt)):
            return SInt(t)
        if isinstance(v, (Decimal, SReal)):
            return SReal(t)
        if isinstance(v, (str, SStr)):
            return SStr(t)
        if isinstance(v, SObj):
            return SObj(v.desc, t)
        raise Unsupported(f'wrap {v}')

    def kind(self, v):
        if isinstance(v, (bool, SBool)):
            return 'bool'
        if isinstance(v, SEnum):
            return ('enum', v.cls)
        if isinstance(v, enum.Enum):
            return ('enum', type(v))
        if isinstance(v, (int, SInt)):
            return 'int'
        if isinstance(v, (Decimal, SReal)):
            return 'real'
        if isinstance(v, (str, SStr)):
            return 'str'
        if isinstance(v, SObj):
            return ('obj', id(v.desc))
        return None

    def same(self, a, b):
        """Syntactic identity of values."""
        if a is b:
            return True
        ka, kb = self.kind(a), self.kind(b)
        if ka is not None and ka == kb:
            if not is_sym(a) and not is_sym(b):
                return type(a) is type(b) and a == b
            return self.term(a).eq(self.term(b))
        if a is None or b is None:
            return a is b
        if type(a) is tuple and type(b) is tuple:
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, SUnion) and isinstance(b, SUnion):
            return len(a.alts) == len(b.alts) and all(c1.eq(c2) and self.same(v1, v2) for (c1, v1), (c2, v2) in zip(a.alts, b.alts))
        if isinstance(a, SSeq) and isinstance(b, SSeq) and a.atom is not None and b.atom is not None:
            return a.atom.eq(b.atom)
        return False

    def alike(self, a, b):
        """The same value, or containers built alike by two runs of the same code."""
        if self.same(a, b):
            return True
        if isinstance(a, DCell) and isinstance(b, DCell):
            x, y = a.v, b.v
            return (a.default is b.default and x.base is None and y.base is None and len(x.overlay) == len(y.overlay)
                    and all(self.alike(k1, k2) and v1 is not DELETED and v2 is not DELETED and self.alike(v1, v2) for (k1, v1), (k2, v2) in zip(x.overlay, y.overlay)))
        if isinstance(a, LCell) and isinstance(b, LCell):
            return self.alike(a.v, b.v)
        if isinstance(a, SSeq) and isinstance(b, SSeq):
            x, y = self.concrete_items(self.norm(a.segs)), self.concrete_items(self.norm(b.segs))
            return x is not None and y is not None and a.kind == b.kind and len(x) == len(y) and all(self.alike(v, w) for v, w in zip(x, y))
        if isinstance(a, SUnion) and isinstance(b, SUnion):
            return len(a.alts) == len(b.alts) and all(c1.eq(c2) and self.alike(v1, v2) for (c1, v1), (c2, v2) in zip(a.alts, b.alts))
        if isinstance(a, Rec) and isinstance(b, Rec):
            return a.cls is b.cls and set(a.data) == set(b.data) and all(self.alike(a.data[k], b.data[k]) for k in a.data)
        return False

    def merge(self, alts):
        """alts: [(cond, value)], exactly one cond holds."""
        flat = []
        for c, v in alts:
            if isinstance(v, SUnion):
                for c2, v2 in v.alts:
                    cc = simp(conj([c, c2]))
                    if not z3.is_false(cc):
                        flat.append((cc, v2))
            else:
                flat.append((c, v))
        if len(flat) == 1:
            return flat[0][1]
        groups = []
        for c, v in flat:
            for g in groups:
                if self.same(g[1], v):
                    g[0] = disj([g[0], c])
                    break
            else:
                groups.append([c, v])
        if len(groups) == 1:
            return groups[0][1]
        # scalars of one kind -> ite
        out = []
        used = [False] * len(groups)
        for a in range(len(groups)):
            if used[a]:
                continue
            ka = self.kind(groups[a][1])
            c, v = groups[a]
            for b in range(a + 1, len(groups)):
                if used[b]:
                    continue
                kb = self.kind(groups[b][1])
                if ka is not None and ka == kb:
                    t = z3.If(c, self.term(v), self.term(groups[b][1]))
                    v = self.wrap_like(v, t)
                    c = disj([c, groups[b][0]])
                    used[b] = True
                elif isinstance(v, Rec) and isinstance(groups[b][1], Rec) and v.cls is groups[b][1].cls and set(v.data) == set(groups[b][1].data) and attr.has(v.cls) and not any(isinstance(x, Cell) and not isinstance(x, Rec) for x in list(v.data.values()) + list(groups[b][1].data.values())):
                    w = groups[b][1]
                    v = Rec(v.cls, {k: self.merge([(c, v.data[k]), (neg(c), w.data[k])]) for k in v.data})
                    c = disj([c, groups[b][0]])
                    used[b] = True
                elif type(v) is tuple and type(groups[b][1]) is tuple and len(v) == len(groups[b][1]) and len(v) > 0:
                    w = groups[b][1]
                    v = tuple(self.merge([(c, x), (neg(c), y)]) for x, y in zip(v, w))
                    c = disj([c, groups[b][0]])
                    used[b] = True
            out.append((simp(c), v))
        if len(out) == 1:
            return out[0][1]
        return SUnion(out)

    def resolve(self, v):
        """Fork on the alternatives of a union."""
        while isinstance(v, SUnion):
            for c, x in v.alts[:-1]:
                if self.branch(c):
                    v = x
                    break
            else:
                self.assume(v.alts[-1][0])
                v = v.alts[-1][1]
        if isinstance(v, Poison):
            raise LoopCarried(v.why, 'read')
        return v

    def subst(self, v, m):
        """m: list of (z3 var, term)"""
        if not m:
            return v
        if isinstance(v, (SBool, SInt, SReal, SStr)):
            return type(v)(z3.substitute(v.t, *m))
        if isinstance(v, SEnum):
            return SEnum(v.cls, z3.substitute(v.t, *m))
        if isinstance(v, SObj):
            return SObj(v.desc, z3.substitute(v.t, *m))
        if isinstance(v, SUnion):
            return SUnion([(z3.substitute(c, *m), self.subst(x, m)) for c, x in v.alts])
        if isinstance(v, SSeq):
            return SSeq([self.subst_seg(s, m) for s in v.segs], v.kind, v.ordered, z3.substitute(v.atom, *m) if v.atom is not None else None)
        if isinstance(v, SSet):
            return SSet([self.subst_seg(s, m) for s in v.segs], v.frozen)
        if isinstance(v, LCell):
            return LCell(self.subst(v.v, m))
        if isinstance(v, SCell):
            return SCell(self.subst(v.v, m))
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.subst(x, m) for k, x in v.data.items()})
        if type(v) is tuple:
            return tuple(self.subst(x, m) for x in v)
        if isinstance(v, DCell):
            return DCell(self.subst(v.v, m), v.default, v.pycls)
        if isinstance(v, SMap):
            if v.base is not None or v.origin is not None:
                raise Unsupported('substitution in a mapping')
            return SMap(None, [(self.subst(k, m), x if x is DELETED else self.subst(x, m)) for k, x in v.overlay])
        return v

    def subst_seg(self, s, m):
        if isinstance(s, CSeg):
            return CSeg([self.subst(x, m) for x in s.items])
        if isinstance(s, HSeg):
            return s
        return QSeg([(v, z3.substitute(n, *m)) for v, n in s.binders], z3.substitute(s.guard, *m), self.subst(s.elem, m))

    def rename(self, seg):
        """Alpha-rename binders of a QSeg."""
        m = []
        bs = []
        for v, n in seg.binders:
            nv = self.fresh_binder()
            bs.append((nv, z3.substitute(n, *m) if m else n))
            m.append((v, nv))
        return QSeg(bs, z3.substitute(seg.guard, *m) if m else seg.guard, self.subst(seg.elem, m))

    # --------------------------------------------------------- boolean view
    def truthy(self, v):
        """-> python bool or z3 Bool (no forking)."""
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SReal):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != str_lit('')
        if isinstance(v, SEnum):
            return True
        if isinstance(v, SUnion):
            return disj([conj([c, zb(self.truthy(x))]) for c, x in v.alts])
        if isinstance(v, SSeq):
            return self.nonempty(v.segs)
        if isinstance(v, SSet):
            return self.nonempty(v.segs)
        if isinstance(v, (LCell, SCell)):
            return self.truthy(v.v)
        if isinstance(v, DCell):
            return self.nonempty(self.map_key_segs(v))
        if isinstance(v, SObj):
            return True
        if isinstance(v, Rec):
            for c in v.cls.__mro__:
                if '__bool__' in c.__dict__ or '__len__' in c.__dict__:
                    raise Unsupported('custom truth value')
            return True
        if isinstance(v, Poison):
            raise LoopCarried(v.why)
        if isinstance(v, V):
            return True
        if type(v) in (tuple, list):
            return len(v) > 0
        return bool(v)

    def test(self, v):
        return self.branch(zb(self.truthy(v)))

    def nonempty(self, segs):
        cs = []
        for s in segs:
            if isinstance(s, CSeg):
                if s.items:
                    return True
            elif isinstance(s, HSeg):
                raise LoopCarried(s.token)
            else:
                cs.append(self.exists(s, z3.BoolVal(True)))
        return disj(cs)

    def exists(self, seg, body):
        f = simp(conj([seg.rng(), seg.guard, body]))
        if not seg.binders:
            return f
        if z3.is_true(seg.guard) and z3.is_true(body):
            if len(seg.binders) == 1:
                return seg.binders[0][1] > 0
        if self.least and len(seg.binders) == 1 and any(seg.binders[0][1].eq(v) for v, _ in self.binders):
            self.least_fact(seg.binders[0][0], f)
        return z3.Exists([v for v, _ in seg.binders], f)

    def least_fact(self, j, f):
        """A non-empty set of non-negative indices has a least element."""
        names = expr_vars(f)
        ps = [v for v, _ in self.binders if v.decl().name() in names and not v.eq(j)]
        key = z3.Lambda([j] + ps, f).get_id()
        if key not in self.leasts:
            nm = self.fresh_name('least')
            self.leasts[key] = (z3.Function(nm, *[p.sort() for p in ps], z3.IntSort()) if ps else z3.Int(nm), z3.Int('lj!' + nm), z3.Lambda([j] + ps, f))
        w, j2, _ = self.leasts[key]
        w = w(*ps) if ps else w
        fw = z3.substitute(f, (j, w))
        f2 = z3.substitute(f, (j, j2))
        self.fact(z3.Implies(z3.Exists([j2], f2), z3.And(fw, w >= 0, z3.ForAll([j2], z3.Implies(f2, j2 >= w)))))

    def forall(self, seg, body):
        if not seg.binders:
            return simp(z3.Implies(seg.guard, body))
        return z3.ForAll([v for v, _ in seg.binders], simp(z3.Implies(conj([seg.rng(), seg.guard]), body)))

    # --------------------------------------------------------------- equality
    def eq_alt(self, c, x, other):
        try:
            return conj([c, zb(self.eq(x, other))])
        except Unsupported:
            if self.valid(neg(c)):
                return z3.BoolVal(False)   # cannot be this one here
            raise

    def eq(self, a, b):
        """-> z3 Bool or python bool, no forking."""
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise LoopCarried((a if isinstance(a, Poison) else b).why)
        if isinstance(a, SUnion):
            return disj([self.eq_alt(c, x, b) for c, x in a.alts])
        if isinstance(b, SUnion):
            return disj([self.eq_alt(c, x, a) for c, x in b.alts])
        if a is None or b is None:
            return a is b
        if not is_sym(a) and not is_sym(b):
            return a == b
        if isinstance(a, LCell):
            a = a.v
        if isinstance(b, LCell):
            b = b.v
        ka, kb = self.kind(a), self.kind(b)
        if ka and kb:
            num = ('bool', 'int', 'real')
            if ka in num and kb in num:
                if ka == kb:
                    return self.term(a) == self.term(b)
                return self.num(a) == self.num(b)
            if ka != kb:
                if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == 'obj' == kb[0]:
                    return self.term(a) == self.term(b)
                return False
            return self.term(a) == self.term(b)
        seqlike = (SSeq, tuple, list)
        if isinstance(a, seqlike) and isinstance(b, seqlike):
            ta, tb = self.term(a), self.term(b)
            if isinstance(a, SSeq) and isinstance(b, SSeq) and a.kind != b.kind and 'any' not in (a.kind, b.kind):
                return False
            if ta is not None and tb is not None and ta.sort() == PathSort == tb.sort():
                return ta == tb
            try:
                return self.seq_eq(self.as_seq(a), self.as_seq(b))
            except Unsupported:
                if self.contradictory():
                    raise Infeasible()
                raise
        setlike = (SSet, SCell, set, frozenset)
        if isinstance(a, setlike) and isinstance(b, setlike):
            return conj([zb(self.subset(a, b)), zb(self.subset(b, a))])
        if isinstance(a, Rec) and isinstance(b, Rec):
            if a is b:
                return True
            if a.cls is not b.cls:
                return False
            eqm = None
            for c in a.cls.__mro__:
                if '__eq__' in c.__dict__:
                    eqm = c
                    break
            if eqm is object:
                return False
            cs = []
            for f in attr.fields(a.cls):
                if f.eq is not False and f.name in a.data and f.name in b.data:
                    cs.append(zb(self.eq(a.data[f.name], b.data[f.name])))
            return conj(cs)
        if isinstance(a, Rec) and isinstance(b, SObj):
            return self.eq_rec_obj(a, b)
        if isinstance(b, Rec) and isinstance(a, SObj):
            return self.eq_rec_obj(b, a)
        if isinstance(a, (DCell, dict)) and isinstance(b, (DCell, dict)):
            return self.map_eq(a, b)
        if isinstance(a, (V, Cell)) or isinstance(b, (V, Cell)):
            if isinstance(a, (SSeq, SSet, LCell, SCell, DCell, tuple, list, frozenset, set, dict)) and isinstance(b, (SSeq, SSet, LCell, SCell, DCell, tuple, list, frozenset, set, dict)):
                if isinstance(a, (tuple, list, SSeq)) != isinstance(b, (tuple, list, SSeq)):
                    return False
                raise Unsupported(f'eq {type(a)} {type(b)}')
            return False if ka or kb or isinstance(a, (Rec, SObj)) or isinstance(b, (Rec, SObj)) else a is b
        raise Unsupported(f'eq {a!r} {b!r}')

    def eq_rec_obj(self, r, o):
        # a freshly built record against an input object: compare fields
        cs = []
        if not attr.has(r.cls):
            raise Unsupported('eq record/object')
        for f in attr.fields(r.cls):
            if f.eq is not False and f.name in r.data:
                cs.append(zb(self.eq(r.data[f.name], self.getattr_(o, f.name))))
        self.incomplete = True
        return conj(cs)

    def map_eq(self, a, b):
        da, db = self.plain_map(a), self.plain_map(b)
        if da.keys() != db.keys():
            return False
        return conj([zb(self.eq(da[k], db[k])) for k in da])

    def plain_map(self, m):
        """A mapping with known keys, as a dict."""
        if isinstance(m, dict):
            return m
        if m.v.base is not None:
            raise Unsupported('mapping equality')
        out = {}
        for k, v in m.v.overlay:
            if is_sym(k) or isinstance(k, SSeq):
                raise Unsupported('mapping equality')
            if v is DELETED:
                out.pop(k, None)
            else:
                out[k] = v
        return out

    def is_(self, a, b):
        if isinstance(a, SUnion):
            return disj([conj([c, zb(self.is_(x, b))]) for c, x in a.alts])
        if isinstance(b, SUnion):
            return disj([conj([c, zb(self.is_(a, x))]) for c, x in b.alts])
        if a is None or b is None:
            if isinstance(a, Poison) or isinstance(b, Poison):
                raise LoopCarried((a if isinstance(a, Poison) else b).why)
            return a is b
        if isinstance(a, (SBool, bool)) or isinstance(b, (SBool, bool)):
            if self.kind(a) == self.kind(b) == 'bool':
                return self.eq(a, b)
            return False
        if self.kind(a) and isinstance(self.kind(a), tuple):
            return self.eq(a, b)
        if is_sym(a) or is_sym(b):
            if isinstance(a, Cell) or isinstance(b, Cell):
                return a is b
            return self.eq(a, b)
        return a is b

    def num(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        t = self.term(v)
        return t

    def nums(self, a, b):
        ta, tb = self.num(a), self.num(b)
        if ta.sort() != tb.sort():
            if ta.sort() == z3.IntSort():
                ta = z3.ToReal(ta)
            if tb.sort() == z3.IntSort():
                tb = z3.ToReal(tb)
        return ta, tb

    # --------------------------------------------------------------- sequences
    def as_seq(self, v):
        if isinstance(v, SSeq):
            if v.once is not None:
                return SSeq(self.to_segs(v), kind='any', ordered=v.ordered)
            return v
        if isinstance(v, LCell):
            return v.v
        if type(v) in (tuple, list):
            return SSeq([CSeg(v)] if len(v) else [], kind='tuple' if type(v) is tuple else 'list')
        return SSeq(self.to_segs(v), kind='tuple')

    def concrete_items(self, segs):
        out = []
        for s in segs:
            if isinstance(s, CSeg):
                out.extend(s.items)
            else:
                return None
        return out

    def consume(self, once):
        """An iterator may be walked once: a second walk would see nothing."""
        if once.data.get('used') is True:
            raise Unsupported('iterator consumed twice')
        if once.depth is not None and len(self.binders) > once.depth:
            raise Unsupported('iterator consumed inside a loop it was created outside of')
        self.write(once, 'used', True)

    def iterator(self, segs, ordered=True):
        s = SSeq(segs, kind='any', ordered=ordered)
        s.once = Once()
        s.once.depth = len(self.binders)
        return s

    def to_segs(self, v):
        v = self.resolve(v)
        if isinstance(v, SSeq):
            if v.once is not None:
                self.consume(v.once)
            return v.segs
        if isinstance(v, (LCell,)):
            return v.v.segs
        if isinstance(v, SSet):
            return v.segs
        if isinstance(v, SCell):
            return v.v.segs
        if isinstance(v, GenExp):
            self.consume(v.once)
            return self.comp_segs(v.node.elt, v.node.generators, v.frame)
        if isinstance(v, GenObj):
            return self.materialize(v).segs
        if isinstance(v, DCell):
            return self.map_key_segs(v)
        if isinstance(v, (list, tuple, set, frozenset, dict, str, range)) or isinstance(v, (collections.abc.KeysView, collections.abc.ValuesView, collections.abc.ItemsView)):
            items = list(v)
            return [CSeg(items)] if items else []
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return [CSeg(list(v))]
        if isinstance(v, (itertools.chain, zip, enumerate, map, filter, reversed)):
            return [CSeg(list(v))]
        raise Unsupported(f'not iterable in the subset: {type(v).__name__} {v!r:.80}')

    def materialize(self, g):
        out = LCell(SSeq([], kind='list'))

        def hook(val):
            self.write(out, 'v', SSeq(out.v.segs + [CSeg([val])], kind='list'))
        self.run_gen(g, hook)
        return SSeq(self.norm(out.v.segs), kind='list')

    def norm(self, segs):
        out = []
        for s in segs:
            if isinstance(s, CSeg) and not s.items:
                continue
            if isinstance(s, CSeg) and out and isinstance(out[-1], CSeg):
                out[-1] = CSeg(out[-1].items + s.items)
            else:
                out.append(s)
        return out

    def dedupe(self, segs):
        """Enumeration of a set without repetition (order left open)."""
        segs = self.norm(segs)
        if len(segs) == 1 and self._plain(segs[0]):
            t = self.term(segs[0].elem)
            if t is not None and z3.is_app(t) and t.decl().name() in self.distinct and t.arg(t.num_args() - 1).eq(segs[0].binders[0][0]):
                return segs
        items = self.concrete_items(segs)
        if items is not None and not any(is_sym(x) for x in items):
            return [CSeg(list(dict.fromkeys(items)))] if items else []
        out = []
        for k, s in enumerate(segs):
            if isinstance(s, HSeg):
                raise LoopCarried(s.token)
            if isinstance(s, CSeg):
                for q, x in enumerate(s.items):
                    prev = segs[:k] + [CSeg(s.items[:q])]
                    g = simp(neg(zb(self.member_segs(x, prev))))
                    out.append(CSeg([x]) if z3.is_true(g) else QSeg([], g, x))
                continue
            with self.scope(s.binders):
                g = [neg(zb(self.member_segs(s.elem, segs[:k])))]
                s3 = self.rename(s)
                if s.binders:
                    with self.scope(s3.binders):
                        e = zb(self.eq(s.elem, s3.elem))
                    vs, ws = [v for v, _ in s.binders], [w for w, _ in s3.binders]
                    if self.least and len(ws) == 1:
                        self.least_fact(ws[0], z3.And(s3.full(), self.lex_lt(ws, vs), e))
                    g.append(z3.Not(z3.Exists(ws, z3.And(s3.full(), self.lex_lt(ws, vs), e))))
            out.append(QSeg(s.binders, simp(conj([s.guard] + g)), s.elem))
        return self.norm(out)

    def length(self, segs):
        total = z3.IntVal(0)
        conc = 0
        symb = []
        for s in segs:
            if isinstance(s, CSeg):
                conc += len(s.items)
            elif isinstance(s, HSeg):
                raise LoopCarried(s.token)
            elif not s.binders:
                symb.append(z3.If(s.guard, z3.IntVal(1), z3.IntVal(0)))
            elif z3.is_true(simp(s.guard)) and len(s.binders) == 1:
                symb.append(s.binders[0][1])
            else:
                symb.append(self.sum_over(s.binders, s.guard, z3.IntVal(1)))
        if not symb:
            return conc
        t = symb[0]
        for x in symb[1:]:
            t = t + x
        if conc:
            t = t + conc
        return SInt(t)

    def sum_over(self, binders, guard, body):
        zero = z3.IntVal(0) if body.sort() == z3.IntSort() else z3.RealVal(0)
        if not binders:
            g = simp(guard)
            return body if z3.is_true(g) else z3.If(g, body, zero)
        g = simp(guard)
        t = body if z3.is_true(g) else z3.If(g, body, zero)
        for v, n in reversed(binders):
            t = self.sum1(v, n, t)
        return t

    def sum1(self, v, n, body):
        body = simp(body)
        names = expr_vars(body)
        # fvs: enclosing binder constants (not yet bound)
        fvs = [b for b, _ in self.binders if b.decl().name() in names and not b.eq(v)]
        # also sibling binders named i!k that are free consts
        for nm in sorted(names):
            if nm.startswith('i!') and nm != v.decl().name() and not any(f.decl().name() == nm for f in fvs):
                fvs.append(z3.Int(nm))
        lam = z3.Lambda([v] + fvs, body)
        key = lam.get_id()
        if key not in self.sums:
            nm = f'Sum{len(self.sums)}'
            fn = z3.Function(nm, z3.IntSort(), *[f.sort() for f in fvs], body.sort())
            self.sums[key] = (fn, lam, v, fvs, body)
            self.sum_by_fn[nm] = self.sums[key]
        fn = self.sums[key][0]
        return fn(n, *fvs)

    def content(self, seq):
        """A term standing for the items of a sequence in order: equal sequences give equal terms."""
        acc = z3.Const('content:nil', ContentSort)
        for s in self.norm(seq.segs):
            if isinstance(s, HSeg):
                raise LoopCarried(s.token)
            if isinstance(s, CSeg):
                for x in s.items:
                    t = self.term(x)
                    if t is None:
                        raise Unsupported('content of this element type')
                    acc = z3.Function(f'content:push:{t.sort()}', ContentSort, t.sort(), ContentSort)(acc, t)
                continue
            t = self.term(s.elem)
            if t is None:
                raise Unsupported('content of this sequence')
            if len(s.binders) > 1:
                # a sequence of sequences: folded over the contents of the inner ones
                with self.scope(s.binders[:1]):
                    t = self.content(SSeq([QSeg(s.binders[1:], s.guard, s.elem)]))
                s = QSeg(s.binders[:1], z3.BoolVal(True), None)
            if not s.binders:
                acc = z3.If(s.guard, z3.Function(f'content:push:{t.sort()}', ContentSort, t.sort(), ContentSort)(acc, t), acc)
                continue
            v, n = s.binders[0]
            g, t = simp(s.guard), simp(t)
            names = expr_vars(g) | expr_vars(t)
            fvs = [b for b, _ in self.binders if b.decl().name() in names and not b.eq(v)]
            canon = [(b, z3.Const(f'content:v{k}', b.sort())) for k, b in enumerate([v] + fvs)]
            kt = z3.substitute(z3.Function(f'content:pair:{t.sort()}', z3.BoolSort(), t.sort(), z3.BoolSort())(g, t), *canon)
            key = kt.get_id()
            if key not in self.conts:
                nm = f'Content{len(self.conts)}'
                fn = z3.Function(nm, ContentSort, z3.IntSort(), *[f.sort() for f in fvs], ContentSort)
                self.conts[key] = (fn, v, fvs, g, t, kt)
                self.cont_by_fn[nm] = self.conts[key]
            acc = self.conts[key][0](acc, n, *fvs)
        return acc

    def _cont_inst(self, a):
        fn, v, fvs, g, t, _ = self.cont_by_fn[a.decl().name()]
        fm = [(f, a.arg(i + 2)) for i, f in enumerate(fvs)]
        if fm:
            g, t = z3.substitute(g, *fm), z3.substitute(t, *fm)
        return a.arg(0), a.arg(1), v, g, t

    def _cont_one(self, a):
        i, n, v, g, t = self._cont_inst(a)
        w = self.wit('cn', (a,))
        return z3.Or(a == i, z3.And(w >= 0, w < n, z3.substitute(g, (v, w))))

    def _cont_pair(self, a, b):
        i1, n1, v1, g1, t1 = self._cont_inst(a)
        i2, n2, v2, g2, t2 = self._cont_inst(b)
        if t1.sort() != t2.sort():
            return []
        w = self.wit('cd', (a, b))
        h1, h2 = z3.substitute(g1, (v1, w)), z3.substitute(g2, (v2, w))
        u1, u2 = z3.substitute(t1, (v1, w)), z3.substitute(t2, (v2, w))
        return [z3.Or(i1 != i2, n1 != n2, z3.And(w >= 0, w < n1, z3.Or(h1 != h2, z3.And(h1, u1 != u2))), a == b)]

    def card_term(self, segs):
        """Number of distinct elements."""
        items = self.concrete_items(segs)
        elem = None
        for s in segs:
            if isinstance(s, CSeg):
                for x in s.items:
                    elem = x
            elif isinstance(s, HSeg):
                raise LoopCarried(s.token)
            else:
                elem = s.elem
        if elem is None:
            return z3.IntVal(0)
        if isinstance(elem, SUnion):
            ks = {self.kind(x) for _, x in elem.alts}
            raise Unsupported('cardinality of a union-typed set')
        k = self.kind(elem)
        if isinstance(k, tuple) and k[0] == 'enum':
            _, consts, members, _ = enum_sort(k[1])
            t = z3.IntVal(0)
            for m in members:
                t = t + z3.If(zb(self.member_segs(m, segs)), 1, 0)
            return t
        et = self.term(elem)
        if et is None:
            raise Unsupported('cardinality of this element type')
        x = z3.Const('card!x', et.sort())
        xv = SSeq([], atom=x) if et.sort() == PathSort else self.wrap_like(elem, x)
        mem = simp(zb(self.member_segs(xv, segs)))
        names = expr_vars(mem)
        fvs = [b for b, _ in self.binders if b.decl().name() in names]
        lam = z3.Lambda([x] + fvs, mem)
        key = lam.get_id()
        if key not in self.cards:
            nm = f'Card{len(self.cards)}'
            fn = z3.Function(nm, *[f.sort() for f in fvs], z3.IntSort()) if fvs else z3.Const(nm, z3.IntSort())
            self.cards[key] = (fn, lam, x, fvs, mem)
            self.card_by_fn[nm] = self.cards[key]
        fn = self.cards[key][0]
        return fn(*fvs) if fvs else fn

    def lemmas(self, exprs):
        """Ground instances of the fold lemmas (each proved by induction in lemmas.py)
        for the sums and cardinalities that occur."""
        out = []
        done = set()
        pairs = set()
        work = list(exprs)
        apps = []
        capps = []
        kapps = []
        rounds = 0
        self._wit = getattr(self, '_wit', {})
        self._under = set()
        while work and rounds < 4:
            rounds += 1
            new = []
            for e in work:
                self._collect(e, done, new, set())
            batch = []
            for a in new:
                nm = a.decl().name()
                if nm in self.sum_by_fn:
                    apps.append(a)
                    fn, lam, v, fvs, body = self.sum_by_fn[nm]
                    n = a.arg(0)
                    fm = [(f, a.arg(i + 1)) for i, f in enumerate(fvs)]
                    b = z3.substitute(body, *fm) if fm else body
                    w = self.wit('w', (a,))
                    bw = z3.substitute(b, (v, w))
                    batch.append(z3.Implies(n <= 0, a == 0))
                    batch.append(z3.Or(a >= 0, z3.And(w >= 0, w < n, bw < 0)))
                    w3 = self.wit('w3', (a,))
                    bw3 = z3.substitute(b, (v, w3))
                    # all entries <= 0 -> sum <= 0
                    batch.append(z3.Or(a <= 0, z3.And(w3 >= 0, w3 < n, bw3 > 0)))
                    if a.sort() == z3.IntSort():
                        w2 = self.wit('w2', (a,))
                        bw2 = z3.substitute(b, (v, w2))
                        batch.append(z3.Or(a <= n, n < 0, z3.And(w2 >= 0, w2 < n, bw2 > 1)))
                        # some positive and none negative -> sum > 0
                        j = z3.Int('lem!j')
                        bj = z3.substitute(b, (v, j))
                        batch.append(z3.Or(z3.And(w >= 0, w < n, bw < 0), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, bj > 0), a >= bj))))
                elif nm in self.cont_by_fn:
                    batch.append(self._cont_one(a))
                    for b in kapps:
                        batch.extend(self._cont_pair(a, b))
                    kapps.append(a)
                elif nm in self.card_by_fn:
                    capps.append(a)
                    fn, lam, x, fvs, mem = self.card_by_fn[nm]
                    fm = [(f, a.arg(i)) for i, f in enumerate(fvs)]
                    m = z3.substitute(mem, *fm) if fm else mem
                    w = self.wit('cw', (a,), x.sort())
                    batch.append(a >= 0)
                    batch.append(z3.Or(a == 0, z3.substitute(m, (x, w))))
                    batch.append(z3.ForAll([x], z3.Implies(m, a >= 1)))
            for i in range(len(apps)):
                for j in range(i):
                    a, b = apps[i], apps[j]
                    if (i, j) in pairs or a.sort() != b.sort():
                        continue
                    pairs.add((i, j))
                    batch.extend(self._sum_pair(a, b))
            for i in range(len(capps)):
                for j in range(i):
                    if ('c', i, j) in pairs:
                        continue
                    pairs.add(('c', i, j))
                    batch.extend(self._card_pair(capps[i], capps[j]))
            for nm in sorted(self._under):
                if nm not in self.sum_by_fn:
                    continue
                for a in apps:
                    if (nm, a.get_id()) not in pairs and len(pairs) < 400:
                        pairs.add((nm, a.get_id()))
                        batch.extend(self._sum_any(nm, a))
            out.extend(batch)
            work = batch
        out.extend(self.lit_axioms(list(exprs) + out))
        return out

    def wit(self, tag, apps, sort=None):
        key = (tag,) + tuple(a.get_id() for a in apps)
        if key not in self._wit:
            self._wit[key] = (z3.Const(f'wit:{tag}!{len(self._wit)}', z3.IntSort() if sort is None else sort), apps)
        return self._wit[key][0]

    def _sum_inst(self, a):
        fn, lam, v, fvs, body = self.sum_by_fn[a.decl().name()]
        fm = [(f, a.arg(i + 1)) for i, f in enumerate(fvs)]
        b = z3.substitute(body, *fm) if fm else body
        return a.arg(0), v, b

    def _sum_pair(self, a, b):
        n1, v1, b1 = self._sum_inst(a)
        n2, v2, b2 = self._sum_inst(b)
        d = self.wit('d', (a, b))
        d2 = self.wit('e', (a, b))
        d3 = self.wit('f', (a, b))
        x1, x2 = z3.substitute(b1, (v1, d)), z3.substitute(b2, (v2, d))
        y1, y2 = z3.substitute(b1, (v1, d2)), z3.substitute(b2, (v2, d2))
        u1, u2 = z3.substitute(b1, (v1, d3)), z3.substitute(b2, (v2, d3))
        out = [
            z3.Or(n1 != n2, z3.And(d >= 0, d < n1, x1 != x2), a == b),
            z3.Or(n1 != n2, z3.And(d2 >= 0, d2 < n1, y1 > y2), a <= b),
            z3.Or(n1 != n2, z3.And(d3 >= 0, d3 < n1, u1 < u2), a >= b),
        ]
        if a.decl().eq(b.decl()):
            out.append(z3.Implies(z3.And(n2 == n1 + 1, n1 >= 0), b == a + z3.substitute(b1, (v1, n1))))
            out.append(z3.Implies(z3.And(n1 == n2 + 1, n2 >= 0), a == b + z3.substitute(b2, (v2, n2))))
        return out

    def _sum_any(self, nm, b):
        """The comparison lemma for a sum that only occurs under a quantifier."""
        fn, lam, v, fvs, body = self.sum_by_fn[nm]
        if fn.range() != b.sort() or not fvs:
            return []
        n2, v2, b2 = self._sum_inst(b)
        ps = [z3.Const(f'sp!{nm}!{i}', f.sort()) for i, f in enumerate(fvs)]
        m = z3.Int(f'sm!{nm}')
        a = fn(m, *ps)
        b1 = z3.substitute(body, *[(f, p) for f, p in zip(fvs, ps)])
        key = ('any', nm, b.get_id())
        if key not in self._wit:
            k = len(self._wit)
            self._wit[key] = ([z3.Function(f'wit:any{s}!{k}', z3.IntSort(), *[f.sort() for f in fvs], z3.IntSort()) for s in 'lg'], b)
        out = []
        for w, less in zip(self._wit[key][0], (True, False)):
            d = w(m, *ps)
            x1, x2 = z3.substitute(b1, (v, d)), z3.substitute(b2, (v2, d))
            bad = z3.And(d >= 0, d < m, (x1 > x2) if less else (x1 < x2))
            out.append(z3.ForAll([m] + ps, z3.Or(m != n2, bad, (a <= b) if less else (a >= b)), patterns=[a]))
        return out

    def _card_pair(self, a, b):
        _, _, x1, f1, m1 = self.card_by_fn[a.decl().name()]
        _, _, x2, f2, m2 = self.card_by_fn[b.decl().name()]
        if x1.sort() != x2.sort():
            return []
        fm1 = [(f, a.arg(i)) for i, f in enumerate(f1)]
        fm2 = [(f, b.arg(i)) for i, f in enumerate(f2)]
        m1 = z3.substitute(m1, *fm1) if fm1 else m1
        m2 = z3.substitute(m2, *fm2) if fm2 else m2
        w = self.wit('s1', (a, b), x1.sort())
        w2 = self.wit('s2', (a, b), x1.sort())
        return [
            z3.Or(a <= b, z3.And(z3.substitute(m1, (x1, w)), z3.Not(z3.substitute(m2, (x2, w))))),
            z3.Or(b <= a, z3.And(z3.substitute(m2, (x2, w2)), z3.Not(z3.substitute(m1, (x1, w2))))),
        ]

    def _collect(self, e, done, new, seen):
        if z3.is_var(e):
            return
        hit = self._folds.get(e.get_id())
        if hit is None or not hit[0].eq(e):
            found = []
            names = expr_vars(e)
            if any(nm in names for d in (self.sum_by_fn, self.card_by_fn, self.cont_by_fn) for nm in d):
                stack = [e]
                while stack:
                    x = stack.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    if z3.is_quantifier(x):
                        stack.append(x.body())
                        continue
                    if z3.is_app(x):
                        nm = x.decl().name()
                        if nm in self.sum_by_fn or nm in self.card_by_fn or nm in self.cont_by_fn:
                            found.append((nm, x, self._has_var(x)))
                        stack.extend(x.children())
            hit = self._folds[e.get_id()] = (e, found)
        for nm, x, under in hit[1]:
            if under:
                self._under.add(nm)
            elif x.get_id() not in done:
                done.add(x.get_id())
                new.append(x)

    def _has_var(self, e):
        stack = [e]
        while stack:
            x = stack.pop()
            if z3.is_var(x):
                return True
            if z3.is_quantifier(x):
                return True
            stack.extend(x.children())
        return False

    def seq_eq(self, a, b):
        """Sufficient (and for plain sequences exact) equality."""
        sa, sb = self.norm(a.segs), self.norm(b.segs)
        ca, cb = self.concrete_items(sa), self.concrete_items(sb)
        if sa and sb and not (a.ordered and b.ordered):
            raise Unsupported('equality of sequences whose order is left open')
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            return conj([zb(self.eq(x, y)) for x, y in zip(ca, cb)])
        if len(sa) == 1 and cb is not None and self._plain(sa[0]):
            sa, sb, ca, cb = sb, sa, cb, ca
        if ca is not None and len(sb) == 1 and self._plain(sb[0]):
            v, n = sb[0].binders[0]
            cs = [n == len(ca)]
            for i, x in enumerate(ca):
                cs.append(zb(self.eq(x, self.subst(sb[0].elem, [(v, z3.IntVal(i))]))))
            return conj(cs)
        if len(sa) == 1 and len(sb) == 1 and isinstance(sa[0], QSeg) and isinstance(sb[0], QSeg) and self._plain(sa[0]) and self._plain(sb[0]):
            (v, n), (w, m) = sa[0].binders[0], sb[0].binders[0]
            i = self.fresh_binder()
            e1 = self.subst(sa[0].elem, [(v, i)])
            e2 = self.subst(sb[0].elem, [(w, i)])
            return conj([n == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), zb(self.eq(e1, e2))))])
        if not sa or not sb:
            # one is empty
            other = sb or sa
            return neg(zb(self.nonempty(other)))

        def shape(ss):
            # one plain segment among literal items: the split is determined by the lengths
            if any(isinstance(x, HSeg) for x in ss):
                return None
            sh = [len(x.items) if isinstance(x, CSeg) else ('plain' if self._plain(x) else 'other') for x in ss]
            return None if 'other' in sh or sh.count('plain') != 1 else sh
        if shape(sa) is None or shape(sa) != shape(sb):
            self.incomplete = True
        if len(sa) != len(sb):
            # drop provably empty segments
            sa = [s for s in sa if not (isinstance(s, QSeg) and self.contradictory(zb(self.nonempty([s]))))]
            sb = [s for s in sb if not (isinstance(s, QSeg) and self.contradictory(zb(self.nonempty([s]))))]
            if len(sa) != len(sb):
                raise Unsupported('sequence equality between different shapes')
        cs = []
        for x, y in zip(sa, sb):
            if isinstance(x, HSeg) or isinstance(y, HSeg):
                raise LoopCarried((x if isinstance(x, HSeg) else y).token)
            if isinstance(x, CSeg) and isinstance(y, CSeg):
                if len(x.items) != len(y.items):
                    return False
                cs.extend(zb(self.eq(p, q)) for p, q in zip(x.items, y.items))
                continue
            if isinstance(x, CSeg) and len(x.items) == 1:
                x = QSeg([], z3.BoolVal(True), x.items[0])
            if isinstance(y, CSeg) and len(y.items) == 1:
                y = QSeg([], z3.BoolVal(True), y.items[0])
            if isinstance(x, CSeg) or isinstance(y, CSeg) or len(x.binders) != len(y.binders):
                raise Unsupported('sequence equality between different shapes')
            m = []
            m2 = []
            r = []
            bs = []
            for (v, n), (w, k) in zip(x.binders, y.binders):
                i = self.fresh_binder()
                n1 = z3.substitute(n, *m) if m else n
                k1 = z3.substitute(k, *m2) if m2 else k
                cs.append(z3.ForAll(bs, z3.Implies(conj(r), n1 == k1)) if bs else n1 == k1)
                m.append((v, i))
                m2.append((w, i))
                r.append(z3.And(i >= 0, i < n1))
                bs.append(i)
            g1 = z3.substitute(x.guard, *m) if m else x.guard
            g2 = z3.substitute(y.guard, *m2) if m2 else y.guard
            e = zb(self.eq(self.subst(x.elem, m), self.subst(y.elem, m2)))
            body = z3.And(g1 == g2, z3.Implies(g1, e))
            cs.append(z3.ForAll(bs, z3.Implies(conj(r), body)) if bs else body)
        return conj(cs)

    def _plain(self, s):
        return isinstance(s, QSeg) and len(s.binders) == 1 and z3.is_true(simp(s.guard))

    def member_segs(self, v, segs):
        cs = []
        if self.least:
            self.least_member(v, segs)
        for s in segs:
            if isinstance(s, CSeg):
                for x in s.items:
                    r = self.eq(v, x)
                    if r is True:
                        return True
                    cs.append(zb(r))
            elif isinstance(s, HSeg):
                t = self.term(v)
                if t is None:
                    raise LoopCarried(s.token)
                cs.append(z3.Function(f'hmem{s.token}', t.sort(), z3.BoolSort())(t))
            else:
                s2 = self.rename(s)
                with self.scope(s2.binders):
                    e = zb(self.eq(v, s2.elem))
                cs.append(self.exists(s2, e))
        return disj(cs)

    def least_member(self, v, segs):
        """The same for a set collected by several branches of one loop."""
        by = {}
        for s in segs:
            if isinstance(s, QSeg) and len(s.binders) == 1 and any(s.binders[0][1].eq(b) for b, _ in self.binders):
                by.setdefault(s.binders[0][1].get_id(), []).append(s)
        for group in by.values():
            if len(group) < 2:
                continue
            j = self.fresh_binder()
            n = group[0].binders[0][1]
            fs = []
            for s in group:
                m = [(s.binders[0][0], j)]
                with self.scope([(j, n)]):
                    e = zb(self.eq(v, self.subst(s.elem, m)))
                fs.append(simp(conj([j >= 0, j < n, z3.substitute(s.guard, *m), e])))
            self.least_fact(j, disj(fs))

    def subset(self, a, b):
        cs = []
        sb = self.to_segs(b)
        for s in self.to_segs(a):
            if isinstance(s, CSeg):
                cs.extend(zb(self.member_segs(x, sb)) for x in s.items)
            elif isinstance(s, HSeg):
                raise LoopCarried(s.token)
            else:
                s2 = self.rename(s)
                with self.scope(s2.binders):
                    body = zb(self.member_segs(s2.elem, sb))
                cs.append(self.forall(s2, body))
        return conj(cs)

    def any_segs(self, segs, pred):
        """pred(elem) -> z3 Bool/bool, evaluated without forking"""
        cs = []
        for s in segs:
            if isinstance(s, CSeg):
                cs.extend(zb(pred(x)) for x in s.items)
            elif isinstance(s, HSeg):
                raise LoopCarried(s.token)
            else:
                s2 = self.rename(s)
                with self.scope(s2.binders):
                    b = zb(pred(s2.elem))
                cs.append(self.exists(s2, b))
        return disj(cs)

    def all_segs(self, segs, pred):
        cs = []
        for s in segs:
            if isinstance(s, CSeg):
                cs.extend(zb(pred(x)) for x in s.items)
            elif isinstance(s, HSeg):
                raise LoopCarried(s.token)
            else:
                s2 = self.rename(s)
                with self.scope(s2.binders):
                    b = zb(pred(s2.elem))
                cs.append(self.forall(s2, b))
        return conj(cs)

    def map_segs(self, segs, fn):
        """fn(elem) -> value (may branch; merged)."""
        out = []
        for s in segs:
            if isinstance(s, CSeg):
                out.append(CSeg([self.pure(lambda x=x: fn(x)) if is_sym(x) else fn(x) for x in s.items]))
            elif isinstance(s, HSeg):
                raise LoopCarried(s.token)
            else:
                s2 = self.rename(s)
                with self.scope(s2.binders):
                    val = self.under(s2.full(), lambda: self.pure(lambda: fn(s2.elem)))
                out.append(QSeg(s2.binders, s2.guard, val))
        return out

    def under(self, cond, fn):
        """Evaluate fn with cond assumed, without keeping cond afterwards; facts stay
        (they are guarded by construction of the symbols)."""
        lv = self.levels[-1]
        lv.pc.append(cond)
        n = len(lv.pc)
        fb = len(lv.facts)
        try:
            r = fn()
        finally:
            extra = lv.pc[n:]
            del lv.pc[n - 1:]
            lv.pc.extend(extra)
        lv.facts[fb:] = [(z3.Implies(cond, f), bs) for f, bs in lv.facts[fb:]]
        if extra:
            # branching inside leaked into the enclosing path under a binder
            raise Unsupported('path split under a binder')
        return r

    def filter_segs(self, segs, pred):
        """pred(elem) -> value tested for truth"""
        out = []
        for s in segs:
            if isinstance(s, CSeg):
                for x in s.items:
                    c = self.pure(lambda: self.as_bool(pred(x)))
                    t = simp(zb(self.truthy(c)))
                    if z3.is_true(t):
                        out.append(CSeg([x]))
                    elif z3.is_false(t):
                        pass
                    else:
                        out.append(QSeg([], t, x))
            elif isinstance(s, HSeg):
                raise LoopCarried(s.token)
            else:
                s2 = self.rename(s)
                with self.scope(s2.binders):
                    c = self.under(s2.full(), lambda: self.pure(lambda: self.as_bool(pred(s2.elem))))
                out.append(QSeg(s2.binders, conj([s2.guard, zb(self.truthy(c))]), s2.elem))
        return self.norm(out)

    def as_bool(self, v):
        t = self.truthy(v)
        return t if isinstance(t, bool) else SBool(t)

    # comprehension -> segments
    def comp_segs(self, elt, gens, frame, pair=False):
        child = Frame(frame.glob, parent=frame, owner=frame.owner, self_=frame.self_, fname=frame.fname)

        def rec(gi):
            """segments produced from generator gi on (in the current scope)"""
            if gi == len(gens):
                if pair:
                    return [CSeg([(self.eval(elt[0], child), self.eval(elt[1], child))])]
                return [CSeg([self.eval(elt, child)])]
            g = gens[gi]
            segs = self.to_segs(self.eval(g.iter, frame if gi == 0 else child))
            out = []
            for s in segs:
                if isinstance(s, HSeg):
                    raise LoopCarried(s.token)
                if isinstance(s, CSeg):
                    for x in s.items:
                        out.extend(self.comp_body(QSeg([], z3.BoolVal(True), x), g, gi, child, rec))
                else:
                    out.extend(self.comp_body(self.rename(s), g, gi, child, rec))
            return self.norm(out)
        return rec(0)

    def comp_body(self, s, g, gi, child, rec):
        def run():
            self.assign(g.target, s.elem, child)
            for c in g.ifs:
                if not self.test(self.eval(c, child)):
                    return []
            return rec(gi + 1)
        with self.scope(s.binders):
            def go():
                return self.explore(run)
            paths = self.under(s.full(), lambda: go()) if s.binders or not z3.is_true(s.guard) else go()
            self.lift_paths(paths)
        return self.combine(s, paths)

    def only_read(self, cell, field, new, given):
        """Whether all that happened to a mapping is that initial entries of it were named, none of which was changed since or is given away."""
        old = cell.data.get(field)
        while new is not old:
            if not isinstance(new, SMap) or new.origin is None:
                return False
            m, v, data = new.origin
            if not all(isinstance(s, CSeg) and all(isinstance(x, (SBool, SInt, SReal, SStr, bool, int, str)) for x in s.items) for s in given or []):
                return False
            if set(v.data) != set(data) or any(v.data[k] is not data[k] for k in data):
                return False
            new = m
        return True

    def combine(self, s, paths):
        ok = [p for p in paths if p.kind == 'ok']
        bad = [p for p in paths if p.kind == 'raise']
        for p in paths:
            if p.kind == 'sig':
                raise Unsupported('control flow in comprehension')
            if any(not isinstance(c, Frame) and not self.only_read(c, f, v, p.value) for (c, f), v in p.diff.items()):
                raise Unsupported('side effect in comprehension')
        if bad:
            c = disj([conj(p.pc) for p in bad])
            ex = self.exists(s, c) if s.binders else conj([s.guard, c])
            if self.branch(ex):
                raise PyRaise(bad[0].value)
        em = [(conj(p.pc), self.norm(p.value)) for p in ok if p.value]
        if not em:
            return []
        # single element per path
        if all(len(v) == 1 and isinstance(v[0], CSeg) and len(v[0].items) == 1 for _, v in em):
            guard = simp(conj([s.guard, disj([c for c, _ in em])])) if len(em) < len(ok) or len(ok) != 1 else s.guard
            if len(em) == len(ok) and not bad:
                guard = s.guard
            val = self.merge([(c, v[0].items[0]) for c, v in em])
            if not s.binders and z3.is_true(simp(guard)):
                return [CSeg([val])]
            return [QSeg(s.binders, guard, val)]
        if len(em) > 1:
            # a condition that is the same for every element is decided first
            mine = {v.decl().name() for v, _ in s.binders}
            for p in ok:
                for c in p.pc:
                    if not (expr_vars(c) & mine) and not z3.is_true(simp(c)):
                        yes = self.branch(c)
                        fact = c if yes else neg(c)
                        rest = [Path([z3.BoolVal(True) if simp(x).eq(simp(fact)) else x for x in q.pc], q.facts, q.kind, q.value, q.diff) for q in paths if not any(simp(x).eq(simp(neg(fact))) for x in q.pc)]
                        return self.combine(s, rest)
            raise Unsupported('comprehension body emits different shapes')
        c, segs = em[0]
        if not s.binders and z3.is_true(simp(conj([s.guard, c]))):
            return segs
        if len(segs) > 1 and s.binders:
            raise Unsupported('comprehension emits several segments per element')
        out = []
        for x in segs:
            if isinstance(x, CSeg):
                if len(x.items) > 1 and s.binders:
                    raise Unsupported('comprehension emits several items per element')
                for it in x.items:
                    out.append(QSeg(s.binders, simp(conj([s.guard, c])), it))
            else:
                out.append(QSeg(s.binders + x.binders, simp(conj([s.guard, c, x.guard])), x.elem))
        return out

    # --------------------------------------------------------------- indexing
    def index_seq(self, seq, k):
        if isinstance(k, slice):
            return self.slice_seq(seq, k)
        segs = self.norm(seq.segs)
        items = self.concrete_items(segs)
        if items is not None and isinstance(k, int):
            try:
                return items[k]
            except IndexError:
                raise PyRaise(ExcVal(IndexError))
        if not seq.ordered:
            self.used_models.add('an element picked from an unordered collection is arbitrary')
        if len(segs) == 1 and self._plain(segs[0]) and seq.ordered:
            v, n = segs[0].binders[0]
            kt = self.num(k)
            if isinstance(k, int):
                idx = kt if k >= 0 else n + kt
                okc = (n > k) if k >= 0 else (n >= -k)
            else:
                idx = z3.If(kt < 0, n + kt, kt)
                okc = z3.And(idx >= 0, idx < n)
            if not self.branch(okc):
                raise PyRaise(ExcVal(IndexError))
            return self.subst(segs[0].elem, [(v, simp(idx))])
        if isinstance(k, int) and k == 0:
            # leading element
            for s in segs:
                if isinstance(s, HSeg):
                    raise LoopCarried(s.token)
                if isinstance(s, CSeg):
                    return s.items[0]
                if self.branch(zb(self.nonempty([s]))):
                    return self.pick_first(s, seq.ordered)
            raise PyRaise(ExcVal(IndexError))
        if isinstance(k, int) and k == -1 and segs and isinstance(segs[-1], CSeg):
            return segs[-1].items[-1]
        raise Unsupported('index into this sequence')

    def pick_first(self, s, ordered=True):
        s2 = self.rename(s)
        m = []
        for v, n in s2.binders:
            k = self.fresh('first', z3.IntSort())
            m.append((v, k))
        some = zb(self.nonempty([s]))
        self.fact(z3.Implies(some, z3.substitute(s2.full(), *m) if m else s2.full()))
        if ordered and m:
            s3 = self.rename(s)
            self.fact(z3.Implies(some, z3.ForAll([v for v, _ in s3.binders], z3.Implies(z3.And(s3.full(), self.lex_lt([v for v, _ in s3.binders], [k for _, k in m])), z3.BoolVal(False)))))
        return self.subst(s2.elem, m)

    def lex_lt(self, xs, ys):
        cs = []
        for i in range(len(xs)):
            cs.append(conj([xs[j] == ys[j] for j in range(i)] + [xs[i] < ys[i]]))
        return disj(cs)

    def slice_seq(self, seq, sl):
        segs = self.norm(seq.segs)
        items = self.concrete_items(segs)
        if items is not None and not is_sym(sl.start) and not is_sym(sl.stop) and not is_sym(sl.step):
            r = items[sl]
            return tuple(r) if seq.kind == 'tuple' else LCell(SSeq([CSeg(r)], kind='list'))
        if sl.step not in (None, 1):
            raise Unsupported('slice step')
        if sl.start in (None, 0) and sl.stop is not None:
            ln = self.length(segs)
            stop = sl.stop
            if isinstance(stop, int) and stop < 0:
                raise Unsupported('negative slice')
            lt, st = self.nums(ln, stop)
            if self.valid(lt <= st, timeout=1500):
                return SSeq(segs, seq.kind, seq.ordered)
            if not seq.ordered:
                raise Unsupported('slice of an unordered collection')
            if len(segs) == 1 and self._plain(segs[0]):
                v, n = segs[0].binders[0]
                if not isinstance(stop, int):
                    self.fact(st >= 0) if False else None
                nn = z3.If(st < n, z3.If(st < 0, z3.If(n + st < 0, 0, n + st), st), n)
                return SSeq([QSeg([(v, simp(nn))], z3.BoolVal(True), segs[0].elem)], seq.kind)
            if items is not None:
                # concrete items, symbolic stop: fork on the length taken
                for k in range(len(items) + 1):
                    c = (st <= 0) if k == 0 else ((st >= len(items)) if k == len(items) else st == k)
                    if self.branch(c):
                        return SSeq([CSeg(items[:k])], seq.kind)
                raise Infeasible()
            raise Unsupported('slice')
        if sl.stop is None and isinstance(sl.start, int) and sl.start >= 0 and len(segs) == 1 and self._plain(segs[0]):
            v, n = segs[0].binders[0]
            w = self.fresh_binder()
            k = sl.start
            nn = z3.If(n > k, n - k, 0)
            return SSeq([QSeg([(w, nn)], z3.BoolVal(True), self.subst(segs[0].elem, [(v, w + k)]))], seq.kind)
        raise Unsupported('slice')

    # ------------------------------------------------------------------ maps
    def kterm(self, k):
        t = self.term(k)
        if t is None:
            if isinstance(k, (SSeq, tuple)):
                return self.atomize(k)
            if k is None:
                return None
            raise Unsupported(f'map key {k!r:.60}')
        return t

    def atom_for(self, segs):
        """The same text of a tuple gets the same name everywhere."""
        key, keep, names = [], [], set()
        for sg in segs:
            if isinstance(sg, CSeg):
                ts = [self.term(x) for x in sg.items]
            elif self._plain(sg):
                v, n = sg.binders[0]
                t = self.term(sg.elem)
                ts = None if t is None else [simp(n), z3.Lambda([v], t)]
                names.discard(v.decl().name())
            else:
                ts = None
            if ts is None or any(t is None for t in ts):
                return self.fresh('atom', PathSort)
            for t in ts:
                names |= expr_vars(t)
            key.append((isinstance(sg, CSeg),) + tuple(t.get_id() for t in ts))
            keep.extend(ts)
        if any(v.decl().name() in names for v, _ in self.binders):
            return self.fresh('atom', PathSort)
        key = tuple(key)
        if key not in self.atoms:
            self.atoms[key] = (z3.Const(f'atom@{len(self.atoms)}', PathSort), keep)
        return self.atoms[key][0]

    def atomize(self, k):
        """Path atom for a tuple of strings that is not one yet."""
        seq = self.as_seq(k)
        if seq.atom is not None:
            return seq.atom
        items = self.concrete_items(seq.segs)
        p = self.atom_for(self.norm(seq.segs))
        if items is not None:
            self.fact(path_len(p) == len(items))
            for i, x in enumerate(items):
                t = self.term(x)
                if t is None or t.sort() != StrSort:
                    raise Unsupported('tuple key')
                self.fact(path_at(p, i) == t)
        else:
            off = z3.IntVal(0)
            for sg in self.norm(seq.segs):
                if isinstance(sg, CSeg):
                    ts = [self.term(x) for x in sg.items]
                    if any(t is None or t.sort() != StrSort for t in ts):
                        raise Unsupported('tuple key')
                    for i, t in enumerate(ts):
                        self.fact(path_at(p, simp(off + i)) == t)
                    off = off + len(ts)
                elif self._plain(sg):
                    v, n = sg.binders[0]
                    t = self.term(sg.elem)
                    if t is None or t.sort() != StrSort:
                        raise Unsupported('tuple key')
                    w = self.fresh_binder()
                    self.fact(z3.ForAll([w], z3.Implies(z3.And(w >= off, w < off + n), path_at(p, w) == z3.substitute(t, (v, w - off))), patterns=[path_at(p, w)]))
                    off = off + n
                else:
                    raise Unsupported('tuple key')
            self.fact(path_len(p) == off)
        # extensionality of paths (tuples of strings)
        a, b = z3.Consts('pext!a pext!b', PathSort)
        i = z3.Int('pext!i')
        self.fact(z3.ForAll([a], z3.Implies(z3.And(path_len(a) == path_len(p), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < path_len(p)), path_at(a, i) == path_at(p, i)))), a == p)))
        seq.atom = p
        return p

    def map_has(self, d, k):
        """-> bool / z3 Bool"""
        k = self.resolve(k)
        if isinstance(d, dict):
            if not is_sym(k):
                return k in d
            return disj([zb(self.eq(k, x)) for x in d])
        m = d.v
        res = None
        out = z3.BoolVal(False)
        if m.base is not None:
            t = self.kterm(k)
            if not self.keyed_by(m.base, t):
                out = z3.BoolVal(False)
            else:
                out = m.base.dom(t)
        for kk, vv in m.overlay:
            e = zb(self.eq(k, kk))
            out = z3.If(simp(e), z3.BoolVal(vv is not DELETED), out)
        return simp(out)

    def map_get(self, d, k, default=None, strict=True, insert=False):
        k = self.resolve(k)
        if isinstance(d, dict):
            if not is_sym(k):
                if k in d:
                    return d[k]
                if strict:
                    if isinstance(d, collections.defaultdict):
                        raise Unsupported('concrete defaultdict')
                    raise PyRaise(ExcVal(KeyError, (k,)))
                return default
            alts = []
            none = []
            for x, val in d.items():
                c = zb(self.eq(k, x))
                c = simp(c)
                if z3.is_false(c):
                    continue
                alts.append((c, val))
                none.append(neg(c))
            rest = conj(none)
            if strict:
                if self.branch(rest):
                    raise PyRaise(ExcVal(KeyError))
                return SUnion(alts)
            alts.append((rest, default))
            return self.merge_lazy(alts)
        m = d.v
        for kk, vv in reversed(m.overlay):
            e = self.eq(k, kk)
            if self.branch(zb(e)):
                if vv is DELETED:
                    break
                return vv
        else:
            if m.base is not None:
                t = self.kterm(k)
                if self.keyed_by(m.base, t) and self.branch(m.base.dom(t)):
                    v = m.base.val(self, t)
                    if isinstance(v, Cell):
                        self.write(d, 'v', SMap(m.base, m.overlay + [(k, v)], origin=(m, v, dict(v.data))))
                    return v
        if strict:
            if d.default is not None:
                v = self.call(d.default, [], {})
                self.map_set(d, k, v)
                return v
            raise PyRaise(ExcVal(KeyError))
        return default

    def merge_lazy(self, alts):
        alts = [(c, v) for c, v in alts if not z3.is_false(simp(c))]
        if len(alts) == 1:
            return alts[0][1]
        return SUnion(alts)

    def map_set(self, d, k, v):
        m = d.v
        ov = [(kk, vv) for kk, vv in m.overlay if not (self.eq(kk, k) is True or z3.is_true(simp(zb(self.eq(kk, k)))))]
        self.write(d, 'v', SMap(m.base, ov + [(k, v)]))

    def keyed_by(self, base, t):
        return t is not None and (isinstance(base, HMapBase) or t.sort() == base.key_at.range())

    def map_key_segs(self, d):
        if isinstance(d, dict):
            return [CSeg(list(d))] if d else []
        m = d.v
        segs = []
        if m.base is not None:
            if isinstance(m.base, HMapBase):
                raise LoopCarried(m.base.tok)
            if m.base.n is None:
                raise Unsupported('enumeration of a partly filled mapping')
            i = self.fresh_binder()
            k = m.base.kwrap(self, m.base.key_at(i))
            g = z3.BoolVal(True)
            for kk, vv in m.overlay:
                if vv is DELETED:
                    g = z3.And(g, neg(zb(self.eq(k, kk))))
            segs.append(QSeg([(i, m.base.n)], g, k))
        seen = []
        for kk, vv in m.overlay:
            if vv is DELETED:
                continue
            g = z3.BoolVal(True)
            if m.base is not None:
                t = self.kterm(kk)
                if self.keyed_by(m.base, t):
                    g = z3.And(g, z3.Not(m.base.dom(t)))
            for s in seen:
                g = z3.And(g, neg(zb(self.eq(s, kk))))
            seen.append(kk)
            g = simp(g)
            if z3.is_true(g):
                segs.append(CSeg([kk]))
            elif not z3.is_false(g):
                segs.append(QSeg([], g, kk))
        return self.norm(segs)

    def map_peek(self, d, k):
        """Value at key k known to be present (no forking, no materialising)."""
        if isinstance(d, dict):
            return self.map_get(d, k)
        m = d.v
        alts = []
        rest = z3.BoolVal(True)
        for kk, vv in reversed(m.overlay):
            c = simp(conj([rest, zb(self.eq(k, kk))]))
            if not z3.is_false(c) and vv is not DELETED:
                alts.append((c, vv))
            rest = simp(conj([rest, neg(zb(self.eq(k, kk)))]))
        if m.base is not None and not z3.is_false(rest):
            alts.append((rest, m.base.val(self, self.kterm(k))))
        return self.merge_lazy(alts)
