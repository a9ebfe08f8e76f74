"""Statement / expression interpreter and loop summaries."""
from .vm import *
from .vm import VM as _Base
import time as _time


class Interp(_Base):
    # ------------------------------------------------------------- functions
    def is_repo(self, fn):
        m = getattr(fn, '__module__', None) or ''
        return m == 'dp' or m.startswith('dp.') or m in self.spec_mods or m.startswith('contracts.')

    def call_function(self, fn, args, kwargs, owner=None):
        """fn: a real python function with source in the repo or a contract module"""
        if fn in self.summaries:
            return self.summaries[fn](self, args, kwargs)
        node = fn_node(fn)
        self.inlined.add(f'{fn.__module__}:{fn.__qualname__}')
        defaults = list(fn.__defaults__ or ())
        kwdefaults = dict(fn.__kwdefaults__ or {})
        frame = Frame(fn.__globals__, owner=owner, fname=fn.__qualname__)
        if fn.__closure__:
            for nm, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    frame.cells[nm] = c.cell_contents
                except ValueError:
                    pass
        return self.enter(node, frame, args, kwargs, defaults, kwdefaults, genkey=(fn, owner))

    def call_closure(self, c, args, kwargs):
        frame = Frame(c.glob, parent=c.frame, owner=c.frame.owner, self_=c.frame.self_, fname=c.name)
        return self.enter(c.node, frame, args, kwargs, c.defaults, c.kwdefaults, genkey=(c, None))

    def enter(self, node, frame, args, kwargs, defaults, kwdefaults, genkey):
        self.bind_args(node.args, frame, list(args), dict(kwargs), defaults, kwdefaults)
        if is_generator(node):
            g = GenObj((node, frame), args, kwargs)
            g.once.depth = len(self.binders)
            return g
        return self.run_body(node, frame)

    def run_body(self, node, frame):
        self.depth += 1
        if self.depth > self.max_depth:
            raise Unsupported('call depth')
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, frame)
            try:
                self.exec_block(node.body, frame)
                return None
            except ReturnSig as r:
                if r.frame is frame:
                    return r.value
                raise
        finally:
            self.depth -= 1

    def bind_args(self, a, frame, args, kwargs, defaults, kwdefaults):
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        for nm, v in zip(pos, args):
            vals[nm] = v
        extra = args[len(pos):]
        if extra and not a.vararg:
            raise PyRaise(ExcVal(TypeError, ('too many arguments',)))
        if a.vararg:
            vals[a.vararg.arg] = tuple(extra)
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        kw = {}
        for k, v in kwargs.items():
            if k in names:
                if k in vals:
                    raise PyRaise(ExcVal(TypeError))
                vals[k] = v
            elif a.kwarg:
                kw[k] = v
            else:
                raise PyRaise(ExcVal(TypeError, (f'unexpected keyword {k}',)))
        if a.kwarg:
            vals[a.kwarg.arg] = DCell(SMap(None, list(kw.items())))
        for nm, d in zip(pos[len(pos) - len(defaults):], defaults):
            vals.setdefault(nm, d)
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg not in kwdefaults:
                    raise PyRaise(ExcVal(TypeError, (f'missing {x.arg}',)))
                vals[x.arg] = kwdefaults[x.arg]
        for nm in pos:
            if nm not in vals:
                raise PyRaise(ExcVal(TypeError, (f'missing {nm}',)))
        for k, v in vals.items():
            self.write(frame, k, v)
        if pos:
            frame.self_ = vals.get(pos[0])

    def run_gen(self, g, hook):
        """Drive a generator: hook(value) runs at every yield."""
        self.consume(g.once)
        node, frame = g.fn
        old = frame.hook
        frame.hook = hook
        try:
            return self.run_body(node, frame)
        finally:
            frame.hook = old

    # ------------------------------------------------------------- names
    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.data:
                v = f.data[name]
                if v is UNBOUND:
                    raise PyRaise(ExcVal(UnboundLocalError, (name,)))
                return v
            if name in f.cells:
                return f.cells[name]
            f = f.parent
        key = (id(frame.glob), name)
        if key in self.globals_overlay.data:
            return self.globals_overlay.data[key]
        if name in frame.glob:
            return frame.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(ExcVal(NameError, (name,)))

    def store(self, name, v, frame):
        if name in frame.globals_decl:
            self.write(self.globals_overlay, (id(frame.glob), name), v)
            return
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None:
                if name in f.data:
                    self.write(f, name, v)
                    return
                f = f.parent
        self.write(frame, name, v)

    def assign(self, target, v, frame):
        if isinstance(target, ast.Name):
            self.store(target.id, v, frame)
        elif isinstance(target, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            items = self.concrete_items(self.norm(self.to_segs(v)))
            if items is None:
                segs = self.norm(self.to_segs(v))
                if len(segs) == 1 and self._plain(segs[0]) and not any(isinstance(x, ast.Starred) for x in target.elts):
                    bv, n = segs[0].binders[0]
                    if not self.branch(n == len(target.elts)):
                        raise PyRaise(ExcVal(ValueError))
                    items = [self.subst(segs[0].elem, [(bv, z3.IntVal(i))]) for i in range(len(target.elts))]
                else:
                    raise Unsupported('unpacking')
            star = [i for i, x in enumerate(target.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                post = len(target.elts) - k - 1
                if len(items) < k + post:
                    raise PyRaise(ExcVal(ValueError))
                for t, x in zip(target.elts[:k], items[:k]):
                    self.assign(t, x, frame)
                self.assign(target.elts[k].value, LCell(SSeq([CSeg(items[k:len(items) - post])], kind='list')), frame)
                for t, x in zip(target.elts[k + 1:], items[len(items) - post:] if post else []):
                    self.assign(t, x, frame)
                return
            if len(items) != len(target.elts):
                raise PyRaise(ExcVal(ValueError))
            for t, x in zip(target.elts, items):
                self.assign(t, x, frame)
        elif isinstance(target, ast.Subscript):
            d = self.resolve(self.eval(target.value, frame))
            k = self.eval(target.slice, frame)
            if isinstance(d, DCell):
                self.map_set(d, self.resolve(k), v)
            elif isinstance(d, LCell):
                k = self.resolve(k)
                items = self.concrete_items(d.v.segs)
                if items is None or not isinstance(k, int):
                    raise Unsupported('list item assignment')
                items = list(items)
                items[k] = v
                self.write(d, 'v', SSeq([CSeg(items)], kind='list'))
            else:
                raise Unsupported('item assignment')
        elif isinstance(target, ast.Attribute):
            o = self.resolve(self.eval(target.value, frame))
            if isinstance(o, Rec):
                self.write(o, target.attr, v)
            else:
                raise Unsupported('attribute assignment')
        else:
            raise Unsupported(f'assign {type(target).__name__}')

    # ------------------------------------------------------------ statements
    def exec_block(self, body, frame):
        for s in body:
            self.exec(s, frame)

    def exec(self, s, frame):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, frame)

    def x_Expr(self, s, frame):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, frame)

    def x_Pass(self, s, frame):
        pass

    def x_Assign(self, s, frame):
        v = self.eval(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def x_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, frame), frame)

    def x_AugAssign(self, s, frame):
        load = ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target) if isinstance(s.target, ast.Name) else \
            (ast.Attribute(value=s.target.value, attr=s.target.attr, ctx=ast.Load()) if isinstance(s.target, ast.Attribute) else ast.Subscript(value=s.target.value, slice=s.target.slice, ctx=ast.Load()))
        cur = self.resolve(self.eval(load, frame))
        rhs = self.eval(s.value, frame)
        if isinstance(cur, LCell) and isinstance(s.op, ast.Add):
            self.write(cur, 'v', SSeq(self.norm(cur.v.segs + self.to_segs(rhs)), kind='list'))
            return
        if isinstance(cur, SCell) and isinstance(s.op, ast.BitOr):
            self.write(cur, 'v', SSet(self.norm(cur.v.segs + self.to_segs(rhs))))
            return
        self.assign(s.target, self.binop(s.op, cur, rhs), frame)

    def x_If(self, s, frame):
        if self.test(self.eval(s.test, frame)):
            self.exec_block(s.body, frame)
        else:
            self.exec_block(s.orelse, frame)

    def x_Return(self, s, frame):
        v = self.eval(s.value, frame) if s.value is not None else None
        raise ReturnSig(self.fn_frame(frame), v)

    def fn_frame(self, frame):
        return frame

    def x_Raise(self, s, frame):
        if s.exc is None:
            cur = getattr(frame, 'fname', None)
            if not self.handling:
                raise Unsupported('bare raise')
            raise PyRaise(self.handling[-1])
        v = self.resolve(self.eval(s.exc, frame))
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v)
        if isinstance(v, BaseException):
            v = ExcVal(type(v), v.args)
        if not isinstance(v, ExcVal):
            raise Unsupported('raise of non-exception')
        raise PyRaise(v)

    handling = []

    def x_Assert(self, s, frame):
        if not self.test(self.eval(s.test, frame)):
            raise PyRaise(ExcVal(AssertionError))

    def x_Try(self, s, frame):
        try:
            try:
                self.exec_block(s.body, frame)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        tv = self.eval(h.type, frame)
                        tv = tv if isinstance(tv, tuple) else (tv,)
                        match = any(issubclass(e.value.cls, t) for t in tv)
                    if match:
                        if h.name:
                            self.store(h.name, e.value, frame)
                        self.handling = self.handling + [e.value]
                        try:
                            self.exec_block(h.body, frame)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, frame)
        except (Infeasible, Unsupported):
            raise
        except BaseException:
            self.exec_block(s.finalbody, frame)
            raise
        else:
            self.exec_block(s.finalbody, frame)

    def x_Global(self, s, frame):
        frame.globals_decl |= set(s.names)

    def x_Nonlocal(self, s, frame):
        frame.nonlocals |= set(s.names)

    def x_Import(self, s, frame):
        for a in s.names:
            m = __import__(a.name)
            self.store(a.asname or a.name.split('.')[0], m, frame)

    def x_ImportFrom(self, s, frame):
        import importlib
        pkg = frame.glob.get('__package__') or ''
        name = '.' * s.level + (s.module or '')
        m = importlib.import_module(name, pkg) if s.level else importlib.import_module(s.module)
        for a in s.names:
            self.store(a.asname or a.name, getattr(m, a.name), frame)

    def x_FunctionDef(self, s, frame):
        if s.decorator_list:
            raise Unsupported('decorated inner function')
        self.store(s.name, self.make_closure(s, frame, s.name), frame)

    def make_closure(self, node, frame, name):
        defaults = [self.eval(d, frame) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d, frame) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return Closure(node, frame, frame.glob, name, defaults, kwd)

    def x_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.unset(frame, t.id)
            elif isinstance(t, ast.Subscript):
                d = self.resolve(self.eval(t.value, frame))
                k = self.resolve(self.eval(t.slice, frame))
                if not isinstance(d, DCell):
                    raise Unsupported('del')
                if not self.branch(zb(self.map_has(d, k))):
                    raise PyRaise(ExcVal(KeyError))
                self.map_set(d, k, DELETED)
            else:
                raise Unsupported('del')

    def x_Break(self, s, frame):
        raise BreakSig()

    def x_Continue(self, s, frame):
        raise ContinueSig()

    def x_While(self, s, frame):
        n = 0
        while True:
            c = zb(self.truthy(self.eval(s.test, frame)))
            c = simp(c)
            if not (z3.is_true(c) or z3.is_false(c)):
                raise Unsupported('while loop with a symbolic condition')
            if z3.is_false(c):
                break
            n += 1
            if n > 200:
                raise Unsupported('while loop does not terminate concretely')
            try:
                self.exec_block(s.body, frame)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(s.orelse, frame)

    def x_With(self, s, frame):
        self.with_items(s.items, s.body, frame)

    def with_items(self, items, body, frame):
        if not items:
            self.exec_block(body, frame)
            return
        it = items[0]
        v = self.resolve(self.eval(it.context_expr, frame))
        if isinstance(v, GenObj):
            def hook(val):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val, frame)
                self.with_items(items[1:], body, frame)
            self.run_gen(v, hook)
            return
        if isinstance(v, Rec) or isinstance(v, SObj):
            ent = self.getattr_(v, '__enter__')
            ext = self.getattr_(v, '__exit__')
            val = self.call(ent, [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, frame)
            try:
                self.with_items(items[1:], body, frame)
            except PyRaise as e:
                r = self.call(ext, [e.value.cls, e.value, None], {})
                if self.test(r):
                    return
                raise
            except (Infeasible, Unsupported):
                raise
            except BaseException:
                self.call(ext, [None, None, None], {})
                raise
            else:
                self.call(ext, [None, None, None], {})
            return
        raise Unsupported('with')

    # ---------------------------------------------------------------- loops
    def x_For(self, s, frame):
        it = self.resolve(self.eval(s.iter, frame))
        if isinstance(it, GenObj):
            tok = object()

            def hook(val):
                try:
                    self.assign(s.target, val, frame)
                    self.exec_block(s.body, frame)
                except ContinueSig:
                    return
                except BreakSig:
                    raise GenBreak(tok)
                except PyRaise as e:
                    raise ConsumerRaise(e)
            try:
                self.run_gen(it, hook)
            except GenBreak as b:
                if b.token is not tok:
                    raise
                return
            except ConsumerRaise as c:
                raise c.inner
            self.exec_block(s.orelse, frame)
            return
        segs = self.norm(self.to_segs(it))
        try:
            for seg in segs:
                if isinstance(seg, HSeg):
                    raise LoopCarried(seg.token)
                if isinstance(seg, CSeg):
                    for x in seg.items:
                        self.assign(s.target, x, frame)
                        try:
                            self.exec_block(s.body, frame)
                        except ContinueSig:
                            pass
                elif not seg.binders:
                    if self.branch(seg.guard):
                        self.assign(s.target, seg.elem, frame)
                        try:
                            self.exec_block(s.body, frame)
                        except ContinueSig:
                            pass
                else:
                    def body(elem):
                        self.assign(s.target, elem, frame)
                        try:
                            self.exec_block(s.body, frame)
                        except ContinueSig:
                            pass
                    self.summarize(seg, body)
        except BreakSig:
            return
        self.exec_block(s.orelse, frame)

    # -- loop summary --------------------------------------------------------
    def havoc_for(self, v0, tok, cell=None):
        if isinstance(v0, (bool, SBool)):
            return SBool(z3.Bool(f'hv{tok}'))
        if isinstance(v0, (int, SInt)) and not isinstance(v0, bool) and not isinstance(v0, enum.Enum):
            return SInt(z3.Int(f'hv{tok}'))
        if isinstance(v0, (Decimal, SReal)):
            return SReal(z3.Real(f'hv{tok}'))
        if isinstance(v0, SSeq):
            return SSeq([HSeg(tok)], kind=v0.kind)
        if type(v0) is tuple and not v0:
            return SSeq([HSeg(tok)], kind='tuple')
        if isinstance(v0, SSet):
            return SSet([HSeg(tok)])
        if isinstance(v0, SMap) and v0.base is None and not v0.overlay and cell is not None:
            return SMap(HMapBase(tok, self.map_mode(cell)))
        return Poison(tok)

    def map_mode(self, cell):
        d = cell.default
        if d is None or d is list:
            return 'list'
        if d is int:
            return 'int'
        if d is Decimal:
            return 'real'
        if d is set:
            return 'set'
        try:
            v = self.pure(lambda: self.call(d, [], {}))
        except PyRaise:
            return 'list'
        if isinstance(v, SCell):
            return 'set'
        return self.kind(v) if self.kind(v) in ('int', 'real') else 'list'

    def mentions(self, x, toks):
        """does a z3 term / value mention one of the havoc tokens"""
        if not toks:
            return False
        names = set()
        for t in toks:
            names |= {f'hv{t}', f'hmem{t}', f'hdom{t}', f'hval{t}'}
        if z3.is_expr(x):
            return bool(expr_vars(x) & names)
        if isinstance(x, (SBool, SInt, SReal, SStr, SEnum, SObj)):
            return bool(expr_vars(x.t) & names)
        if isinstance(x, SUnion):
            return any(self.mentions(c, toks) or self.mentions(v, toks) for c, v in x.alts)
        if isinstance(x, (SSeq, SSet)):
            return any(self.seg_mentions(s, toks) for s in x.segs)
        if isinstance(x, (LCell, SCell)):
            return self.mentions(x.v, toks)
        if isinstance(x, Rec):
            return any(self.mentions(v, toks) for v in x.data.values())
        if isinstance(x, DCell):
            return self.mentions(x.v, toks)
        if isinstance(x, SMap):
            return isinstance(x.base, HMapBase) and x.base.tok in toks or any(self.mentions(k, toks) or self.mentions(v, toks) for k, v in x.overlay if v is not DELETED)
        if type(x) is tuple:
            return any(self.mentions(v, toks) for v in x)
        if isinstance(x, Poison):
            return x.why in toks
        return False

    def seg_mentions(self, s, toks):
        if isinstance(s, HSeg):
            return s.token in toks
        if isinstance(s, CSeg):
            return any(self.mentions(x, toks) for x in s.items)
        return self.mentions(s.guard, toks) or self.mentions(s.elem, toks) or any(self.mentions(n, toks) for _, n in s.binders)

    def summarize(self, seg, body):
        """Summary of `for elem in seg: body(elem)`; on return the state is the state
        after all iterations; exits re-run the exiting iteration."""
        seg = self.rename(seg)
        idx = [v for v, _ in seg.binders]
        single = len(idx) == 1
        solved = {}       # loc -> function(list of index terms) -> value before that iteration
        kinds = {}
        toks = {}         # loc -> token
        init = {}
        realnum = set()
        select = None
        for rounds in range(12):
            # ---- explore the body from the abstract state
            for _ in range(10):
                try:
                    paths = self.loop_explore(seg, body, idx, solved, toks, init, realnum, select)
                except LoopCarried as e:
                    if e.tok not in toks.values() or not single or select is not None:
                        raise
                    select = self.select_after_read(seg, body, idx, solved, toks, init, realnum)
                    if select is None:
                        raise
                    solved.update(select)
                    continue
                new = [loc for p in paths for loc in p.diff if loc not in toks]
                bad = None
                if not new:
                    break
                for loc in new:
                    if loc not in toks:
                        toks[loc] = self.fresh_name('L')
                        init[loc] = loc[0].data.get(loc[1], UNBOUND)
            else:
                raise Unsupported('loop: modified locations do not stabilise')
            unsolved = [l for l in toks if l not in solved]
            if not unsolved:
                break
            progress = False
            for loc in unsolved:
                utoks = {toks[l] for l in unsolved if l in toks}
                r = self.classify(loc, paths, seg, idx, init[loc], toks[loc], utoks)
                if r == 'real':
                    realnum.add(loc)
                    progress = True
                elif r is not None:
                    solved[loc] = r
                    progress = True
            if not progress:
                rest = [l for l in toks if l not in solved]
                read = getattr(self, '_loop_read', None)
                sel = self.select_template(seg, body, idx, solved, toks, init, realnum, rest) if single and select is None else None
                if sel is None:
                    # a variable whose earlier value no path reads: unknown from here on
                    # (reading it later leaves the subset)
                    dead = [l for l in rest if isinstance(self.havoc_for(init[l], toks[l]), (Poison, SMap))]
                    if dead:
                        for l in dead:
                            solved[l] = (lambda tok: lambda at: Poison(tok))(toks[l])
                        continue
                    raise Unsupported(f'loop: no invariant template fits {[l[1] for l in rest]}')
                for loc, f in sel.items():
                    solved[loc] = f
        else:
            raise Unsupported('loop summary does not converge')
        nxt = [p for p in paths if p.kind == 'ok']
        exits = [p for p in paths if p.kind != 'ok']
        F = disj([conj(p.pc) for p in nxt]) if exits else z3.BoolVal(True)
        with self.scope(seg.binders):
            self.lift_loop_facts(seg, paths)
        if exits:
            F = simp(F)
            allthrough = self.forall(QSeg(seg.binders, seg.guard, None), F)
            if not self.branch(allthrough):
                ks = []
                m = []
                for v, n in seg.binders:
                    k = self.fresh('exit', z3.IntSort())
                    m.append((v, k))
                self.assume(z3.substitute(z3.And(seg.full(), neg(F)), *m))
                s3 = self.rename(seg)
                m3 = [(v, w) for (v, _), (w, _) in zip(seg.binders, s3.binders)]
                F3 = z3.substitute(F, *m3)
                self.assume(z3.ForAll([w for w, _ in s3.binders], z3.Implies(z3.And(s3.full(), self.lex_lt([w for w, _ in s3.binders], [k for _, k in m])), F3)))
                self.set_loop_state(solved, toks, init, [k for _, k in m])
                body(self.subst(seg.elem, m))
                raise Infeasible()
        if single:
            self.set_loop_state(solved, toks, init, [seg.binders[0][1]], end=True, n=seg.binders[0][1])
        else:
            self.set_loop_state(solved, toks, init, None, end=True)

    def lift_loop_facts(self, seg, paths):
        for p in paths:
            c = conj([seg.full()] + p.pc)
            for f, bs in p.facts:
                self.levels[-1].facts.append((z3.Implies(c, f), bs if len(bs) >= len(self.binders) else list(self.binders)))

    def set_loop_state(self, solved, toks, init, at, end=False, n=None):
        for loc in toks:
            cell, key = loc
            f = solved.get(loc)
            if f is None:
                v = Poison(toks[loc])
            else:
                v = f(at)
            if v is UNBOUND:
                self.unset(cell, key)
            else:
                self.write(cell, key, v)

    def loop_explore(self, seg, body, idx, solved, toks, init, realnum, select):
        def run():
            for loc in toks:
                cell, key = loc
                if loc in solved:
                    v = solved[loc](idx)
                elif loc in realnum:
                    v = SReal(z3.Real(f'hv{toks[loc]}'))
                else:
                    v = self.havoc_for(init[loc], toks[loc], loc[0] if isinstance(loc[0], DCell) else None)
                if v is UNBOUND:
                    self.unset(cell, key)
                else:
                    self.write(cell, key, v)
            self.assume(seg.full())
            body(seg.elem)
        with self.scope(seg.binders):
            paths = self.explore(run)
        # drop the assumed range from each path's pc
        for p in paths:
            p.pc = p.pc[1:]
            # diffs that restore the havoc value are not modifications
        self._raw_paths = paths
        out = []
        for p in paths:
            d = {}
            for loc, v in p.diff.items():
                if loc in toks:
                    d[loc] = v
                else:
                    d[loc] = v
            p.diff = d
            out.append(p)
        return out

    def classify_map(self, cell, seg, tok, others, finals):
        """d[k] += e   /   d[k].append(e)   /   d[k] = e   under a guard, for every iteration."""
        mode = self.map_mode(cell)
        adds, sets = [], []
        for p, v in finals:
            if not isinstance(v, SMap) or not isinstance(v.base, HMapBase) or v.base.tok != tok:
                return None
            if not v.overlay:
                if self.mentions(conj(p.pc), others - {tok}):
                    return None
                continue
            if len(v.overlay) != 1 or v.overlay[0][1] is DELETED:
                return None
            k, x = v.overlay[0]
            kt = self.term(k)
            if kt is None and isinstance(k, (tuple, SSeq)):
                kt = self.atomize(k)
            if kt is None or self.mentions(kt, others):
                return None
            known = z3.Function(f'hdom{tok}', kt.sort(), z3.BoolSort())(kt)
            old = None
            pc = []
            for c in p.pc:
                c = simp(c)
                if c.eq(known):
                    old = True
                elif c.eq(simp(z3.Not(known))):
                    old = False
                else:
                    pc.append(c)
            if self.mentions(conj(pc), others):
                return None
            delta = None
            if mode in ('int', 'real'):
                t = self.num(x) if self.kind(x) in ('int', 'real') else None
                if t is None:
                    return None
                hv = z3.Function(f'hval{tok}', kt.sort(), z3.IntSort() if mode == 'int' else z3.RealSort())(kt)
                if old is True and f'hval{tok}' in expr_vars(t):
                    if t.sort() != hv.sort():
                        return None
                    delta = simp(t - hv)
                elif old is False:
                    delta = t if t.sort() == hv.sort() else z3.ToReal(t) if hv.sort() == z3.RealSort() else None
                if delta is None or self.mentions(delta, others):
                    return None
                delta = SInt(delta) if mode == 'int' else SReal(delta)
            elif isinstance(x, (LCell, SCell)) and old is not None:
                segs = list(x.v.segs)
                if old:
                    if not segs or not isinstance(segs[0], HSeg) or segs[0].token != tok:
                        return None
                    segs = segs[1:]
                segs = self.norm(segs)
                if len(segs) != 1 or not isinstance(segs[0], CSeg) or len(segs[0].items) != 1 or self.mentions(segs[0].items[0], others):
                    return None
                delta = segs[0].items[0]
            else:
                return None
            adds.append((conj(pc), k, kt, delta, old))
        if not adds:
            return None
        # the two cases (key new / key known) must agree
        groups = {}
        for pc, k, kt, delta, old in adds:
            groups.setdefault((pc.get_id(), kt.get_id()), []).append((pc, k, kt, delta, old))
        parts = []
        for g in groups.values():
            if {x[4] for x in g} != {True, False}:
                return None
            if any(not self.same_val(x[3], g[0][3]) for x in g[1:]):
                return None
            parts.append((g[0][0], (g[0][1] if not isinstance(g[0][1], (tuple, SSeq)) else self.path_value(g[0][2]), g[0][3])))
        fake = [Path([c], [], 'ok', [CSeg([pair])], {}) for c, pair in parts]
        rest = neg(disj([c for c, _ in parts]))
        fake.append(Path([rest], [], 'ok', [], {}))
        try:
            qs = self.combine(QSeg(seg.binders, seg.guard, None), fake)
        except Unsupported:
            return None
        if any(not isinstance(q, QSeg) or type(q.elem) is not tuple or self.term_key(q.elem[0]) is None for q in qs) or (len(qs) != 1 and mode == 'list'):
            return None

        def val(at):
            parts = []
            for q in qs:
                bs = list(q.binders)
                if at is not None:
                    if len(bs) != 1:
                        raise Unsupported('multi-index mapping accumulator')
                    bs = [(bs[0][0], at[0])]
                parts.append(QSeg(bs, q.guard, q.elem))
            return SMap(self.group_base(parts, mode))
        return val

    def same_val(self, a, b):
        if self.same(a, b):
            return True
        ta, tb = self.term(a), self.term(b)
        if ta is None or tb is None or ta.sort() != tb.sort():
            return False
        return z3.is_true(simp(ta == tb)) or self.valid(ta == tb)

    def term_key(self, k):
        t = self.term(k)
        return t if t is not None else (self.atomize(k) if isinstance(k, (tuple, SSeq)) else None)

    def group_base(self, parts, mode):
        """The mapping key -> what the entries with that key add up to."""
        ks = self.term_key(parts[0].elem[0]).sort()
        k0 = parts[0].elem[0]

        def at_key(q, kt):
            q = self.rename(q)
            return QSeg(q.binders, simp(conj([q.guard, self.term_key(q.elem[0]) == kt])), q.elem[1])

        def dom(t):
            return disj([self.exists(at_key(q, t), z3.BoolVal(True)) for q in parts])

        def val(vm, kt):
            qs = [at_key(q, kt) for q in parts]
            if mode in ('int', 'real'):
                tot = z3.IntVal(0) if mode == 'int' else z3.RealVal(0)
                for q in qs:
                    tot = tot + vm.sum_over(q.binders, q.guard, vm.num(q.elem))
                return SInt(simp(tot)) if mode == 'int' else SReal(simp(tot))
            if mode == 'set':
                return SCell(SSet(qs))
            return LCell(SSeq(qs, kind='list'))

        def kwrap(vm, kt):
            return vm.path_value(kt) if ks == PathSort else vm.wrap_like(k0, kt)
        nm = self.fresh_name('grp')
        key_at = z3.Function(nm + '#key', z3.IntSort(), ks)
        n = None
        if not self.binders:
            n = z3.Int(nm + '#n')
            idx = z3.Function(nm + '#idx', ks, z3.IntSort())
            i = self.fresh_binder()
            self.fact(n >= 0)
            self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(dom(key_at(i)), idx(key_at(i)) == i)), patterns=[key_at(i)]))
            for q in parts:
                q = self.rename(q)
                t = self.term_key(q.elem[0])
                self.fact(z3.ForAll([v for v, _ in q.binders], z3.Implies(q.full(), z3.And(idx(t) >= 0, idx(t) < n, key_at(idx(t)) == t))))
        self.group_doms[nm] = dom
        return SMapBase(n, key_at, dom, val, kwrap)

    def classify(self, loc, paths, seg, idx, v0, tok, utoks):
        """Find a closed form for the value of loc before iteration idx."""
        nxt = [p for p in paths if p.kind == 'ok']
        others = utoks
        h0 = self.havoc_for(v0, tok)
        single = len(idx) == 1
        finals = []
        for p in nxt:
            v = p.diff.get(loc, UNBOUND)
            finals.append((p, v))
        if isinstance(v0, (bool, SBool)):
            # every path keeps the flag, raises it (or: raises it when E) or lowers it (unless E)
            tr, fa = [], []
            hv = z3.Bool(f'hv{tok}')
            for p, v in finals:
                if self.same(v, h0):
                    continue
                if v is True:
                    tr.append((p, z3.BoolVal(True)))
                elif v is False:
                    fa.append((p, z3.BoolVal(True)))
                elif isinstance(v, SBool):
                    up, down = (simp(z3.substitute(v.t, (hv, z3.BoolVal(x)))) for x in (True, False))
                    if z3.is_true(up):
                        tr.append((p, down))
                    elif z3.is_false(down):
                        fa.append((p, simp(z3.Not(up))))
                    else:
                        return None
                else:
                    return None
            if tr and fa:
                return self.dead_or_none(loc, paths, tok, v0)
            for p, e in tr + fa:
                if self.mentions(conj(p.pc + [e]), others - {tok}):
                    return None
            # conditions may test the flag itself: they must not matter
            cond = disj([conj(self.strip(p.pc, tok) + [e]) for p, e in tr + fa])
            if self.mentions(cond, others):
                return None
            if any(self.mentions(conj(p.pc), {tok}) for p in paths):
                return None
            acc_or = bool(tr) or not fa

            def val(at):
                e = self.prefix_exists(seg, cond, at)
                t0 = self.term(v0)
                return SBool(simp(z3.Or(t0, e) if acc_or else z3.And(t0, z3.Not(e))))
            return val
        if isinstance(h0, (SInt, SReal)):
            deltas = []
            hv = h0.t
            if any(isinstance(v, SReal) for _, v in finals) and isinstance(h0, SInt):
                if all(isinstance(v, (SReal, Decimal)) or self.same(v, h0) for _, v in finals):
                    pass
                # restart with a real accumulator
                if not any(isinstance(p.diff.get(loc), SReal) and f'hv{tok}' in expr_vars(p.diff[loc].t) and self._is_real_h(p.diff[loc].t, tok) for p, _ in finals):
                    return 'real'
                hv = z3.Real(f'hv{tok}')
                h0 = SReal(hv)
            for p, v in finals:
                if v is UNBOUND:
                    return None
                if self.kind(v) not in ('int', 'real'):
                    return None
                t = self.num(v)
                if t.sort() != hv.sort():
                    return 'real' if t.sort() == z3.RealSort() else None
                d = simp(t - hv)
                if self.mentions(d, others):
                    return None
                deltas.append((p, d))
            zero = z3.IntVal(0) if hv.sort() == z3.IntSort() else z3.RealVal(0)
            body = zero
            const = None
            if len(deltas) and all(d.eq(deltas[0][1]) for _, d in deltas):
                body = deltas[0][1]
                const = body if (z3.is_int_value(body) or z3.is_rational_value(body)) and z3.is_true(simp(seg.guard)) and single else None
            else:
                if any(self.mentions(conj(p.pc), others) for p, _ in deltas):
                    return None
                for p, d in deltas:
                    body = z3.If(conj(p.pc), d, body)
            t0 = self.num(v0)
            if t0.sort() != hv.sort():
                t0 = z3.ToReal(t0)
            wrap = SInt if hv.sort() == z3.IntSort() else SReal
            guard = seg.guard

            def val(at):
                if const is not None and at is not None:
                    k = at[0] if hv.sort() == z3.IntSort() else z3.ToReal(at[0])
                    return wrap(simp(t0 + const * k))
                s3 = self.rename(QSeg(seg.binders, guard, SReal(body) if wrap is SReal else SInt(body)))
                bs = list(s3.binders)
                if at is not None:
                    if len(bs) != 1:
                        raise Unsupported('multi-index accumulator')
                    bs = [(bs[0][0], at[0])]
                    # same summand for every prefix
                tt = self.sum_over(bs, s3.guard, s3.elem.t)
                return wrap(simp(t0 + tt) if not z3.is_true(z3.BoolVal(False)) else tt)
            return val
        if type(v0) is tuple and not v0:
            v0 = SSeq([], kind='tuple')
        if isinstance(v0, (SSeq, SSet)):
            em = []
            isset = isinstance(v0, SSet)
            for p, v in finals:
                if v is UNBOUND or not isinstance(v, type(v0)):
                    return None
                segs = v.segs
                if not segs or not (isinstance(segs[0], HSeg) and segs[0].token == tok):
                    return None
                extra = self.norm(segs[1:])
                em.append((p, extra))
            adds = [(p, e) for p, e in em if e]
            if not adds:
                return lambda at: v0
            if isset:
                r = self.classify_set(loc, seg, idx, v0, tok, others, em)
                return r if r is not None else self.classify_set_apart(seg, idx, v0, tok, others, em)
            for p, e in em:
                if self.mentions(conj(p.pc), others):
                    return None
                if any(self.seg_mentions(x, others) for x in e):
                    return None
            fake = [Path(p.pc, [], 'ok', e, {}) for p, e in em]
            try:
                qs = self.combine(QSeg(seg.binders, seg.guard, None), fake)
            except Unsupported:
                return None

            def val(at):
                if at is None or not single:
                    if at is not None:
                        raise Unsupported('multi-index list accumulator read inside the loop')
                    return SSeq(self.norm(v0.segs + qs), kind=v0.kind)
                out = []
                for q in qs:
                    if isinstance(q, CSeg) or not q.binders or not q.binders[0][0].eq(idx[0]):
                        raise Unsupported('list accumulator')
                    out.append(QSeg([(q.binders[0][0], at[0])] + q.binders[1:], q.guard, q.elem))
                out = [self.rename(q) for q in out]
                return SSeq(self.norm(v0.segs + out), kind=v0.kind)
            return val
        if isinstance(v0, SMap) and v0.base is None and not v0.overlay and isinstance(loc[0], DCell):
            return self.classify_map(loc[0], seg, tok, others, finals)
        # anything else: a plain variable
        if nxt and v0 is not UNBOUND and all(isinstance(p.diff.get(loc), Poison) and p.diff[loc].why == tok for p in nxt):
            # written only by an iteration that leaves the loop
            return lambda at: v0
        if all(p.diff.get(loc, UNBOUND) is not UNBOUND and not isinstance(p.diff.get(loc), Poison) for p in nxt) or not nxt:
            # assigned on every path before use (a temporary): dead at loop start
            vals = [(conj(p.pc), p.diff[loc]) for p in nxt]
            if all(not self.mentions(v, others) for _, v in vals) and not any(self.mentions(c, others) for c, _ in vals) and single and nxt:
                try:
                    last = self.merge(vals)
                except Unsupported:
                    last = None
                if last is not None and z3.is_true(simp(seg.guard)):
                    def val(at):
                        k = at[0]
                        lv = self.subst(last, [(idx[0], simp(k - 1))]) if not isinstance(last, Cell) else Poison(tok)
                        if v0 is UNBOUND:
                            return SUnion([(k <= 0, Poison(tok)), (k > 0, lv)])
                        return SUnion([(k <= 0, v0), (k > 0, lv)])
                    return val
            return lambda at: Poison(tok)
        return None

    def _is_real_h(self, t, tok):
        stack = [t]
        while stack:
            x = stack.pop()
            if z3.is_const(x) and x.decl().name() == f'hv{tok}':
                return x.sort() == z3.RealSort()
            if z3.is_app(x):
                stack.extend(x.children())
        return False

    def strip(self, pc, tok):
        return [c for c in pc if not self.mentions(c, {tok})]

    def dead_or_none(self, loc, paths, tok, v0):
        return None

    def prefix_exists(self, seg, cond, at):
        s3 = self.rename(QSeg(seg.binders, conj([seg.guard, cond]), None))
        if at is None:
            return self.exists(s3, z3.BoolVal(True))
        if len(s3.binders) != 1:
            raise Unsupported('multi-index flag')
        return self.exists(QSeg([(s3.binders[0][0], at[0])], s3.guard, None), z3.BoolVal(True))

    def classify_set(self, loc, seg, idx, v0, tok, others, em):
        """S grows by elements e(i) under guard; `if e not in S: S.add(e)` is the same set."""
        out = []
        gens = []
        for p, extra in em:
            for x in extra:
                if self.seg_mentions(x, others):
                    return None
                items = x.items if isinstance(x, CSeg) else None
                if items is not None:
                    for it in items:
                        t = self.term(it)
                        pc = list(p.pc)
                        if t is not None:
                            hm = z3.Function(f'hmem{tok}', t.sort(), z3.BoolSort())(t)
                            pc = [c for c in pc if not simp(c).eq(simp(z3.Not(hm)))]
                        if self.mentions(conj(pc), others):
                            return None
                        gens.append((conj(pc), [], it))
                else:
                    if self.mentions(conj(p.pc), others):
                        return None
                    gens.append((conj(p.pc + [x.guard]), x.binders, x.elem))
        # every path that does not add e although its guard holds must already have e
        for g, bs, e in gens:
            if bs:
                continue
            t = self.term(e)
            for p, extra in em:
                added = any(isinstance(x, CSeg) and any(self.same(i, e) for i in x.items) for x in extra)
                if added:
                    continue
                if t is None:
                    goal = neg(g)
                else:
                    hm = z3.Function(f'hmem{tok}', t.sort(), z3.BoolSort())(t)
                    goal = z3.Implies(g, hm)
                with self.scope(seg.binders):
                    if not self.valid(goal, extra=[seg.full()] + p.pc):
                        return None

        def val(at):
            segs = list(v0.segs)
            for g, bs, e in gens:
                sb = list(seg.binders)
                if at is not None:
                    if len(sb) != 1:
                        raise Unsupported('multi-index set accumulator')
                    sb = [(sb[0][0], at[0])]
                segs.append(self.rename(QSeg(sb + list(bs), simp(conj([seg.guard, g])), e)))
            return SSet(self.norm(segs))
        return val

    def classify_set_apart(self, seg, idx, v0, tok, others, em):
        """S grows by e(i), tested before against S: suppose every earlier iteration added its
        e(j); the iterations that find theirs in S already must then be impossible."""
        if len(idx) != 1:
            return None
        name = f'hmem{tok}'

        def tests(e, out):
            stack = [e]
            while stack:
                x = stack.pop()
                if z3.is_app(x) and x.decl().name() == name:
                    out.append(x)
                stack.extend(x.children())
            return out
        elem, apart, met = None, [], []
        for p, extra in em:
            lits = [c for c in p.pc if tests(c, [])]
            if any(not (z3.is_not(c) and z3.is_app(c.arg(0)) and c.arg(0).decl().name() == name) for c in lits):
                met.append(p)
                continue
            if len(extra) != 1 or not isinstance(extra[0], CSeg) or len(extra[0].items) != 1:
                return None
            it = extra[0].items[0]
            if self.mentions(it, others) or (elem is not None and not self.same(it, elem)):
                return None
            elem = it
            rest = [c for c in p.pc if not tests(c, [])]
            if self.mentions(conj(rest), others - {tok}):
                return None
            apart.append((p, rest))
        if elem is None or not met or self.term(elem) is None:
            return None
        g = simp(disj([conj(rest) for _, rest in apart]))
        with self.scope(seg.binders):
            if self.valid(g, extra=[seg.full()]):
                g = z3.BoolVal(True)

        def val(at, g=g):
            sb = [(seg.binders[0][0], at[0])] if at is not None else list(seg.binders)
            return SSet(self.norm(list(v0.segs) + [self.rename(QSeg(sb, simp(conj([seg.guard, g])), elem))]))
        before = val(idx)
        with self.scope(seg.binders):
            for p in met:
                pc = []
                for c in p.pc:
                    for t in tests(c, []):
                        c = z3.substitute(c, (t, zb(self.member_segs(self.wrap_like(elem, t.arg(0)), before.segs))))
                    pc.append(c)
                if not self.valid(z3.BoolVal(False), extra=[seg.full()] + pc) and not self.contradictory(seg.full(), *pc):
                    return None
        return val

    def select_after_read(self, seg, body, idx, solved, toks, init, realnum):
        """The body reads a variable no template describes yet.  Suppose every such object
        is the initial one or the one assigned at some earlier iteration m; explore from
        there, describe counters and temporaries, then let `best so far` confirm the
        supposition.  Scalars that fit nothing are unknown (any value), objects unreadable."""
        havocked = set()
        for _ in range(10):
            r = self._select_try(seg, body, idx, solved, toks, init, realnum, havocked)
            if r is None or isinstance(r, dict):
                return r
            havocked |= r
        return None

    def _unknown(self, loc, toks, init):
        h = self.havoc_for(init[loc], toks[loc])
        if isinstance(h, SReal):
            return lambda at: SReal(self.fresh('any', z3.RealSort()))
        if isinstance(h, SInt):
            return lambda at: SInt(self.fresh('any', z3.IntSort()))
        if isinstance(h, SBool):
            return lambda at: SBool(self.fresh('any', z3.BoolSort()))
        return lambda at: Poison(toks[loc])

    def _select_try(self, seg, body, idx, solved, toks, init, realnum, havocked):
        i = idx[0]
        mtok = self.fresh_name('M')
        m = z3.Int(f'hv{mtok}')
        base = dict(solved)
        for loc in havocked:
            base[loc] = self._unknown(loc, toks, init)

        def setup(value):
            for loc in list(toks):
                v = base[loc](idx) if loc in base else value(loc)
                if v is UNBOUND:
                    self.unset(*loc)
                else:
                    self.write(loc[0], loc[1], v)
            self.assume(seg.full())

        def scalar(loc):
            if loc in realnum:
                return SReal(z3.Real(f'hv{toks[loc]}'))
            h = self.havoc_for(init[loc], toks[loc], loc[0] if isinstance(loc[0], DCell) else None)
            return None if isinstance(h, Poison) else h

        def first(loc):
            h = scalar(loc)
            return init[loc] if h is None else h

        def explore(value, extra=None):
            for _ in range(10):
                def run():
                    setup(value)
                    if extra is not None:
                        self.assume(extra)
                    body(seg.elem)
                with self.scope(seg.binders):
                    ps = self.explore(run)
                new = [loc for p in ps for loc in p.diff if loc not in toks]
                if not new:
                    return ps
                for loc in new:
                    if loc not in toks:
                        toks[loc] = self.fresh_name('L')
                        init[loc] = loc[0].data.get(loc[1], UNBOUND)
            raise Unsupported('loop: modified locations do not stabilise')
        p0 = explore(first)
        vals = {}
        for loc in toks:
            if loc in base or scalar(loc) is not None or init[loc] is UNBOUND:
                continue
            vs = [p.diff[loc] for p in p0 if p.kind == 'ok' and loc in p.diff and not self.same(p.diff[loc], init[loc])]
            if any(not self.same(v, vs[0]) for v in vs[1:]):
                return {loc}
            vals[loc] = vs[0] if vs else init[loc]

        def later(loc):
            h = scalar(loc)
            if h is not None:
                return h
            if loc not in vals:
                return Poison(toks[loc])
            if self.same(vals[loc], init[loc]):
                return init[loc]
            return SUnion([(m < 0, init[loc]), (m >= 0, self.subst(vals[loc], [(i, m)]))])
        before = set(toks)
        p1 = explore(later, z3.And(m >= -1, m < i))
        if set(toks) != before:
            return set()
        for p in p1:
            p.pc = p.pc[2:]
        done = dict(base)
        progress = True
        while progress:
            progress = False
            for loc in toks:
                if loc in done or loc in vals:
                    continue
                utoks = {toks[l] for l in toks if l not in done} | {mtok}
                r = self.classify(loc, p1, seg, idx, init[loc], toks[loc], utoks)
                if r == 'real':
                    realnum.add(loc)
                    return set()
                if r is not None:
                    done[loc] = r
                    progress = True
        rest = [l for l in toks if l not in done]
        self._sel_bad = set()
        sel = self.select_template(seg, body, idx, done, toks, init, realnum, rest)
        if sel is not None:
            done.update(sel)
            return done
        return self._sel_bad or None

    def select_template(self, seg, body, idx, solved, toks, init, realnum, rest):
        """Variables that are re-assigned together at selected iterations (`best so far`).

        State before iteration i: last selected index m in [-1, i); values are the
        initial ones when m = -1 and v(m) otherwise.  Candidate invariants relating m to
        all earlier iterations are kept only if proved inductive (Houdini)."""
        if not z3.is_true(simp(seg.guard)):
            guard = seg.guard
        i = idx[0]
        n = seg.binders[0][1]
        # learn v(i) from the initial state
        def run0():
            for loc in toks:
                cell, key = loc
                v = solved[loc](idx) if loc in solved else init[loc]
                if v is UNBOUND:
                    self.unset(cell, key)
                else:
                    self.write(cell, key, v)
            self.assume(seg.full())
            body(seg.elem)
        with self.scope(seg.binders):
            p0 = self.explore(run0)
        vals = {}
        temps = set()
        for loc in rest:
            vs = [p.diff[loc] for p in p0 if p.kind == 'ok' and loc in p.diff and not self.alike(p.diff[loc], init[loc])]
            if not vs:
                vals[loc] = init[loc]
                continue
            if any(not self.alike(v, vs[0]) for v in vs[1:]):
                self._sel_bad = {loc}
                return None
            vals[loc] = vs[0]
        # m as a function symbol of the iteration
        mname = self.fresh_name('sel')
        m = z3.Int(mname)

        def state_val(loc, mt):
            v = vals[loc]
            if self.alike(v, init[loc]):
                return init[loc]
            sv = self.subst(v, [(i, mt)])
            a = init[loc]
            if a is UNBOUND:
                a = Poison(toks[loc])
            return self.merge([(mt < 0, a), (mt >= 0, sv)]) if not isinstance(a, Poison) else SUnion([(mt < 0, a), (mt >= 0, sv)])

        def run1():
            for loc in toks:
                cell, key = loc
                if loc in solved:
                    v = solved[loc](idx)
                else:
                    v = state_val(loc, m)
                if v is UNBOUND:
                    self.unset(cell, key)
                else:
                    self.write(cell, key, v)
            self.assume(seg.full())
            self.assume(z3.And(m >= -1, m < i))
            body(seg.elem)
        with self.scope(seg.binders):
            p1 = self.explore(run1)
        upd = []
        keep = []
        newlocs = [l for p in p1 for l in p.diff if l not in toks]
        if newlocs:
            return None
        oks = [p for p in p1 if p.kind == 'ok']
        flags = {}
        bad = set()
        for loc in rest:
            if self.alike(vals[loc], init[loc]):
                if any(loc in p.diff and not self.alike(p.diff[loc], init[loc]) for p in oks):
                    bad.add(loc)
                continue
            fs = []
            for p in oks:
                v = p.diff.get(loc, UNBOUND)
                kept = self.val_same(v, state_val(loc, m))
                sel = self.val_same(v, vals[loc])
                if sel == kept:
                    bad.add(loc)
                    break
                fs.append(sel)
            else:
                flags[loc] = tuple(fs)
        groups = {}
        for loc, fs in flags.items():
            groups.setdefault(fs, []).append(loc)
        if len(groups) > 1:
            # keep the largest group of variables updated together
            big = max(groups.values(), key=len)
            bad |= {l for g in groups.values() if g is not big for l in g}
        if bad:
            self._sel_bad = bad
            return None
        fs = next(iter(groups), None)
        if fs is None:
            return None
        for p, u in zip(oks, fs):
            (upd if u else keep).append(conj(p.pc[2:]))
        U = disj(upd)       # over i, m
        with self.scope(seg.binders):
            self.lift_loop_facts(seg, p1)
        j = z3.Int(self.fresh_name('sj'))
        rngj = z3.And(j >= 0)
        gj = z3.substitute(seg.guard, (i, j))

        def Uat(it, mt):
            return z3.substitute(U, (i, it), (m, mt))
        # fallthrough of earlier iterations, m-free part
        F = disj([conj([c for c in p.pc[2:]]) for p in p1 if p.kind == 'ok'])
        Fm = None
        if not (mname in expr_vars(simp(F))):
            Fm = F

        def thr(it):
            return z3.substitute(Fm, (i, it)) if Fm is not None else z3.BoolVal(True)

        def cands(it, mt):
            c = {}
            c['range'] = z3.And(mt >= -1, mt < it)
            c['guard'] = z3.Implies(mt >= 0, z3.And(z3.substitute(seg.guard, (i, mt)), thr(mt)))
            c['none'] = z3.Implies(mt == -1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < it, gj, thr(j)), z3.Not(Uat(j, z3.IntVal(-1))))))
            c['max'] = z3.Implies(mt >= 0, z3.ForAll([j], z3.Implies(z3.And(j > mt, j < it, gj, thr(j)), z3.Not(Uat(j, mt)))))
            c['first'] = z3.Implies(mt >= 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < mt, gj, thr(j), ), z3.Or(Uat(mt, j), z3.And(z3.Not(Uat(j, z3.IntVal(-1))), Uat(mt, z3.IntVal(-1)))))))
            c['sel0'] = z3.Implies(mt >= 0, z3.Or(Uat(mt, z3.IntVal(-1)), z3.Exists([j], z3.And(j >= 0, j < mt, Uat(mt, j)))))
            return c
        names = list(cands(i, m))
        kept = set(names)
        through = Fm if Fm is not None else z3.BoolVal(True)
        while True:
            hyp = conj([cands(i, m)[k] for k in names if k in kept])
            dropped = False
            for k in list(names):
                if k not in kept:
                    continue
                # initiation at i = 0, m = -1
                g0 = cands(z3.IntVal(0), z3.IntVal(-1))[k]
                ok = self.valid(g0)
                if ok:
                    nm = z3.If(U, i, m)
                    pre = [z3.And(i >= 0, i < n), hyp, z3.Implies(seg.guard, through)]
                    mm = z3.Int(mname + "'")
                    step = [mm == z3.If(z3.And(seg.guard, U), i, m)]
                    goal = cands(i + 1, mm)[k]
                    ok = self.valid(goal, extra=pre + step, timeout=4000)
                self.loop_obls += 2
                if not ok:
                    kept.discard(k)
                    dropped = True
            if not dropped:
                break
        self.used_models.add('loop invariant (best-so-far template): ' + ', '.join(sorted(kept)) + ' [each proved inductive]')
        cache = {}

        def mk(at):
            key = at[0].get_id()
            if key not in cache:
                if at[0].eq(i):
                    mt = m
                else:
                    mt = self.fresh('sel', z3.IntSort())
                cache[key] = (mt, at[0])
            mt = cache[key][0]
            return mt

        def fn_for(loc):
            def val(at):
                mt = mk(at)
                f = conj([cands(at[0], mt)[k] for k in names if k in kept])
                self.fact(f)
                return state_val(loc, mt)
            return val
        return {loc: fn_for(loc) for loc in rest}

    def val_same(self, a, b):
        if a is UNBOUND:
            return False
        if self.alike(a, b):
            return True
        if isinstance(a, SUnion) or isinstance(b, SUnion) or isinstance(a, Poison) or isinstance(b, Poison):
            return False
        ka, kb = self.kind(a), self.kind(b)
        if ka and ka == kb:
            return simp(self.term(a)).eq(simp(self.term(b)))
        return False

    # ---------------------------------------------------------- expressions
    def eval(self, e, frame):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, frame)

    def e_Constant(self, e, frame):
        if isinstance(e.value, float):
            raise Unsupported('float literal')
        return e.value

    def e_Name(self, e, frame):
        return self.lookup(e.id, frame)

    def e_NamedExpr(self, e, frame):
        v = self.eval(e.value, frame)
        self.assign(e.target, v, frame)
        return v

    def e_Tuple(self, e, frame):
        return self.mk_seq(e.elts, frame, 'tuple')

    def e_List(self, e, frame):
        v = self.mk_seq(e.elts, frame, 'list')
        return v

    def mk_seq(self, elts, frame, kind):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.to_segs(self.eval(x.value, frame)))
            else:
                segs.append(CSeg([self.eval(x, frame)]))
        segs = self.norm(segs)
        if kind == 'list':
            return LCell(SSeq(segs, kind='list'))
        items = self.concrete_items(segs)
        if items is not None:
            return tuple(items)
        return SSeq(segs, kind='tuple')

    def e_Set(self, e, frame):
        return SCell(SSet(self.mk_seq(e.elts, frame, 'list').v.segs))

    def e_Dict(self, e, frame):
        d = DCell(SMap(None))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.resolve(self.eval(v, frame)))
            else:
                kv = self.resolve(self.eval(k, frame))
                self.map_set(d, kv, self.eval(v, frame))
        return d

    def dict_update(self, d, o):
        if isinstance(o, dict):
            for k, v in o.items():
                self.map_set(d, k, v)
        elif isinstance(o, DCell):
            if o.v.base is not None:
                if d.v.base is None and not d.v.overlay:
                    self.write(d, 'v', SMap(o.v.base, o.v.overlay))
                    return
                raise Unsupported('dict merge')
            for k, v in o.v.overlay:
                if v is DELETED:
                    raise Unsupported('dict merge')
                self.map_set(d, k, v)
        else:
            raise Unsupported('dict update')

    def e_ListComp(self, e, frame):
        return LCell(SSeq(self.comp_segs(e.elt, e.generators, frame), kind='list', ordered=self.gens_ordered(e, frame)))

    def gens_ordered(self, e, frame):
        return True

    def e_SetComp(self, e, frame):
        return SCell(SSet(self.comp_segs(e.elt, e.generators, frame)))

    def e_GeneratorExp(self, e, frame):
        g = GenExp(e, frame)
        g.once.depth = len(self.binders)
        return g

    def e_DictComp(self, e, frame):
        segs = self.comp_segs((e.key, e.value), e.generators, frame, pair=True)
        return self.dict_from_pairs(segs)

    def dict_from_pairs(self, segs, default=None):
        items = self.concrete_items(segs)
        d = DCell(SMap(None), default=default)
        if items is not None:
            for it in items:
                k, v = self.concrete_items(self.as_seq(it).segs)
                self.map_set(d, self.resolve(k), v)
            return d
        if len(segs) == 1 and isinstance(segs[0], QSeg) and len(segs[0].binders) == 1 and type(segs[0].elem) is tuple and len(segs[0].elem) == 2:
            s = segs[0]
            k, v = s.elem
            src = self._map_source(s, k)
            if src is not None:
                base = src

                def val(vm, kt, v=v, s=s, base=base):
                    idx_t = z3.Function(base.key_at.name().replace('#key', '#idx'), base.key_at.range(), z3.IntSort())
                    r = vm.subst(v, [(s.binders[0][0], idx_t(kt))])
                    return vm.renorm_key(r, base, kt, idx_t)
                d.data['v'] = SMap(SMapBase(base.n, base.key_at, base.dom, val, base.kwrap))
                return d
            return self.lookup_dict(s, k, v, d)
        first = [segs[0]] if segs and isinstance(segs[0], QSeg) and len(segs[0].binders) == 1 else []
        if len(segs) > len(first) and all(isinstance(s, CSeg) or isinstance(s, QSeg) and not s.binders for s in segs[len(first):]):
            # a mapping's initial entries, then entries written to it later
            if first:
                d = self.dict_from_pairs(first, default)
            for s in segs[len(first):]:
                if isinstance(s, QSeg) and not self.branch(s.guard):
                    continue
                for it in (s.items if isinstance(s, CSeg) else [s.elem]):
                    k, v = self.concrete_items(self.as_seq(it).segs)
                    self.map_set(d, self.resolve(k), v)
            return d
        raise Unsupported('dict from a symbolic sequence')

    def renorm_key(self, v, base, kt, idx_t):
        t = base.key_at(idx_t(kt))
        return self.subst(v, [(t, kt)])

    def _map_source(self, s, k):
        """If k enumerates the keys of a symbolic map (identity copy), the map base."""
        t = self.term(k)
        if t is None or not z3.is_app(t) or not t.decl().name().endswith('#key') or not z3.is_true(simp(s.guard)):
            return None
        if not t.arg(0).eq(s.binders[0][0]):
            return None
        nm = t.decl().name()[:-4]
        n = z3.Int(nm + '#n')
        if not s.binders[0][1].eq(n):
            return None
        ks = t.decl().range()

        def kwrap(vm, kt):
            return vm.path_value(kt) if ks == PathSort else SStr(kt)
        dom = self.group_doms.get(nm) or z3.Function(nm + '#dom', ks, z3.BoolSort())
        return SMapBase(n, t.decl(), dom, None, kwrap)

    def lookup_dict(self, s, k, v, d):
        """{k(i): v(i) for i ...}: later entries win.  dom and last-index as fresh symbols."""
        t = self.term(k)
        if t is None:
            raise Unsupported('dict key')
        if self.binders:
            raise Unsupported('dict comprehension under a binder')
        ks = t.sort()
        bi, n = s.binders[0]
        nm = self.fresh_name('dc')
        dom = z3.Function(nm + '#dom', ks, z3.BoolSort())
        last = z3.Function(nm + '#last', ks, z3.IntSort())
        x = z3.Const(nm + '#x', ks)
        j = self.fresh_binder()
        tj = z3.substitute(t, (bi, j))
        gj = z3.And(j >= 0, j < n, z3.substitute(s.guard, (bi, j)))
        li = last(x)
        self.fact(z3.ForAll([j], z3.Implies(gj, z3.And(dom(tj), last(tj) >= j))))
        self.fact(z3.ForAll([x], z3.Implies(dom(x), z3.And(li >= 0, li < n, z3.substitute(s.guard, (bi, li)), z3.substitute(t, (bi, li)) == x)), patterns=[dom(x)]))
        # enumeration of the keys (first occurrences)
        cnt = z3.Int(nm + '#n')
        key_at = z3.Function(nm + '#key', z3.IntSort(), ks)
        idx = z3.Function(nm + '#idx', ks, z3.IntSort())
        i = z3.Int(nm + '#i')
        self.fact(cnt >= 0)
        self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < cnt), z3.And(dom(key_at(i)), idx(key_at(i)) == i)), patterns=[key_at(i)]))
        self.fact(z3.ForAll([x], z3.Implies(dom(x), z3.And(idx(x) >= 0, idx(x) < cnt, key_at(idx(x)) == x)), patterns=[dom(x)]))

        def val(vm, kt):
            return vm.subst(v, [(bi, last(kt))])

        def kwrap(vm, kt):
            return vm.path_value(kt) if ks == PathSort else vm.wrap_like(k, kt)
        d.data['v'] = SMap(SMapBase(cnt, key_at, dom, val, kwrap))
        return d

    def e_Lambda(self, e, frame):
        return self.make_closure(e, frame, '<lambda>')

    def e_IfExp(self, e, frame):
        if self.test(self.eval(e.test, frame)):
            return self.eval(e.body, frame)
        return self.eval(e.orelse, frame)

    def e_BoolOp(self, e, frame):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, frame)
            if k == len(e.values) - 1:
                return v
            t = self.truthy(v)
            t = t if isinstance(t, bool) else simp(t)
            if isinstance(v, SBool) and not isinstance(t, bool) and not z3.is_true(t) and not z3.is_false(t):
                # try to merge without forking
                r = self.bool_rest(e.values[k + 1:], isand, t, frame)
                if r is not None:
                    return r
            if self.branch(zb(t)):
                if not isand:
                    return v
            else:
                if isand:
                    return v
        return v

    def bool_rest(self, rest, isand, t, frame):
        """a and/or b with boolean operands: evaluate b under the assumption, merged."""
        guard = t if isand else neg(t)
        if not self.feasible(guard):
            return SBool(z3.BoolVal(not isand))
        lv = self.levels[-1]
        sub = ast.BoolOp(op=ast.And() if isand else ast.Or(), values=list(rest)) if len(rest) > 1 else rest[0]

        def run():
            self.assume(guard)
            return self.eval(sub, frame)
        try:
            paths = self.explore(run, maxp=64)
        except LoopCarried:
            raise
        except Unsupported:
            return None
        if any(p.kind != 'ok' or p.diff or self.kind(p.value) != 'bool' for p in paths) or not paths:
            return None
        for p in paths:
            c = conj(p.pc)
            for f, bs in p.facts:
                lv.facts.append((z3.Implies(c, f), bs))
        inner = disj([conj(p.pc[1:] + [self.term(p.value)]) for p in paths])
        return SBool(simp(z3.And(t, inner) if isand else z3.Or(t, inner)))

    def e_UnaryOp(self, e, frame):
        v = self.eval(e.operand, frame)
        if isinstance(e.op, ast.Not):
            t = self.truthy(v)
            return (not t) if isinstance(t, bool) else SBool(neg(t))
        v = self.resolve(v)
        if isinstance(e.op, ast.USub):
            if not is_sym(v):
                return -v
            return self.wrap_like(v, -self.num(v)) if self.kind(v) in ('int', 'real') else self.unsup('neg')
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary op')

    def unsup(self, m):
        raise Unsupported(m)

    def e_BinOp(self, e, frame):
        return self.binop(e.op, self.eval(e.left, frame), self.eval(e.right, frame))

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if not is_sym(a) and not is_sym(b):
            return self.native(lambda: self.PYOPS[type(op)](a, b))
        ka, kb = self.kind(a), self.kind(b)
        nums = ('bool', 'int', 'real')
        if ka in nums and kb in nums:
            x, y = self.nums(a, b)
            wrap = SReal if x.sort() == z3.RealSort() else SInt
            if isinstance(op, ast.Add):
                return wrap(x + y)
            if isinstance(op, ast.Sub):
                return wrap(x - y)
            if isinstance(op, ast.Mult):
                return wrap(x * y)
            if isinstance(op, ast.Div):
                if wrap is SInt:
                    raise Unsupported('float division')
                if not self.branch(y != 0):
                    raise PyRaise(ExcVal(decimal.DivisionByZero))
                return SReal(x / y)
            if isinstance(op, ast.Mod) and wrap is SInt:
                if not self.branch(y != 0):
                    raise PyRaise(ExcVal(ZeroDivisionError))
                if self.valid(y > 0, timeout=500):
                    return SInt(x % y)
                # python: sign of the divisor
                m = x % y
                return SInt(z3.If(z3.And(y < 0, m != 0), m + y, m))
            if isinstance(op, ast.FloorDiv) and wrap is SInt:
                if not self.branch(y != 0):
                    raise PyRaise(ExcVal(ZeroDivisionError))
                if self.valid(y > 0, timeout=500):
                    return SInt(x / y)
                raise Unsupported('floor division by possibly negative')
            raise Unsupported(f'numeric op {type(op).__name__}')
        if isinstance(op, ast.Add):
            if ka == 'str' and kb == 'str':
                return self.join_str([a, b])
            if isinstance(a, (SSeq, tuple, LCell, list)) and isinstance(b, (SSeq, tuple, LCell, list)):
                segs = self.norm(self.to_segs(a) + self.to_segs(b))
                if isinstance(a, (LCell, list)):
                    return LCell(SSeq(segs, kind='list'))
                items = self.concrete_items(segs)
                return tuple(items) if items is not None else SSeq(segs, kind='tuple')
        sets = (SSet, SCell, set, frozenset)
        if isinstance(a, sets) and isinstance(b, sets):
            if isinstance(op, ast.BitOr):
                r = SSet(self.norm(self.to_segs(a) + self.to_segs(b)))
            elif isinstance(op, ast.BitAnd):
                r = SSet(self.filter_segs(self.to_segs(a), lambda x: self.as_sb(self.member_segs(x, self.to_segs(b)))))
            elif isinstance(op, ast.Sub):
                r = SSet(self.filter_segs(self.to_segs(a), lambda x: self.as_sb(neg(zb(self.member_segs(x, self.to_segs(b)))))))
            else:
                raise Unsupported('set op')
            return SCell(r) if isinstance(a, (SCell, set)) else r
        if isinstance(op, ast.Mod) and ka == 'str':
            return SStr(self.fresh('str:fmt', StrSort))
        if ka in nums or kb in nums or a is None or b is None or ka == 'str' or kb == 'str':
            if not any(isinstance(x, (Poison,)) for x in (a, b)):
                raise PyRaise(ExcVal(TypeError))
        raise Unsupported(f'binop {type(op).__name__} {type(a).__name__} {type(b).__name__}')

    def as_sb(self, t):
        return t if isinstance(t, bool) else SBool(t)

    PYOPS = {
        ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
        ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
    }

    def native(self, fn):
        try:
            return self.from_native(fn())
        except Exception as e:
            raise PyRaise(ExcVal(type(e), e.args))

    def from_native(self, v):
        if type(v) is list:
            return LCell(SSeq([CSeg(v)] if v else [], kind='list'))
        if type(v) is set:
            return SCell(SSet([CSeg(list(v))] if v else []))
        return v

    def opaque_str(self, tag, args):
        """A deterministic but otherwise unknown string function."""
        ts = []
        name = tag
        for a in args:
            a = self.resolve(a)
            if a is None:
                name += ':None'
                continue
            t = self.term(a)
            if t is None:
                return SStr(self.fresh(f'str:{tag}', StrSort))
            if not is_sym(a):
                name += f':{a!r}'
                continue
            name += ':_'
            ts.append(t)
        if not ts:
            return SStr(z3.Const(f'fn:{name}', StrSort))
        self.used_models.add('string building (f-strings, concatenation, str()) is an uninterpreted function of its parts')
        return SStr(z3.Function(f'fn:{name}', *[t.sort() for t in ts], StrSort)(*ts))

    def e_JoinedStr(self, e, frame):
        parts = []
        allc = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.eval(v.value, frame)
                    if isinstance(x, SUnion):
                        x = self.resolve(x)
                except Unsupported:
                    x = SStr(self.fresh('fstr', StrSort))
                if v.conversion != -1 or v.format_spec is not None:
                    x = SStr(self.fresh('fstr', StrSort)) if is_sym(x) else self.native(lambda: format(x if v.conversion == -1 else repr(x)))
                if is_sym(x) or not isinstance(x, (str, int, Decimal)):
                    allc = False
                parts.append(x)
        if allc:
            return ''.join(str(p) for p in parts)
        if any(isinstance(p, (Cell, SSeq, SSet)) or (is_sym(p) and self.term(p) is None) or not (is_sym(p) or isinstance(p, (str, int, Decimal, enum.Enum, type(None)))) for p in parts):
            return SStr(self.fresh('fstr', StrSort))
        return self.join_str(parts)

    def join_str(self, parts):
        """The concatenation of the parts as text, in a form that does not depend on how it was put together."""
        pieces = []

        def put(x):
            if isinstance(x, str):
                if pieces and isinstance(pieces[-1], str):
                    pieces[-1] += x
                elif x:
                    pieces.append(x)
            elif z3.is_app(x) and x.decl().name() in self.texts:
                args = x.children()
                for y in self.texts[x.decl().name()]:
                    put(y if isinstance(y, str) else args.pop(0))
            else:
                pieces.append(x)
        for p in parts:
            p = self.resolve(p)
            if not is_sym(p):
                put(format(p) if isinstance(p, (str, int, Decimal)) else str(p))
                continue
            t = self.term(p)
            if t is None or t.sort() == z3.RealSort():   # equal decimals may print differently
                out = self.fresh('fstr', StrSort)
                if t is not None and len(parts) == 1:   # but each reads back as itself
                    self.fact(z3.And(z3.Function('str_isdec', StrSort, z3.BoolSort())(out), z3.Function('str_dec', StrSort, z3.RealSort())(out) == t))
                    self.used_models.add('str(d) of a Decimal d is some text that Decimal() reads as d')
                return SStr(out)
            lit = lit_of(t) if t.sort() == StrSort else None
            put(t if lit is None else lit)
        if all(isinstance(x, str) for x in pieces):
            return ''.join(pieces)
        if len(pieces) == 1 and pieces[0].sort() == StrSort:
            return SStr(pieces[0])
        name = 'fn:f:' + ':'.join(repr(x) if isinstance(x, str) else '_' + x.sort().name() for x in pieces)
        self.texts[name] = [x if isinstance(x, str) else None for x in pieces]
        ts = [x for x in pieces if not isinstance(x, str)]
        self.used_models.add('string building (f-strings, concatenation, str()) is an uninterpreted function of its parts')
        return SStr(z3.Function(name, *[t.sort() for t in ts], StrSort)(*ts))

    def e_Compare(self, e, frame):
        left = self.eval(e.left, frame)
        acc = []
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, frame)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c if isinstance(c, (bool, SBool)) else self.as_sb(c)
            t = self.truthy(c)
            t = zb(t)
            acc.append(t)
            if k < len(e.ops) - 1 and z3.is_false(simp(t)):
                return False
            left = right
        return self.as_bool(SBool(simp(conj(acc))))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.as_sb(self.is_(a, b))
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else SBool(neg(r))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
            if isinstance(op, ast.NotEq):
                r = (not r) if isinstance(r, bool) else neg(r)
            return r if isinstance(r, bool) else SBool(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                r = (not r) if isinstance(r, bool) else neg(r)
            return r if isinstance(r, bool) else SBool(simp(r))
        a, b = self.resolve(a), self.resolve(b)
        if not is_sym(a) and not is_sym(b):
            f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
            if isinstance(a, enum.Enum) and self.is_repo(type(a)):
                return self.order_method(op, a, b)
            return self.native(lambda: f(a, b))
        return self.order(op, a, b)

    def order_method(self, op, a, b):
        cls = type(a) if isinstance(a, enum.Enum) else (a.cls if isinstance(a, (SEnum, Rec)) else a.desc.cls)
        names = {ast.Lt: ('__lt__', '__gt__'), ast.LtE: ('__le__', '__ge__'), ast.Gt: ('__gt__', '__lt__'), ast.GtE: ('__ge__', '__le__')}[type(op)]
        for c in cls.__mro__:
            if names[0] in c.__dict__:
                if c is object:
                    break
                r = self.call_function(c.__dict__[names[0]], [a, b], {}, owner=c)
                if r is NotImplemented:
                    break
                return r
        raise PyRaise(ExcVal(TypeError))

    def order(self, op, a, b):
        ka, kb = self.kind(a), self.kind(b)
        nums = ('bool', 'int', 'real')
        if ka in nums and kb in nums:
            x, y = self.nums(a, b)
            return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
        if ka == 'str' and kb == 'str':
            x, y = self.term(a), self.term(b)
            self.used_models.add('string order is an uninterpreted strict total order')
            if isinstance(op, (ast.Gt, ast.LtE)):
                x, y = y, x
            # now lt(x,y) for Lt/Gt ; for LtE/GtE: not lt(...)
            self.str_order_axioms()
            lt = str_lt(x, y)
            if isinstance(op, (ast.Lt, ast.Gt)):
                return SBool(lt)
            return SBool(z3.Not(lt))
        if (isinstance(ka, tuple) and ka[0] == 'enum') or (isinstance(a, (Rec, SObj))):
            return self.order_method(op, a, b)
        if (isinstance(kb, tuple) and kb[0] == 'enum') or isinstance(b, (Rec, SObj)):
            flip = {ast.Lt: ast.Gt(), ast.LtE: ast.GtE(), ast.Gt: ast.Lt(), ast.GtE: ast.LtE()}[type(op)]
            return self.order_method(flip, b, a)
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            # lexicographic
            for x, y in zip(a, b):
                e = zb(self.eq(x, y))
                if not self.branch(e):
                    strict = {ast.Lt: ast.Lt(), ast.LtE: ast.Lt(), ast.Gt: ast.Gt(), ast.GtE: ast.Gt()}[type(op)]
                    return self.compare(strict, x, y)
            return isinstance(op, (ast.LtE, ast.GtE))
        if ka and kb and ka != kb or a is None or b is None:
            raise PyRaise(ExcVal(TypeError))
        sets = (SSet, SCell, set, frozenset)
        if isinstance(a, sets) and isinstance(b, sets):
            if isinstance(op, ast.LtE):
                return self.as_sb(self.subset(a, b))
            if isinstance(op, ast.GtE):
                return self.as_sb(self.subset(b, a))
            sub = self.subset(a, b) if isinstance(op, ast.Lt) else self.subset(b, a)
            return SBool(conj([zb(sub), neg(zb(self.eq(a, b)))]))
        if isinstance(a, (tuple, SSeq, LCell)) != isinstance(b, (tuple, SSeq, LCell)):
            raise PyRaise(ExcVal(TypeError))
        raise Unsupported(f'order {type(a).__name__} {type(b).__name__}')

    def str_order_axioms(self):
        x, y, z = z3.Consts('so!x so!y so!z', StrSort)
        lv = self.levels[0]
        if getattr(lv, 'so', False):
            return
        lv.so = True
        for f in (z3.ForAll([x], z3.Not(str_lt(x, x))),
                  z3.ForAll([x, y], z3.Or(x == y, str_lt(x, y), str_lt(y, x))),
                  z3.ForAll([x, y, z], z3.Implies(z3.And(str_lt(x, y), str_lt(y, z)), str_lt(x, z)))):
            lv.facts.append((f, []))

    def contains(self, coll, v):
        coll = self.resolve(coll)
        if isinstance(v, SUnion):
            return disj([conj([c, zb(self.contains(coll, x))]) for c, x in v.alts])
        if isinstance(coll, (dict, DCell)):
            return self.map_has(coll, v)
        if isinstance(coll, (str, SStr)):
            if is_sym(coll) or is_sym(v):
                t = [self.term(coll), self.term(v)]
                return z3.Function('str_in', StrSort, StrSort, z3.BoolSort())(*t)
            return v in coll
        if isinstance(coll, type) and issubclass(coll, enum.Enum):
            raise Unsupported('in enum')
        if isinstance(coll, range) and is_sym(v):
            if coll.step != 1:
                raise Unsupported('range step')
            t = self.num(v)
            return z3.And(t >= coll.start, t < coll.stop)
        if not is_sym(coll) and not is_sym(v) and isinstance(coll, (set, frozenset, tuple, list, range)):
            return v in coll
        if isinstance(coll, (SInt, SReal, SBool, SObj)) or coll is None or isinstance(coll, int):
            if isinstance(coll, SObj):
                raise Unsupported('in object')
            raise PyRaise(ExcVal(TypeError))
        sq = coll.v if isinstance(coll, LCell) else coll
        if isinstance(sq, SSeq) and sq.raw is not None:
            return self.member_segs(v, sq.raw)
        return self.member_segs(v, self.to_segs(coll))

    def e_Subscript(self, e, frame):
        o = self.resolve(self.eval(e.value, frame))
        if isinstance(e.slice, ast.Slice):
            k = slice(*[self.resolve(self.eval(x, frame)) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)])
        else:
            k = self.resolve(self.eval(e.slice, frame))
        return self.subscript(o, k)

    def subscript(self, o, k):
        if isinstance(o, DCell) or isinstance(o, dict):
            return self.map_get(o, k)
        if isinstance(o, SSeq):
            return self.index_seq(o, k)
        if isinstance(o, LCell):
            return self.index_seq(o.v, k)
        if type(o) in (tuple, list) and is_sym(k) if not isinstance(k, slice) else False:
            return self.index_seq(self.as_seq(o), k)
        if type(o) is tuple and isinstance(k, slice) and (is_sym(k.start) or is_sym(k.stop)):
            return self.slice_seq(self.as_seq(o), k)
        if isinstance(o, SStr):
            return self.str_index(o, k)
        if not is_sym(k):
            if isinstance(o, type) and issubclass(o, enum.Enum):
                return o[k]
            if isinstance(o, (tuple, list, str, bytes)) or isinstance(o, collections.abc.Mapping):
                try:
                    return self.from_native(o[k]) if not isinstance(o, tuple) else o[k]
                except Exception as ex:
                    raise PyRaise(ExcVal(type(ex)))
            return o[k]
        raise Unsupported(f'subscript {type(o).__name__}')

    def str_index(self, o, k):
        if isinstance(k, slice):
            if (k.start, k.stop, k.step) in ((0, 1, None), (None, 1, None)):
                return SStr(char0(o.t))
            return self.opaque_str(f'slice[{k.start}:{k.stop}]', [o])
        if k != 0 or not isinstance(k, int):
            raise Unsupported('string index')
        if not self.branch(o.t != str_lit('')):
            raise PyRaise(ExcVal(IndexError))
        return SStr(char0(o.t))

    def e_Yield(self, e, frame):
        v = self.eval(e.value, frame) if e.value is not None else None
        f = frame
        while f is not None and f.hook is None:
            f = f.parent
        if f is None:
            raise Unsupported('yield outside generator')
        f.hook(v)
        return None

    def e_YieldFrom(self, e, frame):
        v = self.resolve(self.eval(e.value, frame))
        hook = frame.hook
        if isinstance(v, GenObj):
            self.run_gen(v, hook)
            return None
        segs = self.norm(self.to_segs(v))
        for seg in segs:
            if isinstance(seg, CSeg):
                for x in seg.items:
                    hook(x)
            elif not seg.binders:
                if self.branch(seg.guard):
                    hook(seg.elem)
            else:
                self.summarize(seg, hook)
        return None

    def e_Starred(self, e, frame):
        raise Unsupported('starred')

    def e_Attribute(self, e, frame):
        return self.getattr_(self.eval(e.value, frame), e.attr)

    def e_Call(self, e, frame):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = frame
            while f.owner is None and f.parent is not None:
                f = f.parent
            return SuperV(f.owner, f.self_)
        fn = self.eval(e.func, frame)
        args = []
        symstar = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.norm(self.to_segs(self.eval(a.value, frame)))
                items = self.concrete_items(segs)
                if items is None:
                    raise Unsupported('*args of unknown length')
                args.extend(items)
            else:
                args.append(self.eval(a, frame))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.eval(k.value, frame))
                if isinstance(d, dict):
                    kwargs.update(d)
                elif isinstance(d, DCell) and d.v.base is None:
                    for kk, vv in d.v.overlay:
                        if not isinstance(kk, str):
                            raise Unsupported('** with symbolic keys')
                        kwargs[kk] = vv
                else:
                    raise Unsupported('**kwargs')
            else:
                kwargs[k.arg] = self.eval(k.value, frame)
        return self.call(fn, args, kwargs, frame)
