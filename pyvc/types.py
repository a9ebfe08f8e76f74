"""Type descriptors: one description gives the symbolic input, the random concrete
input, and the concrete input read back from a solver model."""
import enum
import typing
from decimal import Decimal
import attr
import z3
from .values import *


def app(name, args, sort):
    if not args:
        return z3.Const(name, sort)
    return z3.Function(name, *[a.sort() for a in args], sort)(*args)


class T:
    def sym(self, vm, name, args=()):
        raise NotImplementedError

    def gen(self, g):
        raise NotImplementedError

    def conc(self, mv, name, args=()):
        raise NotImplementedError


class ConstT(T):
    def __init__(self, value):
        self.value = value

    def sym(self, vm, name, args=()):
        return vm.lift_const(self.value)

    def gen(self, g):
        return self.value() if callable(self.value) and getattr(self.value, '__name__', '') == '<lambda>' else self.value

    def conc(self, mv, name, args=()):
        return self.gen(None)


class BoolT(T):
    def sym(self, vm, name, args=()):
        return SBool(app(name, args, z3.BoolSort()))

    def gen(self, g):
        return g.rng.random() < 0.5

    def conc(self, mv, name, args=()):
        return bool(z3.is_true(mv.ev(app(name, args, z3.BoolSort()))))


class IntT(T):
    def __init__(self, lo=None, hi=None, pool=None):
        self.lo, self.hi, self.pool = lo, hi, pool

    def sym(self, vm, name, args=()):
        t = app(name, args, z3.IntSort())
        if self.lo is not None:
            vm.fact(t >= self.lo)
        return SInt(t)

    def gen(self, g):
        if g.numbers and type(self) is IntT and g.rng.random() < 0.4:
            v = g.rng.choice(g.numbers)
            if (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi):
                return v
        if self.pool:
            return g.rng.choice(self.pool)
        lo = self.lo if self.lo is not None else -2
        return g.rng.randint(lo, self.hi if self.hi is not None else lo + 5)

    def conc(self, mv, name, args=()):
        return mv.ev(app(name, args, z3.IntSort())).as_long()


class RealT(T):
    """decimal.Decimal"""

    def __init__(self, lo=None, pool=('0', '0.25', '0.5', '0.75', '1', '1.00', '1.5', '2', '3', '4')):
        self.lo, self.pool = lo, pool

    def sym(self, vm, name, args=()):
        t = app(name, args, z3.RealSort())
        if self.lo is not None:
            vm.fact(t >= self.lo)
        return SReal(t)

    def gen(self, g):
        return Decimal(g.rng.choice(self.pool))

    def conc(self, mv, name, args=()):
        v = mv.ev(app(name, args, z3.RealSort()))
        if z3.is_algebraic_value(v):
            raise Unsupported('algebraic model value')
        d = Decimal(v.numerator_as_long()) / Decimal(v.denominator_as_long())
        return d


class StrT(T):
    def __init__(self, pool=('a', 'b', 'c')):
        self.pool = pool

    def sym(self, vm, name, args=()):
        return SStr(app(name, args, StrSort))

    def gen(self, g):
        if g.words and type(self) is StrT and g.rng.random() < 0.4:
            return g.rng.choice(g.words)
        return g.rng.choice(self.pool)

    def conc(self, mv, name, args=()):
        return mv.string(app(name, args, StrSort))


class EnumStrT(StrT):
    """One of a fixed list of strings."""

    def sym(self, vm, name, args=()):
        t = app(name, args, StrSort)
        vm.fact(disj([t == str_lit(s) for s in self.pool]))
        return SStr(t)


class EnumT(T):
    def __init__(self, cls, members=None):
        self.cls = cls
        self.members = list(members) if members is not None else None

    def sym(self, vm, name, args=()):
        sort, consts, _, _ = enum_sort(self.cls)
        t = app(name, args, sort)
        if self.members is not None:
            vm.fact(disj([t == consts[m] for m in self.members]))
        return SEnum(self.cls, t)

    def gen(self, g):
        return g.rng.choice(self.members if self.members is not None else list(self.cls))

    def conc(self, mv, name, args=()):
        sort, consts, members, clist = enum_sort(self.cls)
        v = mv.ev(app(name, args, sort))
        for m, c in consts.items():
            if c.eq(v):
                return m
        raise Unsupported('enum model value')


class OptT(T):
    def __init__(self, inner, p=0.4):
        self.inner, self.p = inner, p

    def sym(self, vm, name, args=()):
        isn = app(name + '?none', args, z3.BoolSort())
        return SUnion([(isn, None), (z3.Not(isn), self.inner.sym(vm, name, args))])

    def gen(self, g):
        return None if g.rng.random() < self.p else self.inner.gen(g)

    def conc(self, mv, name, args=()):
        if z3.is_true(mv.ev(app(name + '?none', args, z3.BoolSort()))):
            return None
        return self.inner.conc(mv, name, args)


class OneOfT(T):
    """A value of one of several types."""

    def __init__(self, *alts):
        self.alts = alts

    def sym(self, vm, name, args=()):
        tag = app(name + '?which', args, z3.IntSort())
        vm.fact(z3.And(tag >= 0, tag < len(self.alts)))
        return SUnion([(tag == i, a.sym(vm, f'{name}?{i}', args)) for i, a in enumerate(self.alts)])

    def gen(self, g):
        return g.rng.choice(self.alts).gen(g)

    def conc(self, mv, name, args=()):
        tag = mv.ev(app(name + '?which', args, z3.IntSort())).as_long()
        tag = min(max(tag, 0), len(self.alts) - 1)
        return self.alts[tag].conc(mv, f'{name}?{tag}', args)


class TupT(T):
    def __init__(self, *ts):
        self.ts = ts

    def sym(self, vm, name, args=()):
        return tuple(t.sym(vm, f'{name}.{i}', args) for i, t in enumerate(self.ts))

    def gen(self, g):
        return tuple(t.gen(g) for t in self.ts)

    def conc(self, mv, name, args=()):
        return tuple(t.conc(mv, f'{name}.{i}', args) for i, t in enumerate(self.ts))


class PathT(T):
    def __init__(self, pool=('$', '%A', '%B', '.x', '[0]'), maxlen=3, nonempty=True):
        self.pool, self.maxlen = pool, maxlen
        self.nonempty = nonempty      # no segment is the empty string

    def sym(self, vm, name, args=()):
        p = app(name, args, PathSort)
        if self.nonempty:
            i = z3.Int('pseg!i')
            vm.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < path_len(p)), path_at(p, i) != str_lit('')), patterns=[path_at(p, i)]))
        return vm.path_value(p)

    def gen(self, g):
        return tuple(g.rng.choice(self.pool) for _ in range(g.rng.randint(0, self.maxlen)))

    def conc(self, mv, name, args=()):
        p = app(name, args, PathSort)
        return mv.path(p)


class SeqT(T):
    def __init__(self, elem, kind='tuple', maxlen=4, minlen=0):
        self.elem, self.kind, self.maxlen, self.minlen = elem, kind, maxlen, minlen

    def sym(self, vm, name, args=()):
        n = app(name + '#len', args, z3.IntSort())
        vm.fact(n >= self.minlen)
        i = vm.fresh_binder()
        with vm.scope([(i, n)]):
            e = self.elem.sym(vm, name + '#at', list(args) + [i])
        s = SSeq([QSeg([(i, n)], z3.BoolVal(True), e)], kind=self.kind)
        if self.kind == 'list':
            return LCell(s)
        return s

    def gen(self, g):
        xs = [self.elem.gen(g) for _ in range(g.rng.randint(self.minlen, self.maxlen))]
        return xs if self.kind == 'list' else tuple(xs)

    def conc(self, mv, name, args=()):
        n = mv.ev(app(name + '#len', args, z3.IntSort())).as_long()
        if n > 12:
            raise Unsupported('model sequence too long')
        xs = [self.elem.conc(mv, name + '#at', list(args) + [z3.IntVal(i)]) for i in range(n)]
        return xs if self.kind == 'list' else tuple(xs)


class SetT(SeqT):
    def __init__(self, elem, maxlen=3, frozen=True):
        super().__init__(elem, 'tuple', maxlen)
        self.frozen = frozen

    def sym(self, vm, name, args=()):
        s = super().sym(vm, name, args)
        r = SSet(s.segs)
        vm.distinct.add(name + '#at')
        q = s.segs[0]
        t = vm.term(q.elem)
        if t is not None:
            i, n = q.binders[0]
            j = vm.fresh_binder()
            # elements of a set enumerate without repetition
            vm.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), t != z3.substitute(t, (i, j)))))
        return r if self.frozen else SCell(r)

    def gen(self, g):
        return (frozenset if self.frozen else set)(super().gen(g))

    def conc(self, mv, name, args=()):
        return (frozenset if self.frozen else set)(super().conc(mv, name, args))


class MapT(T):
    def __init__(self, key, val, default=None, maxlen=3):
        self.key, self.val, self.default, self.maxlen = key, val, default, maxlen

    def sym(self, vm, name, args=()):
        assert not args
        ksort = PathSort if isinstance(self.key, PathT) else StrSort
        n = z3.Int(name + '#n')
        key_at = z3.Function(name + '#key', z3.IntSort(), ksort)
        idx = z3.Function(name + '#idx', ksort, z3.IntSort())
        dom = z3.Function(name + '#dom', ksort, z3.BoolSort())
        i = z3.Int(name + '#i')
        k = z3.Const(name + '#k', ksort)
        vm.fact(n >= 0)
        vm.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(dom(key_at(i)), idx(key_at(i)) == i)), patterns=[key_at(i)]))
        vm.fact(z3.ForAll([k], z3.Implies(dom(k), z3.And(idx(k) >= 0, idx(k) < n, key_at(idx(k)) == k)), patterns=[dom(k)]))
        valT = self.val

        def val(vm_, kt):
            return valT.sym(vm_, name + '#val', [kt])

        def kwrap(vm_, kt):
            return vm_.path_value(kt) if ksort == PathSort else SStr(kt)
        return DCell(SMap(SMapBase(n, key_at, dom, val, kwrap)), default=self.default)

    def gen(self, g):
        d = {}
        for _ in range(g.rng.randint(0, self.maxlen)):
            d[self.key.gen(g)] = self.val.gen(g)
        if self.default is not None:
            from collections import defaultdict
            return defaultdict(self.default, d)
        return d

    def conc(self, mv, name, args=()):
        ksort = PathSort if isinstance(self.key, PathT) else StrSort
        n = mv.ev(z3.Int(name + '#n')).as_long()
        if n > 12:
            raise Unsupported('model map too long')
        key_at = z3.Function(name + '#key', z3.IntSort(), ksort)
        d = {}
        for i in range(n):
            kt = key_at(z3.IntVal(i))
            k = mv.path(kt) if ksort == PathSort else mv.string(kt)
            d[k] = self.val.conc(mv, name + '#val', [kt])
        if self.default is not None:
            from collections import defaultdict
            return defaultdict(self.default, d)
        return d


class Meth:
    """Contract of a virtual method: result type, optional assumed postcondition
    (proved for every implementation elsewhere), and which argument objects the
    result may depend on."""

    def __init__(self, result, ensures=None, deps=(), justified='', effect=None, native=None):
        self.result = result
        self.effect = effect
        self.native = native
        self.ensures = ensures
        self.deps = deps
        self.justified = justified


class Stub:
    """Concrete stand-in for an abstract collaborator."""

    def __repr__(self):
        return f'<{self._desc} {self._vals}>'


def make_stub(desc, vals, meths):
    ns = {'_desc': desc.name, '_vals': {**vals, **{k: '...' for k in meths}}}
    for f, v in vals.items():
        ns[f] = v
    for m, fn in meths.items():
        ns[m] = (lambda fn: lambda self, *a, **k: fn(*a, **k))(fn)
    bases = (Stub,)
    if desc.stub_base is not None:
        bases = (Stub, desc.stub_base)
    ns.setdefault('__eq__', object.__eq__)
    ns.setdefault('__hash__', object.__hash__)
    cls = type(desc.name + 'Stub', bases, ns)
    cls.__abstractmethods__ = frozenset()
    return object.__new__(cls)


class ObjT(T):
    """Immutable object.  `cls` is the real class; `methods` are contracted virtual
    methods.  `abstract=True`: no concrete class, stubs at replay."""

    def __init__(self, cls, fields=None, methods=None, abstract=False, name=None, stub_base=None, build=None, defaults=None, inherit=()):
        self.inherit = inherit
        self.cls = cls
        self.fields = dict(fields or {})
        self.methods = dict(methods or {})
        self.abstract = abstract
        self.name = name or cls.__name__
        self.stub_base = stub_base
        self.build = build
        self.defaults = defaults or {}

    def sym(self, vm, name, args=()):
        return SObj(self, app(name, args, ObjSort))

    def all_fields(self):
        if self.abstract:
            return self.fields
        out = {}
        if attr.has(self.cls):
            hints = class_hints(self.cls)
            for a in attr.fields(self.cls):
                out[a.name] = self.fields.get(a.name) or from_annotation(hints.get(a.name, a.type))
        else:
            out.update(self.fields)
        return out

    def field_type(self, f):
        if f in self.fields:
            return self.fields[f]
        if self.abstract or not attr.has(self.cls):
            return None
        for a in attr.fields(self.cls):
            if a.name == f:
                return from_annotation(class_hints(self.cls).get(f, a.type))
        return None

    def gen(self, g):
        fields = {}
        for f, t in self.all_fields().items():
            if t is None:
                continue
            if f in self.defaults and f not in self.fields:
                fields[f] = self.defaults[f]
            else:
                fields[f] = t.gen(g)
        if self.abstract:
            meths = {}
            for m, spec in self.methods.items():
                meths[m] = self._gen_meth(g, spec)
            for m, spec in self.methods.items():
                pass
            return make_stub(self, fields, meths)
        if self.build:
            return self.build(self.cls, fields)
        return construct(self.cls, fields)

    def _gen_meth(self, g, spec):
        memo = {}

        def fn(*a, **k):
            vals = list(a) + [k[x] for x in sorted(k) if x in spec.deps]
            key = tuple(tuple(id(x) for x in v) if isinstance(v, (list, tuple)) else id(v) for v in vals) if spec.deps else ()
            if key not in memo:
                for _ in range(200):
                    r = spec.result.gen(g)
                    if spec.ensures is None or spec.ensures(r):
                        break
                memo[key] = (r, vals)
            r = memo[key][0]
            r = list(r) if isinstance(r, list) else r
            return spec.native(r) if spec.native else r
        fn()if not spec.deps else None
        return fn

    def conc(self, mv, name, args=()):
        t = app(name, args, ObjSort)
        return mv.obj(self, t)

    def conc_at(self, mv, t):
        fields = {}
        for f, ft in self.all_fields().items():
            if ft is None:
                continue
            if f in self.defaults and f not in self.fields:
                fields[f] = self.defaults[f]
                continue
            fields[f] = ft.conc(mv, f'{self.name}.{f}', [t])
        if self.abstract:
            meths = {}
            for m, spec in self.methods.items():
                meths[m] = self._conc_meth(mv, t, m, spec)
            return make_stub(self, fields, meths)
        if self.build:
            return self.build(self.cls, fields)
        return construct(self.cls, fields)

    def _conc_meth(self, mv, t, m, spec):
        def fn(*a, **k):
            args = [t]
            if spec.deps:
                vals = list(a) + [k[x] for x in sorted(k) if x in spec.deps]
                args += [mv.term_of(v) for v in vals]
            r = spec.result.conc(mv, f'{self.name}.{m}()', args)
            return spec.native(r) if spec.native else r
        return fn


def construct(cls, fields):
    if attr.has(cls):
        kw = {}
        for a in attr.fields(cls):
            if a.name in fields and a.init:
                kw[a.name.lstrip('_')] = fields[a.name]
        o = cls(**kw)
        return o
    o = object.__new__(cls)
    for k, v in fields.items():
        setattr(o, k, v)
    return o


class RecT(T):
    """A top-level (possibly mutable) instance built field by field."""

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields
        self.name = cls.__name__

    def sym(self, vm, name, args=()):
        return Rec(self.cls, {f: t.sym(vm, f'{name}.{f}', args) for f, t in self.fields.items()})

    def gen(self, g):
        return construct(self.cls, {f: t.gen(g) for f, t in self.fields.items()})

    def conc(self, mv, name, args=()):
        return construct(self.cls, {f: t.conc(mv, f'{name}.{f}', args) for f, t in self.fields.items()})


class PolyT(T):
    """An object of one of several classes, each described by an ObjT sharing field names."""

    def __init__(self, name, *descs):
        self.name = name
        self.descs = descs
        self.sort, self.tags = z3.EnumSort(f'{name}_tag', [f'{name}:{d.name}' for d in descs])

    def tag(self, t):
        return z3.Function(f'{self.name}?cls', ObjSort, self.sort)(t)

    def sym(self, vm, name, args=()):
        return SObj(self, app(name, args, ObjSort))

    def gen(self, g):
        return g.rng.choice(self.descs).gen(g)

    def conc(self, mv, name, args=()):
        return mv.obj(self, app(name, args, ObjSort))

    def conc_at(self, mv, t):
        v = mv.ev(self.tag(t))
        for d, c in zip(self.descs, self.tags):
            if c.eq(v):
                fields = {f: ft.conc(mv, f'{self.name}.{f}', [t]) for f, ft in d.all_fields().items()}
                return construct(d.cls, fields)
        raise Unsupported('poly tag')


_hints = {}


def class_hints(cls):
    if cls not in _hints:
        h = {}
        import sys
        for c in reversed(cls.__mro__):
            mod = sys.modules.get(c.__module__)
            for k, v in getattr(c, '__dict__', {}).get('__annotations__', {}).items():
                if isinstance(v, str):
                    try:
                        v = eval(v, vars(mod))
                    except Exception:
                        pass
                h[k] = v
        _hints[cls] = h
    return _hints[cls]


REGISTRY = {}
NOCONSTRUCT = set()


def register(cls, t):
    REGISTRY[cls] = t
    return t


def from_annotation(a):
    if a in REGISTRY:
        return REGISTRY[a]
    if isinstance(a, typing.ForwardRef):
        for cls, t in REGISTRY.items():
            if getattr(cls, '__name__', None) == a.__forward_arg__:
                return t
        return None
    if isinstance(a, str):
        for cls, t in REGISTRY.items():
            if getattr(cls, '__name__', None) == a:
                return t
        return None
    if a is str:
        return StrT()
    if a is bool:
        return BoolT()
    if a is int:
        return IntT()
    if a is Decimal:
        return RealT()
    if isinstance(a, type) and issubclass(a, enum.Enum):
        return EnumT(a)
    origin = typing.get_origin(a)
    args = typing.get_args(a)
    if origin is typing.Union:
        rest = [x for x in args if x is not type(None)]
        if len(rest) == 1:
            inner = from_annotation(rest[0])
            return OptT(inner) if inner is not None else None
        return None
    if origin is tuple:
        if len(args) == 2 and args[1] is Ellipsis:
            inner = from_annotation(args[0])
            if args[0] is str:
                return SeqT(StrT())
            return SeqT(inner) if inner is not None else None
        inner = [from_annotation(x) for x in args]
        return TupT(*inner) if all(inner) else None
    if origin in (frozenset, set):
        inner = from_annotation(args[0])
        return SetT(inner, frozen=origin is frozenset) if inner else None
    if isinstance(a, type) and attr.has(a):
        t = ObjT(a)
        REGISTRY[a] = t
        return t
    return None
