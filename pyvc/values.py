"""Symbolic value domain of pyvc.

A concrete Python object (int, str, Enum member, Decimal, tuple, function, class, ...)
stands for itself.  Everything below is symbolic.
"""
import enum
import itertools
from decimal import Decimal
import z3


class Unsupported(Exception):
    """The source uses something outside the subset; never a verdict."""


class V:
    __slots__ = ()


StrSort = z3.DeclareSort('PyStr')
ObjSort = z3.DeclareSort('PyObj')
PathSort = z3.DeclareSort('PyPath')
ContentSort = z3.DeclareSort('Content')


class SBool(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SBool({self.t})'


class SInt(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SInt({self.t})'


class SReal(V):
    """A decimal.Decimal, as a mathematical real."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SReal({self.t})'


class SStr(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SStr({self.t})'


class SEnum(V):
    __slots__ = ('cls', 't')

    def __init__(self, cls, t):
        self.cls = cls
        self.t = t

    def __repr__(self):
        return f'SEnum({self.cls.__name__},{self.t})'


class SObj(V):
    """An immutable object; fields are uninterpreted functions of its term."""
    __slots__ = ('desc', 't')

    def __init__(self, desc, t):
        self.desc = desc
        self.t = t

    def __repr__(self):
        return f'SObj({self.desc.name},{self.t})'


class SUnion(V):
    """Exactly one alternative holds: [(z3 Bool, value)]."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f'SUnion({self.alts})'


class CSeg:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f'CSeg({self.items})'


class QSeg:
    """For binder values in lexicographic order, `elem` where `guard` holds.

    binders: [(z3 Int const, z3 Int length)] - a binder ranges over 0 <= v < n.
    """
    __slots__ = ('binders', 'guard', 'elem')

    def __init__(self, binders, guard, elem):
        self.binders = list(binders)
        self.guard = guard
        self.elem = elem

    def rng(self):
        cs = []
        for v, n in self.binders:
            cs.append(v >= 0)
            cs.append(v < n)
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def full(self):
        return z3.And(self.rng(), self.guard)

    def __repr__(self):
        return f'QSeg({self.binders} | {self.guard} => {self.elem})'


class HSeg:
    """Opaque prefix used while havocking a list inside a loop summary."""
    __slots__ = ('token',)

    def __init__(self, token):
        self.token = token


class SSeq(V):
    __slots__ = ('segs', 'kind', 'ordered', 'atom', 'raw', 'once')

    def __init__(self, segs, kind='tuple', ordered=True, atom=None, raw=None):
        self.once = None    # for iterators: may be consumed only once
        self.raw = raw      # the same elements, repetitions possible (simpler guards)
        self.segs = list(segs)
        self.kind = kind
        self.ordered = ordered
        self.atom = atom

    def __repr__(self):
        return f'SSeq<{self.kind}>({self.segs})'


class SSet(V):
    """Elements described by segments, duplicates irrelevant."""
    __slots__ = ('segs', 'frozen')

    def __init__(self, segs, frozen=True):
        self.segs = list(segs)
        self.frozen = frozen

    def __repr__(self):
        return f'SSet({self.segs})'


class SMapBase:
    """Symbolic initial mapping: n keys, key_at(i), idx(k), dom(k), val(k)->value."""
    __slots__ = ('n', 'key_at', 'dom', 'val', 'kwrap')

    def __init__(self, n, key_at, dom, val, kwrap):
        self.n = n
        self.key_at = key_at
        self.dom = dom
        self.val = val
        self.kwrap = kwrap


class HMapBase(SMapBase):
    """Unknown contents of a mapping while a loop that fills it is summarised."""
    __slots__ = ('tok', 'mode')

    def __init__(self, tok, mode):
        self.n = None
        self.key_at = None
        self.kwrap = None
        self.tok = tok
        self.mode = mode

    def dom(self, t):
        return z3.Function(f'hdom{self.tok}', t.sort(), z3.BoolSort())(t)

    def val(self, vm, t):
        if self.mode == 'int':
            return SInt(z3.Function(f'hval{self.tok}', t.sort(), z3.IntSort())(t))
        if self.mode == 'real':
            return SReal(z3.Function(f'hval{self.tok}', t.sort(), z3.RealSort())(t))
        if self.mode == 'set':
            return SCell(SSet([HSeg(self.tok)]))
        return LCell(SSeq([HSeg(self.tok)], kind='list'))


class SMap(V):
    """base (or None) overlaid by writes [(key value, value | DELETED)] in order.
    `origin`: the map this one only names an initial entry of (entry cell, its contents)."""
    __slots__ = ('base', 'overlay', 'origin')

    def __init__(self, base, overlay=(), origin=None):
        self.base = base
        self.overlay = list(overlay)
        self.origin = origin


DELETED = object()

_stamp = itertools.count(1)


class Cell:
    """Mutable; all writes go through VM.write so they can be journaled."""
    __slots__ = ('data', 'stamp')

    def __init__(self):
        self.data = {}
        self.stamp = next(_stamp)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


class Once(Cell):
    """Whether an iterator has been consumed."""
    __slots__ = ('depth',)

    def __init__(self):
        super().__init__()
        self.depth = None


class Rec(Cell):
    __slots__ = ('cls',)

    def __init__(self, cls, fields):
        super().__init__()
        self.cls = cls
        self.data = dict(fields)

    def __repr__(self):
        return f'Rec<{self.cls.__name__}>'


class LCell(Cell):
    __slots__ = ()

    def __init__(self, seq):
        super().__init__()
        self.data['v'] = seq

    @property
    def v(self):
        return self.data['v']

    def __repr__(self):
        return f'LCell({self.v})'


class SCell(Cell):
    __slots__ = ()

    def __init__(self, s):
        super().__init__()
        self.data['v'] = s

    @property
    def v(self):
        return self.data['v']


class DCell(Cell):
    __slots__ = ('default', 'pycls')

    def __init__(self, m, default=None, pycls=None):
        super().__init__()
        self.pycls = pycls
        self.data['v'] = m
        self.default = default

    @property
    def v(self):
        return self.data['v']


class Poison(V):
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class Closure(V):
    __slots__ = ('node', 'frame', 'glob', 'name', 'defaults', 'kwdefaults', 'cls')

    def __init__(self, node, frame, glob, name, defaults=(), kwdefaults=None, cls=None):
        self.node = node
        self.frame = frame
        self.glob = glob
        self.name = name
        self.defaults = list(defaults)
        self.kwdefaults = kwdefaults or {}
        self.cls = cls


class BoundM(V):
    __slots__ = ('fn', 'self_', 'owner')

    def __init__(self, fn, self_, owner=None):
        self.fn = fn
        self.self_ = self_
        self.owner = owner


class OpaqueM(V):
    """Contracted (virtual) method of a symbolic object."""
    __slots__ = ('obj', 'name', 'spec')

    def __init__(self, obj, name, spec):
        self.obj = obj
        self.name = name
        self.spec = spec


class BuiltinM(V):
    """Method of a symbolic builtin container / scalar."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class GenObj(V):
    __slots__ = ('fn', 'args', 'kwargs', 'once')

    def __init__(self, fn, args, kwargs):
        self.fn = fn
        self.args = args
        self.kwargs = kwargs
        self.once = Once()


class GenExp(V):
    __slots__ = ('node', 'frame', 'once')

    def __init__(self, node, frame):
        self.node = node
        self.frame = frame
        self.once = Once()


class PartialV(V):
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn = fn
        self.args = args
        self.kwargs = kwargs


class ExcVal(V):
    __slots__ = ('cls', 'args')

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = tuple(args)

    def __repr__(self):
        return f'{self.cls.__name__}{self.args}'


class SuperV(V):
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


def is_sym(v):
    if isinstance(v, (V, Cell)):
        return True
    if isinstance(v, (tuple, list)) and type(v) in (tuple, list):
        return any(is_sym(x) for x in v)
    return False


_enum_cache = {}


def enum_sort(cls):
    if cls not in _enum_cache:
        names = list(cls.__members__)
        members = list(cls)
        sort, consts = z3.EnumSort(cls.__name__ + f'_{len(_enum_cache)}', [f'{cls.__name__}.{m.name}' for m in members])
        _enum_cache[cls] = (sort, dict(zip(members, consts)), members, consts)
    return _enum_cache[cls]


_lits = {}


def str_lit(s):
    if s not in _lits:
        _lits[s] = z3.Const(f'lit:{s}', StrSort)
    return _lits[s]


def lit_of(t):
    nm = t.decl().name() if z3.is_const(t) and z3.is_app(t) else ''
    return nm[4:] if nm.startswith('lit:') and nm[4:] in _lits else None


def str_lit_axioms(used):
    used = [u for u in used]
    return [z3.Distinct(*used)] if len(used) > 1 else []


_path_lits = {}


def path_lit(p):
    if p not in _path_lits:
        _path_lits[p] = z3.Const(f'path:{"/".join(p)}#{len(_path_lits)}', PathSort)
    return _path_lits[p]


path_len = z3.Function('path_len', PathSort, z3.IntSort())
path_at = z3.Function('path_at', PathSort, z3.IntSort(), StrSort)
char0 = z3.Function('char0', StrSort, StrSort)
str_lt = z3.Function('str_lt', StrSort, StrSort, z3.BoolSort())


def dec_term(d):
    return z3.RealVal(str(Decimal(d)))


def conj(cs):
    cs = [c for c in cs if not z3.is_true(c)]
    if not cs:
        return z3.BoolVal(True)
    if len(cs) == 1:
        return cs[0]
    return z3.And(*cs)


def disj(cs):
    cs = [c for c in cs if not z3.is_false(c)]
    if not cs:
        return z3.BoolVal(False)
    if len(cs) == 1:
        return cs[0]
    return z3.Or(*cs)


def neg(c):
    if z3.is_true(c):
        return z3.BoolVal(False)
    if z3.is_false(c):
        return z3.BoolVal(True)
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def zb(b):
    return b if z3.is_expr(b) else z3.BoolVal(bool(b))
