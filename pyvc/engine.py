"""Calls, attribute access and models of the Python built-ins."""
import os
import time as _time_mod
import copy as _copy_mod
from .interp import *
from .interp import Interp as _I
from .vm import _index_file

NATIVE_OK = {'math', 'operator', 'decimal', 'builtins', '_decimal', 'fractions', 'enum', 're', 'string', 'attr', 'attr._make', 'datetime', 'json', 'copy'}


def vm_remove(vm, segs, x):
    """The segments without the first item equal to x, and whether there is one."""
    out, found = [], z3.BoolVal(False)
    for s in segs:
        if isinstance(s, CSeg):
            for y in s.items:
                e = zb(vm.eq(y, x))
                g = simp(disj([found, neg(e)]))
                if z3.is_true(g):
                    out.append(CSeg([y]))
                elif not z3.is_false(g):
                    out.append(QSeg([], g, y))
                found = simp(disj([found, e]))
        elif isinstance(s, QSeg) and len(s.binders) <= 1:
            with vm.scope(s.binders):
                e = zb(vm.eq(s.elem, x))
            earlier = z3.BoolVal(False)
            s2 = vm.rename(s)
            with vm.scope(s2.binders):
                e2 = zb(vm.eq(s2.elem, x))
            if s.binders:
                (v, n), (w, _) = s.binders[0], s2.binders[0]
                earlier = z3.Exists([w], z3.And(w >= 0, w < v, s2.guard, e2))
                there = z3.Exists([w], z3.And(w >= 0, w < n, s2.guard, e2))
            else:
                there = z3.And(s2.guard, e2)
            out.append(QSeg(s.binders, simp(conj([s.guard, disj([found, neg(e), earlier])])), s.elem))
            found = simp(disj([found, there]))
        else:
            raise Unsupported('remove from this list')
    return out, found


MUTATORS = {'append', 'extend', 'add', 'remove', 'discard', 'update', 'pop', 'popitem', 'clear', 'insert', 'setdefault', 'sort', 'reverse', '__setitem__'}


def mro_find(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name], c
    return None, None


class Engine(_I):
    def cls_of(self, v):
        if isinstance(v, Rec):
            return v.cls
        if isinstance(v, SObj):
            d = v.desc
            if isinstance(d, T.PolyT):
                return None
            return d.cls
        if isinstance(v, SEnum):
            return v.cls
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SInt):
            return int
        if isinstance(v, SReal):
            return Decimal
        if isinstance(v, SStr):
            return str
        if isinstance(v, SSeq):
            return {'tuple': tuple, 'list': list}.get(v.kind, tuple)
        if isinstance(v, LCell):
            return list
        if isinstance(v, SSet):
            return frozenset
        if isinstance(v, SCell):
            return set
        if isinstance(v, DCell):
            return v.pycls or (collections.defaultdict if v.default is not None else dict)
        if isinstance(v, (GenObj, GenExp)):
            return pytypes.GeneratorType
        if isinstance(v, ExcVal):
            return v.cls
        if isinstance(v, (Closure, PartialV, BoundM)):
            return pytypes.FunctionType
        if isinstance(v, V):
            raise Unsupported(f'class of {type(v).__name__}')
        return type(v)

    # ------------------------------------------------------------ attributes
    def class_attr(self, v, cls, name, start=None):
        """attribute found on the class -> bound value, or raises AttributeError"""
        mro = cls.__mro__
        if start is not None:
            mro = mro[mro.index(start) + 1:]
        for c in mro:
            if name in c.__dict__:
                a = c.__dict__[name]
                if isinstance(a, property):
                    return self.call_function(a.fget, [v], {}, owner=c)
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return BoundM(a.__func__, cls, c)
                if isinstance(a, functools.cached_property):
                    return self.call_function(a.func, [v], {}, owner=c)
                if isinstance(a, pytypes.FunctionType) or hasattr(a, '__wrapped__'):
                    return BoundM(a, v, c)
                if isinstance(a, (pytypes.MemberDescriptorType, pytypes.GetSetDescriptorType)):
                    continue
                if isinstance(a, (pytypes.WrapperDescriptorType, pytypes.MethodDescriptorType, pytypes.BuiltinFunctionType)):
                    if c is object or issubclass(c, BaseException):
                        return BoundM(a, v, c)
                    raise Unsupported(f'descriptor {name}')
                return a
        raise PyRaise(ExcVal(AttributeError, (name,)))

    def getattr_(self, v, name):
        if isinstance(v, SUnion):
            v = self.resolve(v)
        if isinstance(v, Poison):
            raise LoopCarried(v.why, 'read')
        if name == '__class__' and is_sym(v):
            cls = self.cls_of(v)
            if cls is None or (isinstance(v, SObj) and v.desc.abstract):
                raise Unsupported('class of an abstract object')
            return cls
        if isinstance(v, SObj):
            d = v.desc
            if isinstance(d, T.PolyT):
                return self.poly_attr(v, d, name)
            if name in d.methods:
                return OpaqueM(v, name, d.methods[name])
            ft = d.field_type(name)
            if ft is not None:
                return ft.sym(self, f'{d.name}.{name}', [v.t])
            if d.abstract and (d.cls is None or name not in d.inherit):
                raise Unsupported(f'{d.name}.{name} has no contract')
            return self.class_attr(v, d.cls, name)
        if isinstance(v, Rec):
            if name in v.data:
                return v.data[name]
            if name == '__class__':
                return v.cls
            return self.class_attr(v, v.cls, name)
        if isinstance(v, SuperV):
            cls = self.cls_of(v.self_)
            if isinstance(v.self_, type):
                cls = v.self_
            if cls is None:
                raise Unsupported('super on poly')
            return self.class_attr(v.self_, cls, name, start=v.cls)
        if isinstance(v, SEnum):
            _, consts, members, _ = enum_sort(v.cls)
            if name in ('value', 'name', '_value_', '_name_'):
                return self.merge([(v.t == consts[m], getattr(m, name)) for m in members])
            return self.class_attr(v, v.cls, name)
        if isinstance(v, ExcVal):
            if name == 'args':
                return v.args
            if name == '__class__':
                return v.cls
            raise Unsupported(f'exception attribute {name}')
        if isinstance(v, (DCell, LCell, SCell, SSet, SSeq, SStr, SInt, SReal, SBool)):
            if not hasattr(self.cls_of(v), name):
                raise PyRaise(ExcVal(AttributeError, (name,)))
            return BuiltinM(v, name)
        if isinstance(v, (GenObj, GenExp)):
            raise Unsupported(f'generator attribute {name}')
        if isinstance(v, (V, Cell)):
            raise Unsupported(f'attribute {name} of {type(v).__name__}')
        if type(v) in (tuple, list) and is_sym(v):
            return BuiltinM(v, name)
        if type(v) in (dict, list, set, collections.defaultdict):
            return BuiltinM(v, name)
        # concrete python object
        if isinstance(v, type):
            a, c = mro_find(v, name)
            if isinstance(a, classmethod):
                return BoundM(a.__func__, v, c)
            if isinstance(a, staticmethod):
                return a.__func__
            try:
                return getattr(v, name)
            except AttributeError:
                raise PyRaise(ExcVal(AttributeError, (name,)))
        if isinstance(v, pytypes.ModuleType):
            key = (id(vars(v)), name)
            if key in self.globals_overlay.data:
                return self.globals_overlay.data[key]
            return getattr(v, name)
        if self.is_repo(type(v)):
            a, c = mro_find(type(v), name)
            if isinstance(a, property):
                return self.call_function(a.fget, [v], {}, owner=c)
            if isinstance(a, pytypes.FunctionType) or (a is not None and hasattr(a, '__wrapped__') and callable(a)):
                return BoundM(a, v, c)
        try:
            r = getattr(v, name)
        except AttributeError:
            raise PyRaise(ExcVal(AttributeError, (name,)))
        return r

    def poly_attr(self, v, d, name):
        groups = []
        for sub, tag in zip(d.descs, d.tags):
            if name in sub.methods:
                key = ('m', id(sub.methods[name]))
            elif sub.field_type(name) is not None:
                key = ('f', id(sub.field_type(name)))
            else:
                a, c = mro_find(sub.cls, name)
                key = ('c', id(a), c)
            for g in groups:
                if g[0] == key:
                    g[1].append((sub, tag))
                    break
            else:
                groups.append((key, [(sub, tag)]))
        t = d.tag(v.t)
        for i, (key, subs) in enumerate(groups):
            if i < len(groups) - 1:
                if not self.branch(disj([t == tag for _, tag in subs])):
                    continue
            elif len(groups) > 1:
                self.assume(disj([t == tag for _, tag in subs]))
            sub = subs[0][0]
            if key[0] == 'm':
                return OpaqueM(v, name, sub.methods[name])
            if key[0] == 'f':
                return sub.field_type(name).sym(self, f'{d.name}.{name}', [v.t])
            if key[1] == id(None):
                raise PyRaise(ExcVal(AttributeError, (name,)))
            a = sub.cls
            return self.class_attr(v, sub.cls, name)
        raise Infeasible()

    # ------------------------------------------------------------------ calls
    def call(self, fn, args, kwargs, frame=None):
        fn = self.resolve(fn)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kwargs)
        if isinstance(fn, BoundM):
            f = fn.fn
            if isinstance(f, (pytypes.WrapperDescriptorType, pytypes.MethodDescriptorType)) or (isinstance(f, pytypes.BuiltinFunctionType)):
                nm = getattr(f, '__name__', '')
                if nm == '__init__':
                    return None
                raise Unsupported(f'object.{nm}')
            return self.call_py(f, [fn.self_] + list(args), kwargs, owner=fn.owner, frame=frame)
        if isinstance(fn, OpaqueM):
            return self.opaque_call(fn, args, kwargs)
        if isinstance(fn, BuiltinM):
            return self.method_call(fn.obj, fn.name, args, kwargs)
        if isinstance(fn, PartialV):
            return self.call(fn.fn, list(fn.args) + list(args), {**fn.kwargs, **kwargs}, frame)
        if isinstance(fn, functools.partial):
            return self.call(fn.func, list(fn.args) + list(args), {**fn.keywords, **kwargs}, frame)
        if isinstance(fn, Rec):
            m = self.getattr_(fn, '__call__')
            return self.call(m, args, kwargs, frame)
        if isinstance(fn, V):
            raise Unsupported(f'call of {type(fn).__name__}')
        if isinstance(fn, type):
            return self.call_class(fn, args, kwargs, frame)
        return self.call_py(fn, args, kwargs, frame=frame)

    def call_py(self, fn, args, kwargs, owner=None, frame=None):
        if isinstance(fn, pytypes.MethodType):
            if isinstance(fn.__self__, logging.Logger):
                return False if fn.__name__ == 'isEnabledFor' else None
            return self.call_py(fn.__func__, [fn.__self__] + list(args), kwargs, owner=owner or (type(fn.__self__) if not isinstance(fn.__self__, type) else fn.__self__), frame=frame)
        if fn in self.summaries:
            return self.summaries[fn](self, args, kwargs)
        m = BUILTINS.get(fn) if self.hashable(fn) else None
        if m is not None:
            return m(self, args, kwargs)
        w = getattr(fn, '__wrapped__', None)
        if w is not None:
            if isinstance(fn, functools._lru_cache_wrapper):
                self.used_models.add(f'memoised {w.__qualname__} is treated as the function itself')
                return self.call_py(w, args, kwargs, owner=owner, frame=frame)
            if self.is_repo(w) and fn.__code__.co_filename.endswith('contextlib.py'):
                g = self.call_function(w, args, kwargs, owner=owner)
                return g
            return self.call_py(w, args, kwargs, owner=owner, frame=frame) if False else self.unsup('decorated function')
        if isinstance(fn, pytypes.FunctionType):
            if self.is_repo(fn):
                return self.call_function(fn, args, kwargs, owner=owner)
            if (fn.__module__ or '').startswith('logging'):
                return None
            if fn.__qualname__.startswith('namedtuple'):
                raise Unsupported('namedtuple')
        if fn is os.getenv and len(args) in (1, 2) and not kwargs:
            self.used_models.add('os.getenv: no variable of the environment is set')
            return args[1] if len(args) == 2 else None
        # builtin methods of concrete objects
        slf = getattr(fn, '__self__', None)
        if isinstance(fn, (pytypes.BuiltinMethodType,)) and slf is not None and not isinstance(slf, (pytypes.ModuleType, type)):
            return self.method_call(slf, fn.__name__, args, kwargs)
        if isinstance(fn, (pytypes.MethodDescriptorType,)) and args:
            return self.method_call(args[0], fn.__name__, args[1:], kwargs)
        mod = getattr(fn, '__module__', None) or (type(slf).__module__ if slf is not None else '')
        if not any(is_sym(a) for a in args) and not any(is_sym(a) for a in kwargs.values()) and mod in NATIVE_OK:
            return self.native(lambda: fn(*args, **kwargs))
        raise Unsupported(f'call to {getattr(fn, "__module__", "?")}.{getattr(fn, "__qualname__", fn)}')

    def hashable(self, fn):
        try:
            hash(fn)
            return True
        except TypeError:
            return False

    def call_class(self, cls, args, kwargs, frame=None):
        if cls in self.summaries:
            return self.summaries[cls](self, args, kwargs)
        m = BUILTINS.get(cls)
        if m is not None:
            return m(self, args, kwargs)
        if issubclass(cls, BaseException):
            return ExcVal(cls, args)
        if issubclass(cls, enum.Enum):
            return self.enum_call(cls, args)
        if cls in T.NOCONSTRUCT:
            raise Unsupported(f'construction of {cls.__name__}')
        if attr.has(cls) and (self.is_repo(cls)):
            return self.attr_new(cls, args, kwargs)
        if self.is_repo(cls):
            r = Rec(cls, {})
            a, c = mro_find(cls, '__init__')
            if isinstance(a, pytypes.FunctionType):
                self.call_function(a, [r] + list(args), kwargs, owner=c)
            elif args or kwargs:
                raise Unsupported('constructor')
            return r
        if not any(is_sym(a) for a in args) and cls.__module__ in NATIVE_OK:
            return self.native(lambda: cls(*args, **kwargs))
        raise Unsupported(f'construct {cls.__name__}')

    def attr_new(self, cls, args, kwargs):
        fields = attr.fields(cls)
        init = [a for a in fields if a.init]
        vals = {}
        pos = [a for a in init if not a.kw_only]
        if len(args) > len(pos):
            raise PyRaise(ExcVal(TypeError, ('too many arguments',)))
        for a, v in zip(pos, args):
            vals[a.name] = v
        byname = {a.name.lstrip('_'): a for a in init}
        for k, v in kwargs.items():
            if k not in byname:
                raise PyRaise(ExcVal(TypeError, (f'unexpected keyword {k}',)))
            if byname[k].name in vals:
                raise PyRaise(ExcVal(TypeError))
            vals[byname[k].name] = v
        r = Rec(cls, {})
        for a in fields:
            if a.name in vals:
                v = vals[a.name]
            elif a.default is attr.NOTHING:
                if not a.init:
                    continue
                raise PyRaise(ExcVal(TypeError, (f'missing {a.name}',)))
            elif isinstance(a.default, attr.Factory):
                v = self.call(a.default.factory, [r] if a.default.takes_self else [], {})
            else:
                v = a.default
            if a.converter is not None and a.name in vals:
                v = self.call(a.converter, [v], {})
            r.data[a.name] = v
        post, c = mro_find(cls, '__attrs_post_init__')
        if post is not None:
            self.call_function(post, [r], {}, owner=c)
        if issubclass(cls, BaseException):
            return ExcVal(cls, tuple(r.data.values()))
        return r

    def enum_call(self, cls, args):
        v = self.resolve(args[0])
        if not is_sym(v):
            return self.native(lambda: cls(v))
        if isinstance(v, SEnum) and v.cls is cls:
            return v
        alts = []
        miss = []
        seen_missing = mro_find(cls, '_missing_')[1] not in (enum.Enum, None)
        if seen_missing:
            raise Unsupported('enum _missing_')
        for m in cls:
            c = simp(zb(self.eq(v, m.value)))
            if z3.is_false(c):
                continue
            alts.append((c, m))
            miss.append(neg(c))
        if self.branch(conj(miss)):
            raise PyRaise(ExcVal(ValueError))
        return self.merge(alts)

    def opaque_call(self, m, args, kwargs):
        d = m.obj.desc
        spec = m.spec
        ts = [m.obj.t]
        if spec.deps:
            for a in list(args) + [kwargs[k] for k in sorted(kwargs) if k in spec.deps]:
                ts.append(self.dep_term(a))
        if spec.effect is not None:
            return spec.effect(self, m, args, kwargs)
        r = spec.result.sym(self, f'{d.name}.{m.name}()', ts)
        self.assumed.add(f'{d.name}.{m.name}()' + (f' ensures {spec.justified}' if spec.justified else ' (uninterpreted, any result of its type)'))
        if spec.ensures is not None:
            ok = self.pure(lambda: self.as_bool(self.call(spec.ensures, [r], {})))
            self.fact(zb(self.truthy(ok)))
        return r

    def dep_term(self, a):
        a = self.resolve(a)
        if a is None:
            return z3.Const('dep:None', ObjSort)
        t = self.term(a)
        if t is not None:
            return t
        if isinstance(a, Rec):
            k = self.rec_ids.setdefault(id(a), (a, len(self.rec_ids)))[1]
            return z3.Const(f'rec:{a.cls.__name__}:{k}', ObjSort)
        if isinstance(a, LCell):
            t = self.content(a.v)
            self.abstracted.update(n for n in self.cont_by_fn)
            return t
        if isinstance(a, (SSeq, tuple)):
            try:
                return self.atomize(a)
            except Unsupported:
                t = self.content(a)
                self.abstracted.update(n for n in self.cont_by_fn)
                return t
        raise Unsupported('dependency of a contracted method')

    # ------------------------------------------------- methods of containers
    def method_call(self, o, name, args, kwargs):
        o = self.resolve(o) if isinstance(o, SUnion) else o
        if isinstance(o, (str, SStr)):
            return self.str_method(o, name, args, kwargs)
        if isinstance(o, (DCell, dict)):
            return self.dict_method(o, name, args, kwargs)
        if isinstance(o, (LCell, list, tuple, SSeq)):
            return self.list_method(o, name, args, kwargs)
        if isinstance(o, (SCell, SSet, set, frozenset)):
            return self.set_method(o, name, args, kwargs)
        if isinstance(o, (SReal, Decimal)):
            return self.dec_method(o, name, args, kwargs)
        if not is_sym(o) and not any(is_sym(a) for a in args) and type(o).__module__ in NATIVE_OK:
            return self.native(lambda: getattr(o, name)(*args, **kwargs))
        raise Unsupported(f'{type(o).__name__}.{name}')

    def dec_method(self, o, name, args, kwargs):
        args = [self.resolve(a) for a in args]
        if not is_sym(o) and not any(is_sym(a) for a in args):
            return self.native(lambda: getattr(o, name)(*args, **kwargs))
        if name == 'quantize':
            q = args[0]
            mode = kwargs.get('rounding', args[1] if len(args) > 1 else decimal.ROUND_HALF_EVEN)
            if not isinstance(q, Decimal) or mode not in (decimal.ROUND_DOWN, decimal.ROUND_FLOOR):
                raise Unsupported('quantize')
            k = -q.as_tuple().exponent
            scale = z3.RealVal(10 ** k)
            x = self.num(o) * scale
            fl = z3.ToInt(x)
            if mode == decimal.ROUND_DOWN:
                fl = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            self.used_models.add('Decimal.quantize(ROUND_DOWN) is exact truncation of the mathematical value')
            return SReal(z3.ToReal(fl) / scale)
        raise Unsupported(f'Decimal.{name}')

    def str_method(self, o, name, args, kwargs):
        args = [self.resolve(a) for a in args]
        if not is_sym(o) and not any(is_sym(a) for a in args):
            if name == 'join':
                segs = self.to_segs(args[0])
                items = self.concrete_items(segs)
                if items is not None and not any(is_sym(x) for x in items):
                    return o.join(items)
            else:
                try:
                    return self.from_native(getattr(o, name)(*args, **kwargs))
                except Exception as e:
                    raise PyRaise(ExcVal(type(e), e.args))
        if name in ('startswith', 'endswith'):
            ts = [self.term(o)]
            a = args[0]
            if type(a) is tuple:
                return SBool(disj([zb(self.truthy(self.str_method(o, name, [x], {}))) for x in a]))
            if name == 'startswith' and isinstance(a, str) and len(a) == 1 and is_sym(o):
                return SBool(char0(o.t) == str_lit(a))
            ts.append(self.term(a))
            self.used_models.add(f'str.{name} is an uninterpreted predicate')
            return SBool(z3.Function(f'str_{name}', StrSort, StrSort, z3.BoolSort())(*ts))
        if name in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'replace', 'rjust', 'zfill', 'ljust'):
            return self.opaque_str(name, [o] + args)
        if name in ('isdigit', 'isalpha', 'isnumeric', 'isupper', 'islower'):
            return SBool(z3.Function(f'str_{name}', StrSort, z3.BoolSort())(self.term(o)))
        if name == 'join' and not kwargs:
            items = self.concrete_items(self.to_segs(args[0]))
            if items is not None and all(self.kind(x) == 'str' for x in items):
                parts = []
                for x in items:
                    parts.extend([o, x] if parts else [x])
                return self.join_str(parts)
        if name == 'format' and not kwargs and isinstance(o, str) and o.count('{') == o.count('{}') == o.count('}') == len(args) and all(is_sym(x) and self.term(x) is not None or isinstance(x, (str, int)) for x in args):
            parts = []
            for k, x in enumerate(o.split('{}')):
                parts.extend([x] if k == len(args) else [x, args[k]])
            return self.join_str(parts)
        if name in ('join', 'format'):
            return SStr(self.fresh('str:' + name, StrSort))
        if name == 'split':
            t = self.term(o)
            sep = args[0] if args else None
            p = z3.Function(f'split:{sep!r}', StrSort, PathSort)(t)
            v = self.path_value(p)
            self.fact(path_len(p) >= (1 if sep is not None else 0))
            self.used_models.add('str.split is an uninterpreted function to a list of strings')
            return LCell(SSeq(v.segs, kind='list'))
        raise Unsupported(f'str.{name}')

    def dict_method(self, o, name, args, kwargs):
        if isinstance(o, dict):
            if name in MUTATORS:
                raise Unsupported('mutation of a module-level dict')
            if not any(is_sym(a) for a in args):
                return self.from_native(getattr(o, name)(*args, **kwargs))
        if name == 'get':
            k = self.resolve(args[0])
            return self.map_get(o, k, args[1] if len(args) > 1 else kwargs.get('default'), strict=False)
        if name == 'keys':
            return SSeq(self.map_key_segs(o), kind='any')
        if name in ('items', 'values'):
            segs = self.map_key_segs(o)
            out = []
            for s in segs:
                if isinstance(s, CSeg):
                    its = []
                    for k in s.items:
                        v = self.map_peek(o, k)
                        its.append((k, v) if name == 'items' else v)
                    out.append(CSeg(its))
                else:
                    with self.scope(s.binders):
                        v = self.map_peek(o, s.elem)
                    out.append(QSeg(s.binders, s.guard, (s.elem, v) if name == 'items' else v))
            return SSeq(out, kind='any')
        if name == 'most_common' and len(args) == 1 and args[0] == 1:
            segs = vm_items(self, o)
            if not self.branch(zb(self.nonempty(segs))):
                return LCell(SSeq([], kind='list'))
            best = self.extremum(segs, True, UNBOUND, key=lambda_second)
            return LCell(SSeq([CSeg([best])], kind='list'))
        if name == 'setdefault':
            k = self.resolve(args[0])
            if self.branch(zb(self.map_has(o, k))):
                return self.map_get(o, k)
            v = args[1] if len(args) > 1 else None
            self.map_set(o, k, v)
            return v
        if name == 'pop':
            k = self.resolve(args[0])
            if self.branch(zb(self.map_has(o, k))):
                v = self.map_get(o, k)
                self.map_set(o, k, DELETED)
                return v
            if len(args) > 1:
                return args[1]
            raise PyRaise(ExcVal(KeyError))
        if name == 'update':
            for a in args:
                self.dict_update(o, self.resolve(a))
            for k, v in kwargs.items():
                self.map_set(o, k, v)
            return None
        if name == 'copy':
            return DCell(SMap(o.v.base, o.v.overlay), default=o.default)
        if name == 'clear':
            self.write(o, 'v', SMap(None))
            return None
        raise Unsupported(f'dict.{name}')

    def list_method(self, o, name, args, kwargs):
        if isinstance(o, list):
            if name in MUTATORS:
                raise Unsupported('mutation of a module-level list')
        if name in ('append', 'extend', 'insert', 'sort', 'reverse', 'pop', 'remove', 'clear') and not isinstance(o, LCell):
            raise PyRaise(ExcVal(AttributeError))
        if name == 'append':
            self.write(o, 'v', SSeq(o.v.segs + [CSeg([args[0]])], kind='list', ordered=o.v.ordered))
            return None
        if name == 'extend':
            a = self.resolve(args[0])
            if isinstance(a, GenObj):
                def hook(val):
                    self.write(o, 'v', SSeq(o.v.segs + [CSeg([val])], kind='list', ordered=o.v.ordered))
                self.run_gen(a, hook)
                return None
            self.write(o, 'v', SSeq(self.norm(o.v.segs + self.to_segs(a)), kind='list', ordered=o.v.ordered))
            return None
        if name == 'copy':
            return LCell(SSeq(self.to_segs(o), kind='list'))
        if name == 'clear':
            self.write(o, 'v', SSeq([], kind='list'))
            return None
        if name == 'sort':
            self.write(o, 'v', SSeq(o.v.segs, kind='list', ordered=len(o.v.segs) == 0))
            return None
        if name == 'pop':
            items = self.concrete_items(o.v.segs)
            if items is None or any(is_sym(a) for a in args):
                raise Unsupported('pop')
            if not items:
                raise PyRaise(ExcVal(IndexError))
            items = list(items)
            r = items.pop(*args)
            self.write(o, 'v', SSeq([CSeg(items)], kind='list'))
            return r
        if name == 'remove':
            segs, found = vm_remove(self, o.v.segs, args[0])
            if not self.branch(found):
                raise PyRaise(ExcVal(ValueError, ('list.remove(x): x not in list',)))
            self.write(o, 'v', SSeq(self.norm(segs), kind='list'))
            return None
        if name == 'insert':
            if args[0] == 0:
                self.write(o, 'v', SSeq(self.norm([CSeg([args[1]])] + o.v.segs), kind='list'))
                return None
        if name == 'reverse':
            r = BUILTINS[reversed](self, [o], {})
            self.write(o, 'v', SSeq(self.to_segs(r), kind='list'))
            return None
        if name == 'count':
            segs = self.to_segs(o)
            f = self.filter_segs(segs, lambda x: self.as_sb(self.eq(x, args[0])))
            return self.length(f)
        if not is_sym(o) and not any(is_sym(a) for a in args):
            return self.native(lambda: getattr(o, name)(*args, **kwargs))
        if name == 'index' and len(args) == 1:
            items = self.concrete_items(self.to_segs(o))
            if items is not None:
                eqs = [zb(self.truthy(self.as_sb(self.eq(x, args[0])))) for x in items]
                if not self.branch(disj(eqs)):
                    raise PyRaise(ExcVal(ValueError))
                r = z3.IntVal(len(items) - 1)
                for k in range(len(items) - 2, -1, -1):
                    r = z3.If(eqs[k], z3.IntVal(k), r)
                return SInt(r)
        raise Unsupported(f'list.{name}')

    def set_method(self, o, name, args, kwargs):
        if not is_sym(o) and not any(is_sym(a) for a in args) and not (type(o) is set and name in MUTATORS):
            return self.native(lambda: getattr(o, name)(*args, **kwargs))
        frozen = isinstance(o, (SSet, frozenset))

        def mk(segs):
            s = SSet(self.norm(segs))
            return s if frozen else SCell(s)
        if name in MUTATORS and not isinstance(o, SCell):
            raise Unsupported('set mutation')
        if name == 'add':
            v = self.resolve(args[0])
            m = self.member_segs(v, o.v.segs) if not any(isinstance(s, HSeg) for s in o.v.segs) else False
            if m is True:
                return None
            self.write(o, 'v', SSet(self.norm(o.v.segs + [CSeg([v])])))
            return None
        if name in ('remove', 'discard'):
            v = self.resolve(args[0])
            if name == 'remove':
                if not self.branch(zb(self.member_segs(v, o.v.segs))):
                    raise PyRaise(ExcVal(KeyError))
            self.write(o, 'v', SSet(self.filter_segs(o.v.segs, lambda x: self.as_sb(self._not(self.eq(x, v))))))
            return None
        if name in ('update', 'union'):
            segs = list(self.to_segs(o))
            for a in args:
                segs += self.to_segs(a)
            if name == 'union':
                return mk(segs)
            self.write(o, 'v', SSet(self.norm(segs)))
            return None
        if name in ('intersection', 'difference'):
            segs = self.to_segs(o)
            for a in args:
                sb = self.to_segs(a)
                if name == 'intersection':
                    segs = self.filter_segs(segs, lambda x: self.as_sb(self.member_segs(x, sb)))
                else:
                    segs = self.filter_segs(segs, lambda x: self.as_sb(self._not(self.member_segs(x, sb))))
            return mk(segs)
        if name == 'issubset':
            return self.as_sb(self.subset(o, args[0]))
        if name == 'issuperset':
            return self.as_sb(self.subset(args[0], o))
        if name == 'isdisjoint':
            sb = self.to_segs(args[0])
            return self.as_sb(self._not(self.any_segs(self.to_segs(o), lambda x: self.member_segs(x, sb))))
        if name == 'copy':
            return mk(self.to_segs(o))
        if name == 'clear':
            self.write(o, 'v', SSet([]))
            return None
        raise Unsupported(f'set.{name}')

    def _not(self, r):
        return (not r) if isinstance(r, bool) else neg(r)

    # ------------------------------------------------------------- isinstance
    def isinstance_(self, v, c):
        if isinstance(v, SUnion):
            return disj([conj([k, zb(self.isinstance_(x, c))]) for k, x in v.alts])
        if isinstance(c, tuple):
            return disj([zb(self.isinstance_(v, x)) for x in c])
        o = typing.get_origin(c)
        if o is not None:
            c = o
        if isinstance(v, SObj) and isinstance(v.desc, T.PolyT):
            return disj([v.desc.tag(v.t) == tag for d, tag in zip(v.desc.descs, v.desc.tags) if issubclass(d.cls, c)])
        if isinstance(v, SObj) and v.desc.abstract:
            if v.desc.cls is None:
                raise Unsupported('isinstance of an abstract object')
            if c in getattr(v.desc, 'maybe', ()):
                raise Unsupported('isinstance of an abstract object')
            return issubclass(v.desc.cls, c)
        if isinstance(v, Poison):
            raise LoopCarried(v.why)
        if isinstance(v, (SBool, SInt, SReal, SStr, SEnum, SSeq, LCell, SSet, SCell, DCell, Rec, SObj, GenObj, GenExp, ExcVal, Closure, PartialV, BoundM)):
            return issubclass(self.cls_of(v), c)
        if isinstance(v, V):
            raise Unsupported('isinstance')
        return isinstance(v, c)

    # ------------------------------------------------------------------ sums
    def sum_segs(self, segs, start):
        acc = start
        for s in segs:
            if isinstance(s, CSeg):
                for x in s.items:
                    acc = self.binop(ast.Add(), acc, x)
            elif isinstance(s, HSeg):
                raise LoopCarried(s.token)
            else:
                e = s.elem
                if isinstance(e, SUnion):
                    e = self.union_num(s, e)
                k = self.kind(e)
                if k not in ('bool', 'int', 'real'):
                    raise Unsupported('sum of non-numbers')
                t = self.num(e)
                tt = self.sum_over(s.binders, s.guard, t)
                acc = self.binop(ast.Add(), acc, SInt(tt) if tt.sort() == z3.IntSort() else SReal(tt))
        return acc

    def union_num(self, s, u):
        ts = [(c, x) for c, x in u.alts if self.kind(x) in ('bool', 'int', 'real')]
        badc = disj([c for c, x in u.alts if self.kind(x) not in ('bool', 'int', 'real')])
        if not z3.is_false(simp(badc)):
            if not self.valid(self.forall(s, neg(badc))):
                raise Unsupported('sum of optional values')
        real = any(self.kind(x) == 'real' for _, x in ts)
        out = None
        for c, x in ts:
            t = self.num(x)
            if real and t.sort() == z3.IntSort():
                t = z3.ToReal(t)
            out = t if out is None else z3.If(c, t, out)
        return SReal(out) if real else SInt(out)

    def extremum(self, segs, ismax, default, key=None):
        """max/min of a sequence"""
        items = self.concrete_items(segs)
        if items is not None:
            if not items:
                if default is UNBOUND:
                    raise PyRaise(ExcVal(ValueError))
                return default
            best = items[0]
            for x in items[1:]:
                kb = self.call(key, [best], {}) if key else best
                kx = self.call(key, [x], {}) if key else x
                c = self.compare(ast.Gt() if ismax else ast.Lt(), kx, kb)
                t = simp(zb(self.truthy(c)))
                kk = self.kind(x)
                if kk and kk == self.kind(best) and kk in ('int', 'real'):
                    best = self.wrap_like(best, z3.If(t, self.num(x), self.num(best)))
                elif {kk, self.kind(best)} <= {'int', 'real', 'bool'}:
                    a, b = self.nums(x, best)
                    best = SReal(z3.If(t, a, b)) if a.sort() == z3.RealSort() else SInt(z3.If(t, a, b))
                else:
                    if self.branch(t):
                        best = x
            return best
        if not self.branch(zb(self.nonempty(segs))):
            if default is UNBOUND:
                raise PyRaise(ExcVal(ValueError))
            return default
        keyed = self.map_segs(segs, lambda x: (x, self.call(key, [x], {}) if key else x))
        # element attaining the extremum: arbitrary witness index per segment
        cand = []
        for s in keyed:
            if isinstance(s, CSeg):
                for x in s.items:
                    cand.append((z3.BoolVal(True), x))
            else:
                m = [(v, self.fresh('arg', z3.IntSort())) for v, _ in s.binders]
                s2 = s
                cand.append((z3.substitute(s2.full(), *m) if m else s2.full(), self.subst(s2.elem, m)))
        which = self.fresh('which', z3.IntSort())
        alts = []
        for i, (c, e) in enumerate(cand):
            alts.append((which == i, c, e))
        for i, (c, e) in enumerate(cand):
            last = i == len(cand) - 1
            if last or self.branch(which == i):
                self.assume(z3.And(which == i, c))
                el, kv = e[0], self.resolve(e[1])
                for s in keyed:
                    def dom(pair):
                        k2 = pair[1]
                        r = self.pure(lambda: self.as_bool(self.compare(ast.LtE() if ismax else ast.GtE(), k2, kv)))
                        return self.truthy(r)
                    if isinstance(s, CSeg):
                        for x in s.items:
                            self.assume(zb(dom(x)))
                    else:
                        s3 = self.rename(s)
                        with self.scope(s3.binders):
                            b = zb(self.under(s3.full(), lambda: dom(s3.elem)))
                        self.assume(self.forall(s3, b))
                return el
        raise Infeasible()


def vm_items(vm, o):
    return vm.norm(vm.dict_method(o, 'items', [], {}).segs)


def lambda_second(pair):
    return pair[1]


def b_len(vm, args, kw):
    v = vm.resolve(args[0])
    if isinstance(v, (SSet, SCell)):
        segs = vm.norm(vm.to_segs(v))
        items = vm.concrete_items(segs)
        if items is not None and not any(is_sym(x) for x in items):
            return len(set(items))
        return SInt(vm.card_term(segs))
    if isinstance(v, (SSeq, LCell)):
        sq = v.v if isinstance(v, LCell) else v
        if sq.raw is not None and vm.concrete_items(vm.norm(sq.raw)) is None:
            return SInt(vm.card_term(vm.norm(sq.raw)))
        return vm.length(vm.norm(vm.to_segs(v)))
    if isinstance(v, DCell):
        return vm.length(vm.map_key_segs(v))
    if isinstance(v, SStr):
        t = z3.Function('str_len', StrSort, z3.IntSort())(v.t)
        vm.fact(t >= 0)
        vm.fact((t == 0) == (v.t == str_lit('')))
        return SInt(t)
    if isinstance(v, Rec):
        return vm.call(vm.getattr_(v, '__len__'), [], {})
    if isinstance(v, (V, Cell)) or v is None or isinstance(v, int):
        raise PyRaise(ExcVal(TypeError))
    return len(v)


def b_any(vm, args, kw):
    return vm.as_bool(SBool(zb(vm.any_segs(vm.to_segs(args[0]), lambda x: vm.truthy(x)))))


def b_all(vm, args, kw):
    return vm.as_bool(SBool(zb(vm.all_segs(vm.to_segs(args[0]), lambda x: vm.truthy(x)))))


def b_sum(vm, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    return vm.sum_segs(vm.norm(vm.to_segs(args[0])), start)


def b_ext(ismax):
    def f(vm, args, kw):
        default = kw.get('default', UNBOUND)
        key = kw.get('key')
        if len(args) > 1:
            segs = [CSeg([vm.resolve(a) for a in args])]
        else:
            segs = vm.norm(vm.to_segs(args[0]))
        return vm.extremum(segs, ismax, default, key)
    return f


def b_sorted(vm, args, kw):
    v = vm.resolve(args[0])
    segs = vm.norm(vm.to_segs(v))
    items = vm.concrete_items(segs)
    key = kw.get('key')
    if items is not None and not any(is_sym(x) for x in items):
        if key is None:
            return vm.from_native(sorted(items, reverse=bool(kw.get('reverse', False))))
        keyed = [(vm.call(key, [x], {}), x) for x in items]
        if not any(is_sym(k) for k, _ in keyed):
            return vm.from_native([x for _, x in sorted(keyed, key=lambda p: p[0], reverse=bool(kw.get('reverse', False)))])
    raw = None
    if isinstance(v, (SSet, SCell)):
        raw = segs
        segs = vm.dedupe(segs)
    vm.used_models.add('sorted() yields some permutation of its input (the order itself is left open)')
    ordered = items is not None and len(items) <= 1
    return LCell(SSeq(segs, kind='list', ordered=ordered, raw=raw))


def conv(kind):
    def f(vm, args, kw):
        if not args:
            return () if kind == 'tuple' else LCell(SSeq([], kind='list'))
        v = vm.resolve(args[0])
        segs = vm.norm(vm.to_segs(v))
        isset = isinstance(v, (SSet, SCell))
        raw = None
        if isset:
            raw = segs
            segs = vm.dedupe(segs)
        ordered = v.ordered if isinstance(v, SSeq) else (v.v.ordered if isinstance(v, LCell) else not isset)
        if kind == 'tuple':
            if isinstance(v, SSeq) and v.kind == 'tuple':
                return v
            items = vm.concrete_items(segs)
            if items is not None and ordered:
                return tuple(items)
            return SSeq(segs, kind='tuple', ordered=ordered, atom=v.atom if isinstance(v, SSeq) else None, raw=raw)
        return LCell(SSeq(segs, kind='list', ordered=ordered, raw=raw))
    return f


def b_set(frozen):
    def f(vm, args, kw):
        if not args:
            return frozenset() if frozen else SCell(SSet([]))
        a = vm.resolve(args[0])
        a = a.v if isinstance(a, LCell) else a
        segs = vm.norm(a.raw if isinstance(a, SSeq) and a.raw is not None else vm.to_segs(a))
        items = vm.concrete_items(segs)
        if items is not None and not any(is_sym(x) for x in items):
            items = list(dict.fromkeys(items))
            if frozen:
                return frozenset(items)
            segs = [CSeg(items)] if items else []
        s = SSet(segs)
        return s if frozen else SCell(s)
    return f


def b_fromkeys(vm, args, kw):
    """dict.fromkeys(xs), used for its keys: each element once, where it occurs first."""
    if len(args) != 1 or kw:
        raise Unsupported('dict.fromkeys with a value')
    a = vm.resolve(args[0])
    a = a.v if isinstance(a, LCell) else a
    return LCell(SSeq(vm.dedupe(vm.to_segs(a)), kind='list'))


def b_dict(vm, args, kw):
    d = DCell(SMap(None))
    if args:
        a = vm.resolve(args[0])
        if isinstance(a, (DCell, dict)):
            if isinstance(a, DCell):
                d.data['v'] = SMap(a.v.base, a.v.overlay)
            else:
                vm.dict_update(d, a)
        else:
            d = vm.dict_from_pairs(vm.norm(vm.to_segs(a)))
    for k, v in kw.items():
        vm.map_set(d, k, v)
    return d


def b_defaultdict(vm, args, kw):
    default = args[0] if args else None
    d = b_dict(vm, args[1:], kw)
    return DCell(d.v, default=default)


def b_counter(vm, args, kw):
    d = DCell(SMap(None), pycls=collections.Counter)
    if not args:
        return DCell(SMap(None), default=int, pycls=collections.Counter)
    segs = vm.norm(vm.to_segs(args[0]))
    if any(isinstance(s, HSeg) for s in segs):
        raise Unsupported('Counter over a loop accumulator')
    parts = []
    for s in segs:
        for x in (s.items if isinstance(s, CSeg) else [None]):
            q = QSeg([], z3.BoolVal(True), x) if isinstance(s, CSeg) else s
            parts.append(QSeg(q.binders, q.guard, (q.elem, 1)))
    if parts:
        if any(vm.term_key(q.elem[0]) is None for q in parts):
            raise Unsupported('Counter over these elements')
        d.data['v'] = SMap(vm.group_base(parts, 'int'))
    vm.used_models.add('Counter(xs)[k] is the number of elements equal to k; most_common(1) is some key of largest count (ties left open)')
    return d


def b_enumerate(vm, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    segs = vm.norm(vm.to_segs(args[0]))
    out = []
    off = start
    for s in segs:
        if isinstance(s, CSeg):
            its = []
            for x in s.items:
                its.append((off, x))
                off = vm.binop(ast.Add(), off, 1)
            out.append(CSeg(its))
        elif vm._plain(s):
            v, n = s.binders[0]
            o = vm.num(off)
            out.append(QSeg(s.binders, s.guard, (SInt(simp(v + o)), s.elem)))
            off = vm.binop(ast.Add(), off, SInt(n))
        else:
            raise Unsupported('enumerate of a filtered sequence')
    return vm.iterator(out)


def b_zip(vm, args, kw):
    ss = [vm.norm(vm.to_segs(a)) for a in args]
    cs = [vm.concrete_items(s) for s in ss]
    if all(c is not None for c in cs):
        return vm.iterator([CSeg(list(zip(*cs)))])
    if all(len(s) == 1 and vm._plain(s[0]) for s in ss):
        i = vm.fresh_binder()
        n = ss[0][0].binders[0][1]
        for s in ss[1:]:
            m = s[0].binders[0][1]
            if not n.eq(m):
                n = z3.If(n < m, n, m)
        return vm.iterator([QSeg([(i, n)], z3.BoolVal(True), tuple(vm.subst(s[0].elem, [(s[0].binders[0][0], i)]) for s in ss))])
    raise Unsupported('zip')


def b_range(vm, args, kw):
    args = [vm.resolve(a) for a in args]
    if not any(is_sym(a) for a in args):
        return range(*args)
    lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
    if len(args) > 2 and args[2] != 1:
        raise Unsupported('range step')
    i = vm.fresh_binder()
    a, b = vm.num(lo), vm.num(hi)
    n = simp(z3.If(b > a, b - a, 0))
    if isinstance(lo, int) and lo == 0:
        n = simp(z3.If(b > 0, b, 0))
        if vm.valid(b >= 0, timeout=500):
            n = b
    elif vm.valid(b >= a, timeout=500):
        n = simp(b - a)
    return SSeq([QSeg([(i, n)], z3.BoolVal(True), SInt(simp(i + a)))], kind='any')


def b_reversed(vm, args, kw):
    v = vm.resolve(args[0])
    segs = vm.norm(vm.to_segs(v))
    out = []
    for s in reversed(segs):
        if isinstance(s, CSeg):
            out.append(CSeg(list(reversed(s.items))))
        elif len(s.binders) == 1:
            b, n = s.binders[0]
            w = vm.fresh_binder()
            m = [(b, n - 1 - w)]
            out.append(QSeg([(w, n)], z3.substitute(s.guard, *m), vm.subst(s.elem, m)))
        else:
            raise Unsupported('reversed')
    return vm.iterator(out, ordered=v.ordered if isinstance(v, SSeq) else True)


def b_filter(vm, args, kw):
    f = args[0]
    return vm.iterator(vm.filter_segs(vm.norm(vm.to_segs(args[1])), lambda x: vm.call(f, [x], {}) if f is not None else x))


def b_map(vm, args, kw):
    if len(args) != 2:
        raise Unsupported('map')
    return vm.iterator(vm.map_segs(vm.norm(vm.to_segs(args[1])), lambda x: vm.call(args[0], [x], {})))


def b_isinstance(vm, args, kw):
    r = vm.isinstance_(args[0], args[1])
    return r if isinstance(r, bool) else vm.as_bool(SBool(simp(r)))


def b_type(vm, args, kw):
    v = vm.resolve(args[0])
    if isinstance(v, SObj) and isinstance(v.desc, T.PolyT):
        for d, tag in zip(v.desc.descs[:-1], v.desc.tags[:-1]):
            if vm.branch(v.desc.tag(v.t) == tag):
                return d.cls
        return v.desc.descs[-1].cls
    return vm.cls_of(v)


def b_str(vm, args, kw):
    if not args:
        return ''
    v = vm.resolve(args[0])
    if isinstance(v, (str, SStr)):
        return v
    if not is_sym(v) and isinstance(v, (int, Decimal, enum.Enum, type(None))):
        return str(v)
    if isinstance(v, (Cell, SSeq, SSet, ExcVal)) or vm.term(v) is None:
        return SStr(vm.fresh('str', StrSort))
    return vm.join_str([v])


def b_int(vm, args, kw):
    if not args:
        return 0
    v = vm.resolve(args[0])
    if not is_sym(v):
        return vm.native(lambda: int(v, *args[1:]))
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(vm.num(v))
    if isinstance(v, SReal):
        return SInt(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if isinstance(v, SStr):
        ok = z3.Function('str_isint', StrSort, z3.BoolSort())(v.t)
        if not vm.branch(ok):
            raise PyRaise(ExcVal(ValueError))
        vm.used_models.add('int(s)/Decimal(s) of a string is an uninterpreted partial function')
        return SInt(z3.Function('str_int', StrSort, z3.IntSort())(v.t))
    raise PyRaise(ExcVal(TypeError))


def b_decimal(vm, args, kw):
    if not args:
        return Decimal(0)
    v = vm.resolve(args[0])
    if not is_sym(v):
        return vm.native(lambda: Decimal(v))
    if isinstance(v, SReal):
        return v
    if isinstance(v, (SInt, SBool)):
        return SReal(z3.ToReal(vm.num(v)))
    if isinstance(v, SStr):
        ok = z3.Function('str_isdec', StrSort, z3.BoolSort())(v.t)
        if not vm.branch(ok):
            raise PyRaise(ExcVal(decimal.InvalidOperation))
        vm.used_models.add('int(s)/Decimal(s) of a string is an uninterpreted partial function')
        return SReal(z3.Function('str_dec', StrSort, z3.RealSort())(v.t))
    raise PyRaise(ExcVal(TypeError))


def b_bool(vm, args, kw):
    return vm.as_bool(args[0]) if args else False


def b_abs(vm, args, kw):
    v = vm.resolve(args[0])
    if not is_sym(v):
        return abs(v)
    t = vm.num(v)
    return vm.wrap_like(v, z3.If(t >= 0, t, -t))


def b_getattr(vm, args, kw):
    name = vm.resolve(args[1])
    if is_sym(name):
        raise Unsupported('getattr with symbolic name')
    try:
        return vm.getattr_(args[0], name)
    except PyRaise as e:
        if len(args) > 2 and issubclass(e.value.cls, AttributeError):
            return args[2]
        raise


def b_hasattr(vm, args, kw):
    try:
        vm.getattr_(args[0], args[1])
        return True
    except PyRaise as e:
        if issubclass(e.value.cls, AttributeError):
            return False
        raise


def b_setattr(vm, args, kw):
    o = vm.resolve(args[0])
    if isinstance(o, Rec) and not is_sym(args[1]):
        vm.write(o, args[1], args[2])
        return None
    if isinstance(o, (tuple,)) or not isinstance(o, Rec):
        raise Unsupported('setattr')


def b_evolve(vm, args, kw):
    o = vm.resolve(args[0])
    cls = vm.cls_of(o)
    if cls is None:
        for d, tag in zip(o.desc.descs, o.desc.tags):
            if tag is o.desc.tags[-1] or vm.branch(o.desc.tag(o.t) == tag):
                cls = d.cls
                break
    kws = {}
    for a in attr.fields(cls):
        if not a.init:
            continue
        k = a.name.lstrip('_')
        kws[k] = kw[k] if k in kw else vm.getattr_(o, a.name)
    for k in kw:
        if k not in kws:
            raise PyRaise(ExcVal(TypeError))
    if cls in T.NOCONSTRUCT and cls in vm.summaries:
        return vm.summaries[cls](vm, [], kws)
    return vm.attr_new(cls, [], kws)


def b_asdict(vm, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported('attr.asdict with options')
    o = vm.resolve(args[0])
    d = DCell(SMap(None))
    for a in attr.fields(vm.cls_of(o)):
        v = vm.resolve(vm.getattr_(o, a.name))
        if not isinstance(v, (str, SStr, int, SInt, SBool, SReal, Decimal, enum.Enum, SEnum, type(None))):
            raise Unsupported('attr.asdict of nested values')
        vm.map_set(d, a.name, v)
    return d


def b_chain(vm, args, kw):
    segs = []
    for a in args:
        segs += vm.to_segs(a)
    return vm.iterator(vm.norm(segs))


def b_chain_from(vm, args, kw):
    outer = vm.norm(vm.to_segs(args[0]))
    out = []
    for s in outer:
        if isinstance(s, CSeg):
            for x in s.items:
                out += vm.to_segs(x)
        else:
            with vm.scope(s.binders):
                inner = vm.norm(vm.to_segs(s.elem))
            if len(inner) != 1:
                raise Unsupported('chain.from_iterable')
            q = inner[0]
            if isinstance(q, CSeg):
                if len(q.items) != 1:
                    raise Unsupported('chain.from_iterable')
                out.append(QSeg(s.binders, s.guard, q.items[0]))
            else:
                q = vm.rename(q)
                out.append(QSeg(s.binders + q.binders, conj([s.guard, q.guard]), q.elem))
    return vm.iterator(vm.norm(out))


def b_time(vm, args, kw):
    return SReal(vm.fresh('time', z3.RealSort()))


def b_hash(vm, args, kw):
    t = vm.dep_term(args[0])
    return SInt(z3.Function('hash', t.sort(), z3.IntSort())(t))


def b_next(vm, args, kw):
    segs = vm.norm(vm.to_segs(args[0]))
    for s in segs:
        if isinstance(s, CSeg):
            return s.items[0]
        if isinstance(s, HSeg):
            raise LoopCarried(s.token)
        if not s.binders:
            if vm.branch(s.guard):
                return s.elem
            continue
        if vm.branch(zb(vm.nonempty([s]))):
            return vm.pick_first(s)
    if len(args) > 1:
        return args[1]
    raise PyRaise(ExcVal(StopIteration))


def b_iter(vm, args, kw):
    return vm.iterator(vm.to_segs(args[0]))


def b_partial(vm, args, kw):
    return PartialV(args[0], args[1:], kw)


def b_cast(vm, args, kw):
    return args[1]


def b_print(vm, args, kw):
    return None


def b_reduce(vm, args, kw):
    items = vm.concrete_items(vm.to_segs(args[1]))
    if items is None:
        raise Unsupported('reduce')
    items = ([args[2]] if len(args) > 2 else []) + items
    acc = items[0]
    for x in items[1:]:
        acc = vm.call(args[0], [acc, x], {})
    return acc


def b_callable(vm, args, kw):
    v = args[0]
    if isinstance(v, (Closure, BoundM, OpaqueM, PartialV)):
        return True
    if is_sym(v):
        return False
    return callable(v)


def b_combinations(vm, args, kw):
    """itertools.combinations: the size-n index-increasing selections of a sequence."""
    seq = vm.as_seq(vm.resolve(args[0]))
    segs = vm.norm(seq.segs)
    n = vm.resolve(args[1])
    items = vm.concrete_items(segs)
    if items is not None and type(n) is int:
        return vm.iterator([CSeg(list(itertools.combinations(items, n)))])
    if len(segs) != 1 or not vm._plain(segs[0]):
        raise Unsupported('combinations of a filtered sequence')
    v, ln = segs[0].binders[0]
    c, k = vm.content(seq), vm.num(n)
    Z = z3.IntSort()
    count = z3.Function('comb#count', c.sort(), Z, Z)(c, k)
    pos = lambda j, i: z3.Function('comb#index', c.sort(), Z, Z, Z, Z)(c, k, j, i)
    j, i, i2 = (z3.Int(vm.fresh_name('c')) for _ in range(3))
    vm.used_models.add('itertools.combinations: selections of n increasing positions (their number and order left open)')
    vm.fact(count >= 0)
    vm.fact(z3.Implies(z3.Or(k < 0, k > ln), count == 0))
    vm.fact(z3.Implies(z3.And(k >= 0, k <= ln), count >= 1))
    vm.fact(z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, j < count, i >= 0, i < k), z3.And(pos(j, i) >= 0, pos(j, i) < ln)), patterns=[pos(j, i)]))
    vm.fact(z3.ForAll([j, i, i2], z3.Implies(z3.And(j >= 0, j < count, i >= 0, i < i2, i2 < k), pos(j, i) < pos(j, i2)), patterns=[z3.MultiPattern(pos(j, i), pos(j, i2))]))
    j, i = vm.fresh_binder(), vm.fresh_binder()
    one = SSeq([QSeg([(i, k)], z3.BoolVal(True), vm.subst(segs[0].elem, [(v, pos(j, i))]))], kind='tuple', ordered=seq.ordered)
    return vm.iterator([QSeg([(j, count)], z3.BoolVal(True), one)], ordered=seq.ordered)


def b_object(vm, args, kw):
    return Rec(object, {})


BUILTINS = {
    len: b_len, any: b_any, all: b_all, sum: b_sum, max: b_ext(True), min: b_ext(False), sorted: b_sorted,
    tuple: conv('tuple'), list: conv('list'), set: b_set(False), frozenset: b_set(True), dict: b_dict, dict.fromkeys: b_fromkeys,
    collections.Counter: b_counter, lambda_second: lambda vm, args, kw: vm.subscript(vm.resolve(args[0]), 1), collections.defaultdict: b_defaultdict, collections.OrderedDict: b_dict, enumerate: b_enumerate, zip: b_zip, range: b_range, reversed: b_reversed,
    filter: b_filter, map: b_map, isinstance: b_isinstance, type: b_type, str: b_str, int: b_int,
    Decimal: b_decimal, bool: b_bool, abs: b_abs, getattr: b_getattr, hasattr: b_hasattr, setattr: b_setattr,
    attr.evolve: b_evolve, attr.asdict: b_asdict, itertools.chain: b_chain, itertools.chain.from_iterable: b_chain_from,
    _time_mod.perf_counter: b_time, _time_mod.time: b_time, _time_mod.process_time: b_time, hash: b_hash, next: b_next, iter: b_iter,
    functools.partial: b_partial, typing.cast: b_cast, print: b_print, functools.reduce: b_reduce,
    callable: b_callable, object: b_object, itertools.combinations: b_combinations,
}
