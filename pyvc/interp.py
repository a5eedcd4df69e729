"""Symbolic interpreter of the real functions' ASTs.

The statements and expressions executed are those of the functions loaded from /repo (see
`source.function_ast`); globals, closures, defaults and classes are the live objects.
"""

from __future__ import annotations

import ast
import builtins
import contextlib
import functools
import inspect
import types
import typing
from functools import cached_property

import z3

from .core import *
from .core import _hashable, _safe_eq
from .source import assigned_names, function_ast, is_generator
from .values import *
from .values import _stamp

_MISSING = object()


_CM_CODE = contextlib.contextmanager(lambda: None).__code__  # the wrapper every @contextmanager function is

class Vars(dict):
    def __init__(self, *a):
        super().__init__(*a)
        self.stamp = next(_stamp)


class _Fields:
    """The __dict__ of an object of the interpreted program."""


def _fields_pop(e, obj, name, *default):
    if not isinstance(name, str):
        raise Unsupported("__dict__ with a symbolic name")
    if name in obj.f:
        v = obj.f[name]
        e.set(obj, ("field", name), UNBOUND)
        return v
    if default:
        return default[0]
    e.raise_(KeyError, name)


class Frame:
    __slots__ = ("vars", "parent", "globs", "cells", "locals", "name", "consume", "owner", "args0")

    def __init__(self, parent, globs, cells, locals_, name, owner=None):
        self.vars = Vars()
        self.parent, self.globs, self.cells, self.locals = parent, globs, cells or {}, locals_
        self.name, self.owner = name, owner
        self.consume = None
        self.args0 = None


class Star:
    """`*symbolic sequence` or `**symbolic mapping` in a call."""

    def __init__(self, v, source=None):
        self.v = v
        self.source = v if source is None else source


class MarkerRead(Unsupported):
    def __init__(self, key):
        super().__init__("a list is read while a loop extends it")
        self.key = key


class Ellipsis_:
    pass


def lookup_static(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name], c
    return _MISSING, None


def subst(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


def _solid(c):
    """The most derived built-in class a class inherits from."""
    return next((x for x in c.__mro__ if not x.__flags__ & (1 << 9)), object)


_conflicts = {}


def _layout_conflict(a, b):
    """Can no class inherit from both built-in classes?"""
    if issubclass(a, b) or issubclass(b, a):
        return False
    r = _conflicts.get((a, b))
    if r is None:
        try:
            type("probe", (a, b), {})
            r = False
        except TypeError:
            r = True
        _conflicts[(a, b)] = r
    return r


@functools.lru_cache(None)
def signature_of(f):
    return inspect.signature(f)


class Interp(Core):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.contracts = {}  # function object -> Native-like callable(engine, args, kw)
        self.models = {}  # builtin callables
        self.attr_specs = {}  # (class, attribute) -> Kind | callable(engine, obj)
        self.attr_seen = {}
        self.cached_on = {}
        self.copies = []
        self.subclasses_of = {}
        self.proxies = {}
        self.inline_prefixes = ("arti.", "arti", "contracts", "pyvc.spec", "functools_py")
        self.no_inline = set()
        self.loop_invariants = {}
        self.record = True
        self.attempts = 0
        self.obligations = []
        self.call_depth = 0
        self.class_axioms = set()
        self.frozen_as_value = True
        from . import models

        models.install(self)

    def reset_path(self, decisions):
        super().reset_path(decisions)
        self.attr_seen = {}
        self.cached_on = {}
        self.copies = []
        self.isa_seen = {}
        self.call_depth = 0
        self.silent = 0
        self.attempts = 0
        self.fold_facts = []
        self.current_label = None
        self.given_n = 0

    # ------------------------------------------------------------------------- helpers

    def given(self, t):
        if isinstance(t, bool):
            return
        self.solver.add(t)
        self.pc.append(t)

    def res(self, v):
        """Decide which alternative a value is."""
        while isinstance(v, SAlt):
            for c, x in v.alts[:-1]:
                if self.branch(c):
                    v = x
                    break
            else:
                self.assume(v.alts[-1][0]) if not isinstance(v.alts[-1][0], bool) else None
                v = v.alts[-1][1]
        if v is POISON:
            raise Unsupported("a value that only exists inside a loop is used after it")
        if not isinstance(v, Val) and id(v) in self.proxies:
            return self.proxies[id(v)][1]
        return v

    def raise_(self, cls, *args):
        raise PyRaise(Exc(cls, args))

    def truth(self, v) -> bool:
        v = self.res(v)
        if isinstance(v, SBool):
            return self.branch(v.t)
        return self.branch(self.truth_term(v))

    def truth_term(self, v):
        """A z3 condition or a bool."""
        if isinstance(v, SAlt):
            ts = [(c, self.truth_term(x)) for c, x in v.alts]
            ts = [(c, [z3.BoolVal(t) if isinstance(t, bool) else t]) for c, t in ts]
            return ite_terms(ts)[0]
        v = self.content(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != z3.StringVal("")
        if isinstance(v, SSeq):
            t = self._nonempty(v)
            if t is not None:
                return t
            n = self.seq_length(v)
            return n != 0 if isinstance(n, int) else n != 0
        if isinstance(v, CDict):
            return bool(v.d)
        if isinstance(v, CSet):
            return bool(v.items)
        if isinstance(v, SDict):
            return self.seq_length(self.dict_keys(v)) != 0
        if isinstance(v, SSet):
            return self.seq_length(self.set_order(v)) != 0
        if isinstance(v, SObj):
            cls = self.nominal_class(v)
            if isinstance(cls, type) and not (hasattr(cls, "__bool__") or hasattr(cls, "__len__")) and cls is not object:
                return True
            if cls is not object and issubclass(cls, type):
                return True
            return ufun("truthy", Ref, z3.BoolSort())(self.ref(v))
        if isinstance(v, Inst):
            for dn in ("__bool__", "__len__"):
                if lookup_static(v.cls, dn)[0] is not _MISSING:
                    return self.truth_term(self.res(self.call(self.getattr(v, dn), [], {})))
            return True
        if isinstance(v, (Func, Bound, Native, Partial, Gen, Exc)):
            return True
        if isinstance(v, Val):
            raise Unsupported(f"truth of {v!r}")
        return bool(v)

    def _nonempty(self, s):
        """A sequence with conditional parts is nonempty if some iteration contributes."""
        if not any(isinstance(p, (Flat, Guard)) for p in s.parts):
            return None
        ts = []
        for p in s.parts:
            if isinstance(p, Lit):
                return True
            if isinstance(p, Sym):
                ts.append(p.n > 0)
            elif isinstance(p, Guard):
                t = self._nonempty(p.seq)
                n = self.seq_length(p.seq) if t is None else None
                t = (n > 0) if t is None else t
                ts.append(p.cond if t is True else z3.And(p.cond, t))
            else:
                i = z3.Int(self.fresh_name("ne?"))
                self.binders.append(i)
                try:
                    sub = p.at(i)
                    t = self._nonempty(sub)
                    if t is None:
                        n = self.seq_length(sub)
                        t = n > 0
                finally:
                    self.binders.pop()
                ts.append(z3.Exists([i], z3.And(0 <= i, i < p.n, t)))
        return z3.Or(*ts) if len(ts) > 1 else ts[0]

    def as_bool_term(self, v):
        t = self.truth_term(v)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def pure(self, thunk):
        """Evaluate without side effects to one merged value; None if that is not possible."""
        start = next(_stamp)
        try:
            paths = self.explore(thunk, max_paths=24)
        except Unsupported:
            return None
        vals = []
        for p in paths:
            if p.outcome != "normal":
                return None
            if any(not (isinstance(m[0], Vars) and self._is_new(m[0], start)) for m in p.mods.values()):
                return None  # other than the local variables of what was called
            if isinstance(p.value, (Func, Bound, Gen, Inst)):
                return None
            vals.append((p.cond, p.value))
        if not vals:
            return None
        v = self.merge(vals)
        if v is POISON or isinstance(v, SAlt):
            return None
        for p in paths:
            for f, cs in p.facts:
                if cs is None:
                    self.axiom(f)
                else:
                    self.fact(z3.Implies(z3.And(*cs), f) if cs else f)
        return (v,)

    def _is_new(self, obj, start):
        return False if start is None else getattr(obj, "stamp", -1) >= start

    # ------------------------------------------------------------------------- classes of objects

    def nominal_class(self, v):
        cls = v.cls
        if not isinstance(cls, type):
            return cls
        for t, c in self.tested:
            if t.eq(v.t) and issubclass(c, cls):
                cls = c
        return cls

    def type_invariant(self, v):
        if isinstance(v, SInt) and v.cls is not int:
            lo, hi = getattr(v.cls, "_min", None), getattr(v.cls, "_max", None)
            if isinstance(lo, int) and isinstance(hi, int):
                key = ("range", v.t.get_id(), v.cls)
                if key not in self.order_cache:
                    self.order_cache[key] = v.t
                    self.fact(z3.And(v.t >= int(lo), v.t <= int(hi)))

    def isa(self, v: SObj, cls):
        """Is the object an instance of the class: True, False, or a z3 condition."""
        mine = self.nominal_class(v)
        if isinstance(mine, type) and isinstance(cls, type):
            if issubclass(mine, cls):
                return True
            if v.exact:
                return False
            if not issubclass(cls, mine) and self.disjoint(mine, cls):
                return False
        p = self.isa_pred(cls)(v.t)
        self.isa_facts(v.t, cls)
        return p

    def isa_pred(self, cls):
        return ufun(f"isa:{cls.__module__}.{cls.__qualname__}", Ref, z3.BoolSort())

    def isa_facts(self, t, cls):
        known = self.isa_seen.setdefault(t.get_id(), {"t": t})
        if cls in known:
            return
        for other in list(known):
            if other == "t":
                continue
            if issubclass(cls, other):
                self.fact(z3.Implies(self.isa_pred(cls)(t), self.isa_pred(other)(t)))
            elif issubclass(other, cls):
                self.fact(z3.Implies(self.isa_pred(other)(t), self.isa_pred(cls)(t)))
            elif self.disjoint(other, cls):
                self.fact(z3.Not(z3.And(self.isa_pred(other)(t), self.isa_pred(cls)(t))))
        known[cls] = True

    def disjoint(self, a, b):
        """No class can (in this code base) inherit from both."""
        if issubclass(a, b) or issubclass(b, a):
            return False
        layout = (int, str, bytes, tuple, list, dict, set, frozenset, type, BaseException)
        la = [c for c in layout if issubclass(a, c)]
        lb = [c for c in layout if issubclass(b, c)]
        from pydantic import BaseModel

        if la and lb and la != lb:
            return True
        if issubclass(a, BaseModel) and issubclass(b, BaseModel):
            seen, todo = set(), [a]
            while todo:
                c = todo.pop()
                if c in seen:
                    continue
                seen.add(c)
                todo.extend(type.__subclasses__(c))
            return not any(issubclass(c, b) for c in seen)
        if (la and issubclass(b, BaseModel)) or (lb and issubclass(a, BaseModel)):
            return True
        return _layout_conflict(_solid(a), _solid(b))

    def attr_kind(self, v, name):
        cls = self.nominal_class(v)
        for c in getattr(cls, "__mro__", (cls,)):
            s = self.attr_specs.get((c, name))
            if isinstance(s, Kind):
                return s
        mf = self.model_fields(cls)
        if isinstance(mf, dict) and name in mf:
            return self.annotation_kind(mf[name].annotation)
        return None

    def annotation_kind(self, ann) -> Kind:
        from pydantic import BaseModel

        if ann is None or ann is type(None):
            return KConst(None)
        if isinstance(ann, typing.TypeAliasType):
            return self.annotation_kind(ann.__value__)
        origin, args = typing.get_origin(ann), typing.get_args(ann)
        if isinstance(origin, typing.TypeAliasType):
            v = origin.__value__
            params = dict(zip(origin.__type_params__, args))
            o2, a2 = typing.get_origin(v), typing.get_args(v)
            if o2 is typing.Annotated:
                inner = a2[0]
                from arti.internal.mappings import frozendict

                if typing.get_origin(inner) is not None and len(args) == 2:
                    return self.annotation_kind(types.GenericAlias(frozendict, args))
            return KObj(object)
        if origin is typing.Annotated:
            return self.annotation_kind(args[0])
        if origin in (typing.Union, types.UnionType):
            return KAlt([self.annotation_kind(a) for a in sorted(args, key=lambda a: a is not type(None))])
        if origin is typing.Literal:
            if all(isinstance(a, str) for a in args):
                return KStr()
            return KAlt([KConst(a) for a in args])
        if isinstance(origin, type):
            if origin is tuple:
                if len(args) == 2 and args[1] is ...:
                    return KSeq(self.annotation_kind(args[0]))
                return KTuple([self.annotation_kind(a) for a in args])
            if origin is list:
                return KSeq(self.annotation_kind(args[0]), list)
            if origin in (set, frozenset):
                kk = self.annotation_kind(args[0])
                return KSet(kk if len(kk.sorts) == 1 else KObj(object), origin)
            if origin is type:
                return KObj(type)
            if hasattr(origin, "keys") and len(args) == 2:
                kk, vk = self.annotation_kind(args[0]), self.annotation_kind(args[1])
                return KDict(kk if len(kk.sorts) == 1 else KObj(object), vk, origin)
            return KObj(origin)
        if isinstance(ann, type):
            if ann is bool:
                return KBool()
            if issubclass(ann, int):
                return KInt(ann)
            if ann is str:
                return KStr()
            if ann is bytes:
                return KBytes()
            if ann in (list, tuple):
                return KSeq(KObj(object), ann)
            return KObj(ann)
        return KObj(object)

    # ------------------------------------------------------------------------- attributes

    def getattr(self, v, name, default=_MISSING):
        v = self.res(v)
        try:
            return self._getattr(v, name)
        except PyRaise as e:
            if default is not _MISSING and issubclass(e.exc.cls, AttributeError):
                return default
            raise

    def _getattr(self, v, name):
        if name == "__class__":
            return self.type_of(v)
        if isinstance(v, SObj):
            if name in ("__name__", "__qualname__", "__module__") and isinstance(v.cls, type) and issubclass(v.cls, type) and name not in v.over:
                return self.obj_field(v, type, name, KStr())
            return self.obj_attr(v, name)
        if isinstance(v, Inst):
            return self.inst_attr(v, name)
        if isinstance(v, Super):
            return self.super_attr(v, name)
        if isinstance(v, Exc):
            if name == "args":
                return v.args
            if name in v.f:
                return v.f[name]
            if name == "with_traceback":
                return Native(lambda e, a, k: v, "with_traceback")
            if name in ("__cause__", "__context__", "__traceback__"):
                return None
            if not hasattr(v.cls, name):
                self.raise_(AttributeError, name)
            return Native(lambda e, a, k: None, name)
        if isinstance(v, SInt):
            if v.cls is not int:
                a, owner = lookup_static(v.cls, name)
                if a is not _MISSING and owner is not int and owner is not object:
                    return self.bind(a, v, v.cls, owner)
            m = self.models_method(int, name)
            if m is not None:
                return Bound(m, v)
            a, owner = lookup_static(v.cls, name)
            if a is _MISSING:
                self.raise_(AttributeError, name)
            return Bound(a, v)
        if isinstance(v, (SStr, SBool, SSeq, SDict, CDict, SSet, CSet, Cell, PathCell)):
            cls = self.class_of(v)
            m = self.models_method(cls, name)
            if m is not None:
                return Bound(m, v)
            if not hasattr(cls, name):
                self.raise_(AttributeError, name)
            if isinstance(v, (SDict, CDict)) and cls not in (dict,) :
                a, owner = lookup_static(cls, name)
                if isinstance(a, (types.FunctionType, classmethod, property, staticmethod)):
                    return self.bind(a, v, cls, owner)
            raise Unsupported(f"method {cls.__name__}.{name}")
        if isinstance(v, (tuple, list, dict, set, frozenset, str)) and type(v) in (tuple, list, dict, set, frozenset, str):
            m = self.models_method(type(v), name)
            if m is not None:
                return Bound(m, v)
            if not hasattr(v, name):
                self.raise_(AttributeError, name)
            return getattr(v, name)
        if isinstance(v, Func):
            if name in v.attrs:
                return v.attrs[name]
            if name == "__name__":
                return v.name
            raise Unsupported(f"attribute {name} of a closure")
        if isinstance(v, (Gen, Bound, Native, Partial)):
            if isinstance(v, Bound) and name == "__name__" and hasattr(v.fn, "__name__"):
                return v.fn.__name__
            if isinstance(v, Native) and name == "__name__":
                return v.name
            raise Unsupported(f"attribute {name} of {v!r}")
        # A concrete object: the live attribute.
        if not isinstance(v, type) and not isinstance(v, types.ModuleType):
            for c in type(v).__mro__:
                s = self.attr_specs.get((c, name))
                if callable(s) and not isinstance(s, Kind):
                    return s(self, v)
            a, owner = lookup_static(type(v), name)
            if isinstance(a, types.FunctionType) and not _in_dict(v, name):
                return Bound(a, v)
        try:
            r = getattr(v, name)
        except AttributeError as e:
            self.raise_(AttributeError, str(e))
        if id(r) in self.proxies:
            return self.proxies[id(r)][1]
        return r

    def bind(self, a, obj, cls, owner):
        if isinstance(a, property):
            return self.call(a.fget, [obj], {})
        if isinstance(a, cached_property):
            if isinstance(obj, Inst) and a.func not in self.contracts:
                self.cached_on[id(obj)] = obj  # computed again whenever it is read: the object must not change
            return self.call(a.func, [obj], {})
        if isinstance(a, classmethod):
            f = a.__func__
            if isinstance(f, property):
                return self.call(f.fget, [cls], {})
            return Bound(f, obj if class_like(obj) else cls)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, (types.FunctionType, types.WrapperDescriptorType, types.MethodDescriptorType)):
            return Bound(a, obj)
        if hasattr(type(a), "__get__") and not isinstance(a, type):
            try:
                wrapped = a.wrapped  # pydantic's proxies for decorated methods
                return self.bind(wrapped, obj, cls, owner)
            except AttributeError:
                pass
            g = lookup_static(type(a), "__get__")[0]
            if isinstance(g, types.FunctionType) and self.inlinable(g):
                return self.call(g, [a, obj, cls], {})
            raise Unsupported(f"descriptor {type(a).__name__}")
        return a

    def obj_attr(self, v: SObj, name):
        if name in v.over:
            return v.over[name]
        cls = self.nominal_class(v)
        for c in getattr(cls, "__mro__", (cls,)):
            s = self.attr_specs.get((c, name))
            if s is not None:
                if isinstance(s, Kind):
                    return self.obj_field(v, c, name, s)
                return s(self, v)
        if not isinstance(cls, type):
            raise Unsupported(f"attribute {name} of {v!r}")
        mf = self.model_fields(cls)
        if isinstance(mf, dict) and name in mf:
            decl = next((c for c in reversed(cls.__mro__) if name in (getattr(c, "model_fields", None) or {})), cls)
            return self.obj_field(v, cls, name, self.annotation_kind(mf[name].annotation))
        a, owner = lookup_static(cls, name)
        if a is _MISSING:
            if v.exact:
                self.raise_(AttributeError, name)
            raise Unsupported(f"unknown attribute {cls.__name__}.{name}")
        if isinstance(a, (property, cached_property, types.FunctionType, classmethod, staticmethod)):
            return self.bind(a, v, cls if v.exact else self.type_of(v), owner)
        if hasattr(type(a), "__get__") and not isinstance(a, type):
            return self.bind(a, v, cls, owner)
        if v.exact or not self.overridden(cls, name):
            return a
        return self.obj_field(v, cls, name, self.const_kind(a))

    def const_kind(self, a):
        if isinstance(a, bool):
            return KBool()
        if isinstance(a, int):
            return KInt(type(a))
        if isinstance(a, str):
            return KStr()
        if isinstance(a, type):
            return KObj(type)
        return KObj(type(a))

    def overridden(self, cls, name):
        todo = list(type.__subclasses__(cls))
        while todo:
            c = todo.pop()
            if name in c.__dict__:
                return True
            todo.extend(type.__subclasses__(c))
        return False

    def obj_field(self, v, cls, name, kind):
        if v.over:
            base = SObj(v.t, v.cls, v.exact)
            return self.obj_field(base, cls, name, kind)
        self.attr_seen[(cls, name)] = kind
        t = v.t
        for new, old, names, ccls in self.copies:
            if new.eq(t) and name not in names:
                # copies share the fields that were not replaced
                for f, u in zip(self.attr_terms(new, cls, name, kind), self.attr_terms(old, cls, name, kind)):
                    self.fact(f == u)
        val = self.wrap(kind, self.attr_terms(t, cls, name, kind))
        return val

    def inst_attr(self, v: Inst, name):
        for c in v.cls.__mro__:
            s = self.attr_specs.get((c, name))
            if callable(s) and not isinstance(s, Kind):
                return s(self, v)
        if class_like(v):
            if name in v.f:
                return v.f[name]
            if name == "__dict__":
                return CDict(dict(v.f))
            a, owner = lookup_static(v.cls, name)
            if a is _MISSING and not hasattr(v.cls, name):
                self.raise_(AttributeError, name)
            return getattr(v.cls, name) if a is _MISSING or isinstance(a, types.FunctionType) else self.bind(a, v, v.cls, owner)
        if name == "__dict__":
            return Inst(_Fields, {"pop": Native(lambda e, args, kw: _fields_pop(e, v, *args), "__dict__.pop"), "get": Native(lambda e, args, kw: e.get_slot(v, ("field", args[0])) if args[0] in v.f else (args[1:] or (None,))[0], "__dict__.get")})
        a, owner = lookup_static(v.cls, name)
        if a is not _MISSING and (isinstance(a, (property,)) or (hasattr(type(a), "__set__"))):
            return self.bind(a, v, v.cls, owner)
        if name in v.f:
            return v.f[name]
        if name == "__dict__":
            return Native(None, "__dict__")
        if a is not _MISSING:
            return self.bind(a, v, v.cls, owner)
        g, _ = lookup_static(v.cls, "__getattr__")
        if g is not _MISSING:
            return self.call(g, [v, name], {})
        self.raise_(AttributeError, f"{v.cls.__name__!r} object has no attribute {name!r}")

    def super_attr(self, s: Super, name):
        obj = s.self_
        if isinstance(obj, type):
            mro = obj.__mro__
        else:
            c = self.class_of(obj)
            mro = c.__mro__
        i = mro.index(s.owner)
        for c in mro[i + 1 :]:
            if name in c.__dict__:
                a = c.__dict__[name]
                if isinstance(a, staticmethod) or name == "__new__":
                    return a.__func__ if isinstance(a, staticmethod) else a
                if isinstance(a, classmethod):
                    return Bound(a.__func__, obj if isinstance(obj, type) or class_like(obj) else self.class_of(obj))
                if isinstance(obj, type) and isinstance(a, types.FunctionType):
                    return a
                if isinstance(a, types.ClassMethodDescriptorType):
                    return Bound(a, obj if isinstance(obj, type) else self.class_of(obj))
                return self.bind(a, obj, self.class_of(obj) if not isinstance(obj, type) else obj, c)
        self.raise_(AttributeError, name)

    def setattr(self, v, name, value):
        v = self.res(v)
        if isinstance(v, Inst):
            sa, owner = lookup_static(v.cls, "__setattr__")
            if not class_like(v) and isinstance(sa, types.FunctionType) and self.inlinable(sa):
                self.call(sa, [v, name, value], {})
                return
            if id(v) in self.cached_on:
                raise Unsupported("changing an object with cached properties")
            self.set(v, ("field", name), value)
            return
        if isinstance(v, Func):
            v.attrs[name] = value
            return
        if isinstance(v, Exc):
            self.set(v, ("field", name), value)
            return
        raise Unsupported(f"assignment to attribute {name} of {v!r}")

    def delattr(self, v, name):
        v = self.res(v)
        if isinstance(v, Inst):
            if name not in v.f:
                self.raise_(AttributeError, name)
            self.set(v, ("field", name), UNBOUND)
            return
        raise Unsupported(f"del attribute {name}")

    def class_of(self, v):
        if isinstance(v, SInt):
            return v.cls
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SStr):
            return str
        if isinstance(v, (SSeq, SDict, CDict, SSet, CSet, Cell, PathCell, Inst, Exc)):
            return v.cls
        if isinstance(v, SObj):
            return self.nominal_class(v)
        if isinstance(v, (Func, Native, Partial, Bound)):
            return types.FunctionType
        if isinstance(v, Gen):
            return types.GeneratorType
        return type(v)

    def type_of(self, v):
        v = self.res(v)
        if isinstance(v, SObj) and not v.exact:
            return self.obj_field(v, object, "__class__", KObj(type))
        return self.class_of(v)

    # ------------------------------------------------------------------------- calls

    def inlinable(self, f):
        m = getattr(f, "__module__", None) or ""
        if f in self.no_inline:
            return False
        return any(m == p or m.startswith(p + ".") or (p.endswith(".") and m.startswith(p)) for p in self.inline_prefixes)

    def call(self, f, args, kw):
        f = self.res(f)
        if isinstance(f, Func):
            return self.call_closure(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_, *args], kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Partial):
            return self.call(f.fn, [*f.args, *args], {**f.kw, **kw})
        if isinstance(f, SObj):
            return self.call_obj(f, args, kw)
        if isinstance(f, Inst):
            return self.call(self.getattr(f, "__call__"), args, kw)
        if isinstance(f, Val):
            raise Unsupported(f"call of {f!r}")
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__, *args], kw)
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        c = None
        try:
            c = self.contracts.get(f)
        except TypeError:
            pass
        if c is not None:
            if isinstance(f, types.FunctionType) and isinstance(args, (list, tuple)) and isinstance(kw, dict):
                try:
                    signature_of(f).bind(*args, **kw)
                except TypeError as exc:
                    self.raise_(TypeError, f"{f.__qualname__}(): {exc}")
            return c(self, args, kw)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kw)
        if type(f).__name__ == "partial":
            return self.call(f.func, [*f.args, *args], {**f.keywords, **kw})
        if isinstance(f, (types.GenericAlias, typing._GenericAlias)):
            made = self.call(typing.get_origin(f), args, kw)
            if isinstance(made, Cell) and made.factory is not None and len(typing.get_args(f)) == 2:
                made.hint = _untyped(self.annotation_kind(typing.get_args(f)[1]))
            return made
        if isinstance(f, type):
            return self.construct(f, args, kw)
        if isinstance(f, types.FunctionType):
            if f.__code__ is _CM_CODE and isinstance(inner := getattr(f, "__wrapped__", None), types.FunctionType) and self.inlinable(inner):
                return ContextGen(self.call(inner, args, kw))
            if self.inlinable(f):
                node = function_ast(f)
                if node is not None:
                    return self.call_real(f, node, args, kw)
            return self.native(f, args, kw)
        return self.native(f, args, kw)

    def call_obj(self, f, args, kw):
        raise Unsupported(f"call of the unknown object {f!r}")

    def concretize(self, v):
        """A live Python value, if nothing in it is symbolic."""
        if isinstance(v, Cell):
            v2 = self.concretize(v.v)
            return v.cls(v2) if v.cls in (list, set, dict) else v2
        if isinstance(v, SInt):
            t = z3.simplify(v.t)
            if z3.is_int_value(t):
                return t.as_long() if v.cls is int else v.cls(t.as_long())
        if isinstance(v, SBool):
            t = z3.simplify(v.t)
            if z3.is_true(t) or z3.is_false(t):
                return z3.is_true(t)
        if isinstance(v, SStr):
            t = z3.simplify(v.t)
            if z3.is_string_value(t):
                return _z3str(t)
        if isinstance(v, SSeq):
            items = self.concrete_items(v) if all(isinstance(p, (Lit, Sym)) for p in v.parts) else None
            if items is not None:
                return (list if v.cls is list else tuple)(self.concretize(x) for x in items)
        if isinstance(v, CDict):
            d = {k: self.concretize(x) for k, x in v.d.items()}
            return d if v.cls is dict else v.cls(d)
        if isinstance(v, CSet):
            return v.cls(self.concretize(x) for x in v.items)
        if isinstance(v, Exc):
            return v.cls(*[self.concretize(a) for a in v.args])
        if isinstance(v, Val):
            raise Unsupported(f"{v!r} is not concrete")
        if type(v) in (tuple, list) and is_symbolic(v):
            return type(v)(self.concretize(x) for x in v)
        if type(v) is dict and is_symbolic(v):
            return {k: self.concretize(x) for k, x in v.items()}
        return v

    def lift(self, v):
        """Mutable results of native calls become cells."""
        if type(v) is list:
            return Cell(list, SSeq([Lit([self.lift(x) for x in v])], None, list))
        if type(v) is dict:
            return Cell(dict, CDict({k: self.lift(x) for k, x in v.items()}))
        if type(v) is set:
            return Cell(set, CSet(tuple(v), set))
        if type(v) is tuple:
            return tuple(self.lift(x) for x in v)
        return v

    def native(self, f, args, kw):
        try:
            a = [self.concretize(x) for x in args]
            k = {n: self.concretize(x) for n, x in kw.items()}
        except Unsupported as e:
            raise Unsupported(f"call of {getattr(f, '__qualname__', f)!r} with symbolic arguments ({e})") from None
        if not self.native_ok(f, a):
            raise Unsupported(f"call of {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)!r}")
        try:
            r = f(*a, **k)
        except Unsupported:
            raise
        except Exception as e:  # noqa: BLE001
            raise PyRaise(Exc(type(e), e.args)) from None
        return self.lift(r)

    _native_modules = (
        "builtins", "typing", "inspect", "re", "operator", "types", "string", "_string", "itertools",
        "arti.internal.type_hints", "arti.internal.utils", "datetime", "math", "os.path", "posixpath", "glob", "pathlib",
        "collections", "annotated_types", "json", "copy", "functools", "enum", "abc", "parse",
    )

    def native_ok(self, f, args):
        m = getattr(f, "__module__", None)
        if m is None:
            s = getattr(f, "__self__", None)
            oc = getattr(f, "__objclass__", None)
            m = (oc or type(s)).__module__ if (oc or s is not None) else "builtins"
            if s is not None and isinstance(s, (str, bytes, int)) and isinstance(f, types.BuiltinMethodType):
                m = "builtins"  # methods of str, bytes, int on their subclasses
        if m in self._native_modules:
            name = getattr(f, "__name__", "")
            return name not in ("open", "exec", "eval", "compile", "setattr", "delattr", "input", "breakpoint", "__import__")
        return f in self.native_allowed

    native_allowed: set = set()

    def bind_args(self, a: ast.arguments, defaults, kwdefaults, args, kw, name):
        """Parameter name -> value, following the call protocol."""
        out = {}
        pos = [x.arg for x in (*a.posonlyargs, *a.args)]
        args = list(args)
        kw = dict(kw)
        symkw = kw.pop("**", None)
        i = 0
        while i < len(args) and i < len(pos):
            if isinstance(args[i], Star):
                items = self.seq_items(args[i].v)
                if items is None:
                    # a symbolic number of arguments: decide how many are needed
                    n = self.seq_length(args[i].v)
                    need = len(pos) - i - len([p for p in pos[i:] if p in kw])
                    if a.vararg is None and self.branch(n == need):
                        s = args[i].v
                        args[i : i + 1] = [self.seq_index(s, j) for j in range(need)]
                        continue
                    if a.vararg is None:
                        self.raise_(TypeError, f"{name}() got the wrong number of arguments")
                    raise Unsupported("symbolic number of positional arguments")
                args[i : i + 1] = items
                continue
            out[pos[i]] = args[i]
            i += 1
        rest = args[i:]
        if a.vararg is not None:
            if any(isinstance(x, Star) for x in rest):
                parts = []
                for x in rest:
                    if isinstance(x, Star):
                        parts += self.as_seq(x.v).parts
                    else:
                        parts.append(Lit([x]))
                items = None
                seq = SSeq(parts, None)
                if all(isinstance(p, Lit) for p in seq.parts):
                    items = tuple(y for p in seq.parts for y in p.items)
                out[a.vararg.arg] = seq if items is None else items
            else:
                out[a.vararg.arg] = tuple(rest)
        elif rest:
            rest2 = []
            for x in rest:
                if isinstance(x, Star):
                    items = self.seq_items(x.v)
                    if items is None:
                        if self.truth(x.v):
                            self.raise_(TypeError, f"{name}() takes fewer positional arguments")
                        items = []
                    rest2 += items
                else:
                    rest2.append(x)
            if rest2:
                self.raise_(TypeError, f"{name}() takes {len(pos)} positional arguments")
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extra = {}
        for k, v in kw.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in out:
                    self.raise_(TypeError, f"{name}() got multiple values for argument '{k}'")
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_(TypeError, f"{name}() got an unexpected keyword argument '{k}'")
        if a.kwarg is not None:
            if symkw is not None:
                if extra:
                    raise Unsupported("mixed symbolic and explicit keywords")
                out[a.kwarg.arg] = Cell(dict, symkw)
            else:
                out[a.kwarg.arg] = Cell(dict, CDict(extra))
        elif symkw is not None:
            raise Unsupported("symbolic keyword arguments for named parameters")
        nd = len(defaults)
        for j, p in enumerate(pos):
            if p not in out:
                q = j - (len(pos) - nd)
                if q < 0:
                    self.raise_(TypeError, f"{name}() missing a required argument: '{p}'")
                out[p] = defaults[q]
        for p in kwonly:
            if p not in out:
                if p not in kwdefaults:
                    self.raise_(TypeError, f"{name}() missing a required keyword-only argument: '{p}'")
                out[p] = kwdefaults[p]
        return out

    def seq_items(self, v):
        v = self.content(v)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, SSeq) and all(isinstance(p, (Lit, Sym)) for p in v.parts):
            return self.concrete_items(v)
        return None

    def call_real(self, f, node, args, kw):
        self.used.add(f)
        cells = {}
        owner = None
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                cells[n] = c
                if n == "__class__":
                    owner = c.cell_contents
        fr = Frame(None, f.__globals__, cells, assigned_names(node), f.__qualname__, owner)
        bound = self.bind_args(node.args, f.__defaults__ or (), f.__kwdefaults__ or {}, args, kw, f.__name__)
        return self.run_body(node, fr, bound)

    def call_closure(self, f: Func, args, kw):
        fr = Frame(f.frame, f.frame.globs, None, assigned_names(f.node), f.name, f.owner)
        bound = self.bind_args(f.node.args, f.defaults, f.kwdefaults, args, kw, f.name)
        return self.run_body(f.node, fr, bound)

    def run_body(self, node, fr, bound):
        for k, v in bound.items():
            self.set(fr.vars, ("local", k), v)
        a = [*node.args.posonlyargs, *node.args.args]
        fr.args0 = a[0].arg if a else None
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        if is_generator(node):
            def run(consume, fr=fr, node=node):
                fr.consume = consume
                try:
                    self.exec_block(node.body, fr)
                except Ret as r:
                    if r.frame is not fr:
                        raise
                    return r.value
                return None

            return Gen(run, fr.name)
        self.call_depth += 1
        if self.call_depth > 60:
            self.call_depth = 0
            raise Unsupported(f"recursion without a contract in {fr.name}")
        try:
            self.exec_block(node.body, fr)
        except Ret as r:
            if r.frame is not fr:
                raise
            return r.value
        finally:
            self.call_depth -= 1
        return None

    def construct(self, cls, args, kw):
        if issubclass(cls, BaseException):
            init = lookup_static(cls, "__init__")[0]
            if isinstance(init, types.FunctionType):
                e = Exc(cls, args)
                return e
            return Exc(cls, args, kw)
        if issubclass(cls, int) and cls is not int and cls is not bool:
            new, owner = lookup_static(cls, "__new__")
            new = new.__func__ if isinstance(new, staticmethod) else new
            if isinstance(new, types.FunctionType):
                return self.call(new, [cls, *args], kw)
        from pydantic import BaseModel

        if issubclass(cls, BaseModel):
            return self.construct_model(cls, args, kw)
        if cls in (type, object):
            return self.native(cls, args, kw)
        for c in cls.__mro__:
            m = self.models.get(("new", c))
            if m is not None and (c is cls or self.frozen_as_value or c not in self.value_classes):
                return m(self, cls, args, kw)
        if self.inlinable(cls):
            new, _ = lookup_static(cls, "__new__")
            obj = Inst(cls, name=cls.__name__)
            init, owner = lookup_static(cls, "__init__")
            if isinstance(init, types.FunctionType):
                self.call(init, [obj, *args], kw)
            elif init is not object.__init__:
                raise Unsupported(f"construction of {cls.__name__}")
            return obj
        return self.native(cls, args, kw)

    value_classes: set = set()

    def construct_model(self, cls, args, kw):
        try:
            if not is_symbolic(args) and not is_symbolic(kw):
                return cls(*args, **kw)
        except Exception as e:  # noqa: BLE001
            raise PyRaise(Exc(type(e), e.args)) from None
        raise Unsupported(f"construction of the model {cls.__name__} without a contract")

    def new_obj(self, cls, **fields):
        """A model instance determined by its fields (injective in them)."""
        ks = {n: self.field_kind(cls, n) for n in fields}
        ts, sig = [], []
        for n in sorted(fields):
            ts += self.unwrap(ks[n], fields[n])
            sig.append(n)
        base = f"mk:{cls.__module__}.{cls.__qualname__}({','.join(sig)})"
        t = ufun(base, *[x.sort() for x in ts], Ref)(*ts) if ts else z3.Const(base, Ref)
        v = SObj(t, cls, True)
        j = 0
        for n in sorted(fields):
            k = ks[n]
            self.attr_seen[(cls, n)] = k
            for f, u in zip(self.attr_terms(t, cls, n, k), ts[j : j + len(k.sorts)]):
                self.fact(f == u)
            j += len(k.sorts)
        return v

    def field_kind(self, cls, n):
        for c in cls.__mro__:
            s = self.attr_specs.get((c, n))
            if isinstance(s, Kind):
                return s
        return self.annotation_kind(self.model_fields(cls)[n].annotation)

    def model_fields(self, cls):
        mf = getattr(cls, "model_fields", None)
        if isinstance(mf, dict) and not getattr(cls, "__pydantic_complete__", True):
            cls.model_rebuild(raise_errors=False)
            mf = cls.model_fields
        return mf

    def models_method(self, cls, name):
        for c in cls.__mro__:
            m = self.models.get((c, name))
            if m is not None:
                return Native(m, f"{c.__name__}.{name}")
            if c is not cls and c.__module__.startswith("arti"):
                continue
        return None

    # ------------------------------------------------------------------------- statements

    def exec_block(self, stmts, fr):
        for s in stmts:
            getattr(self, "st_" + type(s).__name__, self.st_unsupported)(s, fr)

    def st_unsupported(self, s, fr):
        raise Unsupported(f"statement {type(s).__name__} at {fr.name}:{s.lineno}")

    def st_Pass(self, s, fr):
        pass

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def st_Return(self, s, fr):
        raise Ret(self.eval(s.value, fr) if s.value is not None else None, fr)

    def st_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            self.assign(t, self.inplace(s.op, old, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, t.attr, self.inplace(s.op, self.getattr(o, t.attr), self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o, k = self.eval(t.value, fr), self.eval(t.slice, fr)
            self.setitem(o, k, self.inplace(s.op, self.getitem(o, k), self.eval(s.value, fr)))

    def inplace(self, op, a, b):
        a = self.res(a)
        if isinstance(a, (Cell, PathCell)):
            if isinstance(op, ast.Add) and a.cls is list:
                self.call(self.getattr(a, "extend"), [b], {})
                return a
            if isinstance(op, ast.BitOr):
                self.call(self.getattr(a, "update"), [b], {})
                return a
            raise Unsupported("in-place operator on a container")
        return self.binop(op, a, b)

    def st_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def st_Assert(self, s, fr):
        v = self.eval(s.test, fr)
        if getattr(fr, "name", "").startswith("lemma:") or fr.globs.get("__lemmas__"):
            self.obligation(f"{fr.globs.get('__name__', '')}:{s.lineno}", self.as_bool_term(self.content(v)), ast.unparse(s))
            return
        if not self.truth(v):
            raise PyRaise(Exc(AssertionError, ()))

    def obligation(self, label, term, text=""):
        self.attempts += 1
        if self.silent:
            self.given(term)
            return
        self.prove(label, term, text)
        self.given(term) if not isinstance(term, bool) else None

    def prove(self, label, term, text):  # overridden by the verifier
        raise NotImplementedError

    def st_Raise(self, s, fr):
        if s.exc is None:
            if self.handling:
                raise PyRaise(self.handling[-1])
            raise Unsupported("bare raise")
        e = self.eval(s.exc, fr)
        e = self.res(e)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.construct(e, [], {})
        if isinstance(e, BaseException):
            e = Exc(type(e), e.args)
        if not isinstance(e, Exc):
            raise Unsupported(f"raise {e!r}")
        if s.cause is not None:
            self.set(e, ("field", "__cause__"), self.res(self.eval(s.cause, fr)))
        raise PyRaise(e)

    handling: list = []

    def st_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as e:
                exc = e.exc
                for h in s.handlers:
                    if h.type is None or self.exc_matches(exc, self.eval(h.type, fr)):
                        if h.name:
                            self.set(fr.vars, ("local", h.name), exc)
                        self.handling = [*self.handling, exc]
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyRaise, Control):
            if s.finalbody:
                self.exec_block(s.finalbody, fr)
            raise
        else:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

    def exc_matches(self, exc, t):
        t = self.res(t)
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        if isinstance(exc.cls, type) and isinstance(t, type):
            if issubclass(exc.cls, t):
                return True
            if getattr(exc, "f", None) and exc.f.get("__open__") and issubclass(t, exc.cls):
                return self.branch(self.fresh(z3.BoolSort(), "exc"))
        return False

    def st_With(self, s, fr):
        def go(i):
            if i == len(s.items):
                self.exec_block(s.body, fr)
                return
            item = s.items[i]
            cm = self.res(self.eval(item.context_expr, fr))
            self.with_cm(cm, lambda v: (self.assign(item.optional_vars, v, fr) if item.optional_vars is not None else None, go(i + 1)))

        go(0)

    def with_cm(self, cm, body):
        if isinstance(cm, ContextGen):
            ran = []

            def consume(v):
                if ran:
                    raise Unsupported("generator context manager yields twice")
                ran.append(1)
                body(v)
                return None

            cm.gen.run(consume)
            if not ran:
                self.raise_(RuntimeError, "generator didn't yield")
            return
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        v = self.call(enter, [], {})
        try:
            body(v)
        except PyRaise as e:
            r = self.call(exit_, [e.exc.cls, e.exc, None], {})
            if self.truth(r):
                return
            raise
        except Control:
            self.call(exit_, [None, None, None], {})
            raise
        else:
            self.call(exit_, [None, None, None], {})

    def st_FunctionDef(self, s, fr):
        f = Func(s, fr, [self.eval(d, fr) for d in s.args.defaults],
                 {a.arg: self.eval(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None},
                 s.name, fr.owner)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        self.set(fr.vars, ("local", s.name), v)

    def st_Nonlocal(self, s, fr):
        pass

    def st_Global(self, s, fr):
        pass

    def st_Import(self, s, fr):
        import importlib

        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname is None:
                import sys

                m = sys.modules[a.name.split(".")[0]]
            self.set(fr.vars, ("local", a.asname or a.name.split(".")[0]), m)

    def st_ImportFrom(self, s, fr):
        import importlib

        m = importlib.import_module(s.module)
        for a in s.names:
            self.set(fr.vars, ("local", a.asname or a.name), getattr(m, a.name))

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set(fr.vars, ("local", t.id), UNBOUND)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, fr), t.attr)
            else:
                raise Unsupported("del")

    def st_For(self, s, fr):
        it = self.eval(s.iter, fr)
        tag = object()

        def body(x):
            self.assign(s.target, x, fr)
            try:
                self.exec_block(s.body, fr)
            except Cont as c:
                if c.tag is not s:
                    raise

        fr_loop = getattr(self, "loop_stack", [])
        self.loop_stack = [*fr_loop, s]
        try:
            try:
                self.iterate(it, body)
            finally:
                self.loop_stack = fr_loop
        except Brk as b:
            if b.tag is not s:
                raise
            return
        self.exec_block(s.orelse, fr)

    loop_stack: list = []

    def st_While(self, s, fr):
        def test():
            return self.truth(self.eval(s.test, fr))

        def body(x):
            if not test():
                raise Brk(("done", s))
            try:
                self.exec_block(s.body, fr)
            except Cont as c:
                if c.tag is not s:
                    raise

        old = self.loop_stack
        self.loop_stack = [*old, s]
        try:
            try:
                self.sym_loop(None, lambda j: None, body, key=(fr.name, s.lineno), frame=fr)
            finally:
                self.loop_stack = old
        except Brk as b:
            if b.tag is s:
                return
            if isinstance(b.tag, tuple) and b.tag[1] is s:
                self.exec_block(s.orelse, fr)
                return
            raise

    def st_Break(self, s, fr):
        raise Brk(self.loop_stack[-1])

    def st_Continue(self, s, fr):
        raise Cont(self.loop_stack[-1])

    def st_Match(self, s, fr):
        v = self.eval(s.subject, fr)
        for c in s.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.eval(c.guard, fr))):
                self.exec_block(c.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.branch(self.eq(v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.set(fr.vars, ("local", p.name), v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, fr) for x in p.patterns)
        raise Unsupported(f"pattern {type(p).__name__}")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            f = fr
            if t.id not in fr.locals:
                f = fr.parent
                while f is not None and t.id not in f.locals:
                    f = f.parent
                if f is None:
                    raise Unsupported(f"assignment to the global {t.id}")
            self.set(f.vars, ("local", t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.res(v)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, SStr) or type(v) is str or isinstance(v, (SDict, CDict, SSet, CSet, Gen, Cell, PathCell, dict, SObj, Inst)):
                v = self.to_seq(v)
            s = self.as_seq(v)
            items = self.seq_items(s)
            if items is None:
                s = self.expand(s)
                n = self.seq_length(s)
                if not stars:
                    if not self.branch(n == len(t.elts)):
                        self.raise_(ValueError, "wrong number of values to unpack")
                    items = [self.seq_index(s, j) for j in range(len(t.elts))]
                else:
                    k, post = stars[0], len(t.elts) - stars[0] - 1
                    if not self.branch(n >= len(t.elts) - 1):
                        self.raise_(ValueError, "not enough values to unpack")
                    if len(s.parts) != 1 or not isinstance(s.parts[0], Sym):
                        raise Unsupported("starred unpacking of a composed sequence")
                    p = s.parts[0]
                    for j in range(k):
                        self.assign(t.elts[j], p.at(z3.IntVal(j)), fr)
                    for j in range(post):
                        self.assign(t.elts[k + 1 + j], p.at(z3.simplify(p.n - post + j)), fr)
                    mid = SSeq([Sym(z3.simplify(p.n - k - post), lambda i: p.at(z3.simplify(i + k)))], s.ek, list)
                    self.assign(t.elts[k].value, Cell(list, mid), fr)
                    return
            if stars:
                k, post = stars[0], len(t.elts) - stars[0] - 1
                if len(items) < k + post:
                    self.raise_(ValueError, "not enough values to unpack")
                mid = items[k : len(items) - post]
                for x, y in zip(t.elts[:k], items[:k]):
                    self.assign(x, y, fr)
                self.assign(t.elts[k].value, Cell(list, SSeq([Lit(mid)], None, list)), fr)
                for x, y in zip(t.elts[k + 1 :], items[len(items) - post :]):
                    self.assign(x, y, fr)
                return
            if len(items) != len(t.elts):
                self.raise_(ValueError, "wrong number of values to unpack")
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    # ------------------------------------------------------------------------- expressions

    def eval(self, e, fr):
        return getattr(self, "ex_" + type(e).__name__, self.ex_unsupported)(e, fr)

    def ex_unsupported(self, e, fr):
        raise Unsupported(f"expression {type(e).__name__} at {fr.name}:{e.lineno}")

    def ex_Constant(self, e, fr):
        return e.value

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.locals:
                v = f.vars.get(n, UNBOUND)
                if v is UNBOUND:
                    if f is fr or f.parent is None:
                        self.raise_(UnboundLocalError, n)
                    raise Unsupported(f"unbound {n}")
                if v is POISON:
                    raise Unsupported(f"{n} is used after the loop that sets it")
                return v
            if n in f.cells:
                try:
                    v = f.cells[n].cell_contents
                except ValueError:
                    self.raise_(NameError, n)
                return self.proxies[id(v)][1] if id(v) in self.proxies else v
            last = f
            f = f.parent
        g = last.globs
        if n in g:
            v = g[n]
        elif hasattr(builtins, n):
            v = getattr(builtins, n)
        else:
            self.raise_(NameError, n)
        return self.proxies[id(v)][1] if id(v) in self.proxies else v

    def ex_Name(self, e, fr):
        return self.name(e.id, fr)

    def ex_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def ex_Tuple(self, e, fr):
        parts, sym = self.display(e.elts, fr)
        if sym:
            return SSeq(parts, None)
        return tuple(x for p in parts for x in p.items)

    def display(self, elts, fr):
        parts, sym = [], False
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.as_seq(self.to_seq(self.eval(x.value, fr)))
                items = self.seq_items(s)
                if items is not None:
                    parts.append(Lit(items))
                else:
                    parts += s.parts
                    sym = True
            else:
                parts.append(Lit([self.eval(x, fr)]))
        return parts, sym

    def ex_List(self, e, fr):
        parts, _ = self.display(e.elts, fr)
        return Cell(list, SSeq(_joined(parts), None, list))

    def ex_Set(self, e, fr):
        parts, sym = self.display(e.elts, fr)
        c = Cell(set, CSet((), set))
        for p in parts:
            if isinstance(p, Lit):
                for x in p.items:
                    self.set_add(c, x)
            else:
                self.models[(set, "update")](self, [c, SSeq([p], None, tuple)], {})
        return c

    def ex_Dict(self, e, fr):
        c = Cell(dict, CDict({}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(c, self.eval(v, fr))
            else:
                key = self.eval(k, fr)
                self.setitem(c, key, self.eval(v, fr))
        return c

    def ex_JoinedStr(self, e, fr):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            else:
                v = self.eval(x.value, fr)
                spec = self.eval(x.format_spec, fr) if x.format_spec is not None else ""
                if x.conversion == 114:
                    v = self.repr_(v)
                elif x.conversion == 115:
                    v = self.str_(v)
                out.append(self.format(v, spec))
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        return SStr(z3.Concat(*[z3.StringVal(x) if isinstance(x, str) else x.t for x in out]) if len(out) > 1 else out[0].t)

    def ex_FormattedValue(self, e, fr):
        return self.ex_JoinedStr(ast.JoinedStr([e]), fr)

    def format(self, v, spec):
        v, spec = self.res(v), self.res(spec)
        if isinstance(spec, SStr) and z3.is_string_value(t := z3.simplify(spec.t)):
            spec = _z3str(t)
        if isinstance(v, Inst) and isinstance(lookup_static(v.cls, "__format__")[0], types.FunctionType):
            return self.call(self.getattr(v, "__format__"), [spec], {})
        if isinstance(spec, str) and spec == "":
            return self.str_(v)
        if not is_symbolic(v) and not is_symbolic(spec):
            return format(v, spec)
        if isinstance(v, (SStr, str)) or isinstance(v, SInt):
            return self.uf_str("format", v, spec)
        if isinstance(v, Inst):
            return self.call(self.getattr(v, "__format__"), [spec], {})
        return self.uf_str("format", v, spec)

    def uf_str(self, name, *args):
        ks = [self.kind_of(self.content(a)) for a in args]
        ts = [t for k, a in zip(ks, args) for t in self.unwrap(k, a)]
        return SStr(ufun(f"{name}<{';'.join(k.key for k in ks)}>", *[t.sort() for t in ts], z3.StringSort())(*ts))

    def str_(self, v):
        v = self.res(v)
        if isinstance(v, (SStr,)) or type(v) is str:
            return v
        if isinstance(v, SInt):
            if v.cls is not int and lookup_static(v.cls, "__str__")[1] is not object:
                return self.call(self.getattr(v, "__str__"), [], {})
            return SStr(self.int_to_str(v.t))
        if isinstance(v, Inst):
            m, owner = lookup_static(v.cls, "__str__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [v], {})
            m, owner = lookup_static(v.cls, "__repr__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [v], {})
            return SStr(self.fresh(z3.StringSort(), "repr"))
        if isinstance(v, SBool):
            return SStr(z3.If(v.t, z3.StringVal("True"), z3.StringVal("False")))
        if not is_symbolic(v):
            return str(v)
        if isinstance(self.content(v), (SDict, CDict, dict)):
            return SStr(self.fresh(z3.StringSort(), "str"))
        try:
            return self.uf_str("str", v)
        except Unsupported:
            return SStr(self.fresh(z3.StringSort(), "str"))

    def int_to_str(self, t):
        return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-t)))

    def repr_(self, v):
        v = self.res(v)
        if isinstance(v, SInt):
            m, owner = lookup_static(v.cls, "__repr__")
            if isinstance(m, types.FunctionType):
                return self.call(m, [v], {})
            return SStr(self.int_to_str(v.t))
        if isinstance(v, Inst) and isinstance(lookup_static(v.cls, "__repr__")[0], types.FunctionType):
            return self.call(self.getattr(v, "__repr__"), [], {})
        if not is_symbolic(v):
            return repr(v)
        if isinstance(self.content(v), (SDict, CDict, dict)):
            return SStr(self.fresh(z3.StringSort(), "repr"))
        try:
            return self.uf_str("repr", v)
        except Unsupported:
            return SStr(self.fresh(z3.StringSort(), "repr"))

    def ex_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            t = self.truth(v)
            if t != is_and:
                return v
        return self.eval(e.values[-1], fr)

    def ex_UnaryOp(self, e, fr):
        v = self.res(self.eval(e.operand, fr))
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        if isinstance(v, SInt):
            dn = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(e.op).__name__]
            return self.call(self.getattr(v, dn), [], {})
        if not isinstance(v, Val):
            return {"USub": lambda x: -x, "UAdd": lambda x: +x, "Invert": lambda x: ~x}[type(e.op).__name__](v)
        raise Unsupported("unary operator")

    def ex_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def ex_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.name.startswith("<comp"):
            f = f.parent
        self.set(f.vars, ("local", e.target.id), v)
        return v

    def ex_Lambda(self, e, fr):
        return Func(e, fr, [self.eval(d, fr) for d in e.args.defaults],
                    {a.arg: self.eval(d, fr) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None},
                    "<lambda>", fr.owner)

    def comp_run(self, e, fr, emit):
        """Run the loops of a comprehension in a new scope."""
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        sub = Frame(fr, fr.globs, None, frozenset(names), "<comp>", fr.owner)
        first = self.eval(e.generators[0].iter, fr)

        def go(i):
            if i == len(e.generators):
                emit(sub)
                return
            g = e.generators[i]
            it = first if i == 0 else self.eval(g.iter, sub)

            def body(x):
                self.assign(g.target, x, sub)
                for c in g.ifs:
                    if not self.truth(self.eval(c, sub)):
                        return
                go(i + 1)

            self.iterate(it, body)

        return sub, go

    def ex_ListComp(self, e, fr):
        c = Cell(list, SSeq([], None, list))
        _, go = self.comp_run(e, fr, lambda sub: self.list_append(c, self.eval(e.elt, sub)))
        go(0)
        return c

    def ex_SetComp(self, e, fr):
        c = Cell(set, CSet((), set))
        _, go = self.comp_run(e, fr, lambda sub: self.set_add(c, self.eval(e.elt, sub)))
        go(0)
        return Cell(set, self.content(c))  # (a new set, which may be collected by a loop)

    def ex_DictComp(self, e, fr):
        c = Cell(dict, CDict({}))

        def emit(sub):
            k = self.eval(e.key, sub)
            self.setitem(c, k, self.eval(e.value, sub))

        _, go = self.comp_run(e, fr, emit)
        go(0)
        return Cell(dict, self.content(c))

    def ex_GeneratorExp(self, e, fr):
        box = []
        _, go = self.comp_run(e, fr, lambda sub: box[-1](self.eval(e.elt, sub)))

        def run(consume):
            box.append(consume)
            try:
                go(0)
            finally:
                box.pop()

        return Gen(run, "<genexpr>")

    def ex_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while f.consume is None:
            f = f.parent
        return f.consume(v)

    def ex_YieldFrom(self, e, fr):
        it = self.eval(e.value, fr)
        f = fr
        while f.consume is None:
            f = f.parent
        self.iterate(it, f.consume)
        return None

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f.owner is None and f.parent is not None:
                f = f.parent
            g = fr
            while g.args0 is None and g.parent is not None:
                g = g.parent
            # zero-argument super uses the first argument as bound on entry (a local may shadow it)
            return Super(f.owner, g.vars.get(g.args0))
        fn = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                s = self.to_seq(v)
                items = self.seq_items(s)
                args += items if items is not None else [Star(self.as_seq(s), self.content(v))]
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                c = self.content(self.res(v))
                if isinstance(c, CDict):
                    kw.update(c.d)
                elif isinstance(c, SDict):
                    kw["**"] = c
                elif isinstance(c, dict) or hasattr(c, "keys") and not isinstance(c, Val):
                    kw.update(dict(c))
                else:
                    raise Unsupported("** of " + repr(c))
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw)

    def ex_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def ex_Slice(self, e, fr):
        g = lambda x: None if x is None else self.eval(x, fr)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def ex_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def ex_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        result = None
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            t = self.compare(op, left, right)
            if len(e.ops) == 1:
                return t if isinstance(t, (bool, Val)) else SBool(t)
            if not isinstance(t, bool):
                result = t if result is None else z3.And(result, t)
            elif not t:
                return False
            left = right
        return True if result is None else SBool(result)

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ("Is", "IsNot"):
            t = self.is_(a, b)
            return (not t if isinstance(t, bool) else z3.Not(t)) if n == "IsNot" else t
        if n in ("Eq", "NotEq"):
            t = self.eq(a, b)
            return (not t if isinstance(t, bool) else z3.Not(t)) if n == "NotEq" else t
        if n in ("In", "NotIn"):
            t = self.contains(b, a)
            return (not t if isinstance(t, bool) else z3.Not(t)) if n == "NotIn" else t
        a, b = self.res(a), self.res(b)
        if isinstance(a, (SInt, int, SBool)) and isinstance(b, (SInt, int, SBool)):
            x, y = self.int_term(a), self.int_term(b)
            r = {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[n]()
            return r
        a, b = self.content(a), self.content(b)
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            x, y = self.unwrap(KStr(), a)[0], self.unwrap(KStr(), b)[0]
            return {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: y < x, "GtE": lambda: y <= x}[n]()
        if isinstance(a, (CSet, SSet, set, frozenset)) and n == "LtE":
            kk = self.join(self.kind_of(a).kk or self.kind_of(b).kk, self.kind_of(b).kk or self.kind_of(a).kk)
            x, y = self.as_sset(a, kk), self.as_sset(b, kk)
            k = z3.Const("sk?", kk.sorts[0])
            return forall([k], z3.Implies(z3.Select(x.has, k), z3.Select(y.has, k)))
        if not is_symbolic(a) and not is_symbolic(b):
            try:
                bool(a < b)
            except Exception as x:  # noqa: BLE001
                raise PyRaise(Exc(type(x), x.args)) from None
            return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[n]()
        raise Unsupported(f"comparison of {a!r} and {b!r}")

    def int_term(self, v):
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        return z3.IntVal(int(v))

    def is_(self, a, b):
        if isinstance(a, SAlt) or isinstance(b, SAlt):
            if isinstance(b, SAlt) and not isinstance(a, SAlt):
                a, b = b, a
            if isinstance(b, SAlt):
                b = self.res(b)
            ts = [(c, self.is_(x, b)) for c, x in a.alts]
            return z3.simplify(ite_terms([(c, [z3.BoolVal(t) if isinstance(t, bool) else t]) for c, t in ts])[0])
        a, b = self.res(a), self.res(b)
        if a is b:
            return True
        if isinstance(a, Val) and isinstance(b, Val):
            if isinstance(a, (Cell, PathCell, Inst, Exc, Func)) or isinstance(b, (Cell, PathCell, Inst, Exc, Func)):
                return False
            if isinstance(a, SBool) and isinstance(b, SBool):
                return a.t == b.t
            if isinstance(a, SObj) and isinstance(b, SObj):
                return self.ref(a) == self.ref(b)
            raise Unsupported(f"identity of {a!r} and {b!r}")
        if isinstance(b, Val):
            a, b = b, a
        if isinstance(a, Val):
            if b is None or b is ...:
                return False
            if isinstance(a, SBool) and isinstance(b, bool):
                return a.t if b else z3.Not(a.t)
            if isinstance(a, SStr) and isinstance(b, str):
                return self.eq(a, b)  # interned literals
            if isinstance(a, SObj) and a.exact and isinstance(a.cls, type) and type(b) is not a.cls:
                return False
            if isinstance(a, SObj) and isinstance(b, type):
                return self.ref(a) == self.ref(b)
            if isinstance(a, SObj) and not isinstance(b, (int, str)):
                if isinstance(self.nominal_class(a), type) and not issubclass(type(b), self.nominal_class(a)) and self.disjoint(type(b), self.nominal_class(a)):
                    return False
                return self.ref(a) == self.ref(b)
            if isinstance(a, (Cell, PathCell, Inst, Exc, Func, Native, Partial, Bound)):
                return False
            if isinstance(b, (bool, type)) :
                return False
            raise Unsupported(f"identity of {a!r} and {b!r}")
        return a is b

    def eq(self, a, b):
        """Python's ==: a bool or a z3 condition."""
        if isinstance(a, SAlt) or isinstance(b, SAlt):
            if isinstance(b, SAlt) and not isinstance(a, SAlt):
                a, b = b, a
            if isinstance(b, SAlt):
                b = self.res(b)
            ts = [(c, self.eq(x, b)) for c, x in a.alts]
            return ite_terms([(c, [z3.BoolVal(t) if isinstance(t, bool) else t]) for c, t in ts])[0]
        a, b = self.res(a), self.res(b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Inst):
                    m, owner = lookup_static(x.cls, "__eq__")
                    if isinstance(m, types.FunctionType):
                        r = self.call(m, [x, y], {})
                        if r is not NotImplemented:
                            return self.truth_term(self.res(r))
                    elif a is b:
                        return True
            return a is b
        a, b = self.content(a), self.content(b)
        if a is b:
            return True
        if not isinstance(a, Val) and not isinstance(b, Val) and not is_symbolic(a) and not is_symbolic(b):
            return bool(a == b)
        if isinstance(a, Exc) or isinstance(b, Exc):
            return a is b
        num = (SInt, SBool, int)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, SBool) and isinstance(b, (SBool, bool)):
                return a.t == (b.t if isinstance(b, SBool) else z3.BoolVal(b))
            if isinstance(b, SBool) and isinstance(a, bool):
                return b.t == z3.BoolVal(a)
            return self.int_term(a) == self.int_term(b)
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return self.unwrap(KStr(), a)[0] == self.unwrap(KStr(), b)[0]
        if isinstance(a, (SSeq, tuple, list)) and isinstance(b, (SSeq, tuple, list)):
            return self.seq_eq(self.as_seq(a), self.as_seq(b))
        sets = (SSet, CSet, set, frozenset)
        if isinstance(a, sets) and isinstance(b, sets):
            x, y = _concrete_set(a), _concrete_set(b)
            if x is not None and y is not None:
                return x == y
            ka, kb = self.kind_of(a).kk, self.kind_of(b).kk
            if ka is None and kb is None:
                return True
            kk = self.join(ka or kb, kb or ka)
            x, y = self.as_sset(a, kk), self.as_sset(b, kk)
            k = z3.Const("sk?", kk.sorts[0])
            return forall([k], z3.Select(x.has, k) == z3.Select(y.has, k))
        maps = (SDict, CDict, dict)
        if isinstance(a, maps) and isinstance(b, maps):
            return self.dict_eq(a, b)
        if isinstance(a, SObj) or isinstance(b, SObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SObj) and not isinstance(y, SObj):
                    c = self.nominal_class(x)
                    if y is None:
                        return False
                    if isinstance(y, (SInt, SStr, SBool, SSeq, SDict, CDict, SSet, CSet, int, str, tuple)) and isinstance(c, type) and c is not object:
                        yc = self.class_of(y)
                        if self.disjoint(c, yc) and not issubclass(c, type):
                            return False
            return self.ref(a) == self.ref(b)
        ca, cb = self.class_of(a), self.class_of(b)
        if a is None or b is None or (isinstance(ca, type) and isinstance(cb, type) and ca is not cb):
            return False
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def seq_eq(self, a, b):
        ia, ib = self.seq_items(a), self.seq_items(b)
        if ia is not None and ib is not None:
            if len(ia) != len(ib):
                return False
            ts = [self.eq(x, y) for x, y in zip(ia, ib)]
            if any(t is False for t in ts):
                return False
            ts = [t for t in ts if not isinstance(t, bool)]
            return z3.And(*ts) if ts else True
        if ia is not None or ib is not None:
            if ib is None:
                a, b, ia, ib = b, a, ib, ia
            n = self.seq_length(a)
            if not self.branch(n == len(ib)):
                return False
            ts = [self.eq(self.seq_index(a, j), y) for j, y in enumerate(ib)]
            if any(t is False for t in ts):
                return False
            ts = [t for t in ts if not isinstance(t, bool)]
            return z3.And(*ts) if ts else True
        if any(isinstance(p, (Flat, Guard)) for p in (*a.parts, *b.parts)):
            same = self.same_structure(a, b)
            if same is not None and self.branch(same):
                return True
        na, nb = self.seq_length(a), self.seq_length(b)
        ea, eb = self.seq_elem_kind2(a), self.seq_elem_kind2(b)
        ek = self.join(ea, eb)
        i = z3.Int("qi?")
        xs, ys = self.seq_index_term(a, ek, i), self.seq_index_term(b, ek, i)
        if all(x.eq(y) for x, y in zip(xs, ys)) and z3.simplify(na == nb) .eq(z3.BoolVal(True)):
            return True
        return z3.And(na == nb, forall([i], z3.Implies(z3.And(0 <= i, i < na), z3.And(*[x == y for x, y in zip(xs, ys)]))))

    def same_structure(self, a, b):
        """A condition under which the two sequences are equal part by part (None: no such condition found)."""
        if len(a.parts) != len(b.parts):
            return None
        out = []
        for p, q in zip(a.parts, b.parts):
            if type(p) is not type(q):
                return None
            if isinstance(p, Lit):
                if len(p.items) != len(q.items):
                    return None
                same = [self.pure(lambda x=x, y=y: (lambda t: SBool(t) if not isinstance(t, bool) else t)(self.eq(x, y))) for x, y in zip(p.items, q.items)]
                if any(t is None for t in same):
                    return None
                out += [self.as_bool_term(t[0]) for t in same]
            elif isinstance(p, Guard):
                c = self.same_structure(p.seq, q.seq)
                if c is None:
                    return None
                out += [p.cond == q.cond, z3.Implies(p.cond, c)]
            else:
                i = z3.Int(self.fresh_name("si?"))
                self.binders.append(i)
                try:
                    x, y = p.at(i), q.at(i)
                    if isinstance(p, Sym):
                        x, y = SSeq([Lit([x])], None), SSeq([Lit([y])], None)
                    c = self.same_structure(x, y)
                finally:
                    self.binders.pop()
                if c is None:
                    return None
                out += [p.n == q.n, forall([i], z3.Implies(z3.And(0 <= i, i < p.n), c))]
        return z3.And(*out) if out else z3.BoolVal(True)

    def seq_elem_kind2(self, s):
        s = self.expand(s)
        ek = self.seq_elem_kind(s)
        for p in s.parts:
            if isinstance(p, Sym) and s.ek is None:
                i = z3.Int("ki?")
                k = self.kind_of(self.content(p.at(i)))
                ek = k if ek is None else self.join(ek, k)
        return ek

    def dict_eq(self, a, b):
        if isinstance(a, dict):
            a = CDict(a)
        if isinstance(b, dict):
            b = CDict(b)
        if isinstance(a, CDict) and isinstance(b, CDict):
            if set(a.d) != set(b.d):
                return False
            ts = [self.eq(a.d[k], b.d[k]) for k in a.d]
            if any(t is False for t in ts):
                return False
            ts = [t for t in ts if not isinstance(t, bool)]
            return z3.And(*ts) if ts else True
        ka, kb = self.kind_of(a), self.kind_of(b)
        kk = self.join(ka.kk or kb.kk, kb.kk or ka.kk)
        vk = self.join(ka.vk or kb.vk, kb.vk or ka.vk)
        x, y = self.as_sdict(a, kk, vk), self.as_sdict(b, kk, vk)
        k = z3.Const("dk?", kk.sorts[0])
        self.binders.append(k)
        try:
            same = self.eq(self.wrap(vk, [z3.Select(g, k) for g in x.gets]), self.wrap(vk, [z3.Select(g, k) for g in y.gets]))
        finally:
            self.binders.pop()
        same = z3.BoolVal(same) if isinstance(same, bool) else same
        return forall([k], z3.And(z3.Select(x.has, k) == z3.Select(y.has, k), z3.Implies(z3.Select(x.has, k), same)))

    def contains(self, c, x):
        c = self.res(c)
        if isinstance(c, Inst):
            m, owner = lookup_static(c.cls, "__contains__")
            if m is not _MISSING:
                return self.truth_term(self.res(self.call(m, [c, x], {})))
            raise Unsupported("in")
        c = self.content(c)
        x = self.res(x)
        if isinstance(c, SObj):
            if (self.nominal_class(c), "__contains__") in self.attr_specs:
                return self.truth_term(self.res(self.attr_specs[(self.nominal_class(c), "__contains__")](self, c, x)))
            m, owner = lookup_static(self.nominal_class(c), "__contains__")
            raise Unsupported(f"in {c!r}")
        if isinstance(c, (SStr, str)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return z3.Contains(self.unwrap(KStr(), c)[0], self.unwrap(KStr(), x)[0])
        if isinstance(c, dict):
            c = CDict(c)
        if isinstance(c, CDict):
            if not is_symbolic(x) and not any(is_symbolic(k) for k in c.d):
                return self.content(x) in c.d
            ts = [self.eq(x, k) for k in c.d]
            return _or(ts)
        if isinstance(c, SDict):
            return select(c.has, self.key_term(c.kk, x))
        if isinstance(c, SSet):
            return select(c.has, self.key_term(c.kk, x))
        if isinstance(c, (set, frozenset)):
            if not is_symbolic(x):
                return self.content(x) in c
            c = CSet(tuple(c))
        if isinstance(c, CSet):
            return _or([self.eq(x, y) for y in c.items])
        if isinstance(c, (tuple, list, SSeq)):
            s = self.as_seq(c)
            items = self.seq_items(s)
            if items is not None:
                return _or([self.or_is(x, y) for y in items])
            ek = self.seq_elem_kind2(s)
            i = z3.Int(self.fresh_name("in?"))
            ts = self.seq_index_term(s, ek, i)
            y = self.wrap(ek, ts)
            t = self.eq(x, y)
            t = z3.BoolVal(t) if isinstance(t, bool) else t
            return z3.Exists([i], z3.And(0 <= i, i < self.seq_length(s), t))
        if isinstance(c, Gen):
            hit = []

            def body(y):
                if self.branch(self.eq(x, y)):
                    raise Brk(hit)

            try:
                self.iterate(c, body)
            except Brk as b:
                if b.tag is hit:
                    return True
                raise
            return False
        if not isinstance(c, Val):
            if not is_symbolic(x):
                return x in c
            if hasattr(c, "keys"):
                return _or([self.eq(x, k) for k in c])
            if isinstance(x, SObj) and hasattr(c, "__iter__"):
                return _or([self.eq(x, k) for k in c])
        raise Unsupported(f"{x!r} in {c!r}")

    def or_is(self, x, y):
        return self.eq(x, y)

    def key_term(self, kk, x):
        return self.unwrap(kk, x)[0]

    # ------------------------------------------------------------------------- items

    def getitem(self, o, k):
        o = self.res(o)
        if isinstance(o, (types.GenericAlias,)) or isinstance(o, type) or getattr(o, "__module__", None) == "typing":
            k2 = self.res(k)
            if isinstance(k2, Val) or is_symbolic(k2):
                ks = self.content(k2)
                return self.subscript(o, ks if type(ks) is tuple else self.seq_items(ks) if isinstance(ks, SSeq) else (k2,), k2)
            try:
                return o[k2]
            except (TypeError, ValueError, KeyError, AttributeError) as exc:
                self.raise_(type(exc), str(exc))
        if isinstance(o, Inst):
            return self.call(self.getattr(o, "__getitem__"), [k], {})
        if isinstance(o, (Cell, PathCell)) and issubclass(o.cls, dict):
            return self.dict_getitem(o, self.res(k))
        if isinstance(o, SObj):
            spec = None
            for c in getattr(self.nominal_class(o), "__mro__", ()):
                spec = spec or self.attr_specs.get((c, "__getitem__"))
            if spec is not None:
                return spec(self, o, k)
            raise Unsupported(f"item of {o!r}")
        c = self.content(o)
        k = self.res(k)
        if isinstance(c, (CDict, SDict)):
            return self.dict_getitem(c, k)
        if isinstance(c, (tuple, list)) and not is_symbolic(k):
            k = self.concretize(k)
            if isinstance(k, slice):
                return c[k]
            if not -len(c) <= k < len(c):
                self.raise_(IndexError, "index out of range")
            return c[k]
        if isinstance(c, (SSeq, tuple, list)):
            return self.seq_getitem(self.as_seq(c), k)
        if isinstance(c, (SStr, str)):
            if not is_symbolic(c) and not is_symbolic(k):
                return c[k]
            return self.call(self.models_method(str, "__getitem__"), [c, k], {})
        if not isinstance(c, Val) and not is_symbolic(k):
            try:
                return c[k]
            except Exception as e:  # noqa: BLE001
                raise PyRaise(Exc(type(e), e.args)) from None
        if hasattr(c, "keys") and not isinstance(c, Val):
            return self.dict_getitem(CDict(dict(c)), k)
        raise Unsupported(f"item of {c!r}")

    def subscript(self, o, items, k):
        """A parameterised hint with unknown parts; its origin and arguments stay known to the contracts of get_origin / get_args."""
        import typing

        over = {}
        try:
            cls = typing._UnionGenericAlias if o in (typing.Union, typing.Optional) else type(o[int])
        except TypeError:
            cls = object
        if cls is not object and not isinstance(cls, type):
            cls = object
        if items is not None:
            items = tuple(items)
            if o is typing.Union and len(items) == 1:
                return items[0]
            over = {"__origin__": typing.Union if o is typing.Optional else getattr(o, "__origin__", o),
                    "__args__": (*items, type(None)) if o is typing.Optional else items}
        return SObj(self.uf_ref("subscript", o, k), cls, cls is not object, over)

    def uf_ref(self, name, *args):
        ts = [self.ref(a) for a in args]
        return ufun(name, *[t.sort() for t in ts], Ref)(*ts)

    def seq_getitem(self, s, k):
        if isinstance(k, slice):
            items = self.seq_items(s)
            if items is not None and not is_symbolic((k.start, k.stop, k.step)):
                r = items[k]
                return tuple(r) if s.cls is tuple else SSeq([Lit(r)], s.ek, s.cls)
            lo = k.start or 0
            if k.stop is None and k.step is None and isinstance(lo, int) and lo >= 0 and len(s.parts) == 1 and isinstance(s.parts[0], Sym):
                p = s.parts[0]
                n = z3.If(p.n >= lo, p.n - lo, 0)
                return SSeq([Sym(n, lambda i: p.at(z3.simplify(i + lo)))], s.ek, s.cls)
            if any(not (b is None or isinstance(b, (int, SInt))) for b in (k.start, k.stop)):
                raise Unsupported("slice of a symbolic sequence")
            bounds = [None if b is None else self.int_term(b) for b in (k.start, k.stop)]
            if k.step is None or (isinstance(k.step, int) and k.step == 1):
                if not (len(s.parts) == 1 and isinstance(s.parts[0], Sym)):
                    ek = self.seq_elem_kind2(s)
                    t = self.seq_term(s, ek)
                    p = Sym(seq_len(t), lambda i: self.wrap(ek, seq_at(t, ek, i)))
                else:
                    p = s.parts[0]
                n = p.n if z3.is_expr(p.n) else z3.IntVal(p.n)
                clamp = lambda b: z3.If(b < 0, z3.If(b + n < 0, 0, b + n), z3.If(b > n, n, b))
                lo = z3.IntVal(0) if bounds[0] is None else z3.simplify(clamp(bounds[0]))
                hi = n if bounds[1] is None else z3.simplify(clamp(bounds[1]))
                return SSeq([Sym(z3.simplify(z3.If(hi > lo, hi - lo, 0)), lambda i: p.at(z3.simplify(i + lo)))], s.ek, s.cls)
            raise Unsupported("slice of a symbolic sequence")
        n = self.seq_length(s)
        if isinstance(k, int) and isinstance(n, int):
            if not -n <= k < n:
                self.raise_(IndexError, "index out of range")
            return self.seq_index(s, k if k >= 0 else n + k)
        kt = self.int_term(k)
        if isinstance(k, int) and k < 0:
            if not self.branch(n >= -k):
                self.raise_(IndexError, "index out of range")
            return self.seq_index(s, z3.simplify(n + k))
        if isinstance(k, int):
            if not self.branch(n > k):
                self.raise_(IndexError, "index out of range")
            return self.seq_index(s, k)
        if not self.branch(z3.And(kt < n, kt >= -n)):
            self.raise_(IndexError, "index out of range")
        if self.branch(kt >= 0):
            return self.seq_index(s, kt)
        return self.seq_index(s, z3.simplify(kt + n))

    def dict_getitem(self, o, k):
        c = self.content(o)
        factory = getattr(o, "factory", None)
        t = self.contains(c, k)
        if factory is not None and isinstance(o, (Cell, PathCell)):
            if isinstance(c, CDict) and isinstance(t, bool) and (t or not is_symbolic(k)):
                if not t:
                    v = self.call(factory, [], {})
                    self.set_content(o, self.dict_store(c, k, v))
                    return v
                return c.d[_hk(k)]
            return self.default_getitem(o, c, k, t, factory)
        if not self.branch(t):
            self.raise_(KeyError, k)
        return self.dict_value(o, c, k)

    def dict_value(self, o, c, k):
        if isinstance(c, CDict):
            if not is_symbolic(k):
                if k in c.d:
                    return c.d[k]
            alts = [(self.eq(k, kk), v) for kk, v in c.d.items()]
            if any(t is True for t, _ in alts):
                return next(v for t, v in alts if t is True)
            alts = [(z3.BoolVal(t) if isinstance(t, bool) else t, v) for t, v in alts if t is not False]
            if not alts:
                raise Infeasible
            m = self.merge(alts)
            if isinstance(m, SAlt):
                for t, v in alts[:-1]:
                    if self.branch(t):
                        return v
                return alts[-1][1]
            return m
        kt = self.key_term(c.kk, k)
        return self.wrap(c.vk, [select(g, kt) for g in c.gets])

    def default_getitem(self, o, c, k, t, factory):
        """defaultdict access: the missing entry is stored, then the entry is a sub-container."""
        init = self.call(factory, [], {})
        mutable = isinstance(init, (Cell, PathCell))
        if isinstance(c, CDict):
            vk = None
            kk = self.kind_of(k)
        if isinstance(c, SDict):
            kk, vk = c.kk, c.vk
        else:
            vk = self.kind_of(self.content(init))
            for x in c.d.values():
                vk = self.join(vk, self.kind_of(self.content(x)))
        vk = self.refine_kind(o, vk)
        if vk is None or not _complete(vk):
            raise Unsupported("a defaultdict whose element kind is not known")
        sd = self.as_sdict(c, kk if len(kk.sorts) == 1 else KObj(object), vk)
        self.freeze_items(c)
        if not self.branch(t):
            self.set_content(o, self.dict_store(sd, k, self.content(init), sd.kk, sd.vk))
        if mutable:
            return PathCell(init.cls, o, (sd.kk, k), sd.vk, getattr(init, "factory", None))
        c = self.content(o)
        return self.dict_value(o, c, k)

    kind_hints: dict = {}

    def refine_kind(self, o, vk):
        if _complete(vk):
            return vk
        h = self.kind_hints.get(getattr(o, "name", None)) or getattr(o, "hint", None)
        return h if h is not None else vk

    def setitem(self, o, k, v):
        o = self.res(o)
        if isinstance(o, Inst):
            if lookup_static(o.cls, "__setitem__")[0] is _MISSING:
                self.raise_(TypeError, f"{o.cls.__name__!r} object does not support item assignment")
            self.call(Bound(lookup_static(o.cls, "__setitem__")[0], o), [k, v], {})
            return
        if isinstance(o, (Cell, PathCell)) and issubclass(o.cls, dict):
            k = self.res(k)
            c = self.content(o)
            if isinstance(c, CDict) and len(c.d) <= 4 and any(isinstance(x, (Inst, Cell, PathCell, SAlt, Func, Bound)) for x in (v, *c.d.values())) and (
                is_symbolic(k) or any(is_symbolic(x) for x in c.d)
            ):
                # values with an identity of their own: decide which entry is meant
                for x in c.d:
                    t = self.eq(k, x)
                    if t is True or (t is not False and self.branch(t)):
                        self.set_content(o, CDict({**c.d, x: v}, c.cls))
                        return
                self.set_content(o, CDict({**c.d, k: v}, c.cls))
                return
            if isinstance(c, CDict) and is_symbolic(k) and any(self.eq(k, x) is not False for x in c.d):
                self.set_content(o, self.dict_store(c, k, self.freeze(v)))
                return
            if isinstance(c, CDict) and _hk_ok(k):
                d = dict(c.d)
                d[_hk(k)] = v
                self.set_content(o, CDict(d, c.cls))
                return
            self.set_content(o, self.dict_store(c, k, self.freeze(v)))
            return
        raise Unsupported(f"item assignment to {o!r}")

    def freeze(self, v):
        """The content of a container that is stored by value; the container itself may not be used to change it."""
        if isinstance(v, Cell):
            self.set(self, ("ghost", ("moved", id(v))), (v, self.ghost.get("path-mutations", 0)))
            self.freeze_items(v.v)
            return v.v
        if isinstance(v, PathCell):
            self.set(self, ("ghost", "path-frozen"), True)
            return self.content(v)
        return v

    def freeze_items(self, v):
        """The containers inside of a content that is about to be encoded as a term."""
        if isinstance(v, SSeq):
            for p in v.parts:
                if isinstance(p, Lit):
                    for x in p.items:
                        self.freeze_items(x)
        elif isinstance(v, CDict):
            for x in v.d.values():
                self.freeze_items(x)
        elif isinstance(v, (tuple, list)):
            for x in v:
                self.freeze_items(x)
        elif isinstance(v, (Cell, PathCell)):
            self.freeze(v)

    def delitem(self, o, k):
        o = self.res(o)
        if isinstance(o, Inst):
            if lookup_static(o.cls, "__delitem__")[0] is _MISSING:
                self.raise_(TypeError, f"{o.cls.__name__!r} object does not support item deletion")
            return self.call(Bound(lookup_static(o.cls, "__delitem__")[0], o), [k], {})
        c = self.content(o)
        if isinstance(c, CDict) and not is_symbolic(k):
            if k not in c.d:
                self.raise_(KeyError, k)
            d = dict(c.d)
            del d[k]
            self.set_content(o, CDict(d, c.cls))
            return
        raise Unsupported("del item")

    def dict_update(self, cell, other):
        other = self.res(other)
        o = self.content(other)
        c = self.content(cell)
        if isinstance(o, (SObj, Inst)) and not (isinstance(c, CDict) and not c.d):
            tmp = Cell(dict, CDict({}))  # first collect, then merge: the same result in simpler terms
            self.dict_update(tmp, other)
            self.dict_update(cell, tmp)
            return
        if isinstance(o, SObj) or isinstance(o, Inst) or isinstance(o, Gen) or isinstance(o, (SSeq, tuple, list)):
            if isinstance(o, Inst) or (isinstance(o, SObj)):
                keys = self.call(self.getattr(o, "keys"), [], {})
                self.iterate(keys, lambda k: self.setitem(cell, k, self.getitem(o, k)))
                return
            def body(kv):
                kv = self.res(kv)
                s = self.seq_items(self.to_seq(kv))
                if s is None or len(s) != 2:
                    raise Unsupported("dict() of non-pairs")
                self.setitem(cell, s[0], s[1])
            self.iterate(o, body)
            return
        if isinstance(o, dict) or (not isinstance(o, Val) and hasattr(o, "keys")):
            o = CDict(dict(o))
        if isinstance(o, CDict):
            for k, v in o.d.items():
                self.setitem(cell, k, v)
            return
        if isinstance(o, SDict):
            if isinstance(c, CDict) and not c.d:
                self.set_content(cell, SDict(o.has, o.gets, o.kk, o.vk, o.order, dict))
                return
            kc = self.kind_of(c)
            kk, vk = self.join(kc.kk, o.kk), self.join(kc.vk, o.vk)
            a, b = self.as_sdict(c, kk, vk), self.as_sdict(o, kk, vk)
            k = z3.Const("uk?", kk.sorts[0])
            has = z3.Lambda([k], z3.Or(z3.Select(a.has, k), z3.Select(b.has, k)))
            gets = [z3.Lambda([k], z3.If(z3.Select(b.has, k), z3.Select(y, k), z3.Select(x, k))) for x, y in zip(a.gets, b.gets)]
            h = self.fresh(has.sort(), "has")
            self.fact(forall([k], z3.Select(h, k) == z3.Or(z3.Select(a.has, k), z3.Select(b.has, k)), pats=[z3.Select(h, k)]))
            gs = []
            for x, y in zip(a.gets, b.gets):
                g = self.fresh(x.sort(), "get")
                self.fact(forall([k], z3.Select(g, k) == z3.If(z3.Select(b.has, k), z3.Select(y, k), z3.Select(x, k)), pats=[z3.Select(g, k)]))
                gs.append(g)
            self.set_content(cell, SDict(h, gs, kk, vk, None, dict))
            return
        raise Unsupported(f"dict update from {o!r}")

    def list_append(self, cell, x):
        c = self.content(cell)
        if isinstance(c, (list, tuple)):
            c = self.as_seq(c)
        parts = list(c.parts)
        if parts and isinstance(parts[-1], Lit):
            parts[-1] = Lit([*parts[-1].items, x])
        else:
            parts.append(Lit([x]))
        self.set_content(cell, SSeq(parts, c.ek, c.cls))

    def list_extend(self, cell, other):
        c = self.content(cell)
        o = self.to_seq(other)
        s = self.as_seq(o)
        self.set_content(cell, SSeq(_joined([*c.parts, *s.parts]), c.ek, c.cls))

    def set_add(self, cell, x):
        c = self.content(cell)
        x = self.res(x)
        if isinstance(c, (CSet, set, frozenset)):
            c = c if isinstance(c, CSet) else CSet(tuple(c), type(c))
            self.set_content(cell, CSet((*c.items, x), c.cls))
            return
        kk = self.join(c.kk, self.kind_of(x))
        if len(kk.sorts) != 1:
            kk = KObj(object)
        if kk != c.kk:
            c = SSet(c.has, kk, c.cls) if kk.sorts[0] == c.kk.sorts[0] else c
            if kk.sorts[0] != c.kk.sorts[0]:
                raise Unsupported("set of mixed kinds")
        self.set_content(cell, SSet(store(c.has, self.key_term(kk, x), True), kk, c.cls))

    def set_union(self, a, b, cls=set):
        a, b = self.content(a), self.content(b)
        if isinstance(a, (set, frozenset)):
            a = CSet(tuple(a), type(a))
        if isinstance(b, (set, frozenset)):
            b = CSet(tuple(b), type(b))
        if isinstance(a, CSet) and isinstance(b, CSet):
            return CSet((*a.items, *b.items), cls)
        return self.set_op(a, b, z3.Or, cls)

    def set_op(self, a, b, op, cls):
        ka, kb = self.kind_of(a).kk, self.kind_of(b).kk
        kk = self.join(ka or kb, kb or ka)
        x, y = self.as_sset(a, kk), self.as_sset(b, kk)
        k = z3.Const("uk?", kk.sorts[0])
        h = union_of(x.has.sort())(x.has, y.has) if op is z3.Or else self.fresh(x.has.sort(), "set")
        self.fact(forall([k], z3.Select(h, k) == op(z3.Select(x.has, k), z3.Select(y.has, k)), pats=[z3.Select(h, k)]))
        return SSet(h, kk, cls)

    # ------------------------------------------------------------------------- iteration

    def to_seq(self, v):
        """The elements of an iterable as an (immutable) sequence value."""
        v = self.res(v)
        c = self.content(v)
        if isinstance(c, (SSeq, tuple)) or type(c) is list:
            return c
        if isinstance(c, SDict):
            return self.dict_keys(c)
        if isinstance(c, CDict):
            return tuple(c.d)
        if isinstance(c, SSet):
            return self.set_order(c)
        cell = Cell(list, SSeq([], None, list))
        self.iterate(c, lambda x: self.list_append(cell, x))
        return cell.v

    def iterate(self, it, body):
        it = self.res(it)
        if isinstance(it, Gen):
            it.run(body)
            return
        if type(it).__name__ == "IterState":
            it.iterate(self, body)
            return
        if isinstance(it, Inst):
            f, owner = lookup_static(it.cls, "__iter__")
            if f is _MISSING:
                raise Unsupported(f"iteration over {it!r}")
            self.iterate(self.call(f, [it], {}), body)
            return
        if isinstance(it, SObj):
            for c in getattr(self.nominal_class(it), "__mro__", ()):
                spec = self.attr_specs.get((c, "__iter__"))
                if spec is not None:
                    self.iterate(spec(self, it), body)
                    return
            f, owner = lookup_static(self.nominal_class(it), "__iter__")
            if isinstance(f, types.FunctionType) and self.inlinable(f):
                self.iterate(self.call(f, [it], {}), body)
                return
            raise Unsupported(f"iteration over {it!r}")
        c = self.content(it)
        if isinstance(c, SSeq):
            for p in c.parts:
                self.iter_part(p, body)
            return
        if isinstance(c, CDict):
            for k in list(c.d):
                body(k)
            return
        if isinstance(c, SDict):
            self.iterate(self.dict_keys(c), body)
            return
        if isinstance(c, SSet):
            self.iterate(self.set_order(c), body)
            return
        if isinstance(c, CSet):
            self.iter_cset(c, body)
            return
        if isinstance(c, SStr):
            raise Unsupported("iteration over a symbolic string")
        if isinstance(c, Val):
            raise Unsupported(f"iteration over {c!r}")
        if isinstance(c, (set, frozenset)):
            c = sorted(c, key=repr)
        try:
            items = list(c)
        except TypeError as e:
            self.raise_(TypeError, str(e))
        for x in items:
            body(x)

    def iter_cset(self, c, body):
        seen = []
        for x in c.items:
            dup = _or([self.eq(x, y) for y in seen])
            if dup is True or (dup is not False and self.branch(dup)):
                continue
            seen.append(x)
        order = list(range(len(seen)))
        if len(seen) > 3 and is_symbolic(c.items):
            raise Unsupported("iteration order of a set display")
        if is_symbolic(c.items):
            rest = order
            while rest:
                k = self.choose(len(rest))
                body(seen[rest[k]])
                rest = rest[:k] + rest[k + 1 :]
        else:
            for x in sorted(seen, key=repr):
                body(x)

    def iter_part(self, p, body):
        if isinstance(p, Lit):
            for x in p.items:
                body(x)
        elif isinstance(p, Guard):
            if self.branch(p.cond):
                self.iterate(p.seq, body)
        elif isinstance(p, Flat):
            self.sym_loop(p.n, p.at, lambda sub: self.iterate(sub, body))
        else:
            self.sym_loop(p.n, p.at, body)

    def expand(self, s: SSeq) -> SSeq:
        """The same sequence without conditional parts (a filtered run becomes a run of its own)."""
        if not any(isinstance(p, (Flat, Guard)) for p in s.parts):
            return s
        out = []
        for p in s.parts:
            if isinstance(p, Guard):
                if self.branch(p.cond):
                    out += self.expand(p.seq).parts
            elif isinstance(p, Flat):
                out += self._filtered(p)
            else:
                out.append(p)
        return SSeq(_joined(out), s.ek, s.cls)

    def _filtered(self, p: Flat):
        """A run of iterations each contributing at most one element: the elements of the contributing ones, in order."""
        n = z3.simplify(p.n) if not isinstance(p.n, int) else z3.IntVal(p.n)
        if z3.is_int_value(n):
            return self.expand(SSeq([q for j in range(n.as_long()) for q in p.at(z3.IntVal(j)).parts], None)).parts
        i = z3.Int("fi?")

        def one(idx):
            alts = []
            for q in p.at(idx).parts:
                if isinstance(q, Guard):
                    c, items = q.cond, self.seq_items(q.seq)
                elif isinstance(q, Lit):
                    c, items = z3.BoolVal(True), q.items
                else:
                    raise Unsupported("flattening of a nested run")
                if items is None or len(items) != 1:
                    raise Unsupported("flattening of a run of several elements")
                alts.append((c, items[0]))
            if len(alts) > 1 and any(not isinstance(q, Guard) for q in p.at(idx).parts):
                raise Unsupported("flattening of a run of several elements")
            return alts

        self.binders.append(i)
        try:
            alts = one(i)
            if not alts:
                return ()
            v = self.merge(alts)
            ek = self.kind_of(self.content(v))
            terms = self.unwrap(ek, v)
        finally:
            self.binders.pop()
        cond = z3.Or(*[c for c, _ in alts]) if len(alts) > 1 else alts[0][0]
        key = ("filtered", n.get_id(), cond.get_id(), tuple(t.get_id() for t in terms), tuple(b.decl().name() for b in self.binders))
        hit = self.seqterm_cache.get(key)
        if hit is not None:
            return hit[-1]
        bs = list(self.binders)
        name = self.fresh_name("filter")
        src = z3.Function(name + ".src", *[b.sort() for b in bs], z3.IntSort(), z3.IntSort())
        dst = z3.Function(name + ".dst", *[b.sort() for b in bs], z3.IntSort(), z3.IntSort())
        m = self.fresh(z3.IntSort(), "flen")
        S, D = (lambda k: src(*bs, k)), (lambda k: dst(*bs, k))
        at = lambda t, k: z3.substitute(t, (i, k))
        j, k = z3.Int("fj?"), z3.Int("fk?")
        self.fact(z3.And(0 <= m, m <= z3.If(n >= 0, n, 0)))
        self.fact(forall([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= S(j), S(j) < n, at(cond, S(j)), D(S(j)) == j)), pats=[S(j)]))
        self.fact(forall([j, k], z3.Implies(z3.And(0 <= j, j < k, k < m), S(j) < S(k)), pats=[z3.MultiPattern(S(j), S(k))]))
        inv = z3.Implies(z3.And(0 <= k, k < n, at(cond, k)), z3.And(0 <= D(k), D(k) < m, S(D(k)) == k))
        self.fact(forall([k], inv))
        self.fact(forall([k], inv, pats=[D(k)]))

        def elem(idx):
            return self.subst_val(v, lambda t: z3.substitute(t, (i, S(idx))))

        parts = (Sym(m, elem),)
        self.seqterm_cache[key] = (p, cond, terms, v, n, parts)
        return parts

    # ------------------------------------------------------------------------- symbolic loops

    def sym_loop(self, n, at, body, key=None, frame=None):
        unbounded = n is None
        if not unbounded:
            n = z3.simplify(n) if not isinstance(n, int) else z3.IntVal(n)
            if z3.is_int_value(n):
                for j in range(n.as_long()):
                    body(at(z3.IntVal(j)))
                return
        d = self.loop_depth
        if d > 5:
            raise Unsupported("loops nested too deeply")
        i = z3.Int(f"i@{d}")
        rng = (lambda j: z3.And(0 <= j, j < n)) if not unbounded else (lambda j: 0 <= j)
        start = next(_stamp)
        mods = {}  # (id, slot) -> dict(obj, slot, init, mode, kind)
        obinders = list(self.binders)

        def state_terms(m, idx):
            return [z3.Function(f"s@{d}_{m['ix']}_{j}:{s.sexpr()}", *[b.sort() for b in obinders], z3.IntSort(), s)(*obinders, idx)
                    for j, s in enumerate(m["kind"].sorts)]

        shared = []  # does the body change containers inside of others?

        def enter(values):
            if shared:
                self.set(self, ("ghost", "path-mutations"), next(_stamp))
            for m in mods.values():
                if m["mode"] == "temp":
                    self.set(m["obj"], m["slot"], POISON)
                elif m["mode"] == "append":
                    self.set(m["obj"], m["slot"], m["marker"])
                else:
                    self.set(m["obj"], m["slot"], self.state_value(m, values[m["ix"]]))

        def run_once(values, silent):
            def thunk():
                self.given(rng(i))
                enter(values)
                body(at(i))

            self.loop_depth += 1
            self.binders.append(i)
            if silent:
                self.silent += 1
            try:
                return self.explore(thunk)
            finally:
                if silent:
                    self.silent -= 1
                self.binders.pop()
                self.loop_depth -= 1

        attempts0 = self.attempts
        paths = None
        for _round in range(14):
            values = {m["ix"]: state_terms(m, i) for m in mods.values() if m["mode"] == "fold"}
            try:
                paths = run_once(values, True)
            except MarkerRead as e:
                m = mods.get(e.key)
                if m is None:
                    raise
                m["mode"] = "fold"
                m["kind"] = None
                self._loop_kinds(mods, paths_prev, m)
                continue
            paths_prev = paths
            changed = False
            for p in paths:
                for k, (obj, slot, old, new) in p.mods.items():
                    if getattr(obj, "stamp", 0) >= start:
                        continue
                    if slot[0] == "ghost":
                        k = ("ghost", slot[1])
                    if k == ("ghost", "path-mutations"):
                        if not shared:
                            shared.append(True)
                            changed = True
                        continue
                    if k not in mods:
                        init = self.get_slot(obj, slot)
                        m = dict(obj=obj, slot=slot, init=init, ix=len(mods), key=k, kind=None, start=start)
                        mods[k] = m
                        changed = True
                        if init is UNBOUND or init is POISON:
                            m["mode"] = "temp"
                        elif isinstance(init, SSeq) and init.cls is list and slot[0] == "v":
                            m["mode"] = "append"
                            m["marker"] = self._marker(init, k)
                        else:
                            m["mode"] = "fold"
                            try:
                                m["kind"] = self.kind_of(init)
                            except Unsupported:
                                m["mode"] = "temp"
            if changed:
                # widen kinds by what the body stores
                for m in mods.values():
                    if m["mode"] == "fold":
                        self._widen(m, paths)
                continue
            for m in mods.values():
                if m["mode"] == "fold" and self._widen(m, paths):
                    changed = True
                if m["mode"] == "append" and not self._append_ok(m, paths):
                    m["mode"] = "fold"
                    m["kind"] = self.kind_of(m["init"])
                    for p in paths:
                        pass
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported("the state of a loop does not stabilise")
        had_obligations = self.attempts > attempts0
        for m in mods.values():
            if m["mode"] == "fold":
                self.freeze_items(self.content(m["init"]) if m["slot"][0] == "v" else m["init"])

        folds = [m for m in mods.values() if m["mode"] == "fold"]
        normal = [p for p in paths if p.outcome == "normal"]
        abnormal = [p for p in paths if p.outcome != "normal"]

        # --- fold functions
        svals = {m["ix"]: state_terms(m, i) for m in folds}
        step = {}
        for m in folds:
            alts = []
            for p in normal:
                v = p.mods[m["key"]][3] if m["key"] in p.mods else self.state_value(m, svals[m["ix"]])
                if v is UNBOUND or v is POISON:
                    m["mode"] = "temp"
                    break
                try:
                    alts.append((p.cond, self.unwrap(m["kind"], self.content(v) if m["slot"][0] == "v" else v)))
                except Unsupported:
                    m["mode"] = "temp"
                    break
            else:
                step[m["ix"]] = ite_terms(alts) if alts else svals[m["ix"]]
        folds = [m for m in folds if m["mode"] == "fold"]
        F = {}
        changed_folds = []
        for m in folds:
            if all(a.eq(b) for a, b in zip(step[m["ix"]], svals[m["ix"]])):
                # never really changes
                F[m["ix"]] = None
            else:
                changed_folds.append(m)
        # canonical fold functions
        stab = []
        for m in changed_folds:
            init_terms = self.unwrap(m["kind"], self.content(m["init"]) if m["slot"][0] == "v" else m["init"])
            F[m["ix"]] = self._fold_function(m, d, i, init_terms, step, svals, changed_folds, obinders)
        pairs = []
        for m in folds:
            for s, t in zip(svals[m["ix"]], self._fold_at(F, m, i)):
                if not s.eq(t):
                    pairs.append((s, t))

        def inst(t, j):
            return z3.substitute(z3.substitute(t, *pairs) if pairs else t, (i, j)) if j is not None else (z3.substitute(t, *pairs) if pairs else t)

        # recurrences
        for m in changed_folds:
            f0 = self._fold_at(F, m, z3.IntVal(0))
            init_terms = self.unwrap(m["kind"], self.content(m["init"]) if m["slot"][0] == "v" else m["init"])
            for a, b in zip(f0, init_terms):
                self.fact(a == b)
            nxt = self._fold_at(F, m, i + 1)
            cur = self._fold_at(F, m, i)
            st = [inst(t, None) for t in step[m["ix"]]]
            for a, b, c in zip(nxt, st, cur):
                self.qfact(i, z3.Implies(rng(i), a == b), [c])
        # facts established inside the body
        for p in paths:
            for f, cs in p.facts:
                if cs is None:
                    self.axiom(f)
                    continue
                body_f = z3.Implies(z3.And(rng(i), *cs), f)
                body_f = inst(body_f, None)
                self.qfact(i, body_f)
        # candidate invariants (while loops)
        inv = self.loop_invariants.get(key[0]) if key else None
        if inv is not None:
            self._assume_invariants(inv, i, rng, mods, folds, F, frame, inst, paths)
        exit_cond = None
        if abnormal:
            conds = [inst(p.cond, None) for p in abnormal]
            exit_cond = z3.Or(*conds) if len(conds) > 1 else conds[0]
        # obligations inside the body, for an arbitrary iteration
        if had_obligations and not self.silent:
            values = {m["ix"]: self._fold_at(F, m, i) for m in folds}
            self._with_prefix(i, exit_cond, lambda: run_once(values, False))
        elif had_obligations:
            self.attempts = attempts0 + 1

        def leave(j, post=True):
            if shared:
                self.set(self, ("ghost", "path-mutations"), next(_stamp))
            for m in mods.values():
                if m["mode"] == "temp":
                    self.set(m["obj"], m["slot"], POISON if m["init"] is not UNBOUND or post else UNBOUND)
                elif m["mode"] == "append":
                    self.set(m["obj"], m["slot"], self._appended(m, normal, i, j, inst))
                else:
                    if F.get(m["ix"]) is None:
                        self.set(m["obj"], m["slot"], m["init"])
                        continue
                    copied = self._dict_copy_form(m, normal, i, n, inst, svals) if post and not unbounded else None
                    if copied is None and post and not unbounded and obinders:
                        copied = self._grown_form(m, normal, i, n, inst, svals)
                    if copied is not None:
                        self.set(m["obj"], m["slot"], copied)
                    else:
                        self.set(m["obj"], m["slot"], self.state_value(m, self._fold_at(F, m, j)))
                        self._closed_forms(m, normal, i, j, inst, rng, svals, F, exit_cond)

        if exit_cond is None:
            if unbounded:
                raise Infeasible  # a loop that never ends
            leave(n)
            return
        j = z3.Int(f"j@{d}")
        none = forall([j], z3.Implies(rng(j), z3.Not(z3.substitute(exit_cond, (i, j)))))
        if not unbounded:
            if self.branch(none):
                leave(n)
                return
        k = self.fresh(z3.IntSort(), "exit")
        first = z3.And(rng(k), z3.substitute(exit_cond, (i, k)),
                       forall([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(z3.substitute(exit_cond, (i, j))))))
        if unbounded:
            self.assume(z3.Not(none))
        self.fact(z3.Implies(z3.Not(none), first))
        self.given(first)
        leave(k, post=False)
        body(at(k))
        raise Infeasible  # this iteration is the one that leaves the loop

    def qfact(self, i, f, pats=None):
        """A fact for all values of the loop counter."""
        names = free_consts(f)
        if i.decl().name() in names:
            g = self._prenex(i, f)
            f = forall([i], f) if g is None else g
        self.fact(f)

    def _prenex(self, i, f):
        """`for all i: c implies for all ks: g` with one quantifier, if the triggers of g are about i, too."""
        if not (z3.is_implies(f) and z3.is_quantifier(f.arg(1)) and f.arg(1).is_forall()):
            return None
        q = f.arg(1)
        ks = [z3.Const(f"{q.var_name(x)}{i.decl().name()}", q.var_sort(x)) for x in range(q.num_vars())]
        out = list(reversed(ks))
        names = {v.decl().name() for v in (i, *ks)}
        pats = []
        for x in range(q.num_patterns()):
            terms = [z3.substitute_vars(t, *out) for t in q.pattern(x).children()]
            if set().union(*(free_consts(t) for t in terms)) >= names:
                pats.append(terms[0] if len(terms) == 1 else z3.MultiPattern(*terms))
        if not pats:
            return None
        return forall([i, *ks], z3.Implies(f.arg(0), z3.substitute_vars(q.body(), *out)), pats=pats)

    def _with_prefix(self, i, exit_cond, thunk):
        self.solver.push()
        pcn = len(self.pc)
        if exit_cond is not None:
            j = z3.Int("pj?")
            self.given(forall([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(z3.substitute(exit_cond, (i, j))))))
        try:
            thunk()
        finally:
            self.solver.pop()
            del self.pc[pcn:]

    def state_value(self, m, terms):
        v = self.wrap(m["kind"], terms)
        if m["slot"][0] == "v":
            cls = getattr(m["obj"], "cls", None)
            if isinstance(v, SSeq):
                v = SSeq(v.parts, v.ek, cls or v.cls)
            elif isinstance(v, SDict):
                v = SDict(v.has, v.gets, v.kk, v.vk, v.order, dict)
            elif isinstance(v, SSet):
                v = SSet(v.has, v.kk, set)
        return v

    def _marker(self, init, key):
        n = z3.Int(self.fresh_name("mark"))
        self.fact(n >= 0)

        def at(j):
            raise MarkerRead(key)

        return SSeq([Sym(n, at)], init.ek, init.cls)

    def _append_ok(self, m, paths):
        for p in paths:
            if m["key"] not in p.mods:
                continue
            v = p.mods[m["key"]][3]
            if not isinstance(v, SSeq) or not v.parts or v.parts[0] is not m["marker"].parts[0]:
                return False
        return True

    def _appended(self, m, normal, i, j, inst):
        progs = []
        for p in normal:
            v = p.mods[m["key"]][3] if m["key"] in p.mods else None
            progs.append((p.cond, tuple(v.parts[1:]) if v is not None else ()))
        init = m["init"]
        if not progs:
            return init

        def sub(v, idx):
            def f(t):
                return inst(t, idx)

            f.start = m.get("start", 0)
            return self.subst_val(v, f)

        if all(len(parts) == 1 and isinstance(parts[0], Lit) and len(parts[0].items) == 1 for _, parts in progs):
            cache = {}

            def at(idx):
                alts = [(c, parts[0].items[0]) for c, parts in progs]
                v = self.merge([(c, x) for c, x in alts]) if len(alts) > 1 else alts[0][1]
                return sub(v, idx)

            return SSeq(_joined([*init.parts, Sym(z3.simplify(j), at)]), None, init.cls)

        def at2(idx):
            out = []
            for c, parts in progs:
                if not parts:
                    continue
                s = sub(SSeq(parts, None, tuple), idx)
                if len(progs) == 1:
                    out += s.parts
                else:
                    out.append(Guard(inst(c, idx), s))
            return SSeq(out, None, tuple)

        return SSeq([*init.parts, Flat(z3.simplify(j), at2)], None, init.cls)

    def subst_val(self, v, f):
        if isinstance(v, SInt):
            r = SInt(f(v.t), v.cls)
            self.type_invariant(r)
            return r
        if isinstance(v, SBool):
            return SBool(f(v.t))
        if isinstance(v, SStr):
            return SStr(f(v.t))
        if isinstance(v, SObj):
            return SObj(f(v.t), v.cls if v.exact else self.nominal_class(v), v.exact, {k: self.subst_val(x, f) for k, x in v.over.items()})
        if isinstance(v, SAlt):
            return SAlt([(f(c), self.subst_val(x, f)) for c, x in v.alts])
        if type(v) is tuple:
            return tuple(self.subst_val(x, f) for x in v)
        if isinstance(v, SSeq):
            return SSeq([self.subst_part(p, f) for p in v.parts], v.ek, v.cls)
        if isinstance(v, SDict):
            return SDict(f(v.has), [f(g) for g in v.gets], v.kk, v.vk, None if v.order is None else f(v.order), v.cls)
        if isinstance(v, SSet):
            return SSet(f(v.has), v.kk, v.cls, None if v.order is None else f(v.order))
        if isinstance(v, CDict):
            return CDict({(k if not is_symbolic(k) else self.subst_val(k, f)): self.subst_val(x, f) for k, x in v.d.items()}, v.cls)
        if isinstance(v, CSet):
            return CSet([self.subst_val(x, f) for x in v.items], v.cls)
        if isinstance(v, (Cell, PathCell)):
            return self.subst_val(self.content(v), f)
        if isinstance(v, Inst) and v.stamp < getattr(f, "start", 0):
            return v  # the same object in every iteration
        if isinstance(v, Val):
            raise Unsupported(f"{v!r} is collected by a loop")
        return v

    def subst_part(self, p, f):
        if isinstance(p, Lit):
            return Lit([self.subst_val(x, f) for x in p.items])
        if isinstance(p, Guard):
            return Guard(f(p.cond), self.subst_val(p.seq, f))
        if isinstance(p, Flat):
            at0 = p.at
            return Flat(f(p.n), lambda j: self.subst_val(at0(j), f))
        at = p.at
        return Sym(f(p.n), lambda j: self.subst_val(at(j), f), None if p.term is None else f(p.term))

    def _widen(self, m, paths):
        k0 = m["kind"]
        k = k0
        for p in paths:
            if p.outcome != "normal" or m["key"] not in p.mods:
                continue
            v = p.mods[m["key"]][3]
            if v is UNBOUND or v is POISON:
                m["mode"] = "temp"
                return True
            try:
                k = self.join(k, self.kind_of(self.content(v) if m["slot"][0] == "v" else v))
            except Unsupported:
                m["mode"] = "temp"
                return True
        if isinstance(k, KTuple) and isinstance(k0, KTuple) is False:
            pass
        if any(isinstance(s, KConst) and not _plain(s.value) for s in _sub_kinds(k)):
            m["mode"] = "temp"
            return True
        if k != k0:
            m["kind"] = k
            m["n"] = m.get("n", 0) + 1
            if m["n"] > 6:
                raise Unsupported("kind of a loop variable does not stabilise")
            return True
        return False

    def _loop_kinds(self, mods, paths, m):
        m["kind"] = self.kind_of(m["init"])

    def _fold_at(self, F, m, j):
        fs = F.get(m["ix"])
        if fs is None:
            return self.unwrap(m["kind"], self.content(m["init"]) if m["slot"][0] == "v" else m["init"])
        fs, obs = fs
        return [f(*obs, j) for f in fs]

    def _fold_function(self, m, d, i, init_terms, step, svals, group, obinders):
        """The same function for syntactically equal initial values and steps."""
        st = step[m["ix"]]
        deps = [g for g in group if g is m or any(_occurs(s, t) for s in svals[g["ix"]] for t in st)]
        norm_pairs = []
        for q, g in enumerate(sorted(deps, key=lambda g: g["ix"])):
            for jj, s in enumerate(svals[g["ix"]]):
                norm_pairs.append((s, z3.Const(f"canon@{q}_{jj}:{s.sort().sexpr()}", s.sort())))
        sig_terms = []
        for g in sorted(deps, key=lambda g: g["ix"]):
            gi = self.unwrap(g["kind"], self.content(g["init"]) if g["slot"][0] == "v" else g["init"])
            sig_terms.append(tuple(z3.simplify(t) for t in gi))
            sig_terms.append(tuple(z3.simplify(z3.substitute(t, *norm_pairs)) for t in step[g["ix"]]))
        which = sorted(deps, key=lambda g: g["ix"]).index(m)
        used = set()
        for ts in sig_terms:
            for t in ts:
                used |= free_consts(t)
        obs = [b for b in obinders if b.decl().name() in used]
        for (sig2, which2, obs2, fs2) in self.folds:
            if which2 == which and len(sig2) == len(sig_terms) and all(
                len(a) == len(b) and all(x.sort() == y.sort() for x, y in zip(a, b)) for a, b in zip(sig2, sig_terms)
            ) and [b.decl().name() for b in obs2] == [b.decl().name() for b in obs]:
                same = all(x.eq(y) for a, b in zip(sig2, sig_terms) for x, y in zip(a, b))
                if not same:
                    diff = [x != y for a, b in zip(sig2, sig_terms) for x, y in zip(a, b) if not x.eq(y)]
                    same = self.check(z3.Or(*diff), timeout=600, mbqi=False) == z3.unsat
                if same:
                    return (fs2, obs)
        name = self.fresh_name("fold")
        fs = [z3.Function(f"{name}_{j}", *[b.sort() for b in obs], z3.IntSort(), s) for j, s in enumerate(m["kind"].sorts)]
        self.folds.append((sig_terms, which, obs, fs))
        return (fs, obs)

    def _closed_forms(self, m, normal, i, n, inst, rng, svals, F, exit_cond):
        """Facts about dictionaries and sets built by a loop, by induction over its iterations."""
        kind = m["kind"]
        if isinstance(kind, KSet):
            nget = 0
        elif isinstance(kind, KDict):
            nget = len(kind.vk.sorts)
        else:
            return
        ss = svals[m["ix"]]
        base_has = ss[0]
        if nget == 0:
            self._grown_set(m, normal, n, inst, base_has, F)
            return
        if isinstance(kind.vk, (KSet, KSeq, KDict)):
            alts = []
            for p in normal:
                if m["key"] not in p.mods:
                    alts.append((p.cond, list(ss)))
                    continue
                try:
                    alts.append((p.cond, self.unwrap(kind, p.mods[m["key"]][3])))
                except Unsupported:
                    return
            first = self.unwrap(kind, self.content(m["init"]) if m["slot"][0] == "v" else m["init"])
            if self._grouped(kind, alts, list(ss), first, self._fold_at(F, m, n), i, n, inst, [t for x in svals.values() for t in x]):
                return
        writes = []
        for p in normal:
            if m["key"] not in p.mods:
                continue
            v = p.mods[m["key"]][3]
            try:
                ts = self.unwrap(kind, v)
            except Unsupported:
                return
            keys = _store_chain(ts[0], base_has)
            if keys is None:
                return
            for gi in range(nget):
                gk = _store_chain(ts[1 + gi], ss[1 + gi])
                if gk is None or [k.get_id() for k, _ in gk] != [k.get_id() for k, _ in keys]:
                    if gk is None or len(gk) != len(keys):
                        return
            if len(keys) > 1:
                return
            for q, (kt, val) in enumerate(keys):
                if not z3.is_true(val):
                    return
                vals = [_store_chain(ts[1 + gi], ss[1 + gi])[q][1] for gi in range(nget)]
                writes.append((p.cond, kt, vals))
        if not writes:
            return
        fin = self._fold_at(F, m, n)
        init = self.unwrap(kind, self.content(m["init"]) if m["slot"][0] == "v" else m["init"])
        ks = kind.kk.sorts[0]
        k = z3.Const("ck?", ks)
        name = self.fresh_name("touch")
        b = self.binders
        bs = [x.sort() for x in b]
        touched = z3.Function(name, *bs, ks, z3.BoolSort())(*b, k)
        w = z3.Function(name + "w", *bs, ks, z3.IntSort())(*b, k)
        conds = []
        for c, kt, vals in writes:
            cw = [inst(c, w), inst(kt, w) == k, z3.Select(fin[0], k)]
            cw += [z3.Select(g, k) == inst(v, w) for g, v in zip(fin[1 : 1 + nget], vals)]
            conds.append(z3.And(*cw))
        j = z3.Int("cj?")
        last = forall([j], z3.Implies(z3.And(w < j, j < n), z3.And(*[z3.Not(z3.And(inst(c, j), inst(kt, j) == k)) for c, kt, _ in writes])))
        pat = [z3.Select(fin[0], k)]
        pats = [z3.Select(f, k) for f in fin[: 1 + nget]]
        self.fact(forall([k], z3.Implies(touched, z3.And(0 <= w, w < n, z3.Or(*conds), last)), pats=[touched, *pats]))
        self.fact(forall([k], z3.Implies(z3.Not(touched), z3.And(*[z3.Select(f, k) == z3.Select(x, k) for f, x in zip(fin[: 1 + nget], init)])), pats=pats))
        self._distinct_keys_form(fin, self.content(m["init"]), writes, normal, kind, inst, n)
        for c, kt, _ in writes:
            tk = z3.substitute(touched, (k, inst(kt, j)))
            self.fact(forall([j], z3.Implies(z3.And(0 <= j, j < n, inst(c, j)), z3.And(tk, z3.Select(fin[0], inst(kt, j))))))

    def _grouped(self, kind, alts, base, init, fin, i, n, inst, state):
        """Facts about a dictionary of containers that the iterations only add to (`d[key(i)].add(x(i))`).

        alts: [(condition, terms after the iteration)] over the terms `base` before it; True if the loop has this form."""
        vk, nget = kind.vk, len(kind.vk.sorts)
        adds = []  # (condition, key, inner terms, starts empty?)
        for c, ts in alts:
            if all(a.eq(b) for a, b in zip(ts, base)):
                continue
            chains = [_store_chain(t, b) for t, b in zip(ts[: 1 + nget], base)]
            if any(not x for x in chains) or not all(z3.is_true(v) for _, v in chains[0]):
                return False
            kt = chains[0][0][0]
            if any(not k.eq(kt) for x in chains for k, _ in x):
                return False
            inner = [x[-1][1] for x in chains[1:]]
            adds.append((c, kt, inner))
        if not adds:
            return False
        here = [z3.Select(g, adds[0][1]) for g in base[1 : 1 + nget]]
        const = all(kt.eq(adds[0][1]) for _, kt, _ in adds) and not any(_occurs(x, adds[0][1]) for x in (i, *state))
        j, k = z3.Int("gj?"), z3.Const("gk?", kind.kk.sorts[0])
        fk = [z3.Select(f, k) for f in fin[: 1 + nget]]
        ik = [select(f, k) for f in init[: 1 + nget]]

        def implied(c, g):
            lone = z3.Solver()
            lone.set("timeout", 500)
            lone.add(c, z3.Not(g))
            return lone.check() == z3.unsat

        if const:
            kt = adds[0][1]
            if isinstance(vk, KDict):
                if not all(implied(c, z3.Select(base[0], kt)) for c, _, _ in adds) and not any(p.eq(z3.Select(init[0], kt)) for p in self.pc):
                    if not implied(z3.And(*[p for p in self.pc if "fold!" not in p.sexpr()]), z3.Select(init[0], kt)):
                        return False  # perhaps created by the loop
                inside = [(c, inner) for c, _, inner in adds]
                inside += [(c, here) for c, ts in alts if not any(c is a for a, _, _ in adds)]
                if not self._grouped(vk, inside, here, [z3.Select(g, kt) for g in init[1 : 1 + nget]], [z3.Select(g, kt) for g in fin[1 : 1 + nget]], i, n, inst, state):
                    return False
                self.fact(forall([k], z3.Implies(k != kt, z3.And(*[a == b for a, b in zip(fk, ik)])), pats=fk))
                self.fact(z3.Implies(z3.Select(init[0], kt), z3.Select(fin[0], kt)))
                self.fact(z3.Implies(z3.Select(init[0], kt), fin[-1] == init[-1]))
                return True
        if not isinstance(vk, (KSet, KSeq)) or nget != 1:
            return False
        parts, any_fresh = [], False  # (condition, key, elements, sets, starts empty)
        for c, kt, (t,) in adds:
            old = z3.Select(base[1], kt)
            keys, sets = [], []
            while not t.eq(old):
                if isinstance(vk, KSet) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE and z3.is_true(t.arg(2)):
                    keys.append(t.arg(1))
                    t = t.arg(0)
                elif isinstance(vk, KSet) and z3.is_app(t) and t.decl().eq(union_of(t.sort())):
                    sets.append(t.arg(1))
                    t = t.arg(0)
                elif isinstance(vk, KSeq) and not keys and z3.is_app(t) and t.decl().name().startswith("snoc"):
                    keys.append([t.arg(q) for q in range(1, t.num_args())])
                    t = t.arg(0)
                elif implied(c, z3.Not(z3.Select(base[0], kt))) and (
                    (isinstance(vk, KSet) and z3.is_K(t) and z3.is_false(t.arg(0)))
                    or (isinstance(vk, KSeq) and z3.is_const(t) and t.decl().name().startswith("empty:"))
                ):
                    break
                else:
                    return False
            fresh = not t.eq(old)
            any_fresh = any_fresh or fresh
            if not fresh and not implied(c, z3.Select(base[0], kt)):
                fresh = None  # perhaps the content of a missing entry
            for q, (c2, kt2, keys2, sets2, fresh2) in enumerate(parts):
                both = _either(c, c2)  # the same with and without an entry
                if both is not None and None not in (fresh, fresh2) and kt.eq(kt2) and _same_terms(keys, keys2) and _same_terms(sets, sets2):
                    parts[q] = (both, kt, keys, sets, False)
                    break
            else:
                parts.append((c, kt, keys, sets, fresh))
        b = self.binders
        bs = [x.sort() for x in b]
        ks = kind.kk.sorts[0]
        wk = z3.Function(self.fresh_name("group"), *bs, ks, z3.IntSort())(*b, k)
        touched = z3.Or(*[z3.And(inst(c, wk), inst(kt, wk) == k) for c, kt, *_ in parts])
        # the keys
        self.fact(forall([k], z3.Implies(fk[0], z3.Or(ik[0], z3.And(0 <= wk, wk < n, touched))), pats=[fk[0]]))
        self.fact(forall([k], z3.Implies(ik[0], fk[0]), pats=[fk[0]]))
        self.fact(forall([k], z3.Implies(z3.Not(fk[0]), fk[1] == ik[1]), pats=[fk[1]]))
        for c, kt, *_ in parts:
            self.fact(forall([j], z3.Implies(z3.And(0 <= j, j < n, inst(c, j)), z3.Select(fin[0], inst(kt, j)))))
        # keys no iteration is about
        w0 = z3.Function(self.fresh_name("grows"), *bs, ks, z3.IntSort())(*b, k)
        t0 = z3.Or(*[z3.And(inst(c, w0), inst(kt, w0) == k) for c, kt, *_ in parts])
        self.fact(forall([k], z3.Or(z3.And(0 <= w0, w0 < n, t0), z3.And(fk[0] == ik[0], fk[1] == ik[1])), pats=fk))
        sure = all(f is not None for *_, f in parts)  # is the content of a missing entry never used?
        if isinstance(vk, KSet):
            y = z3.Const("gy?", vk.kk.sorts[0])
            w = z3.Function(self.fresh_name("added"), *bs, ks, vk.kk.sorts[0], z3.IntSort())(*b, k, y)
            ways = [
                z3.And(inst(c, w), inst(kt, w) == k, z3.Or(*[inst(x, w) == y for x in keys], *[z3.Select(inst(x, w), y) for x in sets]))
                for c, kt, keys, sets, _ in parts
            ]
            fin_y, init_y = z3.Select(fk[1], y), z3.Select(ik[1], y)
            before = z3.And(init_y, z3.Or(ik[0], z3.Not(fk[0]))) if sure else init_y
            self.fact(forall([k, y], z3.Implies(fin_y, z3.Or(before, z3.And(0 <= w, w < n, *[z3.Or(*ways)]))), pats=[fin_y]))
            self.fact(forall([k, y], z3.Implies(z3.And(ik[0], init_y), fin_y), pats=[fin_y]))
            if not any_fresh:
                self.fact(forall([k, y], z3.Implies(init_y, fin_y), pats=[fin_y]))
            for c, kt, keys, sets, _ in parts:
                on = z3.And(0 <= j, j < n, inst(c, j))
                at = z3.Select(fin[1], inst(kt, j))
                for x in keys:
                    self.fact(forall([j], z3.Implies(on, z3.Select(at, inst(x, j)))))
                for x in sets:
                    has = z3.Select(inst(x, j), y)
                    self.fact(forall([j, y], z3.Implies(z3.And(on, has), z3.Select(at, y)), pats=[has]))
            return True
        # lists: the elements of the iterations about a key, in order, after the first ones
        a, a2 = z3.Int("ga?"), z3.Int("gb?")
        src = z3.Function(self.fresh_name("group.src"), *bs, ks, z3.IntSort(), z3.IntSort())
        dst = z3.Function(self.fresh_name("group.dst"), *bs, z3.IntSort(), z3.IntSort())
        if not sure or any(len(keys) != 1 for _, _, keys, _, _ in parts):
            return True
        S, D = (lambda x, q: src(*b, x, q)), (lambda q: dst(*b, q))
        n0 = z3.simplify(z3.If(ik[0], seq_len(ik[1]), 0))
        size = seq_len(fk[1])
        self.fact(forall([k], z3.Implies(fk[0], size >= n0), pats=[fk[1]]))
        at = seq_at(fk[1], vk.ek, a)
        at0 = seq_at(ik[1], vk.ek, a)
        self.fact(forall([k, a], z3.Implies(z3.And(fk[0], 0 <= a, a < n0), z3.And(*[x == y for x, y in zip(at, at0)])), pats=[at[0]]))
        from_ = z3.Or(*[
            z3.And(inst(c, S(k, a)), inst(kt, S(k, a)) == k, *[x == inst(e, S(k, a)) for x, e in zip(at, keys[0])]) for c, kt, keys, _, _ in parts
        ])
        self.fact(forall([k, a], z3.Implies(z3.And(fk[0], n0 <= a, a < size), z3.And(0 <= S(k, a), S(k, a) < n, D(S(k, a)) == a, from_)), pats=[at[0]]))
        self.fact(forall([k, a, a2], z3.Implies(z3.And(fk[0], n0 <= a, a < a2, a2 < size), S(k, a) < S(k, a2)), pats=[z3.MultiPattern(S(k, a), S(k, a2))]))
        for c, kt, keys, _, _ in parts:
            kj = inst(kt, j)
            f = z3.Select(fin[1], kj)
            body = z3.Implies(
                z3.And(0 <= j, j < n, inst(c, j)),
                z3.And(z3.Select(fin[0], kj), 0 <= D(j), D(j) < seq_len(f), S(kj, D(j)) == j, *[x == inst(e, j) for x, e in zip(seq_at(f, vk.ek, D(j)), keys[0])]),
            )
            self.fact(forall([j], body))
            self.fact(forall([j], body, pats=[D(j)]))
        return True

    def _added(self, m, normal, base):
        """[(condition, elements, sets)] that the iterations add to a set; None if they do anything else to it."""
        added = []
        for p in normal:
            if m["key"] not in p.mods:
                continue
            try:
                t = self.unwrap(m["kind"], p.mods[m["key"]][3])[0]
            except Unsupported:
                return None
            keys, sets = [], []
            while not t.eq(base):
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE and z3.is_true(t.arg(2)):
                    keys.append(t.arg(1))
                    t = t.arg(0)
                elif z3.is_app(t) and t.decl().eq(union_of(t.sort())):
                    sets.append(t.arg(1))
                    t = t.arg(0)
                else:
                    return None
            added.append((p.cond, keys, sets))
        return added

    def _grown_form(self, m, normal, i, n, inst, svals):
        """Within another loop: a set to which every iteration only adds, as the union of it and what is added."""
        kind = m["kind"]
        if not isinstance(kind, KSet):
            return None
        added = self._added(m, normal, svals[m["ix"]][0])
        if not added:
            return None
        init = self.as_sset(self.content(m["init"]) if m["slot"][0] == "v" else m["init"], kind.kk)
        k, j = z3.Const("ck?", kind.kk.sorts[0]), z3.Int("cj?")
        h = self.fresh(init.has.sort(), "grown")
        b = self.binders
        w = z3.Function(self.fresh_name("added"), *[x.sort() for x in b], k.sort(), z3.IntSort())(*b, k)
        ways = [z3.And(inst(c, w), z3.Or(*[inst(x, w) == k for x in keys], *[z3.Select(inst(x, w), k) for x in sets])) for c, keys, sets in added]
        self.fact(forall([k], z3.Implies(z3.Select(h, k), z3.And(0 <= w, w < n, z3.Or(*ways))), pats=[z3.Select(h, k)]))
        for c, keys, sets in added:
            here = z3.And(0 <= j, j < n, inst(c, j))
            for x in keys:
                self.fact(forall([j], z3.Implies(here, z3.Select(h, inst(x, j)))))
            for x in sets:
                has = z3.Select(inst(x, j), k)
                self.fact(forall([j, k], z3.Implies(z3.And(here, has), z3.Select(h, k)), pats=[has]))
        if z3.is_K(init.has) and z3.is_false(init.has.arg(0)):
            return SSet(h, kind.kk, set)
        r = union_of(h.sort())(init.has, h)
        self.fact(forall([k], z3.Select(r, k) == z3.Or(z3.Select(init.has, k), z3.Select(h, k)), pats=[z3.Select(r, k)]))
        return SSet(r, kind.kk, set)

    def _grown_set(self, m, normal, n, inst, base, F):
        """A set to which every iteration only adds: its elements are the first ones and all the added ones."""
        kind = m["kind"]
        added = self._added(m, normal, base)
        if added is None:
            return
        fin = self._fold_at(F, m, n)[0]
        init = self.unwrap(kind, self.content(m["init"]) if m["slot"][0] == "v" else m["init"])[0]
        ks = kind.kk.sorts[0]
        k, j = z3.Const("ck?", ks), z3.Int("cj?")
        b = self.binders
        w = z3.Function(self.fresh_name("added"), *[x.sort() for x in b], ks, z3.IntSort())(*b, k)
        ways = [z3.And(inst(c, w), z3.Or(*[inst(x, w) == k for x in keys], *[z3.Select(inst(x, w), k) for x in sets])) for c, keys, sets in added]
        self.fact(forall([k], z3.Implies(z3.Select(fin, k), z3.Or(z3.Select(init, k), z3.And(0 <= w, w < n, z3.Or(*ways)))), pats=[z3.Select(fin, k)]))
        self.fact(forall([k], z3.Implies(z3.Select(init, k), z3.Select(fin, k)), pats=[z3.Select(fin, k)]))
        for c, keys, sets in added:
            here = z3.And(0 <= j, j < n, inst(c, j))
            for x in keys:
                self.fact(forall([j], z3.Implies(here, z3.Select(fin, inst(x, j)))))
            for x in sets:
                has = z3.Select(inst(x, j), k)
                self.fact(forall([j, k], z3.Implies(z3.And(here, has), z3.Select(fin, k)), pats=[has]))

    def _distinct_keys_form(self, fin, init, writes, normal, kind, inst, n):
        """`d[key(i)] = ...` in every iteration, from an empty d, with pairwise different keys: d lists them in that order."""
        if not isinstance(kind, KDict) or len(writes) != len(normal) or not (isinstance(init, CDict) and not init.d):
            return
        kt = writes[0][1]
        if any(not w[1].eq(kt) for w in writes):
            return
        a, b = z3.Int("da?"), z3.Int("db?")
        distinct = forall([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), inst(kt, a) != inst(kt, b)))
        lone = z3.Solver()
        lone.set("timeout", 1000)
        lone.add(*[c for c in self.pc if "fold!" not in c.sexpr()], z3.Not(distinct))
        if lone.check() != z3.unsat:
            return
        o = fin[-1]
        self.fact(seq_len(o) == n)
        at = seq_at(o, kind.kk, a)[0]
        self.fact(forall([a], z3.Implies(z3.And(0 <= a, a < n), at == inst(kt, a)), pats=[at]))

    def _dict_copy_form(self, m, normal, i, n, inst, svals):
        """`for k in keys_of_a_dictionary: d[k] = f(k)` from an empty d: the keys and their order are the same."""
        kind = m["kind"]
        if not isinstance(kind, KDict) or not normal or any(m["key"] not in p.mods for p in normal):
            return None
        init = self.content(m["init"])
        if not (isinstance(init, CDict) and not init.d):
            return None
        ss = svals[m["ix"]]
        key, stored = None, []
        for p in normal:
            try:
                ts = self.unwrap(kind, p.mods[m["key"]][3])
            except Unsupported:
                return None
            chains = [_store_chain(t, s) for t, s in zip(ts[: 1 + len(kind.vk.sorts)], ss)]
            if any(c is None or len(c) != 1 for c in chains) or not z3.is_true(chains[0][0][1]):
                return None
            if key is None:
                key = chains[0][0][0]
            if any(not c[0][0].eq(key) for c in chains):
                return None
            stored.append((p.cond, [c[0][1] for c in chains[1:]]))
        stored = ite_terms(stored)
        keys = [(key, None)]
        kt = inst(keys[0][0], None)
        found = None
        for key, v in list(self.order_cache.items()):
            if key[0] == "order":
                has, t = v
                if kt.sort() == has.sort().domain() and kt.eq(seq_at(t, kind.kk, i)[0]) and z3.simplify(seq_len(t)).eq(n):
                    found = (has, t)
        if found is None:
            return None
        has, t = found
        gets = []
        pos = ufun("pos", t.sort(), kt.sort(), z3.IntSort())
        for gi in range(len(kind.vk.sorts)):
            val = inst(stored[gi], None)
            if z3.is_select(val) and val.arg(1).eq(kt) and i.decl().name() not in free_consts(val.arg(0)):
                gets.append(val.arg(0))
                continue
            g = self.fresh(z3.ArraySort(kt.sort(), val.sort()), "get")
            k = z3.Const("ck?", kt.sort())
            self.fact(forall([k], z3.Implies(z3.Select(has, k), z3.Select(g, k) == z3.substitute(val, (i, pos(t, k)))), pats=[z3.Select(g, k)]))
            self.fact(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(g, kt) == val), pats=[kt]))
            gets.append(g)
        return SDict(has, gets, kind.kk, kind.vk, t, dict)

    def _assume_invariants(self, inv, i, rng, mods, folds, F, frame, inst, paths):
        def state(j):
            st = {}
            for m in folds:
                if m["slot"][0] == "local":
                    st[m["slot"][1]] = self.state_value(m, self._fold_at(F, m, j))
                elif m["slot"][0] == "ghost":
                    st["ghost:" + m["slot"][1]] = self.state_value(m, self._fold_at(F, m, j))
                elif m["slot"][0] == "field":
                    st[f"{m['obj'].name}.{m['slot'][1]}"] = self.state_value(m, self._fold_at(F, m, j))
            return st

        for cand in inv:
            f = cand(self, state, i)
            if f is None:
                continue
            base = z3.substitute(f, (i, z3.IntVal(0)))
            stepf = z3.Implies(z3.And(rng(i), f), z3.substitute(f, (i, i + 1)))
            if self.valid(base) and self.valid(stepf):
                self.fact(forall([i], z3.Implies(0 <= i, f)))


class ContextGen(Val):
    __slots__ = ("gen",)

    def __init__(self, gen):
        self.gen = gen


def union_of(sort):
    return ufun("union of sets", sort, sort, sort)


def _store_chain(t, base):
    """[(key, value)] of a chain of Stores over `base`, outermost last; None if it is not one."""
    out = []
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
        a, k, v = t.children()
        out.append((k, v))
        t = a
    return list(reversed(out)) if t.eq(base) else None


def _occurs(s, t):
    todo, seen = [t], set()
    sid = s.get_id()
    while todo:
        x = todo.pop()
        if x.get_id() == sid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def _joined(parts):
    out = []
    for p in parts:
        if isinstance(p, Lit) and out and isinstance(out[-1], Lit):
            out[-1] = Lit([*out[-1].items, *p.items])
        else:
            out.append(p)
    return out


def _or(ts):
    if any(t is True for t in ts):
        return True
    ts = [t for t in ts if t is not False]
    if not ts:
        return False
    return z3.Or(*ts) if len(ts) > 1 else ts[0]


def _literals(c):
    return [x for y in c.children() for x in _literals(y)] if z3.is_and(c) else [c]


def _either(c, d):
    """c or d, if they differ in one literal only (which is then not needed)."""
    a, b = _literals(c), _literals(d)
    x = [t for t in a if not any(t.eq(u) for u in b)]
    y = [t for t in b if not any(t.eq(u) for u in a)]
    if len(x) != 1 or len(y) != 1 or not (z3.Not(x[0]).eq(y[0]) or z3.Not(y[0]).eq(x[0])):
        return None
    same = [t for t in a if t is not x[0]]
    return z3.And(*same) if same else z3.BoolVal(True)


def _same_terms(a, b):
    if len(a) != len(b):
        return False
    return all(_same_terms(x, y) if isinstance(x, list) else x.eq(y) for x, y in zip(a, b))


def _hk_ok(k):
    return not is_symbolic(k) and _hashable(k) or isinstance(k, (SObj, SStr, SInt))


def _hk(k):
    return k


def _in_dict(v, name):
    return name in getattr(v, "__dict__", {})


def _untyped(k):
    """The kind without the classes of objects (a hint decides how values are represented, not what they are)."""
    if isinstance(k, KObj):
        return KObj(Unseen)
    if isinstance(k, KSeq):
        return KSeq(_untyped(k.ek), k.cls)
    if isinstance(k, KTuple):
        return KTuple([_untyped(x) for x in k.kinds])
    if isinstance(k, KDict):
        return KDict(k.kk if not isinstance(k.kk, KObj) else KObj(Unseen), _untyped(k.vk), k.cls)
    if isinstance(k, KSet):
        return KSet(k.kk if not isinstance(k.kk, KObj) else KObj(Unseen), k.cls)
    if isinstance(k, KInt):
        return KInt()
    return k if isinstance(k, (KStr, KBool)) else KObj(Unseen)


def _complete(k):
    if isinstance(k, KSeq):
        return k.ek is not None and _complete(k.ek)
    if isinstance(k, KDict):
        return k.kk is not None and _complete(k.vk)
    if isinstance(k, KSet):
        return k.kk is not None
    return True


def _sub_kinds(k):
    yield k
    for x in getattr(k, "kinds", ()):
        yield from _sub_kinds(x)
    for n in ("ek", "vk"):
        x = getattr(k, n, None)
        if x is not None:
            yield from _sub_kinds(x)


def _plain(v):
    return v is None or isinstance(v, (bool, int, str, bytes, float, type, tuple, frozenset)) or not isinstance(v, Val)


def _z3str(t):
    s = t.as_string()
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def _concrete_set(v):
    items = v.items if isinstance(v, CSet) else v if isinstance(v, (set, frozenset)) else None
    if items is None or is_symbolic(tuple(items)):
        return None
    try:
        return frozenset(items)
    except TypeError:
        return None
