"""Semantics of Python's built-in operations on symbolic values.

Everything here is trusted: it states what CPython's own operations do.  `selftest.py` cross-checks
these models against CPython on concrete values.
"""

from __future__ import annotations

import ast
import builtins
import collections
import collections.abc
import contextlib
import functools
import itertools
import logging
import operator
import types
import typing

import z3

from .core import *
from .core import _hashable
from .interp import _MISSING, ContextGen, Inst, Interp, Star, lookup_static, _joined
from .values import *

M64 = 2**64

OPS = {
    "Add": ("__add__", "__radd__"),
    "Sub": ("__sub__", "__rsub__"),
    "Mult": ("__mul__", "__rmul__"),
    "FloorDiv": ("__floordiv__", "__rfloordiv__"),
    "Mod": ("__mod__", "__rmod__"),
    "BitAnd": ("__and__", "__rand__"),
    "BitOr": ("__or__", "__ror__"),
    "BitXor": ("__xor__", "__rxor__"),
    "LShift": ("__lshift__", "__rlshift__"),
    "RShift": ("__rshift__", "__rrshift__"),
    "Pow": ("__pow__", "__rpow__"),
    "Div": ("__truediv__", "__rtruediv__"),
}
HOST = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "FloorDiv": operator.floordiv,
    "Mod": operator.mod, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor,
    "LShift": operator.lshift, "RShift": operator.rshift, "Pow": operator.pow, "Div": operator.truediv,
}
IntS, StrS, BoolS = z3.IntSort(), z3.StringSort(), z3.BoolSort()
_ixor = z3.Function("ixor", IntS, IntS, IntS)
_iand = z3.Function("iand", IntS, IntS, IntS)
_ior = z3.Function("ior", IntS, IntS, IntS)
_ipow2 = z3.Function("pow2", IntS, IntS)
_ihash = z3.Function("inthash", IntS, IntS)


def py_floordiv(a, b):
    # z3's div is Euclidean: floor for positive divisors
    return z3.If(b > 0, a / b, (-a) / (-b))


def py_mod(a, b):
    return a - b * py_floordiv(a, b)


def int_like(v):
    return isinstance(v, (SInt, SBool, int)) and not isinstance(v, SAlt)


class DItems(SSeq):
    """`d.items()`: a sequence of pairs that still knows its dictionary."""

    __slots__ = ("d",)


class ItemSet(Val):
    """`frozenset(d.items())`: equality and hash are those of the mapping."""

    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


def xor_atoms(t, out):
    if z3.is_app(t) and t.decl().eq(_ixor):
        xor_atoms(t.arg(0), out)
        xor_atoms(t.arg(1), out)
    else:
        out.append(t)


def xor_term(e, a, b):
    """Exclusive or, normalised as an abelian group of exponent two."""
    atoms = []
    xor_atoms(z3.simplify(a), atoms)
    xor_atoms(z3.simplify(b), atoms)
    const = 0
    bag = {}
    for t in atoms:
        if z3.is_int_value(t):
            const ^= t.as_long()
        else:
            k = t.get_id()
            if k in bag:
                del bag[k]
            else:
                bag[k] = t
    ts = sorted(bag.values(), key=lambda t: (t.sexpr() if t.get_id() < 0 else t.get_id()))
    ts = sorted(bag.values(), key=lambda t: t.sexpr())
    if const or not ts:
        ts.append(z3.IntVal(const))
    r = ts[0]
    for t in ts[1:]:
        n = _ixor(r, t)
        lo, hi = -(2**63), 2**63 - 1
        e.fact(z3.Implies(z3.And(r >= lo, r <= hi, t >= lo, t <= hi), z3.And(n >= lo, n <= hi)))
        e.fact(z3.Implies(z3.And(r >= 0, t >= 0, r < M64, t < M64), z3.And(n >= 0, n < M64)))
        e.fact((n == 0) == (r == t))
        e.fact((n == r) == (t == 0))
        e.fact((n == t) == (r == 0))
        e.fact(z3.And(_ixor(n, r) == t, _ixor(n, t) == r))
        r = n
    return r


def bit_term(e, name, a, b):
    if name == "BitXor":
        return xor_term(e, a, b)
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(a) and z3.is_int_value(b):
        x, y = a.as_long(), b.as_long()
        return z3.IntVal(x & y if name == "BitAnd" else x | y)
    if a.sexpr() > b.sexpr():
        a, b = b, a
    f = _iand if name == "BitAnd" else _ior
    n = f(a, b)
    lo, hi = -(2**63), 2**63 - 1
    e.fact(z3.Implies(z3.And(a >= lo, a <= hi, b >= lo, b <= hi), z3.And(n >= lo, n <= hi)))
    e.fact(z3.Implies(z3.And(a >= 0, b >= 0, a < M64, b < M64), z3.And(n >= 0, n < M64)))
    if name == "BitAnd":
        e.fact(z3.Implies(a >= 0, z3.And(n >= 0, n <= a)))
        e.fact(z3.Implies(b >= 0, z3.And(n >= 0, n <= b)))
    e.fact(z3.Implies(a == b, n == a))
    return n


def pow2(e, n):
    n = z3.simplify(n)
    if z3.is_int_value(n) and 0 <= n.as_long() < 4096:
        return z3.IntVal(2 ** n.as_long())
    t = _ipow2(n)
    e.fact(z3.Implies(n >= 0, t >= 1))
    e.fact(z3.Implies(n == 0, t == 1))
    return t


def int_op(e, name, a, b):
    """Exact integer arithmetic; raises like CPython."""
    x, y = e.int_term(a), e.int_term(b)
    if name == "Add":
        t = x + y
    elif name == "Sub":
        t = x - y
    elif name == "Mult":
        t = x * y
    elif name in ("FloorDiv", "Mod"):
        if e.branch(y == 0):
            e.raise_(ZeroDivisionError, "integer division or modulo by zero")
        t = py_floordiv(x, y) if name == "FloorDiv" else py_mod(x, y)
    elif name in ("BitAnd", "BitOr", "BitXor"):
        t = bit_term(e, name, x, y)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            raise Unsupported("bitwise operator on booleans")
    elif name in ("LShift", "RShift"):
        if e.branch(y < 0):
            e.raise_(ValueError, "negative shift count")
        t = x * pow2(e, y) if name == "LShift" else py_floordiv(x, pow2(e, y))
    else:
        raise Unsupported(f"integer {name}")
    return SInt(z3.simplify(t))


def int_slot(name, reflected):
    def f(e, args, kw):
        a, b = e.res(args[0]), e.res(args[1])
        if not int_like(b) or not int_like(a):
            return NotImplemented
        return int_op(e, name, b, a) if reflected else int_op(e, name, a, b)

    return f


def num_method(e, v, dn):
    """The bound special method of a number's class (a callable value), or None."""
    if isinstance(v, SInt):
        cls = v.cls
    elif isinstance(v, SBool):
        cls = bool
    else:
        cls = type(v)
    a, owner = lookup_static(cls, dn)
    if a is _MISSING:
        return None
    return Bound(a, v)


def binop(e, op, a, b):
    name = type(op).__name__
    a, b = e.res(a), e.res(b)
    if not is_symbolic(a) and not is_symbolic(b) and not isinstance(a, Val) and not isinstance(b, Val):
        if not (type(a) in (list, dict, set) or type(b) in (list, dict, set)):
            try:
                return HOST[name](a, b)
            except Exception as x:  # noqa: BLE001
                raise PyRaise(Exc(type(x), x.args)) from None
    dn, rn = OPS[name]
    if isinstance(a, Inst) or isinstance(b, Inst):
        for x, y, d in ((a, b, dn), (b, a, rn)):
            if isinstance(x, Inst):
                m, owner = lookup_static(x.cls, d)
                if m is not _MISSING:
                    r = e.call(e.getattr(x, d), [y], {})
                    if r is not NotImplemented:
                        return r
            elif name == "BitOr" and d == "__or__" and isinstance(e.content(x), (CDict, SDict, dict)) and isinstance(y, (Cell, CDict, SDict, dict)):
                break
        e.raise_(TypeError, "unsupported operand")
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        if int_like(a) and int_like(b):
            ca, cb = e.class_of(a), e.class_of(b)
            order = [(a, dn, b), (b, rn, a)]
            if cb is not ca and issubclass(cb, ca) and lookup_static(cb, rn)[0] is not lookup_static(ca, rn)[0]:
                order.reverse()
            for x, d, y in order:
                m = num_method(e, x, d)
                if m is None:
                    continue
                r = e.call(m, [y], {})
                if r is not NotImplemented:
                    return r
            e.raise_(TypeError, "unsupported operand")
    a, b = e.content(a), e.content(b)
    if isinstance(a, SObj) or isinstance(b, SObj):
        for x, y, d in ((a, b, dn), (b, a, rn)):
            if isinstance(x, SObj):
                spec = None
                for c in getattr(e.nominal_class(x), "__mro__", ()):
                    spec = spec or e.attr_specs.get((c, d))
                if spec is not None:
                    return spec(e, x, y)
                m, owner = lookup_static(e.nominal_class(x), d) if isinstance(e.nominal_class(x), type) else (_MISSING, None)
                if isinstance(m, types.FunctionType) and e.inlinable(m):
                    return e.call(m, [x, y], {})
        if name == "BitOr" and (a is None or b is None or True) and any(
            isinstance(x, SObj) and isinstance(e.nominal_class(x), type) and issubclass(e.nominal_class(x), type) for x in (a, b)
        ):
            return SObj(e.uf_ref("union_type", a, b), object)
        raise Unsupported(f"{name} on {a!r} and {b!r}")
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)) and name == "Add":
        return SStr(z3.Concat(e.unwrap(KStr(), a)[0], e.unwrap(KStr(), b)[0]))
    if name == "Add" and isinstance(a, (SSeq, tuple, list)) and isinstance(b, (SSeq, tuple, list)):
        x, y = e.as_seq(a), e.as_seq(b)
        ix, iy = e.seq_items(x), e.seq_items(y)
        if x.cls is not y.cls:
            e.raise_(TypeError, "can only concatenate like sequences")
        if ix is not None and iy is not None and x.cls is tuple:
            return tuple([*ix, *iy])
        r = SSeq(_joined([*x.parts, *y.parts]), x.ek if x.ek == y.ek else None, x.cls)
        return Cell(list, r) if x.cls is list else r
    sets = (SSet, CSet, set, frozenset)
    if isinstance(a, sets) and isinstance(b, sets):
        cls = e.class_of(a)
        f = {"BitOr": lambda x, y: z3.Or(x, y), "BitAnd": lambda x, y: z3.And(x, y),
             "Sub": lambda x, y: z3.And(x, z3.Not(y)), "BitXor": lambda x, y: z3.Xor(x, y)}.get(name)
        if f is None:
            raise Unsupported(f"set {name}")
        r = e.set_union(a, b, cls) if name == "BitOr" else set_binop(e, a, b, f, cls)
        return Cell(set, r) if cls is set else r
    if isinstance(a, ItemKeys) or isinstance(b, ItemKeys):
        raise Unsupported("operator on a dictionary view")
    maps = (SDict, CDict, dict)
    if name == "BitOr" and isinstance(a, maps) and isinstance(b, maps):
        c = Cell(dict, CDict({}))
        e.dict_update(c, a)
        e.dict_update(c, b)
        return c
    if name == "Mod" and isinstance(a, (SStr, str)):
        return SStr(e.fresh(StrS, "pct"))
    raise Unsupported(f"operator {name} on {a!r} and {b!r}")


class ItemKeys(SSeq):
    __slots__ = ("d",)


def set_binop(e, a, b, f, cls):
    if isinstance(a, (set, frozenset)):
        a = CSet(tuple(a), type(a))
    if isinstance(b, (set, frozenset)):
        b = CSet(tuple(b), type(b))
    ka, kb = e.kind_of(a).kk, e.kind_of(b).kk
    if ka is None and kb is None:
        return CSet((), cls)
    return e.set_op(a, b, f, cls)


# ---------------------------------------------------------------------------------- helpers


def isinstance_(e, v, cls):
    """bool, possibly after branching; narrows the class of an opaque object."""
    v = e.res(v)
    cls = e.res(cls)
    if isinstance(cls, (SSeq,)):
        items = e.seq_items(cls)
        if items is None:
            raise Unsupported("isinstance with an unknown tuple of classes")
        cls = tuple(items)
    if isinstance(cls, tuple):
        return any(isinstance_(e, v, c) for c in cls)
    if isinstance(cls, types.UnionType) or typing.get_origin(cls) is typing.Union:
        return any(isinstance_(e, v, c) for c in typing.get_args(cls))
    if cls is types.NoneType:
        return v is None
    if isinstance(cls, SObj):
        p = ufun("isinstance", Ref, Ref, BoolS)(e.ref(v), e.ref(cls))
        return e.branch(p)
    if not isinstance(cls, type):
        if not isinstance(v, Val):
            try:
                return isinstance(v, cls)
            except TypeError as x:
                raise PyRaise(Exc(TypeError, x.args)) from None
        if typing.get_origin(cls) is not None:
            e.raise_(TypeError, "isinstance() argument 2 cannot be a parameterized generic")
        if isinstance(v, SObj):
            return e.branch(ufun("isinstance", Ref, Ref, BoolS)(v.t, e.ref(cls)))
        raise Unsupported(f"isinstance of {v!r} and {cls!r}")
    if isinstance(v, SObj):
        t = e.isa(v, cls)
        r = e.branch(t)
        if r and t is not True:
            e.tested.append((v.t, cls))
        return r
    if isinstance(v, Val):
        c = e.class_of(v)
        return issubclass(c, cls)
    return isinstance(v, cls)


def m_isinstance(e, args, kw):
    return isinstance_(e, args[0], args[1])


def m_issubclass(e, args, kw):
    a, b = e.res(args[0]), e.res(args[1])
    if isinstance(b, tuple):
        return any(m_issubclass(e, [a, x], {}) for x in b)
    if not isinstance(a, Val) and not isinstance(b, Val):
        try:
            return issubclass(a, b)
        except TypeError as x:
            raise PyRaise(Exc(TypeError, x.args)) from None
    if isinstance(a, SObj) or isinstance(b, SObj):
        x, y = e.ref(a), e.ref(b)
        f = ufun("issubclass", Ref, Ref, BoolS)
        e.fact(z3.Implies(x == y, f(x, y)))
        seen = e.order_cache.setdefault("issub", [])
        for (p, q) in seen:
            if q.eq(x):
                e.fact(z3.Implies(z3.And(f(p, q), f(x, y)), f(p, y)))
            if y.eq(p):
                e.fact(z3.Implies(z3.And(f(x, y), f(p, q)), f(x, q)))
        e.order_cache["issub"] = [*seen, (x, y)]
        return e.branch(f(x, y))
    raise Unsupported("issubclass")


def m_len(e, args, kw):
    v = e.res(args[0])
    c = e.content(v)
    if isinstance(c, Inst):
        return e.call(e.getattr(c, "__len__"), [], {})
    if isinstance(c, (tuple, list, dict, set, frozenset, str)) and not isinstance(c, Val):
        if isinstance(c, (set, frozenset)) and is_symbolic(c):
            c = CSet(tuple(c))
        else:
            return len(c)
    if isinstance(c, CDict):
        return len(c.d)
    if isinstance(c, SStr):
        return SInt(z3.Length(c.t))
    if isinstance(c, SDict):
        n = e.seq_length(e.dict_keys(c))
        return n if isinstance(n, int) else SInt(n)
    if isinstance(c, CSet):
        seen = []
        for x in c.items:
            if not any(e.branch(e.eq(x, y)) for y in seen):
                seen.append(x)
        return len(seen)
    if isinstance(c, SSet):
        return SInt(e.seq_length(e.set_order(c)))
    if isinstance(c, SSeq):
        try:
            n = e.seq_length(c)
        except Unsupported:
            if not any(isinstance(p, (Flat, Guard)) for p in c.parts):
                raise
            return SInt(seq_len_total(e, c))
        return n if isinstance(n, int) else SInt(n)
    if isinstance(c, SObj):
        for k in getattr(e.nominal_class(c), "__mro__", ()):
            s = e.attr_specs.get((k, "__len__"))
            if s is not None:
                return s(e, c)
        m = lookup_static(e.nominal_class(c), "__len__")[0]
        if isinstance(m, types.FunctionType):
            return e.call(m, [c], {})
        raise Unsupported(f"len of {c!r}")
    if isinstance(c, Val):
        e.raise_(TypeError, "object has no len()")
    try:
        return len(c)
    except TypeError as x:
        raise PyRaise(Exc(TypeError, x.args)) from None


def seq_len_total(e, s):
    box = Inst(object, {"n": 0})
    for p in s.parts:
        if isinstance(p, Lit):
            e.set(box, ("field", "n"), binop(e, ast.Add(), box.f["n"], len(p.items)))
        elif isinstance(p, Sym):
            e.set(box, ("field", "n"), binop(e, ast.Add(), box.f["n"], SInt(p.n)))
        else:
            e.iter_part(p, lambda x: e.set(box, ("field", "n"), binop(e, ast.Add(), box.f["n"], 1)))
    return e.int_term(box.f["n"])


def m_any(e, args, kw, want=True):
    hit = []

    def body(x):
        if e.truth(x) == want:
            raise Brk(hit)

    try:
        e.iterate(args[0], body)
    except Brk as b:
        if b.tag is hit:
            return want
        raise
    return not want


def m_next(e, args, kw):
    it = e.res(args[0])
    hit, box = [], []

    def body(x):
        box.append(x)
        raise Brk(hit)

    c = e.content(it)
    if isinstance(c, IterState):
        return c.next(e, args)
    if isinstance(it, Gen) and it.name == "iter":
        pass
    try:
        e.iterate(it, body)
    except Brk as b:
        if b.tag is hit:
            return box[-1]
        raise
    if len(args) > 1:
        return args[1]
    e.raise_(StopIteration)


class IterState(Val):
    """An explicit iterator over a sequence (position in `f`)."""

    __slots__ = ("seq", "f", "stamp")

    def __init__(self, seq):
        self.seq, self.f, self.stamp = seq, {"pos": 0}, 0

    def iterate(self, e, body):
        k = self.f["pos"]
        if k is None:
            raise Unsupported("an iterator used again after a loop over it")
        s = e.as_seq(self.seq)
        if isinstance(k, int) and k == 0:
            e.set(self, ("field", "pos"), None)
            e.iterate(s, body)
            return
        items = e.seq_items(s)
        if items is None or not isinstance(k, int):
            raise Unsupported("the rest of a partly used iterator")
        e.set(self, ("field", "pos"), None)
        for x in items[k:]:
            body(x)

    def next(self, e, args):
        k = self.f["pos"]
        if k is None:
            raise Unsupported("an iterator used again after a loop over it")
        s = e.as_seq(self.seq)
        n = e.seq_length(s)
        if e.branch(k < n if not (isinstance(k, int) and isinstance(n, int)) else k < n):
            e.set(self, ("field", "pos"), k + 1)
            return e.seq_index(s, k)
        if len(args) > 1:
            return args[1]
        e.raise_(StopIteration)


def m_iter(e, args, kw):
    v = e.res(args[0])
    if isinstance(v, (Gen,)):
        return v
    if len(args) == 2:
        f, sentinel = args

        def run(consume):
            def body(_):
                x = e.call(f, [], {})
                if e.branch(e.eq(x, sentinel)):
                    raise Brk(run)
                consume(x)

            try:
                e.sym_loop(None, lambda j: None, body, key=("iter", 0))
            except Brk as b:
                if b.tag is not run:
                    raise

        return Gen(run, "iter")
    if isinstance(v, Inst):
        return e.call(e.getattr(v, "__iter__"), [], {})
    return IterState(e.to_seq(v))


def fold_minmax(e, args, kw, less):
    key = kw.get("key")
    items = e.to_seq(args[0]) if len(args) == 1 else tuple(args)
    xs = e.seq_items(items)
    default = kw.get("default", _MISSING)
    k = (lambda x: e.call(key, [x], {})) if key is not None else (lambda x: x)
    if xs is None:
        raise Unsupported("min/max of a symbolic sequence")
    if not xs:
        if default is not _MISSING:
            return default
        e.raise_(ValueError, "empty sequence")
    best = xs[0]
    for x in xs[1:]:
        t = e.compare(ast.Lt(), *( (k(x), k(best)) if less else (k(best), k(x)) ))
        if e.branch(t if not isinstance(t, SBool) else t.t):
            best = x
    return best


def m_sum(e, args, kw):
    box = Cell(object, args[1] if len(args) > 1 else kw.get("start", 0))
    e.iterate(args[0], lambda x: e.set(box, ("v",), binop(e, ast.Add(), box.v, x)))
    return box.v


def m_reduce(e, args, kw):
    f, it = args[0], args[1]
    if len(args) > 2:
        box = Cell(object, args[2])
        e.iterate(it, lambda x: e.set(box, ("v",), e.call(f, [box.v, x], {})))
        return box.v
    s = e.to_seq(it)
    xs = e.seq_items(s)
    if xs is not None:
        if not xs:
            e.raise_(TypeError, "reduce() of empty iterable with no initial value")
        r = xs[0]
        for x in xs[1:]:
            r = e.call(f, [r, x], {})
        return r
    n = e.seq_length(s)
    if not e.branch(n > 0):
        e.raise_(TypeError, "reduce() of empty iterable with no initial value")
    box = Cell(object, e.seq_index(s, 0))
    e.iterate(e.seq_getitem(s, slice(1, None)), lambda x: e.set(box, ("v",), e.call(f, [box.v, x], {})))
    return box.v


def m_sorted(e, args, kw):
    v = e.res(args[0])
    key, rev = kw.get("key"), kw.get("reverse", False)
    c = e.content(v)
    if isinstance(c, (set, frozenset)) and not is_symbolic(c):
        return e.lift(sorted(c, key=key if callable(key) else None, reverse=bool(rev)))
    s = e.as_seq(e.to_seq(v))
    xs = e.seq_items(s)
    k = (lambda x: e.call(key, [x], {})) if key is not None else (lambda x: x)
    if isinstance(rev, Val):
        raise Unsupported("sorted(reverse=?)")
    if xs is not None and len(xs) <= 5:
        out = []
        if all(not is_symbolic(x) for x in xs) and key is None:
            return e.lift(sorted(xs, reverse=bool(rev)))
        for x in xs:
            j = len(out)
            while j > 0:
                a, b = k(x), k(out[j - 1])
                t = lt(e, b, a) if rev else lt(e, a, b)
                if not e.branch(t):
                    break
                j -= 1
            out.insert(j, x)
        return Cell(list, SSeq([Lit(out)], None, list))
    ek = e.seq_elem_kind2(s)
    t = e.seq_term(s, ek)
    sort = t.sort()
    i, j = z3.Int("so?"), z3.Int("sp?")
    ktag = "id" if key is None else key_tag(e, key)
    # The result, and where each of its elements came from, are functions of what is sorted and how.
    what = f"{ktag}:{bool(rev)}:{ek.key}"
    if isinstance(c, (SSet, SDict)):
        src, what, stable = c.has, f"sorted_set:{what}", False
    else:
        src, what, stable = t, f"sorted:{what}", True
    sorted_ = ufun(what, src.sort(), sort)
    perm_ = ufun(f"perm_{what}", src.sort(), IntS, IntS)
    inv_ = ufun(f"perminv_{what}", src.sort(), IntS, IntS)
    result = sorted_(src)
    if stable:  # what is known of any list: it does not depend on where the list comes from
        outer, e.binders, every = e.binders, [], [z3.Const("so.list?", sort)]
        t = src = every[0]
    else:
        outer, every = e.binders, []
    say = e.axiom if every else e.fact
    r, n = sorted_(src), seq_len(t)
    perm, inv = (lambda x: perm_(src, x)), (lambda x: inv_(src, x))
    say(forall(every, seq_len(r) == n, pats=[r]) if every else seq_len(r) == n)
    rt, tt = seq_at(r, ek, i), seq_at(t, ek, perm(i))
    say(forall([*every, i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= perm(i), perm(i) < n, inv(perm(i)) == i,
           *[a == b for a, b in zip(rt, tt)])), pats=rt))
    t2, r2 = seq_at(t, ek, i), seq_at(r, ek, inv(i))
    say(forall([*every, i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= inv(i), inv(i) < n, perm(inv(i)) == i,
           *[a == b for a, b in zip(t2, r2)])), pats=[z3.MultiPattern(r, x) for x in t2] if every else [t2[0]]))
    x, y = e.wrap(ek, rt), e.wrap(ek, seq_at(r, ek, j))
    e.binders += [*every, i, j]
    try:
        kx = e.pure(lambda: k(x))
        ky = e.pure(lambda: k(y))
        if kx and ky:
            g, h = lt(e, ky[0], kx[0]), lt(e, kx[0], ky[0])
            g, h = (h, g) if rev else (g, h)
            g, h = (z3.BoolVal(q) if isinstance(q, bool) else q for q in (g, h))
            # Ordered; and those that neither precedes the other keep the order they came in.
            kept = z3.Or(h, perm(i) < perm(j)) if stable else z3.BoolVal(True)
            say(forall([*every, i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(z3.Not(g), kept)),
                   pats=[z3.MultiPattern(p, q) for p, q in zip(rt, seq_at(r, ek, j))]))
    except Unsupported:
        pass
    finally:
        del e.binders[len(e.binders) - len(every) - 2 :]
        e.binders = outer
    r = result
    out = e.seq_of_term(r, ek, list)
    return Cell(list, out)


def key_tag(e, key):
    """A name for a key function such that equal names are equal functions."""
    if isinstance(key, Func):
        own = {a.arg for a in ast.walk(key.node) if isinstance(a, ast.arg)}
        frame = key.frame
        free = {x.id for x in ast.walk(key.node) if isinstance(x, ast.Name)} - own
        while frame is not None:
            if any(n in frame.vars or n in frame.cells for n in free):
                break
            frame = frame.parent
        else:
            return f"{key.frame.globs.get('__name__')}:{key.name}@{key.node.lineno}:{key.node.col_offset}"
    elif isinstance(key, type | types.BuiltinFunctionType | types.FunctionType | types.MethodDescriptorType):
        if getattr(key, "__closure__", None) is None:
            return f"{getattr(key, '__module__', None)}:{key.__qualname__}"
    if e.binders:
        raise Unsupported("sorting by a key that depends on its surroundings, for every element")
    return e.fresh_name("key")


def lt(e, a, b):
    """a < b for sorting, on whatever is ordered."""
    a, b = e.content(e.res(a)), e.content(e.res(b))
    if isinstance(a, SObj) or isinstance(b, SObj):
        rk = ufun("rank", Ref, IntS)
        return rk(e.ref(a)) < rk(e.ref(b))
    if isinstance(a, (tuple, SSeq)) and isinstance(b, (tuple, SSeq)):
        xs, ys = e.seq_items(e.as_seq(a)), e.seq_items(e.as_seq(b))
        if xs is None or ys is None:
            raise Unsupported("ordering of sequences")
        r = z3.BoolVal(len(xs) < len(ys))
        for x, y in reversed(list(zip(xs, ys))):
            q = e.eq(x, y)
            q = z3.BoolVal(q) if isinstance(q, bool) else q
            l = lt(e, x, y)
            l = z3.BoolVal(l) if isinstance(l, bool) else l
            r = z3.Or(l, z3.And(q, r))
        return r
    t = e.compare(ast.Lt(), a, b)
    return t.t if isinstance(t, SBool) else t


def m_reversed(e, args, kw):
    s = e.expand(e.as_seq(e.to_seq(args[0])))
    parts = []
    for p in reversed(s.parts):
        if isinstance(p, Lit):
            parts.append(Lit(tuple(reversed(p.items))))
        elif isinstance(p, Sym):
            parts.append(Sym(p.n, (lambda p: lambda i: p.at(z3.simplify(p.n - 1 - i)))(p)))
        else:
            raise Unsupported("reversed")
    return SSeq(parts, s.ek)


def m_enumerate(e, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    it = e.res(args[0])
    if isinstance(it, Gen):
        box = Cell(object, start)

        def run(consume):
            def body(x):
                k = box.v
                e.set(box, ("v",), binop(e, ast.Add(), k, 1))
                consume((k, x))

            e.iterate(it, body)

        return Gen(run, "enumerate")
    s = e.expand(e.as_seq(e.to_seq(it)))
    parts, base = [], start
    for p in s.parts:
        if isinstance(p, Lit):
            for x in p.items:
                parts.append(Lit([(base, x)]))
                base = binop(e, ast.Add(), base, 1)
        elif isinstance(p, Sym):
            b = e.int_term(base)
            parts.append(Sym(p.n, (lambda p, b: lambda i: (SInt(z3.simplify(b + i)), p.at(i)))(p, b)))
            base = SInt(z3.simplify(b + p.n))
        else:
            raise Unsupported("enumerate of a composed sequence")
    return SSeq(_joined(parts), None)


def m_zip(e, args, kw):
    seqs = [e.expand(e.as_seq(e.to_seq(a))) for a in args]
    strict = kw.get("strict", False)
    items = [e.seq_items(s) for s in seqs]
    if all(x is not None for x in items):
        n = {len(x) for x in items}
        if strict and len(n) > 1:
            e.raise_(ValueError, "zip() arguments have different lengths")
        return tuple(zip(*items))
    ns = [e.seq_length(s) for s in seqs]
    ns = [z3.IntVal(n) if isinstance(n, int) else n for n in ns]
    same = all(n.eq(ns[0]) for n in ns)
    m = ns[0]
    if not same:
        eqs = z3.And(*[n == ns[0] for n in ns[1:]])
        if strict:
            if not e.branch(eqs):
                e.raise_(ValueError, "zip() arguments have different lengths")
        else:
            for n in ns[1:]:
                m = z3.If(n < m, n, m)
            m = z3.simplify(m)

    def at(i):
        out = []
        for s in seqs:
            if len(s.parts) == 1 and isinstance(s.parts[0], Sym):
                out.append(s.parts[0].at(i))
            else:
                ek = e.seq_elem_kind2(s)
                out.append(e.wrap(ek, e.seq_index_term(s, ek, i)))
        return tuple(out)

    return SSeq([Sym(m, at)], None)


def m_map(e, args, kw):
    f = args[0]
    if len(args) == 2:
        src = args[1]
        return Gen(lambda consume: e.iterate(src, lambda x: consume(e.call(f, [x], {}))), "map")
    z = m_zip(e, args[1:], {})
    return Gen(lambda consume: e.iterate(z, lambda x: consume(e.call(f, list(x), {}))), "map")


def m_filter(e, args, kw):
    f, src = args

    def body_of(consume):
        def body(x):
            if e.truth(x if f is None else e.call(f, [x], {})):
                consume(x)

        return body

    return Gen(lambda consume: e.iterate(src, body_of(consume)), "filter")


def m_range(e, args, kw):
    args = [e.res(a) for a in args]
    if not is_symbolic(args):
        return range(*args)
    lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
    if len(args) == 3:
        raise Unsupported("range with a step")
    l, h = e.int_term(lo), e.int_term(hi)
    n = z3.simplify(z3.If(h > l, h - l, 0))
    return SSeq([Sym(n, lambda i: SInt(z3.simplify(l + i)))], KInt())


def m_chain(e, args, kw):
    def run(consume):
        for a in args:
            e.iterate(a, consume)

    return Gen(run, "chain")


def m_chain_from(e, args, kw):
    return Gen(lambda consume: e.iterate(args[-1], lambda sub: e.iterate(sub, consume)), "chain")


def to_list(e, it):
    c = e.content(e.res(it))
    if isinstance(c, (DItems, ItemKeys)):
        c = SSeq(c.parts, c.ek)
    return c


def new_tuple(e, cls, args, kw):
    if not args:
        return ()
    s = e.to_seq(args[0])
    if isinstance(s, tuple):
        return s
    items = e.seq_items(e.as_seq(s))
    if items is not None:
        return tuple(items)
    s = e.as_seq(s)
    return SSeq(s.parts, s.ek, tuple)


def new_list(e, cls, args, kw):
    if not args:
        return Cell(list, SSeq([], None, list))
    s = e.as_seq(e.to_seq(args[0]))
    return Cell(list, SSeq(s.parts, s.ek, list))


def new_dict(e, cls, args, kw):
    c = Cell(dict, CDict({}))
    if args:
        e.dict_update(c, args[0])
    symkw = kw.pop("**", None) if "**" in kw else None
    for k, v in kw.items():
        e.setitem(c, k, v)
    if symkw is not None:
        e.dict_update(c, symkw)
    return c


def new_defaultdict(e, cls, args, kw):
    c = Cell(collections.defaultdict, CDict({}), factory=args[0] if args else None)
    if len(args) > 1:
        e.dict_update(c, args[1])
    return c


def set_of(e, v, cls):
    v = e.res(v)
    c = e.content(v)
    if isinstance(c, DItems):
        return ItemSet(c.d)
    if isinstance(c, SSet):
        return SSet(c.has, c.kk, cls)
    if isinstance(c, CSet):
        return CSet(c.items, cls)
    if isinstance(c, SDict):
        return SSet(c.has, c.kk, cls)
    if isinstance(c, (set, frozenset)):
        return CSet(tuple(c), cls) if is_symbolic(c) else cls(c) if cls is frozenset else CSet(tuple(c), cls)
    if isinstance(c, CDict):
        return CSet(tuple(c.d), cls)
    if isinstance(c, ItemKeys):
        return set_of(e, c.d, cls)
    s = e.to_seq(v)
    items = e.seq_items(e.as_seq(s))
    if items is not None:
        return CSet(tuple(items), cls)
    s = e.as_seq(s)
    if any(isinstance(p, (Flat, Guard)) for p in s.parts):
        cell = Cell(set, CSet((), set))
        e.iterate(s, lambda x: e.set_add(cell, x))
        r = e.content(cell)
        return SSet(r.has, r.kk, cls) if isinstance(r, SSet) else CSet(r.items, cls)
    ek = e.seq_elem_kind2(s)
    if len(ek.sorts) != 1:
        raise Unsupported("set of compound elements")
    k, i = z3.Const("ek?", ek.sorts[0]), z3.Int("ei?")
    t = e.seq_term(s, ek)
    h = ufun("elems_of", t.sort(), z3.ArraySort(ek.sorts[0], BoolS))(t)
    wit = ufun("elem_at", t.sort(), ek.sorts[0], IntS)
    at = seq_at(t, ek, i)[0]
    e.fact(forall([i], z3.Implies(z3.And(0 <= i, i < seq_len(t)), z3.Select(h, at)), pats=[at]))
    e.fact(forall([k], z3.Implies(z3.Select(h, k), z3.And(0 <= wit(t, k), wit(t, k) < seq_len(t), seq_at(t, ek, wit(t, k))[0] == k)),
           pats=[z3.Select(h, k)]))
    return SSet(h, ek, cls)


def new_frozenset(e, cls, args, kw):
    return set_of(e, args[0], frozenset) if args else frozenset()


def new_set(e, cls, args, kw):
    if not args:
        return Cell(set, CSet((), set))
    r = set_of(e, args[0], set)
    if isinstance(r, ItemSet):
        raise Unsupported("set of items")
    return Cell(set, r)


def new_str(e, cls, args, kw):
    return e.str_(args[0]) if args else ""


def new_bool(e, cls, args, kw):
    if not args:
        return False
    t = e.truth_term(e.res(args[0]))
    return t if isinstance(t, bool) else SBool(t)


def new_int(e, cls, args, kw):
    if not args:
        return 0
    v = e.res(args[0])
    if cls is not int:
        raise Unsupported(f"int subclass {cls}")
    if isinstance(v, SInt):
        return SInt(v.t)
    if isinstance(v, SBool):
        return SInt(e.int_term(v))
    if isinstance(v, int) and not isinstance(v, Val):
        return int(v)
    if isinstance(v, SStr):
        base = args[1] if len(args) > 1 else kw.get("base", 10)
        return parse_int(e, v, base)
    if not is_symbolic(v) and not is_symbolic(args):
        return e.native(int, args, kw)
    e.raise_(TypeError, "int() argument")


def int_text(e, t):
    return e.int_to_str(t)


def parse_int(e, v, base):
    """int(text, base): exact on the renderings the repository produces, otherwise unknown.

    For every text: either a ValueError or some integer; for a text that is the rendering of an
    integer (`str(i)` or `hex(i)`), that integer.
    """
    t = v.t
    hexs = ufun("hexstr", IntS, StrS)
    for known in list(e.hexes):
        if z3.simplify(hexs(known)).eq(z3.simplify(t)):
            if base == 16 or base == 0:
                return SInt(known)
            e.raise_(ValueError, "invalid literal")
    ok = ufun(f"int_ok:{base}", StrS, BoolS)(t)
    val = ufun(f"int_of:{base}", StrS, IntS)(t)
    if base == 10:
        # a canonical rendering parses to its value
        e.fact(z3.Implies(z3.InRe(t, z3.Plus(z3.Range("0", "9"))), z3.And(ok, val == z3.StrToInt(t))))
        neg = z3.InRe(t, z3.Concat(z3.Re("-"), z3.Plus(z3.Range("0", "9"))))
        e.fact(z3.Implies(neg, z3.And(ok, val == -z3.StrToInt(z3.SubString(t, 1, z3.Length(t) - 1)))))
        for u in int_renderings(t):
            e.fact(z3.And(ok, val == u))
    if not e.branch(ok):
        e.raise_(ValueError, "invalid literal for int()")
    return SInt(val)


def int_renderings(t):
    """Integers u such that t is syntactically the rendering of u."""
    out = []
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_INT_TO_STR and t.eq(
            z3.simplify(z3.If(a.arg(0) >= 0, z3.IntToStr(a.arg(0)), z3.Concat(z3.StringVal("-"), z3.IntToStr(-a.arg(0)))))
        ):
            out.append(a.arg(0))
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_INT_TO_STR:
            x = a.arg(0)
            full = z3.If(x >= 0, z3.IntToStr(x), z3.Concat(z3.StringVal("-"), z3.IntToStr(-x)))
            if t.eq(full):
                out.append(x)
    return out


def m_hex(e, args, kw):
    v = e.res(args[0])
    if not isinstance(v, Val):
        return hex(v)
    e.hexes.append(v.t)
    t = ufun("hexstr", IntS, StrS)(v.t)
    e.fact(z3.Length(t) >= 3)
    inv = ufun("unhex", StrS, IntS)
    e.fact(inv(t) == v.t)
    return SStr(t)


def int_new(e, args, kw):
    """int.__new__(cls, x)."""
    cls, rest = args[0], args[1:]
    x = e.res(rest[0]) if rest else 0
    if int_like(x):
        return SInt(e.int_term(x), cls)
    r = new_int(e, int, rest, kw)
    return SInt(e.int_term(r), cls)


def m_hash(e, args, kw):
    v = e.res(args[0])
    c = e.content(v)
    if isinstance(v, (Cell, PathCell)):
        e.raise_(TypeError, f"unhashable type: {v.cls.__name__!r}")
    if isinstance(v, Inst):
        m, owner = lookup_static(v.cls, "__hash__")
        if m is None:
            e.raise_(TypeError, "unhashable type")
        if isinstance(m, types.FunctionType):
            r = e.res(e.call(m, [v], {}))
            if not isinstance(r, (int, SInt, SBool)):
                e.raise_(TypeError, "__hash__ method should return an integer")
            return r
    if isinstance(c, ItemSet):
        h = e.fresh(IntS, "hash")
        for d2, h2 in e.item_hashes:
            q = e.dict_eq(c.d, d2)
            e.fact(h == h2) if q is True else None if q is False else e.fact(z3.Implies(q, h == h2))
        for x in dict_values(e, c.d):
            if isinstance(x, (Cell, PathCell)) and e.content(x) is not x:
                e.raise_(TypeError, "unhashable value")
        e.item_hashes = [*e.item_hashes, (c.d, h)]
        return SInt(h)
    if not is_symbolic(c) and not isinstance(c, Val):
        try:
            return hash(c)
        except TypeError as x:
            raise PyRaise(Exc(TypeError, x.args)) from None
    if isinstance(c, (SInt, SBool)):
        m, owner = lookup_static(e.class_of(c), "__hash__")
        if isinstance(m, types.FunctionType):
            return e.call(m, [c], {})
        return SInt(_ihash(e.int_term(c)))
    return SInt(ufun("hash", Ref, IntS)(e.ref(c)))


def dict_values(e, d):
    d = e.content(d)
    return list(d.d.values()) if isinstance(d, CDict) else []


# ---------------------------------------------------------------------------------- methods


def d_content(e, v):
    c = e.content(v)
    if isinstance(c, dict):
        c = CDict(c)
    return c


def d_keys(e, args, kw):
    c = d_content(e, args[0])
    s = e.as_seq(e.to_seq(c))
    r = ItemKeys(s.parts, s.ek)
    r.d = c
    return r


def d_values(e, args, kw):
    c = d_content(e, args[0])
    if isinstance(c, CDict):
        return SSeq([Lit(list(c.d.values()))], None)
    keys = e.dict_keys(c)
    p = keys.parts[0]
    return SSeq([Sym(p.n, lambda i: e.dict_value(None, c, p.at(i)))], c.vk)


def d_items(e, args, kw):
    c = d_content(e, args[0])
    if isinstance(c, CDict):
        r = DItems([Lit([(k, v) for k, v in c.d.items()])], None)
    else:
        keys = e.dict_keys(c)
        p = keys.parts[0]

        def at(i):
            k = p.at(i)
            return (k, e.dict_value(None, c, k))

        r = DItems([Sym(p.n, at)], None)
    r.d = c
    return r


def d_get(e, args, kw):
    o, k = args[0], e.res(args[1])
    default = args[2] if len(args) > 2 else kw.get("default")
    c = d_content(e, o)
    if e.branch(e.contains(c, k)):
        return e.dict_value(o, c, k)
    return default


def d_pop(e, args, kw):
    o, k = e.res(args[0]), e.res(args[1])
    c = d_content(e, o)
    if e.branch(e.contains(c, k)):
        v = e.dict_value(o, c, k)
        if isinstance(c, CDict) and not is_symbolic(k):
            e.delitem(o, k)
        elif isinstance(c, SDict):
            e.set_content(o, SDict(z3.Store(c.has, e.key_term(c.kk, k), False), c.gets, c.kk, c.vk, None, c.cls))
        else:
            raise Unsupported("dict.pop")
        return v
    if len(args) > 2:
        return args[2]
    e.raise_(KeyError, k)


def d_setdefault(e, args, kw):
    o, k = e.res(args[0]), e.res(args[1])
    c = d_content(e, o)
    if not e.branch(e.contains(c, k)):
        e.setitem(o, k, args[2] if len(args) > 2 else None)
    if isinstance(c, SDict) and isinstance(args[2] if len(args) > 2 else None, Cell):
        raise Unsupported("setdefault with a container")
    return e.getitem(o, k)


def d_update(e, args, kw):
    if len(args) > 1:
        e.dict_update(args[0], args[1])
    for k, v in kw.items():
        e.setitem(args[0], k, v)


def d_copy(e, args, kw):
    return new_dict(e, dict, [args[0]], {})


def d_clear(e, args, kw):
    e.set_content(args[0], CDict({}))


def l_append(e, args, kw):
    e.list_append(args[0], args[1])


def l_extend(e, args, kw):
    e.list_extend(args[0], args[1])


def l_pop(e, args, kw):
    c = e.as_seq(args[0])
    items = e.seq_items(c)
    if items is None:
        raise Unsupported("pop from a symbolic list")
    i = e.concretize(args[1]) if len(args) > 1 else -1
    if not items:
        e.raise_(IndexError, "pop from empty list")
    v = items.pop(i)
    e.set_content(args[0], SSeq([Lit(items)], c.ek, list))
    return v


def l_sort(e, args, kw):
    r = m_sorted(e, [args[0]], kw)
    e.set_content(args[0], r.v)


def seq_index_of(e, args, kw):
    s = e.as_seq(args[0])
    items = e.seq_items(s)
    if items is None:
        raise Unsupported("index in a symbolic sequence")
    for j, x in enumerate(items):
        if e.branch(e.eq(x, args[1])):
            return j
    e.raise_(ValueError, "not in list")


def seq_count(e, args, kw):
    n = Cell(object, 0)

    def body(x):
        if e.branch(e.eq(x, args[1])):
            e.set(n, ("v",), binop(e, ast.Add(), n.v, 1))

    e.iterate(args[0], body)
    return n.v


def s_add(e, args, kw):
    e.set_add(args[0], args[1])


def s_multi(f, union=None, bound=None):
    def m(e, args, kw):
        if any(isinstance(o, Star) for o in args):
            return s_many(e, args, union, bound)
        r = e.content(args[0]) if args else None
        cls = e.class_of(args[0])
        for o in args[1:]:
            x = set_of(e, o, frozenset) if not isinstance(e.content(e.res(o)), (SSet, CSet, set, frozenset)) else e.content(e.res(o))
            r = e.set_union(r, x, cls) if union else set_binop(e, r, x, f, cls)
        if cls is set:
            return Cell(set, r if isinstance(r, (CSet, SSet)) else CSet(tuple(r), set))
        return r

    return m


def s_many(e, args, union, bound):
    """The union or intersection of the sets of a symbolic sequence."""
    if union is None or len(args) != 1:
        raise Unsupported("set operation over a symbolic number of sets")
    s = e.as_seq(args[0].v)
    ek = e.seq_elem_kind2(s)
    if not isinstance(ek, KSet) or ek.kk is None or bound is None:
        raise Unsupported("set operation over a symbolic number of other values")
    t = e.seq_term(s, ek)
    if not e.branch(seq_len(t) > 0):
        e.raise_(TypeError, f"unbound method {bound.__name__} needs an argument")
    k, i = z3.Const("ek?", ek.kk.sorts[0]), z3.Int("ei?")
    name = "union" if union else "intersection"
    h = ufun(f"{name} of all", t.sort(), ek.sorts[0])(t)
    w = ufun(f"{name} witness", t.sort(), ek.kk.sorts[0], IntS)(t, k)
    inside, has = z3.And(0 <= i, i < seq_len(t)), z3.Select(h, k)
    one, at_w = z3.Select(seq_at(t, ek, i)[0], k), z3.Select(seq_at(t, ek, w)[0], k)
    inw = z3.And(0 <= w, w < seq_len(t))
    if union:
        e.fact(forall([k, i], z3.Implies(z3.And(inside, one), has), pats=[one]))
        e.fact(forall([k], z3.Implies(has, z3.And(inw, at_w)), pats=[has]))
    else:
        e.fact(forall([k, i], z3.Implies(z3.And(has, inside), one), pats=[z3.MultiPattern(has, seq_at(t, ek, i)[0])]))
        e.fact(forall([k], z3.Implies(z3.Not(has), z3.And(inw, z3.Not(at_w))), pats=[has]))
    r = SSet(h, ek.kk, bound)
    return Cell(set, r) if bound is set else r


def s_update(e, args, kw):
    for o in args[1:]:
        x = set_of(e, o, set)
        e.set_content(args[0], e.set_union(args[0], x, set))


def s_discard(e, args, kw):
    c = e.content(args[0])
    if isinstance(c, SSet):
        e.set_content(args[0], SSet(z3.Store(c.has, e.key_term(c.kk, args[1]), False), c.kk, c.cls))
    else:
        items = []
        for x in c.items:
            if not e.branch(e.eq(x, args[1])):
                items.append(x)
        e.set_content(args[0], CSet(items, set))


def s_remove(e, args, kw):
    if not e.branch(e.contains(args[0], args[1])):
        e.raise_(KeyError, args[1])
    s_discard(e, args, kw)


def s_inplace(f):
    def m(e, args, kw):
        for o in args[1:]:
            r = e.res(f(e, [args[0], o], {}))
            e.set_content(args[0], e.content(r))

    return m


def s_copy(e, args, kw):
    return Cell(set, e.content(args[0])) if e.class_of(args[0]) is set else args[0]


def s_clear(e, args, kw):
    c = e.content(args[0])
    e.set_content(args[0], SSet(z3.K(c.kk.sorts[0], z3.BoolVal(False)), c.kk, c.cls) if isinstance(c, SSet) else CSet((), set))


def s_subset(e, args, kw):
    t = e.compare(ast.LtE(), args[0], args[1])
    return t if isinstance(t, (bool, Val)) else SBool(t)


def s_isdisjoint(e, args, kw):
    r = binop(e, ast.BitAnd(), e.content(args[0]), e.content(args[1]))
    t = e.truth_term(r)
    return (not t) if isinstance(t, bool) else SBool(z3.Not(t))


def str_t(e, v):
    v = e.res(v)
    return e.unwrap(KStr(), v)[0]


def st(f):
    def m(e, args, kw):
        args = [e.res(a) for a in args]
        if not is_symbolic(args) and not is_symbolic(kw):
            pass
        return f(e, args, kw)

    return m


def str_method(name, f):
    def m(e, args, kw):
        args = [e.res(a) for a in args]
        if not is_symbolic(args) and not is_symbolic(kw) and all(not isinstance(a, Val) for a in args):
            try:
                r = getattr(str, name)(*args, **kw)
            except Exception as x:  # noqa: BLE001
                raise PyRaise(Exc(type(x), x.args)) from None
            return e.lift(r)
        return f(e, args, kw)

    return m


def str_startswith(e, args, kw):
    if isinstance(args[1], tuple):
        return SBool(z3.Or(*[z3.PrefixOf(str_t(e, p), str_t(e, args[0])) for p in args[1]]))
    return SBool(z3.PrefixOf(str_t(e, args[1]), str_t(e, args[0])))


def str_endswith(e, args, kw):
    return SBool(z3.SuffixOf(str_t(e, args[1]), str_t(e, args[0])))


def str_join(e, args, kw):
    s = e.as_seq(e.to_seq(args[1]))
    items = e.seq_items(s)
    if items is None:
        r = e.uf_str("join", args[0], SSeq(s.parts, e.seq_elem_kind2(s)))
        e.fact(z3.Implies(e.seq_length(s) == 0, r.t == z3.StringVal("")))
        return r
    if not items:
        return ""
    sep = str_t(e, args[0])
    out = str_t(e, items[0])
    for x in items[1:]:
        out = z3.Concat(out, sep, str_t(e, x))
    return SStr(out)


def str_removeprefix(e, args, kw):
    t, p = str_t(e, args[0]), str_t(e, args[1])
    return SStr(z3.If(z3.PrefixOf(p, t), z3.SubString(t, z3.Length(p), z3.Length(t) - z3.Length(p)), t))


def _concat_parts(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in t.children() for p in _concat_parts(c)]
    return [t]


def str_split(e, args, kw):
    """Exact while no symbolic piece contains the separator (decided by branching); opaque otherwise."""
    t = z3.simplify(str_t(e, args[0]))
    sep = e.res(args[1]) if len(args) > 1 else e.res(kw.get("sep"))
    if sep is None or len(args) > 2:
        raise Unsupported("str.split()")
    if isinstance(sep, str) and len(sep) == 1:
        out = [[]]
        for p in _concat_parts(t):
            if z3.is_string_value(p):
                first, *rest = _text(p).split(sep)
                out[-1].append(z3.StringVal(first))
                out += [[z3.StringVal(x)] for x in rest]
            elif e.branch(z3.Contains(p, z3.StringVal(sep))):
                break
            else:
                out[-1].append(p)
        else:
            items = []
            for ps in out:
                ps = [p for p in ps if not (z3.is_string_value(p) and _text(p) == "")]
                u = z3.StringVal("") if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)
                items.append(_text(u) if z3.is_string_value(u) else SStr(u))
            return Cell(list, SSeq([Lit(items)], KStr(), list))
    sort = seq_sort(KStr())
    r = ufun(f"split", StrS, StrS, sort)(t, str_t(e, sep))
    e.fact(seq_len(r) >= 1)
    return Cell(list, e.seq_of_term(r, KStr(), list))


def _text(t):
    from .interp import _z3str

    return _z3str(t)


def str_uf(name, kind="str"):
    def f(e, args, kw):
        v = e.uf_str("str." + name, *args, *[kw[k] for k in sorted(kw)])
        return v

    return f


def _pieces(e, text):
    """The text as known texts (merged) and unknown ones."""
    out = []
    for p in _concat_parts(z3.simplify(str_t(e, text))):
        if z3.is_string_value(p) and out and isinstance(out[-1], str):
            out[-1] += _text(p)
        else:
            out.append(_text(p) if z3.is_string_value(p) else p)
    return out


def _unpieces(ps):
    ts = [z3.StringVal(p) if isinstance(p, str) else p for p in ps if not (isinstance(p, str) and not p)]
    t = z3.StringVal("") if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)
    return _text(t) if z3.is_string_value(t) else SStr(t)


def str_replace(e, args, kw):
    """Exact when the old text starts with a character no unknown piece has (decided by branching); opaque otherwise."""
    opaque = lambda: e.uf_str("str.replace", *args)
    old = e.res(args[1])
    if len(args) != 3 or kw or not isinstance(old, str) or not old:
        return opaque()
    todo, out = _pieces(e, args[0]), []
    if not any(isinstance(p, str) for p in todo):
        return opaque()
    for p in todo:
        if not isinstance(p, str) and e.branch(z3.Contains(p, z3.StringVal(old[0]))):
            return opaque()
    new = SStr(str_t(e, args[2])).t
    while todo:
        p = todo.pop(0)
        if not isinstance(p, str):
            out.append(p)
            continue
        i = p.find(old[0])
        if i < 0:
            out.append(p)
            continue
        out.append(p[:i])
        tail = p[i:]
        if tail.startswith(old):
            out.append(new)
            todo.insert(0, tail[len(old) :])
        elif len(tail) < len(old) and old.startswith(tail) and todo:
            rest, k = old[len(tail) :], 0
            while k < len(todo) and not isinstance(todo[k], str) and e.branch(todo[k] == z3.StringVal("")):
                k += 1
            if k == len(todo):
                out.append(tail)
            elif isinstance(todo[k], str):
                todo[k] = tail + todo[k]
                del todo[:k]
            elif len(rest) == 1:
                u = todo[k]
                if e.branch(z3.PrefixOf(z3.StringVal(rest), u)):
                    v = e.fresh(StrS, "rest")
                    e.fact(u == z3.Concat(z3.StringVal(rest), v))
                    out.append(new)
                    todo[: k + 1] = [v]
                else:
                    out.append(tail)
                    del todo[:k]
            else:
                return opaque()
        else:
            out.append(tail[0])
            todo.insert(0, tail[1:])
    return _unpieces(out)


def str_rstrip(e, args, kw):
    """Exact while the last piece does not end with a stripped character (decided by branching); opaque otherwise."""
    opaque = lambda: e.uf_str("str.rstrip", *args)
    chars = e.res(args[1]) if len(args) > 1 else None
    if not isinstance(chars, str) or kw:
        return opaque()
    ps = _pieces(e, args[0])
    while ps:
        p = ps[-1]
        if isinstance(p, str):
            ps[-1] = p.rstrip(chars)
            if ps[-1]:
                break
        elif e.branch(p != z3.StringVal("")):
            if e.branch(z3.Or([z3.SuffixOf(z3.StringVal(c), p) for c in chars])):
                return opaque()
            break
        ps.pop()
    return _unpieces(ps)


def str_getitem(e, args, kw):
    s, k = args[0], e.res(args[1])
    t = str_t(e, s)
    n = z3.Length(t)
    if isinstance(k, slice):
        if k.step is not None:
            raise Unsupported("string slice with step")
        lo = e.int_term(k.start) if k.start is not None else z3.IntVal(0)
        hi = e.int_term(k.stop) if k.stop is not None else n
        lo = z3.If(lo < 0, z3.If(lo + n < 0, 0, lo + n), lo)
        hi = z3.If(hi < 0, z3.If(hi + n < 0, 0, hi + n), z3.If(hi > n, n, hi))
        return SStr(z3.If(hi > lo, z3.SubString(t, lo, hi - lo), z3.StringVal("")))
    i = e.int_term(k)
    if not e.branch(z3.And(i < n, i >= -n)):
        e.raise_(IndexError, "string index out of range")
    return SStr(z3.SubString(t, z3.If(i < 0, i + n, i), 1))


# ---------------------------------------------------------------------------------- mapping mixin


def mp_keys(e, args, kw):
    return e.to_seq(args[0])


def mp_items(e, args, kw):
    o = args[0]
    return Gen(lambda consume: e.iterate(o, lambda k: consume((k, e.getitem(o, k)))), "items")


def mp_values(e, args, kw):
    o = args[0]
    return Gen(lambda consume: e.iterate(o, lambda k: consume(e.getitem(o, k))), "values")


def mp_get(e, args, kw):
    try:
        return e.getitem(args[0], args[1])
    except PyRaise as x:
        if issubclass(x.exc.cls, KeyError):
            return args[2] if len(args) > 2 else kw.get("default")
        raise


def mp_contains(e, args, kw):
    try:
        e.getitem(args[0], args[1])
    except PyRaise as x:
        if issubclass(x.exc.cls, KeyError):
            return False
        raise
    return True


def mp_eq(e, args, kw):
    a, b = args[0], e.res(args[1])
    if isinstance(b, (Inst, SObj)):
        if not issubclass(e.class_of(b), collections.abc.Mapping):
            return NotImplemented
    elif not isinstance(e.content(b), (CDict, SDict, dict)):
        return NotImplemented
    x = new_dict(e, dict, [a], {})
    y = new_dict(e, dict, [b], {})
    t = e.dict_eq(e.content(x), e.content(y))
    return t if isinstance(t, bool) else SBool(t)


# ---------------------------------------------------------------------------------- misc


def m_getattr(e, args, kw):
    n = e.res(args[1])
    if isinstance(n, Val):
        raise Unsupported("getattr with a symbolic name")
    return e.getattr(args[0], n, *args[2:3])


def m_setattr(e, args, kw):
    n = e.res(args[1])
    if isinstance(n, Val):
        o = e.res(args[0])
        raise Unsupported("setattr with a symbolic name")
    e.setattr(args[0], n, args[2])


def m_hasattr(e, args, kw):
    v, n = e.res(args[0]), e.res(args[1])
    if isinstance(n, Val):
        raise Unsupported("hasattr with a symbolic name")
    if isinstance(v, SObj) and not hasattr(e.nominal_class(v), n):
        return e.getattr(v, n, _MISSING) is not _MISSING
    try:
        e.getattr(v, n)
    except PyRaise as x:
        if issubclass(x.exc.cls, AttributeError):
            return False
        raise
    return True


def m_callable(e, args, kw):
    v = e.res(args[0])
    if isinstance(v, (Func, Bound, Native, Partial)):
        return True
    if isinstance(v, Val):
        return hasattr(e.class_of(v), "__call__") if not isinstance(v, SObj) else e.branch(ufun("callable", Ref, BoolS)(v.t))
    return callable(v)


def m_partial(e, args, kw):
    return Partial(args[0], args[1:], kw)


def m_cast(e, args, kw):
    return args[1]


def m_attrgetter(e, args, kw):
    names = args

    def get(o, n):
        for part in n.split("."):
            o = e.getattr(o, part)
        return o

    def f(e2, a, k):
        if len(names) == 1:
            return get(a[0], names[0])
        return tuple(get(a[0], n) for n in names)

    return Native(f, f"attrgetter{tuple(names)}")


def m_itemgetter(e, args, kw):
    def f(e2, a, k):
        if len(args) == 1:
            return e.getitem(a[0], args[0])
        return tuple(e.getitem(a[0], n) for n in args)

    return Native(f, f"itemgetter{tuple(args)}")


def m_abs(e, args, kw):
    v = e.res(args[0])
    if isinstance(v, SInt):
        return SInt(z3.If(v.t >= 0, v.t, -v.t))
    return abs(v)


def m_type(e, args, kw):
    if len(args) == 1:
        return e.type_of(args[0])
    raise Unsupported("class creation")


def m_id(e, args, kw):
    return SInt(ufun("id", Ref, IntS)(e.ref(args[0])))


def m_wraps(e, args, kw):
    return Native(lambda e2, a, k: a[0], "wraps")


def m_contextmanager(e, args, kw):
    f = args[0]
    return Native(lambda e2, a, k: ContextGen(e2.call(f, a, k)), "contextmanager")


def m_noop(e, args, kw):
    return None


def m_farmhash(e, args, kw):
    v = e.res(args[0])
    if not isinstance(v, Val):
        import farmhash

        return farmhash.fingerprint64(v)
    if isinstance(v, SStr):
        t = ufun("farmhash64", StrS, IntS)(v.t)
    else:
        t = ufun("farmhash64b", Ref, IntS)(e.ref(v))
    e.fact(z3.And(t >= 0, t < M64))
    return SInt(t)


def op_model(name, node):
    def f(e, args, kw):
        return binop(e, node, args[0], args[1])

    return f


def unary_model(f, dn):
    def g(e, args, kw):
        v = e.res(args[0])
        if not isinstance(v, Val) and not is_symbolic(args):
            return e.native(f, args, kw) if not hasattr(type(v), "_min") else e.call(e.getattr(SInt(z3.IntVal(int(v)), type(v)), dn), args[1:], {})
        return e.call(e.getattr(v, dn), list(args[1:]), kw)

    return g


def cmp_model(node):
    def f(e, args, kw):
        t = e.compare(node, args[0], args[1])
        return t if isinstance(t, (bool, Val)) else SBool(t)

    return f


def install(e: Interp):
    m = e.models
    type(e).binop = lambda self, op, a, b: binop(self, op, a, b)
    e.hexes = []
    e.item_hashes = []
    for name, (dn, rn) in OPS.items():
        if hasattr(int, dn) and name not in ("Pow", "Div"):
            m[getattr(int, dn)] = int_slot(name, False)
            m[getattr(int, rn)] = int_slot(name, True)
    m[int.__neg__] = lambda e, a, k: SInt(-e.int_term(e.res(a[0])))
    for u in (int.__pos__, int.__trunc__, int.__floor__, int.__ceil__, int.__int__, int.__index__):
        m[u] = lambda e, a, k: SInt(e.int_term(e.res(a[0])))
    m[int.__round__] = int_round
    m[int.__invert__] = lambda e, a, k: SInt(-e.int_term(e.res(a[0])) - 1)
    m[int.__abs__] = lambda e, a, k: m_abs(e, a, k)
    m[int.__hash__] = lambda e, a, k: SInt(_ihash(e.int_term(e.res(a[0]))))
    m[int.__bool__] = lambda e, a, k: SBool(e.int_term(e.res(a[0])) != 0)
    m[int.__repr__] = lambda e, a, k: SStr(e.int_to_str(e.int_term(e.res(a[0]))))
    m[int.__new__] = int_new
    for nm, node in (("__lt__", ast.Lt()), ("__le__", ast.LtE()), ("__gt__", ast.Gt()), ("__ge__", ast.GtE()),
                     ("__eq__", ast.Eq()), ("__ne__", ast.NotEq())):
        m[getattr(int, nm)] = cmp_model(node)
    m[isinstance] = m_isinstance
    m[issubclass] = m_issubclass
    m[len] = m_len
    m[any] = lambda e, a, k: m_any(e, a, k, True)
    m[all] = lambda e, a, k: m_any(e, a, k, False)
    m[next] = m_next
    m[iter] = m_iter
    m[min] = lambda e, a, k: fold_minmax(e, a, k, True)
    m[max] = lambda e, a, k: fold_minmax(e, a, k, False)
    m[sum] = m_sum
    m[functools.reduce] = m_reduce
    m[sorted] = m_sorted
    m[format] = lambda e, args, kw: e.format(args[0], e.res(args[1]) if len(args) > 1 else "")
    m[reversed] = m_reversed
    m[enumerate] = m_enumerate
    m[zip] = m_zip
    m[map] = m_map
    m[filter] = m_filter
    m[range] = m_range
    m[itertools.chain] = m_chain
    m[itertools.chain.from_iterable] = m_chain_from
    m[hash] = m_hash
    m[hex] = m_hex
    m[repr] = lambda e, a, k: e.repr_(a[0])
    m[abs] = m_abs
    m[id] = m_id
    m[getattr] = m_getattr
    m[setattr] = m_setattr
    m[hasattr] = m_hasattr
    m[callable] = m_callable
    m[type] = m_type
    m[functools.partial] = m_partial
    m[functools.wraps] = m_wraps
    m[contextlib.contextmanager] = m_contextmanager
    m[typing.cast] = m_cast
    m[operator.attrgetter] = m_attrgetter
    m[operator.itemgetter] = m_itemgetter
    for nm, node in (("xor", ast.BitXor()), ("and_", ast.BitAnd()), ("or_", ast.BitOr()), ("add", ast.Add()),
                     ("sub", ast.Sub()), ("mul", ast.Mult()), ("mod", ast.Mod()), ("floordiv", ast.FloorDiv()), ("ior", ast.BitOr()),
                     ("lshift", ast.LShift()), ("rshift", ast.RShift())):
        m[getattr(operator, nm)] = op_model(nm, node)
    for nm, node in (("eq", ast.Eq()), ("ne", ast.NotEq()), ("lt", ast.Lt()), ("le", ast.LtE()), ("gt", ast.Gt()), ("ge", ast.GtE())):
        m[getattr(operator, nm)] = cmp_model(node)
    import math

    for f, dn in ((operator.neg, "__neg__"), (operator.pos, "__pos__"), (operator.invert, "__invert__"), (operator.inv, "__invert__"),
                  (round, "__round__"), (math.floor, "__floor__"), (math.ceil, "__ceil__"), (math.trunc, "__trunc__"),
                  (operator.index, "__index__")):
        m[f] = unary_model(f, dn)
    import farmhash

    m[farmhash.fingerprint64] = m_farmhash
    for lv in ("debug", "info", "warning", "error", "exception", "critical"):
        m[getattr(logging, lv)] = m_noop
    m[builtins.print] = m_noop
    m[("new", tuple)] = new_tuple
    m[("new", list)] = new_list
    m[("new", dict)] = new_dict
    m[("new", collections.defaultdict)] = new_defaultdict
    m[("new", frozenset)] = new_frozenset
    m[("new", set)] = new_set
    m[("new", str)] = new_str
    m[("new", bool)] = new_bool
    m[("new", int)] = new_int
    m[("new", super)] = lambda e, c, a, k: Super(a[0], a[1])
    for c in (list, tuple):
        m[(c, "index")] = seq_index_of
        m[(c, "count")] = seq_count
    m[(list, "append")] = l_append
    m[(list, "extend")] = l_extend
    m[(list, "pop")] = l_pop
    m[(list, "sort")] = l_sort
    m[(list, "copy")] = lambda e, a, k: new_list(e, list, a, k)
    m[(dict, "keys")] = d_keys
    m[(dict, "values")] = d_values
    m[(dict, "items")] = d_items
    m[(dict, "get")] = d_get
    m[(dict, "pop")] = d_pop
    m[(dict, "setdefault")] = d_setdefault
    m[(dict, "update")] = d_update
    m[(dict, "copy")] = d_copy
    m[(dict, "clear")] = d_clear
    for c in (set, frozenset):
        m[(c, "union")] = s_multi(lambda x, y: z3.Or(x, y), union=True, bound=c)
        m[(c, "intersection")] = s_multi(lambda x, y: z3.And(x, y), union=False, bound=c)
        m[(c, "difference")] = s_multi(lambda x, y: z3.And(x, z3.Not(y)))
        m[(c, "symmetric_difference")] = s_multi(lambda x, y: z3.Xor(x, y))
        m[(c, "issubset")] = s_subset
        m[(c, "issuperset")] = lambda e, a, k: s_subset(e, [a[1], a[0]], k)
        m[(c, "isdisjoint")] = s_isdisjoint
        m[(c, "copy")] = s_copy
        m[getattr(c, "union")] = m[(c, "union")]
        m[getattr(c, "intersection")] = m[(c, "intersection")]
    m[(set, "add")] = s_add
    m[(set, "update")] = s_update
    m[(set, "discard")] = s_discard
    m[(set, "remove")] = s_remove
    m[(set, "clear")] = s_clear
    for nm in ("difference", "intersection", "symmetric_difference"):
        m[(set, nm + "_update")] = s_inplace(m[(set, nm)])
    for nm, f in (
        ("startswith", str_startswith), ("endswith", str_endswith), ("join", str_join), ("removeprefix", str_removeprefix),
        ("split", str_split), ("replace", str_replace), ("rstrip", str_rstrip), ("__getitem__", str_getitem),
    ):
        m[(str, nm)] = str_method(nm, f)
    for nm in ("strip", "lstrip", "lower", "upper", "title", "casefold", "capitalize", "swapcase", "removesuffix", "zfill"):
        m[(str, nm)] = str_method(nm, str_uf(nm))
    for nm in ("encode", "format", "isdigit", "isidentifier", "find", "index", "count", "splitlines", "partition", "rpartition", "rsplit"):
        m[(str, nm)] = str_method(nm, unsupported_str(nm))
    MP = collections.abc.Mapping
    m[MP.keys] = mp_keys
    m[MP.items] = mp_items
    m[MP.values] = mp_values
    m[MP.get] = mp_get
    m[MP.__contains__] = mp_contains
    m[MP.__eq__] = mp_eq
    m[object.__setattr__] = lambda e, a, k: e.set(e.res(a[0]), ("field", a[1]), a[2])
    m[object.__delattr__] = lambda e, a, k: e.set(e.res(a[0]), ("field", a[1]), UNBOUND)
    m[object.__getattribute__] = obj_getattribute
    m[object.__eq__] = lambda e, a, k: True if e.res(a[0]) is e.res(a[1]) else NotImplemented


def int_round(e, args, kw):
    v = e.int_term(e.res(args[0]))
    n = e.res(args[1]) if len(args) > 1 else None
    if n is None or (isinstance(n, int) and n >= 0):
        return SInt(v)
    raise Unsupported("round to a negative number of digits")


def obj_getattribute(e, args, kw):
    o, n = e.res(args[0]), args[1]
    if isinstance(o, Inst):
        if n in o.f:
            return o.f[n]
        a, owner = lookup_static(o.cls, n)
        if a is _MISSING:
            e.raise_(AttributeError, n)
        return e.bind(a, o, o.cls, owner)
    raise Unsupported("object.__getattribute__")


def unsupported_str(nm):
    def f(e, args, kw):
        raise Unsupported(f"str.{nm} of a symbolic text")

    return f
