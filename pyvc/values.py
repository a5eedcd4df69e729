"""Values of the symbolic interpreter.

Concrete Python objects stand for themselves.  Everything symbolic is a `Val`.  All containers have
immutable contents; mutation happens only by replacing the content of a `Cell` (or a field of an
`Inst`, or a local of a frame), so that state can be rolled back through an undo log.
"""

from __future__ import annotations

import itertools

import z3

_stamp = itertools.count()


class Unsupported(Exception):
    """The verified subset does not cover something; the obligation is undecided."""


class Val:
    __slots__ = ()

    def __bool__(self):  # a symbolic value must never be used as a host boolean
        raise AssertionError("host truth value of a symbolic value")

    __hash__ = object.__hash__


class SBool(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SInt(Val):
    __slots__ = ("t", "cls")

    def __init__(self, t, cls=int):
        self.t, self.cls = t, cls

    def __repr__(self):
        return f"SInt<{self.cls.__name__}>({self.t})"


class SStr(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SStr({self.t})"


class SObj(Val):
    """An immutable object of (a subclass of) a class, known only through its attributes."""

    __slots__ = ("t", "cls", "exact", "over")

    def __init__(self, t, cls, exact=False, over=None):
        self.t, self.cls, self.exact = t, cls, exact
        self.over = over or {}

    def __repr__(self):
        return f"SObj<{getattr(self.cls, '__name__', self.cls)}>({self.t})"


class SAlt(Val):
    """One of several values, by condition (the last alternative is the default)."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts  # [(z3 Bool, value)]

    def __repr__(self):
        return f"SAlt({self.alts})"


class Lit:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Sym:
    """A symbolic run of elements: `n` of them, the i-th being `at(i)`."""

    __slots__ = ("n", "at", "term")

    def __init__(self, n, at, term=None):
        self.n, self.at, self.term = n, at, term


class Flat:
    """A run of `n` iterations, the i-th of which contributes the sequence `at(i)`."""

    __slots__ = ("n", "at")

    def __init__(self, n, at):
        self.n, self.at = n, at


class Guard:
    """A part of a sequence that is there only under a condition."""

    __slots__ = ("cond", "seq")

    def __init__(self, cond, seq):
        self.cond, self.seq = cond, seq


class SSeq(Val):
    __slots__ = ("parts", "ek", "cls")

    def __init__(self, parts, ek, cls=tuple):
        self.parts = tuple(p for p in parts if not (isinstance(p, Lit) and not p.items))
        self.ek, self.cls = ek, cls

    def __repr__(self):
        return f"SSeq<{self.cls.__name__}>({len(self.parts)} parts)"


class SDict(Val):
    __slots__ = ("has", "gets", "kk", "vk", "order", "cls")

    def __init__(self, has, gets, kk, vk, order=None, cls=dict):
        self.has, self.gets, self.kk, self.vk, self.order, self.cls = has, gets, kk, vk, order, cls

    def __repr__(self):
        return f"SDict<{self.cls.__name__}>({self.has})"


class CDict(Val):
    """A dictionary with concrete keys (in order) and arbitrary values."""

    __slots__ = ("d", "cls")

    def __init__(self, d, cls=dict):
        self.d, self.cls = dict(d), cls

    def __repr__(self):
        return f"CDict<{self.cls.__name__}>({self.d})"


class SSet(Val):
    __slots__ = ("has", "kk", "cls", "order")

    def __init__(self, has, kk, cls=frozenset, order=None):
        self.has, self.kk, self.cls, self.order = has, kk, cls, order

    def __repr__(self):
        return f"SSet({self.has})"


class CSet(Val):
    """A set with concretely many, possibly symbolic, elements (duplicates allowed)."""

    __slots__ = ("items", "cls")

    def __init__(self, items, cls=frozenset):
        self.items, self.cls = tuple(items), cls

    def __repr__(self):
        return f"CSet({self.items})"


class Cell(Val):
    """A mutable container: list, dict, defaultdict or set."""

    __slots__ = ("cls", "v", "stamp", "factory", "name", "hint")

    def __init__(self, cls, v, factory=None, name=None):
        self.cls, self.v, self.factory, self.name = cls, v, factory, name
        self.hint = None  # how to represent the values of a dictionary
        self.stamp = next(_stamp)

    def __repr__(self):
        return f"Cell<{self.cls.__name__}>({self.v})"


class PathCell(Val):
    """A mutable container stored inside another one; reads and writes go through the parent."""

    __slots__ = ("cls", "parent", "key", "vk", "factory", "stamp")

    def __init__(self, cls, parent, key, vk, factory=None):
        self.cls, self.parent, self.key, self.vk, self.factory = cls, parent, key, vk, factory
        self.stamp = parent.stamp


class Inst(Val):
    """A heap object of a repository class, interpreted field by field."""

    __slots__ = ("cls", "f", "stamp", "name", "payload")

    def __init__(self, cls, f=None, name=None, payload=None):
        self.cls, self.f, self.name, self.payload = cls, dict(f or {}), name, payload
        self.stamp = next(_stamp)

    def __repr__(self):
        return f"Inst<{self.cls.__name__}>({list(self.f)})"


def class_like(v):
    """Does the object stand for a class (whose own attributes are its fields)?"""
    return isinstance(v, Inst) and v.payload == "class"


class Func(Val):
    """A closure of interpreted code."""

    __slots__ = ("node", "frame", "defaults", "kwdefaults", "name", "owner", "attrs")

    def __init__(self, node, frame, defaults, kwdefaults, name, owner=None):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.name, self.owner = name, owner
        self.attrs = {}

    def __repr__(self):
        return f"Func({self.name})"


class Bound(Val):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"Bound({self.fn}, {self.self_})"


class Gen(Val):
    """A generator (or any lazily consumed iterable): `run(consume)` pushes its elements."""

    __slots__ = ("run", "name")

    def __init__(self, run, name="generator"):
        self.run, self.name = run, name


class Super(Val):
    __slots__ = ("owner", "self_")

    def __init__(self, owner, self_):
        self.owner, self.self_ = owner, self_


class Native(Val):
    """A modelled callable: `fn(engine, args, kwargs)`."""

    __slots__ = ("fn", "name")

    def __init__(self, fn, name="native"):
        self.fn, self.name = fn, name

    def __repr__(self):
        return f"Native({self.name})"


class Partial(Val):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Exc(Val):
    """An exception instance."""

    __slots__ = ("cls", "args", "f", "stamp")

    def __init__(self, cls, args=(), f=None):
        self.stamp = next(_stamp)
        self.cls, self.args, self.f = cls, tuple(args), dict(f or {})

    def __repr__(self):
        return f"{self.cls.__name__}{self.args!r}"


class _Marker:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNBOUND = _Marker("UNBOUND")
POISON = _Marker("POISON")


def is_symbolic(v, _depth=0):
    if isinstance(v, Val):
        return True
    if isinstance(v, (tuple, list, set, frozenset)):
        return any(is_symbolic(x) for x in v)
    if isinstance(v, dict):
        return any(is_symbolic(x) or is_symbolic(k) for k, x in v.items())
    return False


# --------------------------------------------------------------------------------------- kinds

Ref = z3.DeclareSort("Ref")  # opaque objects
_seq_sorts: dict[str, z3.SortRef] = {}
_fun_cache: dict[tuple, z3.FuncDeclRef] = {}


_BAD_IN_PATTERN = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT,
                   z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE}


def _pattern_ok(t, names):
    seen, todo, found = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x):
            return False
        if x.decl().kind() in _BAD_IN_PATTERN:
            return False
        if x.num_args() == 0 and x.decl().name() in names:
            found.add(x.decl().name())
        todo.extend(x.children())
    return found == names and z3.is_app(t) and t.num_args() > 0


def _unshift(v, body):
    """Rename a counter so that the elements it reads are at the counter itself (better triggers)."""
    seen, todo, args, shifts = set(), [body], {}, set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if not z3.is_app(x):
            continue
        if x.num_args() == 2 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("at") and x.decl().name()[2:].isdigit():
            i = x.arg(1)
            d = z3.simplify(i - v)
            if z3.is_int_value(d):
                shifts.add(d.as_long())
                args[i.get_id()] = i
        todo.extend(x.children())
    if len(shifts) != 1 or 0 in shifts:
        return body
    c = shifts.pop()
    w = z3.Int("unshift?")
    body = z3.substitute(body, *[(i, w) for i in args.values()])
    return z3.substitute(z3.substitute(body, (v, w - c)), (w, v))


def forall(vs, body, pats=None):
    """A universally quantified formula; triggers z3 would reject are dropped."""
    names = {v.decl().name() for v in vs}
    good = [p for p in pats or () if isinstance(p, z3.PatternRef) or _pattern_ok(p, names)]
    if good:
        try:
            return z3.ForAll(vs, body, patterns=good)
        except z3.Z3Exception:
            pass
    if len(vs) == 1 and vs[0].sort() == z3.IntSort() and not good:
        body = _unshift(vs[0], body)
    return z3.ForAll(vs, body)


def ufun(name, *sorts):
    key = (name, tuple(s.sexpr() for s in sorts))
    f = _fun_cache.get(key)
    if f is None:
        f = _fun_cache[key] = (
            z3.Function(name, *sorts) if len(sorts) > 1 else None
        )
        if f is None:
            f = _fun_cache[key] = lambda: z3.Const(name, sorts[0])
    return f


class Kind:
    key = "?"
    sorts: tuple = ()

    def __eq__(self, o):
        return isinstance(o, Kind) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


class KInt(Kind):
    def __init__(self, cls=int):
        self.cls = cls
        self.key = f"int[{cls.__name__}]"
        self.sorts = (z3.IntSort(),)


class KBool(Kind):
    key, sorts = "bool", (z3.BoolSort(),)


class KStr(Kind):
    key, sorts = "str", (z3.StringSort(),)


class KBytes(Kind):
    key, sorts = "bytes", (Ref,)


class KObj(Kind):
    def __init__(self, cls=object, exact=False):
        self.cls, self.exact = cls, exact
        self.key = f"obj[{getattr(cls, '__module__', '')}.{getattr(cls, '__qualname__', cls)}{'!' if exact else ''}]"
        self.sorts = (Ref,)


class Unseen:
    """The class of the objects in a container that never held one."""


class KConst(Kind):
    def __init__(self, value):
        self.value = value
        self.key = f"const[{value!r}]"
        self.sorts = ()


class KAlt(Kind):
    """Tagged union; KAlt([KConst(None), K]) is an optional K."""

    def __init__(self, kinds):
        self.kinds = tuple(kinds)
        self.key = "alt(" + "|".join(k.key for k in kinds) + ")"
        self.sorts = (z3.IntSort(), *[s for k in kinds for s in k.sorts])


def KOpt(k):
    return KAlt((KConst(None), k))


class KTuple(Kind):
    def __init__(self, kinds):
        self.kinds = tuple(kinds)
        self.key = "tuple(" + ",".join(k.key for k in kinds) + ")"
        self.sorts = tuple(s for k in kinds for s in k.sorts)


class KSeq(Kind):
    def __init__(self, ek, cls=tuple):
        self.ek, self.cls = ek, cls
        self.key = f"seq[{cls.__name__}]({ek.key if ek else '?'})"
        self.sorts = (seq_sort(ek),) if ek is not None else ()


class KDict(Kind):
    def __init__(self, kk, vk, cls=dict):
        self.kk, self.vk, self.cls = kk, vk, cls
        self.key = f"dict[{cls.__name__}]({kk.key if kk else '?'},{vk.key if vk else '?'})"
        if kk is not None:
            assert len(kk.sorts) == 1, kk
            ks = kk.sorts[0]
            self.sorts = (
                z3.ArraySort(ks, z3.BoolSort()),
                *[z3.ArraySort(ks, s) for s in vk.sorts],
                seq_sort(kk),
            )


class KSet(Kind):
    def __init__(self, kk, cls=frozenset):
        self.kk, self.cls = kk, cls
        self.key = f"set[{cls.__name__}]({kk.key if kk else '?'})"
        if kk is not None:
            assert len(kk.sorts) == 1, kk
            self.sorts = (z3.ArraySort(kk.sorts[0], z3.BoolSort()),)


def _base_key(k: Kind) -> str:
    return ",".join(s.sexpr() for s in k.sorts)


def seq_sort(ek: Kind):
    key = _base_key(ek)
    s = _seq_sorts.get(key)
    if s is None:
        s = _seq_sorts[key] = z3.DeclareSort(f"Seq<{key}>")
    return s


def seq_len(t):
    return ufun("len", t.sort(), z3.IntSort())(t)


def seq_at(t, ek: Kind, i):
    return [ufun(f"at{j}", t.sort(), z3.IntSort(), s)(t, i) for j, s in enumerate(ek.sorts)]


def first_elements(n, i):
    """[the term of the i-th element of the sequence that n is the length of], if it is one."""
    if not (z3.is_app(n) and n.num_args() == 1 and n.decl().name() == "len"):
        return []
    t = n.arg(0)
    found = [f for (name, sorts), f in _fun_cache.items() if name == "at0" and sorts[0] == t.sort().sexpr()]
    return [f(t, i) for f in found[:1]]


def select(a, k):
    """a[k], simplified where a is written at that very key."""
    if z3.is_store(a) and a.arg(1).eq(k):
        return a.arg(2)
    if z3.is_K(a):
        return a.arg(0)
    return z3.Select(a, k)


def store(a, k, v):
    """a with v at k, in place of what was written there before."""
    if z3.is_store(a) and a.arg(1).eq(k):
        a = a.arg(0)
    return z3.Store(a, k, v)
