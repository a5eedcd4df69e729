"""C19: type conversion picks the highest-priority match and round-trips Python types."""

import datetime
import typing
from collections.abc import Mapping
from types import NoneType, UnionType
from typing import Any, Literal, Optional, TypedDict, Union, get_args, get_origin, get_type_hints

import arti.types as T
import arti.types.python as python_module
from arti.internal.type_hints import is_optional_hint, is_typeddict, lenient_issubclass
from arti.types import Enum, List, Map, Set, Struct, Type, TypeAdapter, TypeSystem
from arti.types.python import python_type_system
from contracts import common
from pyvc.core import *
from pyvc.source import function_ast
from pyvc.spec import *

__lemmas__ = True

Str = KStr()
Obj = KObj(object)


# ---------------------------------------------------------------------------- choosing the adapter


class Adapter:
    """An adapter: converts exactly the kinds it is given."""

    def __init__(self, key, kinds, priority):
        self.key, self.kinds, self.priority = key, kinds, priority

    def matches_system(self, type_, *, hints):
        return type_ in self.kinds

    matches_artigraph = matches_system

    def to_artigraph(self, type_, *, hints, type_system):
        return (self.key, type_, type_system)

    to_system = to_artigraph

    def __repr__(self):
        return f"{self.key}:{sorted(self.kinds)}@{self.priority}"


class System(TypeSystem):
    """A system being extended."""


def dispatch(engine):
    e = engine
    e.used_contracts.add("adapters: matching and converting are functions of (adapter, type, starting system); extended systems: convert or raise NotImplementedError")
    e.attr_specs[(Adapter, "priority")] = KInt()
    e.attr_specs[(Adapter, "key")] = Str
    e.attr_specs[(TypeSystem, "_adapter_by_key")] = KDict(Str, KObj(Adapter))
    e.attr_specs[(TypeSystem, "extends")] = KSeq(KObj(System), tuple)
    e.attr_specs[(TypeSystem, "key")] = Str
    match = ufun("matches", Ref, Ref, z3.BoolSort())
    conv = ufun("converts", Ref, Ref, Ref, Ref)
    e.contracts[Adapter.matches_system] = lambda e2, args, kw: SBool(match(e2.ref(e2.res(args[0])), e2.ref(e2.res(args[1]))))

    def convert(e2, args, kw):
        a, t, s = (e2.ref(e2.res(x)) for x in (args[0], args[1], kw["type_system"]))
        return SObj(conv(a, t, s), object)

    e.contracts[Adapter.to_artigraph] = convert
    unsupported = ufun("unsupported", Ref, Ref, Ref, z3.BoolSort())
    sysconv = ufun("system_converts", Ref, Ref, Ref, Ref)
    real = {n: getattr(TypeSystem, n) for n in ("to_artigraph", "to_system")}

    def system(n):
        def f(e2, args, kw):
            if not issubclass(e2.class_of(e2.res(args[0])), System):
                return e2.call_real(real[n], function_ast(real[n]), args, kw)
            s, t = (e2.ref(e2.res(x)) for x in args[:2])
            r = kw.get("root_type_system")
            root = s if r is None else e2.ref(e2.res(r))
            if e2.branch(unsupported(s, t, root)):
                e2.raise_(NotImplementedError, "unsupported")
            return SObj(sysconv(s, t, root), object)

        return f

    for n in real:
        e.contracts[real[n]] = system(n)


def asked(system, type_, root):
    """What an extended system answers."""
    return system.to_artigraph(type_, hints={}, root_type_system=root)


def asked_system(system, type_, root):
    return system.to_system(type_, hints={}, root_type_system=root)


def build(rng, depth=2, key="s"):
    s = TypeSystem(key=key, extends=tuple(build(rng, depth - 1, f"{key}{i}") for i in range(rng.choice([0, 1, 2, 3]) if depth else 0)))
    for i in range(rng.choice([0, 1, 2, 3])):
        s._adapter_by_key[f"a{i}"] = Adapter(f"{key}.a{i}", frozenset(rng.sample("xyz", rng.randint(0, 2))), rng.choice([-1, 0, 0, 1, 2, 3]))
    return s


def gen_system(rng):
    s = build(rng)
    return dict(s=s, t=rng.choice("xyzw"), root=rng.choice([None, build(rng, 0, "root")]), k=rng.choice(["a0", "a1", "a2", "a9"]), i=rng.randint(0, 2))


P = dict(s=lambda e, n: SObj(z3.Const(n, Ref), TypeSystem, True), t=Obj, root=KAlt([KConst(None), KObj(TypeSystem)]), k=Str)


def _dispatch_lemmas():
    for way in ("to_artigraph", "to_system"):

        def a_matching_adapter_of_highest_priority_converts(way, s, t, root, k):
            adapters = s._adapter_by_key
            assume(k in adapters)
            assume(adapters[k].matches_system(t, hints={}))
            got = getattr(s, way)(t, hints={}, root_type_system=root)
            start = root if root is not None else s
            assert any(b.matches_system(t, hints={}) and b.priority >= adapters[k].priority and got == b.to_artigraph(t, hints={}, type_system=start)
                       for b in adapters.values())

        for f in (a_matching_adapter_of_highest_priority_converts,):
            lemma("C19", name=f"{f.__name__}_{way}", setup=dispatch, params={"way": KConst(way), **P},
                  gen=lambda rng, way=way: {"way": way, **{n: v for n, v in gen_system(rng).items() if n != "i"}}, samples=500)(f)

        def extended_systems_are_asked_in_order(way, s, t, root, i):
            ask = asked if way == "to_artigraph" else asked_system
            assume(not any(b.matches_system(t, hints={}) for b in s._adapter_by_key.values()))
            start = root if root is not None else s
            r = outcome(lambda: getattr(s, way)(t, hints={}, root_type_system=root))
            ext = s.extends
            assume(0 <= i < len(ext))
            assume(all(outcome(lambda: ask(x, t, start))[0] == "raises" for x in [ext[j] for j in range(i)]))
            mine = outcome(lambda: ask(ext[i], t, start))
            if mine[0] == "ok":
                assert r[0] == "ok" and r[1] == mine[1]

        def an_unsupported_type_is_an_error(way, s, t, root):
            ask = asked if way == "to_artigraph" else asked_system
            assume(not any(b.matches_system(t, hints={}) for b in s._adapter_by_key.values()))
            start = root if root is not None else s
            assume(all(outcome(lambda: ask(x, t, start))[0] == "raises" for x in s.extends))
            assert raises(NotImplementedError, lambda: getattr(s, way)(t, hints={}, root_type_system=root))

        p2 = {n: v for n, v in P.items() if n != "k"}
        lemma("C19", name=f"extended_systems_are_asked_in_order_{way}", setup=dispatch, params={"way": KConst(way), **p2, "i": KInt()},
              gen=lambda rng, way=way: {"way": way, **{n: v for n, v in gen_system(rng).items() if n != "k"}}, samples=500)(extended_systems_are_asked_in_order)
        lemma("C19", name=f"an_unsupported_type_is_an_error_{way}", setup=dispatch, params={"way": KConst(way), **p2},
              gen=lambda rng, way=way: {"way": way, **{n: v for n, v in gen_system(rng).items() if n not in "ki"}}, samples=500)(an_unsupported_type_is_an_error)


_dispatch_lemmas()


def registry(e, n):
    return Inst(TypeSystem, {"key": "demo", "extends": (), "_adapter_by_key": Cell(dict, e.fresh_val(KDict(Str, KObj(Adapter)), n))})


def gen_registry(rng):
    s = TypeSystem(key="demo")
    for k in "xy":
        if rng.random() < 0.5:
            s.register_adapter(Adapter(k, (), 0))
    return dict(s=s, other=rng.choice("xyz"), a=Adapter(rng.choice("xyz"), (), rng.choice([0, 1])))


@lemma("C19", setup=dispatch, params=dict(s=registry, other=Str, a=KObj(Adapter)), gen=gen_registry)
def a_used_key_is_refused(s, other, a):
    table = s._adapter_by_key
    used, n, rest = a.key in table, len(table), table.get(other)
    mine = table.get(a.key)
    r = outcome(lambda: s.register_adapter(a))
    assert (r[0] == "raises") == used
    assert s._adapter_by_key[a.key] is (mine if used else a)
    assert len(s._adapter_by_key) == (n if used else n + 1)
    if not used:
        assert r[1] is a
    if other != a.key:
        assert s._adapter_by_key.get(other) is rest


# ---------------------------------------------------------------------------- the Python adapters, one level at a time


def hint_code(engine):
    """Hints with unknown parts; nested types are converted by an arbitrary starting system that round-trips them."""
    e = engine
    e.used_contracts.add("typing: get_origin / get_args return what a hint was built from; TypedDict keeps its name and fields; "
                         "model_copy changes exactly the given fields; nested types: converted by the starting system, assumed to round-trip")
    to_h, to_t = ufun("nested_hint", Ref, Ref), ufun("nested_type", Ref, Ref)

    def part(n, native, default):
        def f(e2, args, kw):
            v = e2.res(args[0])
            if isinstance(v, SObj):
                return v.over.get(n, default)
            return native(v)
        return f

    e.contracts[get_origin] = part("__origin__", get_origin, None)
    e.contracts[get_args] = part("__args__", get_args, ())

    def to_system(e2, args, kw):
        if issubclass(e2.class_of(e2.res(args[0])), System):
            t = e2.ref(e2.res(args[1]))
            e2.fact(to_t(to_h(t)) == t)
            return SObj(to_h(t), object)
        return e2.call_real(TypeSystem.to_system, function_ast(TypeSystem.to_system), args, kw)

    def to_artigraph(e2, args, kw):
        if issubclass(e2.class_of(e2.res(args[0])), System):
            h = e2.res(args[1])
            return SObj(to_t(e2.ref(h)), Type)
        return e2.call_real(TypeSystem.to_artigraph, function_ast(TypeSystem.to_artigraph), args, kw)

    e.contracts[TypeSystem.to_system] = to_system
    e.contracts[TypeSystem.to_artigraph] = to_artigraph
    def sub(e2, args, kw):
        v = e2.res(args[0])
        if isinstance(v, SObj) and "__origin__" in v.over:
            return lenient_issubclass(v.over["__origin__"], e2.res(args[1]))
        if isinstance(v, SObj) and "__hints__" in v.over:
            return issubclass(dict, e2.res(args[1]))
        if isinstance(v, Val):
            raise Unsupported("subtype test of an unknown hint")
        return lenient_issubclass(v, e2.res(args[1]))

    def copy(e2, args, kw):
        v, up = e2.res(args[0]), e2.content(e2.res(kw.get("update")))
        if not isinstance(v, (SObj, Inst)) or set(up.d) != {"nullable"}:
            raise Unsupported("model_copy")
        b = up.d["nullable"]
        t, w = e2.ref(v), ufun("with_nullable", Ref, z3.BoolSort(), Ref)
        nl = lambda x: e2.getattr(x, "nullable")
        r = SObj(w(t, z3.BoolVal(b)), e2.nominal_class(v) if isinstance(v, SObj) else v.cls)
        e2.fact(e2.as_bool_term(nl(r)) == z3.BoolVal(b))
        was = e2.as_bool_term(nl(v))
        e2.fact(w(w(t, z3.BoolVal(b)), was) == t)
        e2.fact(z3.Implies(was == z3.BoolVal(b), w(t, z3.BoolVal(b)) == t))
        return r

    e.contracts[Type.model_copy] = copy

    def typeddict(e2, args, kw):
        fields = e2.content(e2.res(args[1]))
        return SObj(z3.FreshConst(Ref, "typeddict"), typing._TypedDictMeta, True, {"__name__": args[0], "__hints__": fields})

    e.contracts[TypedDict] = typeddict
    e.contracts[get_type_hints] = lambda e2, args, kw: e2.res(args[0]).over["__hints__"]
    e.contracts[is_typeddict] = lambda e2, args, kw: isinstance(e2.res(args[0]), SObj) and "__hints__" in e2.res(args[0]).over
    e.used_contracts.add("lenient_issubclass of a parameterised hint and a class: its origin decides (proved in C22)")
    e.contracts[lenient_issubclass] = sub
    common.record(e, List, Set, Map, Struct)


ROOT = lambda e, n: SObj(z3.Const(n, Ref), System)


def nested(rng):
    return rng.choice([T.Int64(), T.String(), T.Float64(nullable=True), List(element=T.Int64()), T.Null(), Map(key=T.String(), value=T.Date())])


def PL(**params):
    return lemma("C19", setup=hint_code, params=dict(root=ROOT, **{n: KObj(Type) for n in params}), samples=100,
                 gen=lambda rng: dict(root=python_type_system, **{n: nested(rng) for n in params}))


def there_and_back(t, root):
    h = python_type_system.to_system(t, hints={}, root_type_system=root)
    return h, python_type_system.to_artigraph(h, hints={}, root_type_system=root)


@PL(t=0)
def lists_round_trip(root, t):
    h, back = there_and_back(List(element=t), root)
    assert get_origin(h) is list and get_args(h) == (root.to_system(t, hints={}),)
    assert isinstance(back, List) and back.element == t and not back.nullable


@PL(t=0)
def sets_round_trip(root, t):
    h, back = there_and_back(Set(element=t), root)
    assert get_origin(h) is set and get_args(h) == (root.to_system(t, hints={}),)
    assert isinstance(back, Set) and back.element == t and not back.nullable


@PL(t=0, u=0)
def maps_round_trip(root, t, u):
    h, back = there_and_back(Map(key=t, value=u), root)
    assert get_origin(h) is dict and get_args(h) == (root.to_system(t, hints={}), root.to_system(u, hints={}))
    assert isinstance(back, Map) and back.key == t and back.value == u and not back.nullable


@PL(t=0)
def tuples_frozensets_and_mappings_become_lists_sets_and_maps(root, t):
    h = root.to_system(t, hints={})
    to = lambda x: python_type_system.to_artigraph(x, hints={}, root_type_system=root)
    a, b, c = to(tuple[h, ...]), to(frozenset[h]), to(Mapping[h, h])
    assert isinstance(a, List) and a.element == t and not a.nullable
    assert isinstance(b, Set) and b.element == t and not b.nullable
    assert isinstance(c, Map) and c.key == t and c.value == t and not c.nullable


@PL(t=0)
def optional_is_nullable(root, t):
    """A nullable type is the optional hint of the same type without null, and back."""
    assume(t.nullable)
    plain = t.model_copy(update={"nullable": False})
    hint = root.to_system(plain, hints={})
    assume(hint is not NoneType and hint is not None and not is_optional_hint(hint))  # Null() has no nullable form
    h, back = there_and_back(t, root)
    assert get_origin(h) is Union and NoneType in get_args(h)
    assert back == t and back.nullable


@lemma("C19", setup=hint_code, params=dict(root=ROOT, fields=KDict(Str, KObj(Type)), name=Str), samples=100,
       gen=lambda rng: dict(root=python_type_system, name=rng.choice(["anon", "x", "A b"]), fields={n: nested(rng) for n in rng.sample("abcd", rng.randint(0, 4))}))
def structs_keep_their_name_and_fields_in_order(root, fields, name):
    h, back = there_and_back(Struct(name=name, fields=fields), root)
    assert isinstance(back, Struct) and back.name == name and not back.nullable
    assert list(back.fields) == list(fields)
    assert all(back.fields[n] == fields[n] for n in fields)


WIDEST = {T.Binary(): bytes, T.Boolean(): bool, T.Date(): datetime.date, T.String(): str, T.Float64(): float, T.Int64(): int, T.Null(): None,
          T.Timestamp(precision="microsecond"): datetime.datetime}
NARROW = {T.Float16(): float, T.Float32(): float, T.Int8(): int, T.Int16(): int, T.Int32(): int}


@lemma("C19", setup=hint_code, params=dict(root=ROOT), gen=lambda rng: dict(root=python_type_system), samples=2)
def scalars_map_to_their_python_type(root):
    for t, h in {**WIDEST, **NARROW}.items():
        got, back = there_and_back(t, root)
        assert got is h
        if t in WIDEST:
            assert back == t
    for h in (complex, object, 5, "int", range, list, dict, tuple[int, str], Union[int, str], Literal[1, "a"]):
        assert outcome(lambda: python_type_system.to_artigraph(h, hints={}, root_type_system=root))[0] == "raises"
    for t in (T.UInt8(), T.UInt64(), T.Geography(), T.Time(precision="second"), T.DateTime(precision="second")):
        assert raises(NotImplementedError, lambda: python_type_system.to_system(t, hints={}, root_type_system=root))


# ---------------------------------------------------------------------------- whole types and hints (bounded)


EXACT = [T.Binary(), T.Boolean(), T.Date(), T.String(), T.Float64(), T.Int64(), T.Null(), T.Timestamp(precision="microsecond")]
LITERALS = {"String": ["a", "b", "c", "", "x y"], "Int64": [1, 2, 3, -7, 0], "Boolean": [True, False], "Binary": [b"a", b""]}


def random_type(rng, depth=3, nullable=True, pool=None):
    pool = pool or EXACT
    kind = rng.choice(["scalar", "scalar", "enum", "list", "set", "map", "struct"]) if depth else rng.choice(["scalar", "enum"])
    null = nullable and rng.random() < 0.3
    sub = lambda: random_type(rng, depth - 1, pool=pool)
    if kind == "scalar":
        t = rng.choice(pool)
        return t if isinstance(t, T.Null) else t.model_copy(update={"nullable": null})
    if kind == "enum":
        n = rng.choice(list(LITERALS))
        return Enum(type=getattr(T, n)(), items=frozenset(rng.sample(LITERALS[n], rng.randint(1, len(LITERALS[n])))), nullable=null)
    if kind == "list":
        return List(element=sub(), nullable=null)
    if kind == "set":
        return Set(element=sub(), nullable=null)
    if kind == "map":
        return Map(key=sub(), value=sub(), nullable=null)
    return Struct(name=rng.choice(["anon", "Row", "x_1"]), fields={n: sub() for n in rng.sample(["a", "b", "c", "d"], rng.randint(0, 4))}, nullable=null)


def widened(t):
    """The same type with the widest numbers."""
    if isinstance(t, (T.Float16, T.Float32)):
        return T.Float64(nullable=t.nullable)
    if isinstance(t, (T.Int8, T.Int16, T.Int32)):
        return T.Int64(nullable=t.nullable)
    if isinstance(t, (List, Set)):
        return type(t)(element=widened(t.element), nullable=t.nullable)
    if isinstance(t, Map):
        return Map(key=widened(t.key), value=widened(t.value), nullable=t.nullable)
    if isinstance(t, Struct):
        return Struct(name=t.name, fields={n: widened(f) for n, f in t.fields.items()}, nullable=t.nullable)
    return t


def same(a, b):
    """Equal types, and structs list their fields in the same order."""
    if a != b or type(a) is not type(b):
        return False
    if isinstance(a, Struct):
        return list(a.fields) == list(b.fields) and all(same(a.fields[n], b.fields[n]) for n in a.fields)
    if isinstance(a, (List, Set)):
        return same(a.element, b.element)
    if isinstance(a, Map):
        return same(a.key, b.key) and same(a.value, b.value)
    return True


@scenario("C19", runs=1500, bound="random types of depth up to 3 over every scalar the Python system has, enums of up to 5 items")
def types_survive_their_python_hint(rng, tmp):
    t = random_type(rng, pool=EXACT + list(NARROW))
    h = python_type_system.to_system(t, hints={})
    back = python_type_system.to_artigraph(h, hints={})
    assert same(back, widened(t)), (t, h, back)
    assert is_optional_hint(h) == t.nullable or isinstance(t, T.Null), (t, h)
    return str(h)


SCALAR_HINTS = [bytes, bool, datetime.date, str, float, int, datetime.datetime]


def random_hint(rng, depth=3):
    """A supported hint, and the hint it is normalised to."""
    kind = rng.choice(["scalar", "literal", "optional", "list", "set", "frozenset", "tuple", "dict", "mapping", "struct", "literals"]) if depth else rng.choice(["scalar", "literal"])
    sub = lambda: random_hint(rng, depth - 1)
    if kind == "scalar":
        h = rng.choice(SCALAR_HINTS)
        return h, h
    if kind == "literal":
        vs = LITERALS[rng.choice(list(LITERALS))]
        h = Literal[tuple(rng.sample(vs, rng.randint(1, len(vs))))]
        return h, h
    if kind == "literals":
        vs = LITERALS[rng.choice(["String", "Int64", "Boolean"])]
        xs = [rng.sample(vs, rng.randint(1, len(vs))) for _ in range(2)]
        u = Literal[tuple(xs[0])] | Literal[tuple(xs[1])] if rng.random() < 0.5 else Union[tuple(Literal[x] for x in xs[0])]
        return u, flat(u)
    a, an = sub()
    if kind == "optional":
        form = rng.randint(0, 2)
        h = Optional[a] if form == 0 else Union[None, a] if form == 1 else Union[a, None]
        return h, Optional[an]
    if kind in ("list", "set", "frozenset", "tuple"):
        return {"list": lambda: list[a], "set": lambda: set[a], "frozenset": lambda: frozenset[a], "tuple": lambda: tuple[a, ...]}[kind](), \
            (list if kind in ("list", "tuple") else set)[an]
    b, bn = sub()
    if kind == "dict":
        return dict[a, b], dict[an, bn]
    if kind == "mapping":
        return Mapping[a, b], dict[an, bn]
    n = rng.choice(["Row", "x"])
    fs = {f: sub() for f in rng.sample("abcd", rng.randint(0, 3))}
    return TypedDict(n, {f: x for f, (x, _) in fs.items()}), TypedDict(n, {f: x for f, (_, x) in fs.items()})


def flat(h):
    if get_origin(h) is Literal:
        return Literal[get_args(h)]
    return Literal[tuple(x for s in get_args(h) for x in get_args(s))]


def equivalent(a, b):
    if is_typeddict(a):
        x, y = get_type_hints(a), get_type_hints(b) if is_typeddict(b) else None
        return y is not None and a.__name__ == b.__name__ and list(x) == list(y) and all(equivalent(x[n], y[n]) for n in x)
    oa, ob = get_origin(a), get_origin(b)
    if oa is None or ob is None:
        return a is b
    if oa is Literal or ob is Literal:
        return oa is ob and {(type(v), v) for v in get_args(a)} == {(type(v), v) for v in get_args(b)}
    xs, ys = get_args(a), get_args(b)
    if oa is not ob or len(xs) != len(ys):
        return False
    if oa is Union:
        return all(any(equivalent(x, y) for y in ys) for x in xs) and all(any(equivalent(x, y) for x in xs) for y in ys)
    return all(equivalent(x, y) for x, y in zip(xs, ys))


@scenario("C19", runs=1500, bound="random hints of depth up to 3, every spelling of containers, optionals and literals")
def hints_survive_their_type(rng, tmp):
    h, n = random_hint(rng)
    t = python_type_system.to_artigraph(h, hints={})
    back = python_type_system.to_system(t, hints={})
    assert equivalent(back, n), (h, t, back)
    return str(h)


@scenario("C19", runs=500, bound="up to 3 levels of extended systems with up to 3 adapters each, list types nested 2 deep")
def nested_types_start_over_with_the_first_system(rng, tmp):
    """Systems that extend each other; a list adapter anywhere converts its element with the starting system."""
    base = [TypeSystem(key=f"sys{i}", extends=()) for i in range(rng.randint(1, 4))]
    systems = []
    for i, s in enumerate(base):
        ext = tuple(rng.sample(systems, rng.randint(0, min(2, len(systems)))))
        systems.append(TypeSystem(key=s.key, extends=ext))
    owners = {s.key: [] for s in systems}
    for s in systems:
        for a in range(rng.randint(0, 3)):
            kind = rng.choice(["Int64", "String", "List", "Int64"])
            prio = rng.choice([-1, 0, 1, 2, 5])
            if any(p == prio and k == kind for k, p, _ in owners[s.key]):
                continue
            label = f"{s.key}/{kind}/{a}"
            cls = getattr(T, kind)
            if kind == "List":
                def to_system(c, t, *, hints, type_system, label=label):
                    return (label, type_system.to_system(t.element, hints=hints))

                def to_artigraph(c, t, *, hints, type_system):
                    return List(element=type_system.to_artigraph(t[1], hints=hints))
            else:
                def to_system(c, t, *, hints, type_system, label=label):
                    return (label,)

                def to_artigraph(c, t, *, hints, type_system, cls=cls):
                    return cls()

            def matches_system(c, t, *, hints, n=2 if kind == "List" else 1, label=label):
                return len(t) == n and kind_of(t) == label.split("/")[1]

            s.register_adapter(type(f"A{a}", (TypeAdapter,), {
                "artigraph": cls, "system": object, "key": label, "priority": prio, "matches_system": classmethod(matches_system),
                "to_system": classmethod(to_system), "to_artigraph": classmethod(to_artigraph)}))
            owners[s.key].append((kind, prio, label))
            if rng.random() < 0.3:  # using a system must not keep it from finding what is registered later
                outcome(lambda: s.to_system(cls(element=T.Int64()) if kind == "List" else cls(), hints={}))
                outcome(lambda: s.to_artigraph((label,), hints={}))
    start = rng.choice(systems)

    def first(system, kind):
        mine = [(p, l) for k, p, l in owners[system.key] if k == kind]
        if mine:
            return max(mine)[1]
        for x in system.extends:
            if (r := first(x, kind)) is not None:
                return r
        return None

    def want(t):
        label = first(start, type(t).__name__)
        if label is None:
            raise NotImplementedError
        return (label, want(t.element)) if isinstance(t, List) else (label,)

    t = rng.choice([T.Int64(), T.String()])
    for _ in range(rng.randint(0, 2)):
        t = List(element=t)
    w = outcome(lambda: want(t))
    r = outcome(lambda: start.to_system(t, hints={}))
    assert r[0] == w[0] and (r[0] == "raises" or r[1] == w[1]), (t, r, w)
    if r[0] == "raises":
        assert raises(NotImplementedError, lambda: start.to_system(t, hints={}))
        return f"{t} unsupported"
    assert start.to_artigraph(r[1], hints={}) == t, (t, r)
    return str(r[1])


def kind_of(t):
    return t[0].split("/")[1]
