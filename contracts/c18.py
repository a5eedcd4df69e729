"""C18: ill-formed type declarations are rejected."""

import arti.types.python as _pt
from arti.internal.type_hints import lenient_issubclass
from arti.types import (
    Boolean, Collection, Date, Enum, Float64, Int8, Int32, Int64, List, Map, Set, String, Struct, Timestamp, Type, is_partitioned,
)
from contracts import common
from pyvc.spec import *
from pyvc.core import *

__lemmas__ = True

Str = KStr()
Names = KSeq(Str)


class Info:
    """What pydantic hands to a validator: the fields validated so far."""

    def __init__(self, data):
        self.data = data


LEAF = [Int8(), Int32(), Int64(), String(), Date(), Boolean(), Float64(), Timestamp(precision="second"), List(element=Int64()),
        Struct(fields={"a": Int64()}), Int64(nullable=True)]
COLS = ["a", "b", "c", "x_1", "é", ""]


def struct(rng):
    return Struct(fields={n: rng.choice(LEAF) for n in rng.sample(COLS, rng.randint(0, len(COLS)))})


def names(rng, s, bad=0.3):
    pool = list(s.fields) if rng.random() > bad else COLS + ["nope", "A"]
    return tuple(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))) if pool else ()


def gen_refs(rng):
    s = struct(rng)
    return dict(element=s, refs=names(rng, s), by=names(rng, s), n=rng.choice(COLS + ["nope"]))


def pick(*ns):
    return lambda rng: {k: v for k, v in gen_refs(rng).items() if k in ns}


def code(engine):
    engine.used_contracts.add("pydantic: runs a field's validators in declaration order on construction, with the fields validated before")


@lemma("C18", setup=code, params=dict(element=KObj(Struct), refs=Names, n=Str), gen=pick("element", "refs", "n"), samples=300)
def columns_must_exist_in_the_element(element, refs, n):
    r = outcome(lambda: Collection._validate_field_ref(refs, Info({"element": element})))
    if r[0] == "ok":
        assert r[1] == refs
        assert implies(n in refs, n in element.fields)
    else:
        assert not all(x in element.fields for x in refs)


@lemma("C18", setup=code, params=dict(refs=Names, by=Names, n=Str), gen=pick("refs", "by", "n"), samples=300)
def cluster_columns_never_overlap_partition_columns(refs, by, n):
    r = outcome(lambda: Collection._validate_cluster_by(refs, Info({"partition_by": by})))
    if r[0] == "ok":
        assert r[1] == refs
        assert not (n in refs and n in by)
    else:
        assert any(x in by for x in refs)


def invariant(engine):
    """A Collection's partition and cluster columns exist in its element (the two lemmas above)."""
    engine.used_contracts.add("invariant of Collection instances: their columns exist in the element (established by the validators, lemma columns_must_exist_in_the_element)")


def gen_collection(rng):
    while True:
        s = struct(rng)
        cols = list(s.fields)
        rng.shuffle(cols)
        k = rng.randint(0, len(cols))
        j = rng.randint(k, len(cols))
        if cols:
            return dict(t=Collection(element=s, partition_by=tuple(cols[:k]), cluster_by=tuple(cols[k:j])), n=rng.choice(COLS + ["nope"]))


def partition_columns(t, n):
    assume(all(x in t.element.fields for x in t.partition_by))
    fields = t.partition_fields
    assert (n in fields) == (n in t.partition_by)
    if n in t.partition_by:
        assert fields[n] == t.element.fields[n]


def cluster_columns(t, n):
    assume(all(x in t.element.fields for x in t.cluster_by))
    fields = t.cluster_fields
    assert (n in fields) == (n in t.cluster_by)
    if n in t.cluster_by:
        assert fields[n] == t.element.fields[n]


def partition_columns_in_order(t):
    assume(all(x in t.element.fields for x in t.partition_by))
    assume(all(t.partition_by[i] != t.partition_by[j] for j in range(len(t.partition_by)) for i in range(j)))
    assert list(t.partition_fields) == list(t.partition_by)


def cluster_columns_in_order(t):
    assume(all(x in t.element.fields for x in t.cluster_by))
    assume(all(t.cluster_by[i] != t.cluster_by[j] for j in range(len(t.cluster_by)) for i in range(j)))
    assert list(t.cluster_fields) == list(t.cluster_by)


for f in (partition_columns, cluster_columns, partition_columns_in_order, cluster_columns_in_order):
    P = dict(t=KObj(Collection), n=Str) if "order" not in f.__name__ else dict(t=KObj(Collection))
    lemma("C18", setup=invariant, params=P, gen=lambda rng, P=P: {k: v for k, v in gen_collection(rng).items() if k in P})(f)


@lemma("C18", setup=invariant, params=dict(t=KObj(Type)), gen=lambda rng: {"t": rng.choice([gen_collection(rng)["t"], *LEAF])})
def only_collections_with_partition_columns_are_partitioned(t):
    if isinstance(t, Collection):
        assume(all(x in t.element.fields for x in t.partition_by))
        assert is_partitioned(t) == (len(t.partition_by) > 0)
    else:
        assert is_partitioned(t) is False


# -------------------------------------------------------------------------------- enumerations


def enum_code(engine):
    code(engine)
    engine.used_contracts.add("python_type_system.to_system(type): some hint, a function of the type (C19)")
    engine.used_contracts.add("lenient_issubclass(type(item), hint): a predicate (C22)")
    ok = ufun("fits", Ref, Ref, z3.BoolSort())
    hint = ufun("hint", Ref, Ref)
    T = type(_pt.python_type_system)
    engine.contracts[T.to_system] = lambda e, args, kw: SObj(hint(args[1].t), type)
    engine.contracts[lenient_issubclass] = lambda e, args, kw: SBool(ok(e.unwrap(KObj(type), args[0])[0], args[1].t))


@lemma("C18", setup=enum_code, params=dict(type_=KObj(Type), items=KSet(KObj(object)), x=KObj(object)), gen=lambda rng: gen_enum(rng), samples=300)
def enum_items_are_of_their_type(type_, items, x):
    r = outcome(lambda: Enum._validate_values(items, Info({"type": type_})))
    hint = _pt.python_type_system.to_system(type_, hints={})
    if r[0] == "ok":
        assert r[1] == items
        assert len(items) > 0
        assert implies(x in items, lenient_issubclass(type(x), hint))
    else:
        assert len(items) == 0 or not all(lenient_issubclass(type(y), hint) for y in items)


@lemma("C18", params=dict(items=KAlt([KSet(KObj(object)), KSeq(KObj(object)), KSeq(KObj(object), list), KSet(KObj(object), set)]), x=KObj(object)), gen=lambda rng: gen_cast(rng), samples=300)
def enum_items_are_collected_without_change(items, x):
    r = Enum._cast_values(items)
    assert isinstance(r, frozenset)
    assert (x in r) == (x in items)


def gen_enum(rng):
    g = gen_items(rng)
    return {**g, "x": rng.choice([*g["items"], object()])}


def gen_cast(rng):
    xs = gen_items(rng)["items"]
    return {"items": rng.choice([frozenset, set, list, tuple])(xs), "x": rng.choice([1, "a", None, 1.5, True, *xs])}


ITEMS = {Int64(): [1, 2, 0, -5, 10**9], String(): ["a", "b", "", "zz"], Float64(): [1.5, 0.0, -2.25], Boolean(): [True, False],
         Date(): []}


def gen_items(rng):
    t = rng.choice([Int64(), String(), Float64(), Boolean()])
    pool = ITEMS[t] if rng.random() < 0.6 else [x for v in ITEMS.values() for x in v] + [None, (1,), b"x"]
    return dict(type_=t, items=frozenset(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))))


@scenario("C18", runs=400, bound="one element of up to 6 columns, up to 3 partition and cluster columns each, valid or not, by keyword or mapping")
def collections_accept_exactly_wellformed_columns(rng, tmp):
    s = struct(rng)
    p, c = names(rng, s), names(rng, s)
    want = set(p) <= set(s.fields) and set(c) <= set(s.fields) and not set(p) & set(c)
    r = outcome(lambda: Collection(element=s, partition_by=p, cluster_by=c))
    assert (r[0] == "ok") == want, (s, p, c, r)
    r2 = outcome(lambda: Collection.model_validate({"cluster_by": c, "partition_by": p, "element": s}))
    assert (r2[0] == "ok") == want, (s, p, c, r2)
    if want:
        t = r[1]
        assert list(t.partition_fields.items()) == list({n: s.fields[n] for n in p}.items()), t
        assert list(t.cluster_fields.items()) == list({n: s.fields[n] for n in c}.items()), t
        assert t.fields == s.fields
        assert is_partitioned(t) == bool(p)
        assert t.partition_by == p and t.cluster_by == c
        for x in (s, List(element=s), Set(element=Int64()), Map(key=Int64(), value=Int64()), *LEAF):
            assert is_partitioned(x) is False
        for only in ({"partition_by": p}, {"cluster_by": c}, {"cluster_by": p}):
            assert outcome(lambda: Collection(element=s, **only))[0] == "ok"
    else:
        if not set(p) <= set(s.fields):
            assert outcome(lambda: Collection(element=s, partition_by=p))[0] == "raises"
            assert outcome(lambda: Collection(element=s, cluster_by=p))[0] == "raises"
    return (s, p, c)


@scenario("C18", runs=300, bound="up to 3 items of scalar types, given as set, list, tuple, generator or frozenset")
def enums_accept_exactly_items_of_their_type(rng, tmp):
    g = gen_items(rng)
    t, items = g["type_"], g["items"]
    py = {"Int64": int, "String": str, "Float64": float, "Boolean": bool}[t._arti_type_key_]
    want = len(items) > 0 and all(isinstance(x, py) for x in items)
    how = rng.choice([frozenset, set, list, tuple, iter, lambda x: (y for y in x), lambda x: dict.fromkeys(x).keys()])
    r = outcome(lambda: Enum(type=t, items=how(items)))
    assert (r[0] == "ok") == want, (t, items, r)
    if want:
        assert r[1].items == items and isinstance(r[1].items, frozenset)
        assert outcome(lambda: Enum(type=t, items={x: 1 for x in items}))[0] == "raises"
    return (t, items)
