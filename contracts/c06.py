"""C06: partition keys survive their text form."""

import datetime
from itertools import combinations

from arti.partitions import (
    DateField, Int8Field, Int16Field, Int32Field, Int64Field, NullField, PartitionField, PartitionKey,
)
from arti.types import Collection, Date, Int8, Int16, Int32, Int64, Null, Type
from contracts import common
from pyvc.spec import *

__lemmas__ = True

Str, Int = KStr(), KInt()
DateK = KObj(datetime.date, exact=True)
INTS = [Int8Field, Int16Field, Int32Field, Int64Field]


def code(engine):
    common.dates(engine)
    common.record(engine, DateField, NullField, *INTS)


def gen(rng):
    d = datetime.date.fromordinal(rng.choice([1, 2, 365, 719163, 3652059, rng.randint(1, 3652059)]))
    e = datetime.date.fromordinal(rng.choice([d.toordinal(), rng.randint(1, 3652059)]))
    n = rng.choice([0, 1, -1, 10, -255, 2**63 - 1, -(2**63), rng.randint(-300, 300)])
    t = lambda: rng.choice(["", "1", "-1", "0x1", "1970-01-01", "None", "x", "2021", " 1", "02", "ff", str(d), hex(n)])
    return dict(d=d, e=e, v=n, w=rng.choice([n, -n, n + 1]), a=t(), b=t(), c=t(), x=t())


def pick(*names):
    return lambda rng: {k: x for k, x in gen(rng).items() if k in names}


def L(name=None, samples=200, **params):
    consts = {k: v for k, v in params.items() if isinstance(v, KConst)}
    rest = [k for k in params if k not in consts]
    g = lambda rng: {**pick(*rest)(rng), **{k: v.value for k, v in consts.items()}}
    return lemma("C06", setup=code, params=params, gen=g, name=name, samples=samples)


@L(d=DateK, e=DateK)
def dates_survive(d, e):
    f = DateField(value=d)
    assert DateField.from_components(iso=f.iso) == f
    assert DateField.from_components(value=d.isoformat()) == f
    assert DateField.from_components(Y=str(f.Y), m=str(f.m), d=str(f.d)) == f
    assert f.Y == d.year and f.m == d.month and f.d == d.day and f.iso == d.isoformat()
    g = DateField(value=e)
    if d != e:
        assert f != g
        assert f.iso != g.iso
        assert (f.Y, f.m, f.d) != (g.Y, g.m, g.d)


def _ints():
    for cls in INTS:

        def numbers_survive(cls, v, w):
            f, g = cls(value=v), cls(value=w)
            assert f.value == v
            assert f.hex == hex(v)
            assert cls.from_components(value=str(f.value)) == f
            assert cls.from_components(hex=f.hex) == f
            assert type(cls.from_components(hex=f.hex)) is cls
            if v != w:
                assert f != g
                assert str(f.value) != str(g.value)
                assert f.hex != g.hex

        def texts_denote_their_value(cls, a):
            for kw, base in (({"value": a}, 10), ({"hex": a}, 16)):
                r = outcome(lambda: cls.from_components(**kw))
                want = outcome(lambda: int(a, base))
                assert r[0] == want[0]
                if r[0] == "ok":
                    assert r[1] == cls(value=want[1])

        L(name=f"numbers_survive_{cls.__name__}", cls=KConst(cls), v=Int, w=Int)(numbers_survive)
        L(name=f"texts_denote_their_value_{cls.__name__}", cls=KConst(cls), a=Str)(texts_denote_their_value)


_ints()


@L(a=Str, b=Str, c=Str)
def date_texts_denote_their_value(a, b, c):
    for kw in ({"value": a}, {"iso": a}):
        r, want = outcome(lambda: DateField.from_components(**kw)), outcome(lambda: datetime.date.fromisoformat(a))
        assert r[0] == want[0]
        if r[0] == "ok":
            assert r[1] == DateField(value=want[1])
    r = outcome(lambda: DateField.from_components(d=c, Y=a, m=b))
    want = outcome(lambda: datetime.date(int(a), int(b), int(c)))
    assert r[0] == want[0]
    if r[0] == "ok":
        assert r[1] == DateField(value=want[1])


@L(x=Str)
def only_none_denotes_null(x):
    f = NullField()
    assert NullField.from_components(value=str(f.value)) == f
    if x == "None":
        assert NullField.from_components(value=x) == f
    else:
        assert raises(ValueError, lambda: NullField.from_components(value=x))


COMPLETE = {
    DateField: [{"value"}, {"iso"}, {"Y", "m", "d"}],
    NullField: [{"value"}],
    **{c: [{"value"}, {"hex"}] for c in INTS},
}
NAMES = ["value", "iso", "Y", "m", "d", "hex", "other"]


def _sets():
    for cls, ok in COMPLETE.items():

        def other_component_sets_are_rejected(cls, a, b, c, x):
            texts = {"value": a, "iso": a, "Y": a, "m": b, "d": c, "hex": x, "other": b}
            for n in range(len(NAMES) + 1):
                for names in combinations(NAMES, n):
                    if set(names) not in COMPLETE[cls]:
                        assert outcome(lambda: cls.from_components(**{k: texts[k] for k in names}))[0] == "raises"

        L(name=f"other_component_sets_are_rejected_{cls.__name__}", cls=KConst(cls), a=Str, b=Str, c=Str, x=Str, samples=20)(
            other_component_sets_are_rejected)


_sets()


def fields_code(engine):
    code(engine)
    engine.attr_specs[(Collection, "partition_fields")] = KDict(Str, KObj(Type))


LEAF = [Date(), Int8(), Int16(), Int32(), Int64(), Null()]
FIELD_OF = {Date: DateField, Int8: Int8Field, Int16: Int16Field, Int32: Int32Field, Int64: Int64Field, Null: NullField}


def gen_type(rng):
    from arti.types import Int64 as I, Map, Struct

    if rng.random() < 0.2:
        return dict(t=rng.choice([I(), Struct(fields={"a": I()}), Map(key=I(), value=Null()), Collection(element=Struct(fields={"a": I()}))]), n=rng.choice("ab"))
    names = rng.sample(["a", "b", "c", "x_1", "é"], rng.randint(1, 5))
    fields = {n: rng.choice(LEAF) for n in names}
    by = tuple(rng.sample(names, rng.randint(0, len(names))))
    return dict(t=Collection(element=Struct(fields=fields), partition_by=by), n=rng.choice(names))


@lemma("C06", setup=fields_code, params=dict(t=KObj(Collection), n=Str), gen=lambda rng: _only_collections(rng), samples=200)
def key_types_are_the_partition_fields(t, n):
    """Every partition column, in order, under the kind registered for its type; an unregistered one is an error."""
    r = outcome(lambda: PartitionKey.types_from(t))
    fields = t.partition_fields
    if r[0] == "ok":
        assert list(r[1]) == list(fields)
        assert (n in r[1]) == (n in fields)
        if n in fields:
            kind = type(fields[n])
            assert kind in FIELD_OF and r[1][n] is FIELD_OF[kind]
    else:
        assert not all(type(x) in FIELD_OF for x in fields.values())


def _only_collections(rng):
    while True:
        r = gen_type(rng)
        if isinstance(r["t"], Collection):
            return r


@lemma("C06", setup=code, params=dict(t=KObj(Type)), gen=lambda rng: {"t": gen_type(rng)["t"]})
def only_collections_have_key_types(t):
    if not isinstance(t, Collection):
        assert len(PartitionKey.types_from(t)) == 0


# ------------------------------------------------------------------ bounded stand-ins (real code, sampled)


def _field_value(rng, t):
    lo, hi = {Int8: (-128, 127), Int16: (-2**15, 2**15 - 1), Int32: (-2**31, 2**31 - 1), Int64: (-2**63, 2**63 - 1)}.get(t, (0, 0))
    if t is Date:
        return datetime.date.fromordinal(rng.choice([1, 3652059, rng.randint(1, 3652059), rng.randint(719163, 740000)]))
    return None if t is Null else rng.choice([lo, hi, 0, -1, 1, 10, rng.randint(lo, hi)])


@scenario("C06", runs=400, bound="one partition field of each kind per run, random values, all complete component sets, plain and padded renderings")
def rendered_components_parse_back(rng, tmp):
    kind = rng.choice(list(FIELD_OF))
    cls = FIELD_OF[kind]
    v = _field_value(rng, kind)
    f = cls(value=v)
    g = cls(value=_field_value(rng, kind))
    assert PartitionField.get_class_for(kind()) is cls and f.value == v
    seen = []
    for names in COMPLETE[cls]:
        texts = {n: str(getattr(f, n)) for n in names}
        back = cls.from_components(**texts)
        assert back == f and type(back) is cls and type(back.value) is type(v), (texts, back)
        assert hash(back) == hash(f) and back.fingerprint == f.fingerprint
        other = {n: str(getattr(g, n)) for n in names}
        assert (other == texts) == (g == f) == (g.value == v), (texts, other)
        seen.append(texts)
    # the default rendering, as storage templates use it
    d = {n: format_component(f, spec) for n, spec in cls.default_components.items()}
    assert cls.from_components(**d) == f, d
    dg = {n: format_component(g, spec) for n, spec in cls.default_components.items()}
    assert (dg == d) == (f == g)
    for n in cls.components:
        assert n in {"value", "iso", "Y", "m", "d", "hex"}
        c = getattr(f, n)
        if kind is Date:
            assert c == {"value": v, "iso": v.isoformat(), "Y": v.year, "m": v.month, "d": v.day}[n]
        else:
            assert c == ({"value": v} if kind is Null else {"value": v, "hex": hex(v)})[n]
    # incomplete, excess and unknown component sets
    names = rng.sample(sorted(NAMES), rng.randint(0, 4))
    if set(names) not in COMPLETE[cls]:
        try:
            cls.from_components(**{n: str(getattr(f, n, "1")) for n in names})
        except Exception:  # noqa: BLE001
            pass
        else:
            raise AssertionError(f"{cls.__name__} accepted the components {names}")
    # texts that denote nothing
    for bad in ("", "x", "1.5", "2021-13-01", "2021-02-30", "none", "0x", "--1"):
        for names in COMPLETE[cls]:
            for n in names:
                texts = {m: str(getattr(f, m)) for m in names} | {n: bad}
                try:
                    r = cls.from_components(**texts)
                except ValueError:
                    continue
                raise AssertionError(f"{cls.__name__}.from_components({texts}) == {r}")
    return cls.__name__, seen


def format_component(f, spec):
    attr, _, fmt = spec.partition(":")
    return format(getattr(f, attr), fmt)


@scenario("C06", runs=150, bound="collections of up to 5 columns of every partitionable type; unpartitionable columns; a field kind added by a user")
def key_types_of_real_types(rng, tmp):
    from arti.types import Boolean, Float64, String, Struct, UInt8

    names = rng.sample(["a", "b", "c", "x_1", "é", "value"], rng.randint(1, 5))
    fields = {n: rng.choice(LEAF) for n in names}
    by = tuple(rng.sample(names, rng.randint(0, len(names))))
    if by and rng.random() < 0.3:
        fields[rng.choice(by)] = rng.choice([Boolean(), Float64(), String(), UInt8()])
    t = Collection(element=Struct(fields=fields), partition_by=by)
    bad = [n for n in by if type(fields[n]) not in FIELD_OF]
    try:
        kt = PartitionKey.types_from(t)
        assert not bad
        assert list(kt) == list(by) and dict(kt) == {n: FIELD_OF[type(fields[n])] for n in by}
    except KeyError:
        assert bad
    assert not PartitionKey.types_from(t.element) and not PartitionKey.types_from(Int64())
    return by, fields


@scenario("C06", runs=20, bound="user-declared field kinds, one faulty declaration per run")
def faulty_field_kinds_are_refused(rng, tmp):
    from arti.internal.mappings import frozendict
    from arti.partitions import field_component

    class Odd(Type):
        pass

    how = rng.choice(["twice", "no default", "no type", "unknown", "good"])
    before = dict(PartitionField._by_type_)
    body = {"__module__": __name__, "__annotations__": {"value": int}, "twice": field_component(lambda self: self.value * 2)}
    if how != "no default":
        body["default_components"] = frozendict({"x": "value"} if how == "unknown" else {"twice": "twice"})
    if how != "no type":
        body["matching_type"] = Int64 if how == "twice" else Odd
    try:
        cls = type(PartitionField)("OddField", (PartitionField,), body)
    except (TypeError, ValueError):
        assert how != "good"
        assert PartitionField._by_type_ == before
    else:
        try:
            assert how == "good", how
            assert cls.components == {"value", "twice"} and PartitionField.get_class_for(Odd()) is cls
            assert dict(PartitionField._by_type_) == {**before, Odd: cls}
        finally:
            PartitionField._by_type_.clear()
            PartitionField._by_type_.update(before)
    return how
