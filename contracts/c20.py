"""C20: external schema conversions keep structure, width, precision and nullability."""

import copy
import json
import typing
import warnings
from typing import get_args, get_origin

import numpy as np
import pandas as pd
import pyarrow as pa
from google.cloud import bigquery
from pydantic import BaseModel

import arti.types as T
import arti.types.bigquery as bq_module
from arti.types import Collection, List, Map, Set, Struct, Type, TypeSystem
from arti.types.bigquery import bigquery_type_system
from arti.types.numpy import numpy_type_system
from arti.types.pandas import pandas_type_system
from arti.types.pyarrow import pyarrow_type_system
from arti.types.pydantic import pydantic_type_system
from contracts import common
from contracts.c19 import same, widened
from pyvc.core import *
from pyvc.source import function_ast
from pyvc.spec import *

__lemmas__ = True

Str = KStr()
PRECISIONS = ["second", "millisecond", "microsecond", "nanosecond"]
INTS = [getattr(T, f"{u}Int{n}") for u in ("", "U") for n in (8, 16, 32, 64)]
FLOATS = [T.Float16, T.Float32, T.Float64]
TIMES = [T.DateTime, T.Time, T.Timestamp]


def there_and_back(system, t):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h = system.to_system(t, hints={})
        return h, system.to_artigraph(h, hints={})


# ---------------------------------------------------------------------------- whole types (bounded)


def names(rng, most=4):
    return rng.sample(["a", "b", "Zed", "c_1", "day", "x2"], rng.randint(0, most))


def scalar(rng, kinds):
    k = rng.choice(kinds)
    if k in TIMES:
        return k(precision=rng.choice(PRECISIONS))
    if k is T.Binary and "sized" in kinds:
        return k(byte_size=rng.choice([None, 0, 1, 16, 4096]))
    return k() if isinstance(k, type) else T.Binary()


PA = ["sized", T.Binary, T.Boolean, T.Date, T.String, *INTS, *FLOATS, *TIMES]


def nullable(rng, t):
    return t.model_copy(update={"nullable": True}) if rng.random() < 0.4 else t


def pa_type(rng, depth=3):
    k = rng.choice(["s", "s", "list", "map", "struct"]) if depth else "s"
    if k == "s":
        return scalar(rng, PA)
    if k == "list":
        return List(element=pa_type(rng, depth - 1))
    if k == "map":
        return Map(key=pa_type(rng, depth - 1), value=pa_type(rng, depth - 1))
    return pa_struct(rng, depth)


def pa_struct(rng, depth):
    fields = {n: nullable(rng, pa_type(rng, depth - 1)) for n in names(rng)}
    if fields and rng.random() < 0.1:
        fields[next(iter(fields))] = T.Null(nullable=True)
    return Struct(fields=fields)


@scenario("C20", runs=1500, bound="random types of depth up to 3 over every kind the PyArrow system has")
def types_survive_pyarrow(rng, tmp):
    t = pa_type(rng)
    h, back = there_and_back(pyarrow_type_system, t)
    assert isinstance(h, pa.DataType) and same(back, t), (t, h, back)
    return str(h)


PA_LEAF = [pa.string(), pa.null(), pa.bool_(), pa.date32(), pa.date64(), pa.binary(), pa.binary(7), pa.int8(), pa.uint16(), pa.int32(), pa.uint64(), pa.float16(),
           pa.float64(), *[pa.timestamp(u, tz) for u in ("s", "ms", "us", "ns") for tz in (None, "UTC", "utc")], pa.time32("s"), pa.time32("ms"), pa.time64("us"), pa.time64("ns")]
PA_BAD = [pa.decimal128(5), pa.large_string(), pa.large_binary(), pa.large_list(pa.int8()), pa.dictionary(pa.int8(), pa.string()), pa.duration("s"),
          pa.timestamp("s", "Europe/Berlin"), pa.timestamp("us", "+01:00"), pa.list_(pa.int8(), 3), pa.month_day_nano_interval(), "int8", int, None]


def pa_schema(rng, depth=2, bad=0.0):
    """A PyArrow type, its normal form, and whether it is convertible."""
    if rng.random() < bad:
        return rng.choice([x for x in PA_BAD if isinstance(x, pa.DataType)]), None
    k = rng.choice(["s", "list", "map", "struct"]) if depth else "s"
    if k == "s":
        h = rng.choice(PA_LEAF)
        if h == pa.date32():
            return h, pa.date64()
        return h, pa.timestamp(h.unit, "UTC") if pa.types.is_timestamp(h) and h.tz else h
    a, an = pa_schema(rng, depth - 1, bad)
    if k == "list":
        return pa.list_(a), None if an is None else pa.list_(an)
    if k == "map":
        b, bn = pa_schema(rng, depth - 1, bad)
        if a == pa.null():  # PyArrow map keys are never null
            a, an = pa.int8(), pa.int8()
        return pa.map_(a, b), None if an is None or bn is None else pa.map_(an, bn)
    fs = [(n, *pa_schema(rng, depth - 1, bad), rng.random() < 0.5) for n in names(rng, 3)]
    fs = [(n, x, y, null or x == pa.null()) for n, x, y, null in fs]
    return pa.struct([pa.field(n, x, null) for n, x, _, null in fs]), \
        pa.struct([pa.field(n, y, null) for n, _, y, null in fs]) if all(f[2] is not None for f in fs) else None


@scenario("C20", runs=800, bound="random PyArrow types of depth up to 2, some unsupported")
def pyarrow_types_survive(rng, tmp):
    h, normal = pa_schema(rng, 2, rng.choice([0, 0, 0.2]))
    r = outcome(lambda: pyarrow_type_system.to_artigraph(h, hints={}))
    assert (r[0] == "ok") == (normal is not None), (h, r)
    if r[0] == "ok":
        back = pyarrow_type_system.to_system(r[1], hints={})
        assert back.equals(normal), (h, r[1], back)
    for x in PA_BAD:
        assert outcome(lambda: pyarrow_type_system.to_artigraph(x, hints={}))[0] == "raises", x
    return str(h)


TEXT = ["anon", "events", "p.d.t", "caf\u00e9 \"x\"", "", "a b"]


@scenario("C20", runs=700, bound="collections of random structs of depth up to 2, any partition and cluster columns")
def collections_survive_pyarrow(rng, tmp):
    element = pa_struct(rng, 2)
    cols = list(element.fields)
    rng.shuffle(cols)
    i, j = sorted(rng.randint(0, len(cols)) for _ in range(2))
    t = Collection(name=rng.choice(TEXT), element=element, partition_by=tuple(cols[:i]), cluster_by=tuple(cols[i:j]))
    h, back = there_and_back(pyarrow_type_system, t)
    assert isinstance(h, pa.Schema) and back == t and same(back.element, element), (t, h, back)
    assert (back.name, back.partition_by, back.cluster_by) == (t.name, t.partition_by, t.cluster_by)
    plain = pa.schema(list(h), metadata=rng.choice([None, {"other": "x"}]))
    assert pyarrow_type_system.to_artigraph(plain, hints={}) == Collection(element=element)
    return str(h)


BQ = [T.Binary, T.Boolean, T.Date, T.Geography, T.String, *INTS[:4], *FLOATS, *TIMES]


def bq_type(rng, depth=3, listed=False):
    k = rng.choice(["s", "s", "list", "struct", "struct"]) if depth else "s"
    if k == "list" and not listed:
        return List(element=bq_type(rng, depth - 1, True), nullable=rng.random() < 0.2)
    if k == "struct":
        t = Struct(fields={n: bq_type(rng, depth - 1) for n in names(rng)})
    else:
        t = scalar(rng, BQ)
    return t.model_copy(update={"nullable": rng.random() < 0.4, **({} if listed or rng.random() < 0.7 else {"description": "about"})})


def degraded(t, listed=False):
    """What BigQuery can express of a type."""
    null = False if listed else t.nullable
    if isinstance(t, List):
        return List(element=degraded(t.element, True))
    if isinstance(t, Struct):
        return Struct(description=t.description, fields={n: degraded(f) for n, f in t.fields.items()}, nullable=null)
    if type(t) in TIMES:
        return type(t)(precision="microsecond", nullable=null, description=t.description)
    kind = T.Int64 if type(t) in INTS else T.Float64 if type(t) in FLOATS else type(t)
    return kind(nullable=null, description=t.description)


@scenario("C20", runs=1500, bound="random types of depth up to 3 over every kind the BigQuery system has")
def types_survive_bigquery(rng, tmp):
    t = bq_type(rng)
    h, back = there_and_back(bigquery_type_system, t)
    want = degraded(t)
    assert isinstance(h, bigquery.SchemaField) and same(back, want) and back.description == want.description, (t, h, back)
    again = bigquery_type_system.to_artigraph(bigquery.SchemaField.from_api_repr(h.to_api_repr()), hints={})
    assert same(again, want), (t, again)
    h2, back2 = there_and_back(bigquery_type_system, back)
    assert h2 == h and same(back2, back), (t, h, h2)
    assert outcome(lambda: bigquery_type_system.to_system(List(element=List(element=t)), hints={}))[0] == "raises"
    s = Struct(fields={"x": List(element=t)})
    assert (outcome(lambda: there_and_back(bigquery_type_system, s))[0] == "raises") == isinstance(t, List)
    return str(h)


@scenario("C20", runs=700, bound="collections of random structs of depth up to 2, any partition and cluster columns")
def collections_become_bigquery_tables(rng, tmp):
    element = Struct(fields={n: bq_type(rng, 1) for n in names(rng)})
    if rng.random() < 0.7:
        element = Struct(fields={**element.fields, "d": rng.choice([T.Date(), T.DateTime(precision="second"), T.Timestamp(precision="nanosecond")])})
    cols = list(element.fields)
    rng.shuffle(cols)
    i, j = sorted(rng.randint(0, len(cols)) for _ in range(2))
    if "d" in cols[:i] and rng.random() < 0.8:
        cols.remove("d")
        cols.insert(0, "d")
    name = rng.choice(["anon", "proj.data.tab", "p-1.d_2.t"])
    t = Collection(name=name, element=element, partition_by=tuple(cols[:i]), cluster_by=tuple(cols[i:j]))
    head = t.partition_by[:1]
    legal = not head or isinstance(element.fields[head[0]], (T.Date, T.DateTime, T.Timestamp))
    r = outcome(lambda: there_and_back(bigquery_type_system, t))
    assert (r[0] == "ok") == legal, (t, r)
    if not legal:
        want = NotImplementedError if isinstance(element.fields[head[0]], T._Int) else ValueError
        assert raises(want, lambda: there_and_back(bigquery_type_system, t)), t
        return "not partitionable"
    h, back = r[1]
    assert isinstance(h, bigquery.Table)
    want = Collection(name="project.dataset.table" if name == "anon" else name, element=degraded(element), partition_by=head,
                      cluster_by=(*t.partition_by[1:], *t.cluster_by))
    assert back == want and same(back.element, want.element), (t, back)
    if rng.random() < 0.3:
        h.range_partitioning = bigquery.RangePartitioning(field="n", range_=bigquery.PartitionRange(start=0, end=9, interval=1))
        assert raises(NotImplementedError, lambda: bigquery_type_system.to_artigraph(h, hints={}))
    elif head:
        h.time_partitioning = bigquery.TimePartitioning(field=head[0], type_=rng.choice(["HOUR", "MONTH", "YEAR"]))
        assert raises(NotImplementedError, lambda: bigquery_type_system.to_artigraph(h, hints={}))
    return str(back)


NP = [T.Binary, T.Boolean, T.String, *INTS, *FLOATS]


@scenario("C20", runs=300, bound="every NumPy scalar, arrays nested up to 3 deep")
def types_survive_numpy(rng, tmp):
    for k in NP:
        h, back = there_and_back(numpy_type_system, k())
        assert same(back, k()) and same(numpy_type_system.to_artigraph(np.dtype(h), hints={}), k()), (k, h, back)
    t = scalar(rng, NP)
    for _ in range(rng.randint(1, 3)):
        t = List(element=t)
    h, back = there_and_back(numpy_type_system, t)
    assert same(back, t), (t, h, back)
    for x in (np.complex64, np.dtype("O"), object, np.datetime64, "x"):
        assert outcome(lambda: numpy_type_system.to_artigraph(x, hints={}))[0] == "raises", x
    return str(t)


@scenario("C20", runs=150, bound="data frames of up to 4 scalar columns, series of every scalar")
def types_survive_pandas(rng, tmp):
    kinds = [k for k in NP if k is not T.Binary]
    for k in kinds:
        h, back = there_and_back(pandas_type_system, List(element=k()))
        assert isinstance(h, pd.Series) and same(back, List(element=k())), (k, back)
        assert same(there_and_back(pandas_type_system, k())[1], k()), k
    t = List(element=Struct(fields={n: scalar(rng, kinds) for n in names(rng)}))
    h, back = there_and_back(pandas_type_system, t)
    assert isinstance(h, pd.DataFrame) and list(h.columns) == list(t.element.fields) and same(back, t), (t, back)
    for bad in (T.Binary(), T.Date(), Struct(fields={}), List(element=T.Int8())):
        assert outcome(lambda: there_and_back(pandas_type_system, List(element=Struct(fields={"x": bad}))))[0] == "raises", bad
    return str(t)


LITERALS = {T.String: ["a", "b", ""], T.Int64: [1, -2, 3], T.Boolean: [True, False]}


def py_type(rng, depth, name=None):
    k = rng.choice(["s", "s", "enum", "list", "set", "map", "struct", "struct"]) if depth else "s"
    if k == "struct":
        t = py_struct(rng, depth, name or rng.choice(["Row", "Item", "anon"]))
    elif k == "enum":
        e = rng.choice(list(LITERALS))
        t = T.Enum(name=name or "anon", type=e(), items=rng.sample(LITERALS[e], rng.randint(1, len(LITERALS[e]))))
    elif k == "s":
        t = scalar(rng, [T.Binary, T.Boolean, T.Date, T.String, T.Null, *INTS[:4], *FLOATS])
        if isinstance(t, T.Null):
            return t
    elif k == "map":
        t = Map(key=py_type(rng, depth - 1), value=py_type(rng, depth - 1))
    else:
        t = {"list": List, "set": Set}[k](element=py_type(rng, depth - 1))
    return nullable(rng, t)


def py_struct(rng, depth, name):
    return Struct(name=name, fields={n: py_type(rng, depth - 1, n) for n in names(rng)})


@scenario("C20", runs=150, bound="structs of depth up to 3; nested structs and enumerations that are fields carry their field's name")
def types_survive_pydantic(rng, tmp):
    t = py_struct(rng, rng.randint(1, 3), rng.choice(["Row", "anon", "Thing_1"]))
    h, back = there_and_back(pydantic_type_system, t)
    assert issubclass(h, BaseModel) and h.__name__ == t.name and list(h.model_fields) == list(t.fields)
    assert all(f.is_required() for f in h.model_fields.values())
    assert same(back, widened(t)), (t, back)
    return str(t)


# ---------------------------------------------------------------------------- PyArrow, one level at a time


PA_CHECKS = {"string": pa.types.is_string, "null": pa.types.is_null, "binary": pa.types.is_binary, "fixed_size_binary": pa.types.is_fixed_size_binary,
             "boolean": pa.types.is_boolean, "list": pa.types.is_list, "map": pa.types.is_map, "struct": pa.types.is_struct, "timestamp": pa.types.is_timestamp,
             **{n: getattr(pa.types, f"is_{n}") for n in ("date32", "date64", "time32", "time64", "float16", "float32", "float64",
                                                          *(f"{u}int{b}" for u in ("", "u") for b in (8, 16, 32, 64)))}}


class System(TypeSystem):
    """An arbitrary starting system."""


def nesting(e, record, external):
    """Nested types: converted by the starting system, which is assumed to bring them back."""
    e.used_contracts.add("nested types: converted by the starting system, assumed to come back equal (non-nullable ones; C19 dispatch)")
    to_h, to_t = ufun("nested_schema", Ref, Ref), ufun("nested_type", Ref, Ref)

    def to_system(e2, args, kw):
        if issubclass(e2.class_of(e2.res(args[0])), System):
            return external(e2, args, kw, to_h, to_t)
        return e2.call_real(TypeSystem.to_system, function_ast(TypeSystem.to_system), args, kw)

    def to_artigraph(e2, args, kw):
        if issubclass(e2.class_of(e2.res(args[0])), System):
            return record(e2, args, kw, to_h, to_t)
        return e2.call_real(TypeSystem.to_artigraph, function_ast(TypeSystem.to_artigraph), args, kw)

    e.contracts[TypeSystem.to_system] = to_system
    e.contracts[TypeSystem.to_artigraph] = to_artigraph
    common.record(e, List, Set, Map, Struct, Collection, T.Binary)
    e.contracts[Type.model_copy] = with_nullable


def with_nullable(e2, args, kw):
    """model_copy changes exactly `nullable`."""
    v, up = e2.res(args[0]), e2.content(e2.res(kw.get("update")))
    if set(up.d) == {"element"} and isinstance(v, SObj) and v.exact:
        return e2.new_obj(v.cls, **{n: up.d[n] if n in up.d else e2.getattr(v, n) for n in v.cls.model_fields})
    if set(up.d) != {"nullable"}:
        raise Unsupported("model_copy")
    if isinstance(v, Type) and isinstance(up.d["nullable"], bool):
        return v.model_copy(update=dict(up.d))
    b = e2.as_bool_term(up.d["nullable"])
    t, w = e2.ref(v), ufun("with_nullable", Ref, z3.BoolSort(), Ref)
    r = SObj(w(t, b), e2.nominal_class(v) if isinstance(v, SObj) else v.cls)
    e2.fact(e2.as_bool_term(e2.getattr(r, "nullable")) == b)
    was = e2.as_bool_term(e2.getattr(v, "nullable"))
    e2.fact(w(w(t, b), was) == t)
    e2.fact(z3.Implies(was == b, w(t, b) == t))
    if isinstance(v, SObj) and not v.exact:
        for cls in (List, Struct, Collection):
            e2.fact(e2.isa_pred(cls)(r.t) == e2.isa_pred(cls)(t))
    return r


def pyarrow(engine):
    e = engine
    e.used_contracts.add("pyarrow: a type or field gives back the parts it was built from, and is_<kind> answers for exactly that kind; json: loads undoes dumps")

    def external(e2, args, kw, to_h, to_t):
        # PyArrow types do not carry nullability, so the type comes back without it.
        t = e2.ref(e2.res(args[1]))
        plain = e2.ref(with_nullable(e2, [SObj(t, Type)], {"update": CDict({"nullable": False})}))
        e2.fact(to_t(to_h(t)) == plain)
        return SObj(to_h(t), pa.DataType)

    nesting(e, lambda e2, args, kw, to_h, to_t: SObj(to_t(e2.ref(e2.res(args[1]))), Type), external)

    def build(kind, cls, *names, **defaults):
        def f(e2, args, kw):
            vals = {**defaults, **dict(zip(names, args)), **kw}
            over = {n: vals[n] for n in names}
            return SObj(e2.uf_ref(f"pa.{kind}", *[over[n] for n in names]), cls, True, {"kind": kind, **over})
        return f

    e.contracts[pa.list_] = build("list", pa.ListType, "value_type")
    e.contracts[pa.map_] = build("map", pa.MapType, "key_type", "item_type")
    e.contracts[pa.field] = build("field", pa.Field, "name", "type", "nullable", nullable=True)

    def binary(e2, args, kw):
        n = e2.res(kw.get("length", args[0] if args else -1))
        if e2.branch(e2.int_term(n) == -1):
            return SObj(e2.uf_ref("pa.binary"), pa.DataType, True, {"kind": "binary"})
        return SObj(e2.uf_ref("pa.fixed_binary", n), pa.FixedSizeBinaryType, True, {"kind": "fixed_size_binary", "byte_width": n})

    e.contracts[pa.binary] = binary

    def struct(kind, cls):
        def f(e2, args, kw):
            src = e2.res(args[0])
            fields = src.over["fields"] if isinstance(src, SObj) else e2.freeze(src) if isinstance(src, Cell) else src
            return SObj(z3.FreshConst(Ref, kind), cls, True, {"kind": kind, "fields": fields, "metadata": None})
        return f

    e.contracts[pa.struct] = struct("struct", pa.StructType)
    e.contracts[pa.schema] = struct("schema", pa.Schema)
    for c in (pa.StructType, pa.Schema):
        e.attr_specs[(c, "__iter__")] = lambda e2, v: v.over["fields"]

    def with_metadata(e2, v):
        def f(e3, a, k):
            d = e3.content(e3.res(a[0]))
            return SObj(z3.FreshConst(Ref, "schema"), pa.Schema, True, {**v.over, "metadata": CDict({n.encode(): x for n, x in d.d.items()})})
        return Native(f, "with_metadata")

    e.attr_specs[(pa.Schema, "with_metadata")] = with_metadata

    def dumps(e2, args, kw):
        d = e2.freeze(e2.res(args[0]))
        r = SObj(z3.FreshConst(Ref, "json"), bytes, False, {"parsed": d})
        r.over["decode"] = Native(lambda e3, a, k: r, "decode")
        return r

    e.contracts[json.dumps] = dumps
    def loads(e2, args, kw):
        # tuples come back as lists
        d = e2.res(args[0]).over["parsed"].d
        return Cell(dict, CDict({n: Cell(list, SSeq(x.parts, x.ek, list)) if isinstance(x := e2.content(e2.res(v)), SSeq) else v for n, v in d.items()}))

    e.contracts[json.loads] = loads
    for fn in (pa.bool_, pa.string, pa.null, pa.timestamp, *[getattr(pa, n) for n in PA_CHECKS if n[-1] in "8642" and hasattr(pa, n)]):
        e.contracts[fn] = lambda e2, args, kw, fn=fn: fn(*[e2.res(a) for a in args], **kw)
    for kind, fn in PA_CHECKS.items():
        def check(e2, args, kw, kind=kind, fn=fn):
            v = e2.res(args[0])
            if isinstance(v, SObj):
                return v.over["kind"] == kind
            try:
                return fn(v)
            except AttributeError as exc:
                e2.raise_(AttributeError, str(exc))
        e.contracts[fn] = check


ROOT = lambda e, n: SObj(z3.Const(n, Ref), System)


def nested_pa(rng):
    return pa_type(rng, 1)


def PL(**params):
    return lemma("C20", setup=pyarrow, params=dict(root=ROOT, **{n: KObj(Type) for n in params}), samples=100,
                 gen=lambda rng: dict(root=pyarrow_type_system, **{n: nested_pa(rng) for n in params}))


def via(system, t, root):
    h = system.to_system(t, hints={}, root_type_system=root)
    return h, system.to_artigraph(h, hints={}, root_type_system=root)


@PL(t=0)
def pyarrow_lists_round_trip(root, t):
    assume(not t.nullable)
    h, back = via(pyarrow_type_system, List(element=t), root)
    assert h.value_type == root.to_system(t, hints={})
    assert isinstance(back, List) and back.element == t and not back.nullable


@PL(t=0, u=0)
def pyarrow_maps_round_trip(root, t, u):
    assume(not t.nullable and not u.nullable)
    h, back = via(pyarrow_type_system, Map(key=t, value=u), root)
    assert h.key_type == root.to_system(t, hints={}) and h.item_type == root.to_system(u, hints={})
    assert isinstance(back, Map) and back.key == t and back.value == u and not back.nullable


@lemma("C20", setup=pyarrow, params=dict(root=ROOT, fields=KDict(Str, KObj(Type))), samples=100,
       gen=lambda rng: dict(root=pyarrow_type_system, fields={n: nullable(rng, nested_pa(rng)) for n in names(rng)}))
def pyarrow_structs_keep_fields_order_and_nullability(root, fields):
    h, back = via(pyarrow_type_system, Struct(fields=fields), root)
    assert isinstance(back, Struct) and not back.nullable
    assert list(back.fields) == list(fields)
    assert all(back.fields[n] == fields[n] for n in fields)
    assert all(back.fields[n].nullable == fields[n].nullable for n in fields)


@lemma("C20", setup=pyarrow, params=dict(root=ROOT, n=KInt()), samples=50, gen=lambda rng: dict(root=pyarrow_type_system, n=rng.choice([0, 1, 7, 1 << 20, rng.randint(0, 1 << 30)])))
def pyarrow_binaries_keep_their_size(root, n):
    assume(n >= 0)
    h, back = via(pyarrow_type_system, T.Binary(byte_size=n), root)
    assert isinstance(back, T.Binary) and back.byte_size == n
    h, back = via(pyarrow_type_system, T.Binary(), root)
    assert isinstance(back, T.Binary) and back.byte_size is None


@lemma("C20", setup=pyarrow, params=dict(root=ROOT, fields=KDict(Str, KObj(Type)), name=Str, p=KSeq(Str, tuple), c=KSeq(Str, tuple)), samples=60,
       gen=lambda rng: (lambda f: dict(root=pyarrow_type_system, fields=f, name=rng.choice(TEXT), p=tuple(f)[:1], c=tuple(f)[1:]))({n: nullable(rng, nested_pa(rng)) for n in names(rng)}))
def pyarrow_schemas_keep_name_and_columns(root, fields, name, p, c):
    h, back = via(pyarrow_type_system, Collection(name=name, element=Struct(fields=fields), partition_by=p, cluster_by=c), root)
    assert isinstance(back, Collection) and back.name == name and not back.nullable
    assert back.partition_by == p and back.cluster_by == c
    assert list(back.element.fields) == list(fields)
    assert all(back.element.fields[n] == fields[n] for n in fields)


@lemma("C20", setup=pyarrow, params=dict(root=ROOT), gen=lambda rng: dict(root=pyarrow_type_system), samples=2)
def pyarrow_scalars_keep_width_and_precision(root):
    for t in [T.Boolean(), T.Date(), T.String(), T.Null(), *[k() for k in INTS + FLOATS], *[k(precision=p) for k in TIMES for p in PRECISIONS]]:
        h, back = via(pyarrow_type_system, t, root)
        assert type(back) is type(t) and back == t
    for h in PA_BAD:
        assert outcome(lambda: pyarrow_type_system.to_artigraph(h, hints={}, root_type_system=root))[0] == "raises"
    for t in (T.Set(element=T.Int8()), T.Enum(type=T.String(), items=("a",))):
        assert raises(NotImplementedError, lambda: pyarrow_type_system.to_system(t, hints={}, root_type_system=root))


# ---------------------------------------------------------------------------- BigQuery, one level at a time


HINT = bq_module.BIGQUERY_HINT_FIELD_NAME


def bq_code(engine, mutable=False):
    """SchemaField's own code runs; nested fields are opaque."""
    e = engine
    e.inline_prefixes = (*e.inline_prefixes, "google.cloud.bigquery.schema")
    e.used_contracts.add("copy.deepcopy of a SchemaField: an independent equal field")
    e.attr_specs[(bigquery.SchemaField, "name")] = Str
    e.attr_specs[(bigquery.SchemaField, "mode")] = Str

    def external(e2, args, kw, to_h, to_t):
        t, hints = e2.res(args[1]), e2.content(e2.res(kw["hints"]))
        n = hints.d.get(HINT, "anon")
        null = e2.as_bool_term(e2.getattr(t, "nullable"))
        mode = z3.If(null, z3.StringVal("NULLABLE"), z3.StringVal("REQUIRED"))
        if mutable:
            return Inst(bigquery.SchemaField, {"_properties": Cell(dict, CDict({"name": n, "type": "OPAQUE", "mode": SStr(z3.simplify(mode))})), "_fields": (), "_of": t})
        h = ufun("bq_field", Ref, z3.StringSort(), Ref)(e2.ref(t), z3.StringVal(n) if isinstance(n, str) else n.t)
        r = SObj(h, bigquery.SchemaField)
        e2.fact(e2.getattr(r, "name").t == (z3.StringVal(n) if isinstance(n, str) else n.t))
        e2.fact(to_t(h) == e2.ref(t))
        return r

    def internal(e2, args, kw, to_h, to_t):
        h = e2.res(args[1])
        if isinstance(h, Inst):
            t = h.f["_of"]
            mode = e2.getattr(h, "mode")
            null = e2.branch(e2.as_bool_term(e2.eq(mode, "NULLABLE")))
            return with_nullable(e2, [t], {"update": CDict({"nullable": null})})
        return SObj(to_t(e2.ref(h)), Type)

    nesting(e, internal, external)

    def deepcopy(e2, args, kw):
        v = e2.res(args[0])
        if not isinstance(v, Inst):
            raise Unsupported("deepcopy")
        d = dict(v.f)
        d["_properties"] = Cell(dict, e2.freeze(d["_properties"]))
        return Inst(bigquery.SchemaField, d)

    e.contracts[copy.deepcopy] = deepcopy
    e.contracts[bq_module.warnings.warn] = lambda e2, args, kw: None


    e.contracts[quiet] = lambda e2, args, kw: e2.call(args[0], [], {})
    e.contracts[element_of] = lambda e2, args, kw: with_nullable(e2, args, {"update": CDict({"nullable": False})})


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def element_of(t):
    return degraded(t, True)


def nested_bq(rng):
    return bq_type(rng, 1)


BQL = lambda setup, **params: lemma("C20", setup=setup, params=dict(root=ROOT, **params), samples=100,
                                    gen=lambda rng: dict(root=bigquery_type_system, **{
                                        n: nested_bq(rng) if isinstance(k, KObj) else {f: degraded(nested_bq(rng)) for f in names(rng)} if isinstance(k, KDict) else rng.random() < 0.5 if isinstance(k, KBool) else rng.choice(["x", "y z"])
                                        for n, k in params.items()}))


@BQL(lambda e: bq_code(e, True), t=KObj(Type), name=Str)
def bigquery_arrays_keep_their_element(root, t, name):
    assume(not isinstance(t, List))
    plain = element_of(t)
    h = quiet(lambda: bigquery_type_system.to_system(List(element=t), hints={HINT: name}, root_type_system=root))
    assert h.mode == "REPEATED" and h.name == name
    back = bigquery_type_system.to_artigraph(h, hints={}, root_type_system=root)
    assert h.mode == "REPEATED"  # converting does not change the field
    assert isinstance(back, List) and not back.nullable and back.element == plain and not back.element.nullable



@BQL(bq_code, fields=KDict(Str, KObj(Type)), nullable=KBool(), name=Str)
def bigquery_records_keep_fields_order_and_nullability(root, fields, nullable, name):
    h = bigquery_type_system.to_system(Struct(fields=fields, nullable=nullable), hints={HINT: name}, root_type_system=root)
    assert h.name == name and h.is_nullable == nullable and h.field_type == "RECORD"
    back = bigquery_type_system.to_artigraph(h, hints={}, root_type_system=root)
    assert isinstance(back, Struct) and back.nullable == nullable
    assert list(back.fields) == list(fields)
    assert all(back.fields[n] == fields[n] for n in fields)
    assert [f.name for f in h.fields] == list(fields)


@lemma("C20", setup=bq_code, params=dict(root=ROOT, name=Str), gen=lambda rng: dict(root=bigquery_type_system, name=rng.choice(["a", "x1"])), samples=4)
def bigquery_scalars_keep_kind_and_nullability(root, name):
    same_kind = [k() for k in (T.Binary, T.Boolean, T.Date, T.Geography, T.String)]
    for t in [*same_kind, *[k() for k in INTS[:4] + FLOATS], *[k(precision=p) for k in TIMES for p in PRECISIONS]]:
        for null in (False, True):
            u = t.model_copy(update={"nullable": null})
            h = bigquery_type_system.to_system(u, hints={HINT: name}, root_type_system=root)
            assert h.name == name and h.is_nullable == null
            back = bigquery_type_system.to_artigraph(h, hints={}, root_type_system=root)
            assert back == degraded(u)
    for t in (T.UInt8(), T.UInt64(), T.Null(), Map(key=T.String(), value=T.String()), T.Set(element=T.Int8())):
        assert raises(NotImplementedError, lambda: bigquery_type_system.to_system(t, hints={}, root_type_system=root))
