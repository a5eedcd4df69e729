"""C03: a model's fingerprint is a function of its identity-relevant content only."""

from typing import Annotated, Any, ClassVar

from pydantic import BaseModel, Field
from pydantic._internal import _model_construction
from pydantic.fields import ComputedFieldInfo, FieldInfo

import arti.internal.models as models
from arti.fingerprints import Fingerprint, SkipFingerprint
from arti.internal.models import Model
from arti.internal.type_hints import get_item_from_annotated
from arti.versions import SemVer
from contracts import common
from pyvc.core import *
from pyvc.spec import *

__lemmas__ = True

Str = KStr()
BoolS = z3.BoolSort()

# ------------------------------------------------------------------ which fields are fingerprinted


class Fake(Model):
    """Stands for any model class while its fields are chosen."""


class Hint:
    """`Annotated[annotation, *metadata]`"""

    def __init__(self, annotation, metadata):
        self.annotation, self.metadata = annotation, metadata


class Hook:
    """A field's annotation."""


def chooser(engine):
    e = engine
    e.used_contracts.add("pydantic: BaseModel.__pydantic_init_subclass__ does nothing; model_fields and model_computed_fields describe the fields")
    e.used_contracts.add("get_item_from_annotated: C22 (its answer is a function of the hint); truthiness of SkipFingerprint is its value")
    e.contracts[BaseModel.__pydantic_init_subclass__.__func__] = lambda e2, a, k: None
    e.attr_specs[(FieldInfo, "annotation")] = KObj(Hook)
    e.attr_specs[(FieldInfo, "metadata")] = KSeq(KObj(object), list)
    e.attr_specs[(FieldInfo, "exclude")] = KAlt([KConst(None), KBool()])
    e.attr_specs[(ComputedFieldInfo, "return_type")] = KObj(Hook)
    skip = ufun("skips", Ref, BoolS)
    annotated = ufun("Annotated", Ref, Ref, Ref)
    meta = ufun("metadata_of", Ref, Ref)

    def from_annotated(e2, args, kw):
        t = e2.ref(e2.res(args[0]))
        return SAlt([(skip(t), SkipFingerprint(True)), (z3.Not(skip(t)), kw["default"])])

    e.contracts[get_item_from_annotated] = from_annotated
    e.contracts[SkipFingerprint] = lambda e2, a, k: SkipFingerprint(*a, **k)


def skipped(annotation, metadata=()):
    hint = Annotated[annotation, *metadata] if metadata else annotation
    return bool(get_item_from_annotated(hint, SkipFingerprint, default=SkipFingerprint(False), kind="object"))


def model_class(e, n):
    return Inst(Fake, {"model_fields": e.fresh_val(KDict(Str, KObj(FieldInfo)), n + ".fields"),
                       "model_computed_fields": e.fresh_val(KDict(Str, KObj(ComputedFieldInfo)), n + ".computed"),
                       "model_config": {"frozen": True}}, payload="class")


def gen_class(rng):
    metas = [SkipFingerprint(), SkipFingerprint(False), "doc", Field(repr=False), Field(exclude=True)]
    names = rng.sample(["b", "a", "z", "a_b", "aB", "x1", "x10", "x2"], rng.randint(0, 6))
    ns = {"__annotations__": {n: Annotated[(int, *rng.sample(metas, rng.randint(1, 2)))] for n in names if metas}}
    for n in names:
        items = ns["__annotations__"][n].__metadata__
        if sum(isinstance(x, SkipFingerprint) for x in items) > 1:
            ns["__annotations__"][n] = int
    base = rng.choice([Model, Fake, type("Mid", (Model,), {"__annotations__": {"m": int, "a": Annotated[int, SkipFingerprint()]}, "__module__": __name__})])
    return dict(cls=type("Made", (base,), {**ns, "__module__": __name__}), k=rng.choice([*names, "_arti_type_", "m", "a", "zz"]), i=rng.randint(0, 4))


P = dict(setup=chooser, params=dict(cls=model_class, k=Str), gen=lambda rng: {n: v for n, v in gen_class(rng).items() if n != "i"})


@lemma("C03", **P)
def every_field_that_is_not_skipped_is_fingerprinted(cls, k):
    Model.__pydantic_init_subclass__.__func__(cls)
    f = cls.model_fields
    assume(k in f and not f[k].exclude and not skipped(f[k].annotation, f[k].metadata))
    assert k in cls._arti_fingerprint_fields_


@lemma("C03", **P)
def every_computed_field_that_is_not_skipped_is_fingerprinted(cls, k):
    Model.__pydantic_init_subclass__.__func__(cls)
    f = cls.model_computed_fields
    assume(k in f and not skipped(f[k].return_type))
    assert k in cls._arti_fingerprint_fields_


@lemma("C03", **P)
def nothing_else_is_fingerprinted(cls, k):
    Model.__pydantic_init_subclass__.__func__(cls)
    f, g = cls.model_fields, cls.model_computed_fields
    assume(k in cls._arti_fingerprint_fields_)
    assert (k in f and not f[k].exclude and not skipped(f[k].annotation, f[k].metadata)) or (k in g and not skipped(g[k].return_type))


@lemma("C03", params=dict(cls=model_class, i=KInt()), setup=chooser, gen=lambda rng: {n: v for n, v in gen_class(rng).items() if n != "k"})
def fingerprinted_fields_are_sorted(cls, i):
    Model.__pydantic_init_subclass__.__func__(cls)
    got = cls._arti_fingerprint_fields_
    assume(0 <= i < len(got) - 1)
    assert got[i] <= got[i + 1]


# --------------------------------------------------------------- only interfaces are uninstantiable


def maybe_abstract(e, n):
    c = model_class(e, n)
    if e.branch(e.fresh(BoolS, "declares_abstract")):
        c.f["_abstract_"] = e.fresh_val(KBool(), "abstract")
    return c


def gen_abstract(rng):
    base = rng.choice([Model, type("Mid", (Model,), {"_abstract_": True, "__annotations__": {}, "__module__": __name__})])
    own = rng.choice([{}, {"_abstract_": True}, {"_abstract_": False}])
    return dict(cls=type("Made", (base,), {**own, "__annotations__": {"_abstract_": ClassVar[bool]} if own else {}, "__module__": __name__}))


def instantiation(engine):
    chooser(engine)
    engine.contracts[object.__new__] = lambda e2, a, k: SObj(e2.fresh(Ref, "new"), Fake)
    engine.used_contracts.add("object.__new__ returns a new object")


@lemma("C03", params=dict(cls=maybe_abstract), setup=instantiation, gen=gen_abstract)
def exactly_the_declared_interfaces_refuse_instantiation(cls):
    """A class is an interface exactly if it says so itself; its subclasses are not unless they do."""
    declared = bool(cls.__dict__.get("_abstract_", False))
    Model.__pydantic_init_subclass__.__func__(cls)
    assert raises(TypeError, lambda: Model.__new__(cls)) == declared
    assert bool(cls._abstract_) == declared


# ----------------------------------------------------------------------- serializing and hashing


def serializing(engine):
    engine.used_contracts.add("pydantic: the wrapped serializer returns some mapping of field names to values")


def gen_serialize(rng):
    names = ["a", "b", "c", "_arti_type_", "x"]
    return dict(fields=tuple(rng.sample(names, rng.randint(0, 5))), data={n: rng.randint(0, 9) for n in rng.sample(names, rng.randint(0, 5))}, k=rng.choice(names))


class Serialized:
    """Something with fingerprint fields."""

    def __init__(self, fields):
        self._arti_fingerprint_fields_ = fields


@lemma("C03", params=dict(fields=KSeq(Str, tuple), data=KDict(Str, KInt()), k=Str), setup=serializing, gen=gen_serialize)
def exactly_the_fingerprint_fields_present_are_serialized(fields, data, k):
    r = Model._arti_serialize_model(Serialized(fields), lambda m: dict(data))
    assert (k in r) == (k in fields and k in data)
    if k in r:
        assert r[k] == data[k]


@lemma("C03", params=dict(fields=KSeq(Str, tuple), more=KDict(Str, KInt()), data=KDict(Str, KInt()), k=Str), setup=serializing,
       gen=lambda rng: {**gen_serialize(rng), "more": {n: 1 for n in rng.sample(["q", "r", "s"], rng.randint(0, 3))}})
def fields_not_fingerprinted_do_not_matter(fields, more, data, k):
    assume(all(n not in fields for n in more))
    assume(all(n not in data for n in more))
    a = Model._arti_serialize_model(Serialized(fields), lambda m: dict(data))
    b = Model._arti_serialize_model(Serialized(fields), lambda m: {**more, **data})
    assert (k in a) == (k in b)
    if k in a:
        assert a[k] == b[k]


def dumping(engine):
    e = engine
    e.used_contracts.add("pydantic: model_dump and model_dump_json are functions of the model and their options")
    for n, kind in (("model_dump", KObj(object)), ("model_dump_json", Str)):

        def dump(e2, args, kw, n=n, kind=kind):
            kw = {k: v for k, v in kw.items()}
            assert not is_symbolic(list(kw.values())), "options are concrete here"
            t = ufun(f"{n}:{sorted(kw.items())!r}", Ref, kind.sorts[0])(e2.ref(e2.res(args[0])))
            return e2.wrap(kind, [t])

        e.contracts[getattr(BaseModel, n)] = dump


def gen_model(rng):
    return dict(m=SemVer(major=rng.randint(0, 3), minor=rng.randint(0, 3), patch=rng.randint(0, 3)))


ANY = lambda e, n: SObj(z3.Const(n, Ref), Fake)


@lemma("C03", params=dict(m=ANY), setup=dumping, gen=gen_model)
def the_fingerprint_is_a_hash_of_the_complete_serialization(m):
    """Nested models are serialized with the fields of their own class, not of the declared one."""
    want = Fingerprint.from_string(BaseModel.model_dump_json(m, serialize_as_any=True))
    r = outcome(lambda: Model.fingerprint.func(m))
    if want == 0:
        assert r[0] == "raises"
    else:
        assert r == ("ok", want)


@lemma("C03", params=dict(m=ANY), setup=dumping, gen=gen_model)
def dumps_contain_fields_of_subclasses_unless_asked_otherwise(m):
    assert Model.model_dump(m) == BaseModel.model_dump(m, serialize_as_any=True)
    assert Model.model_dump_json(m) == BaseModel.model_dump_json(m, serialize_as_any=True)
    assert Model.model_dump(m, serialize_as_any=False) == BaseModel.model_dump(m, serialize_as_any=False)
    assert Model.model_dump_json(m, indent=2) == BaseModel.model_dump_json(m, indent=2, serialize_as_any=True)


# ------------------------------------------------------------------------------- semantic versions

Int = KInt()


def semver(e, n):
    e.used_contracts.add("pydantic: model_post_init of the base classes changes no field; BaseModel.model_copy copies the fields and updates those given")
    return Inst(SemVer, {"major": e.fresh_val(Int, n + ".major"), "minor": e.fresh_val(Int, n + ".minor"), "patch": e.fresh_val(Int, n + ".patch")})


def copying(engine):
    e = engine
    e.inline_prefixes = (*e.inline_prefixes, "pydantic._internal._model_construction")
    e.contracts[_model_construction.init_private_attributes] = lambda e2, a, k: None
    e.contracts[BaseModel.model_post_init] = lambda e2, a, k: None
    e.contracts[Model.model_post_init] = lambda e2, a, k: None

    def copy(e2, args, kw):
        m = e2.res(args[0])
        f = dict(m.f)
        up = e2.content(kw["update"]) if kw.get("update") is not None else None
        if up is not None:
            f.update(up.d if isinstance(up, CDict) else up)
        return Inst(m.cls, f)

    e.contracts[Model.model_copy] = copy


def gen_semver(rng):
    n = lambda: rng.choice([-1, 0, 0, 1, 2, 7])
    return dict(v=SemVer(major=n(), minor=n(), patch=n()), major=n(), minor=n())


def expected(major):
    return ("_arti_type_", "major") if major > 0 else ("_arti_type_", "major", "minor", "patch")


@lemma("C03", params=dict(v=semver), setup=copying, gen=lambda rng: {"v": gen_semver(rng)["v"]})
def only_the_major_number_counts_once_above_zero(v):
    SemVer.model_post_init(v, None)
    assert v._arti_fingerprint_fields_ == expected(v.major)


@lemma("C03", params=dict(v=semver, major=Int, minor=Int), setup=copying, gen=gen_semver)
def copies_of_versions_follow_their_own_major_number(v, major, minor):
    SemVer.model_post_init(v, None)
    a = SemVer.model_copy(v, update={"major": major, "minor": minor})
    assert (a.major, a.minor, a.patch) == (major, minor, v.patch)
    assert a._arti_fingerprint_fields_ == expected(major)
    assert SemVer.model_copy(v)._arti_fingerprint_fields_ == expected(v.major)
    assert v._arti_fingerprint_fields_ == expected(v.major)


# ------------------------------------------------------------------------------- bounded scenarios

import copy as copy_module
import datetime
import os
import pickle
import random
import subprocess
import sys

import arti
import arti.types as T
from arti import (Annotation, Artifact, Backend, Executor, Format, Graph, GraphSnapshot, PartitionField, PartitionKey, Producer, Storage,
                  StoragePartition, StoragePartitionSnapshot, Type, Version, View)
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import FrozenMapping, frozendict
from arti.partitions import DateField, Int8Field, Int64Field, NullField
from arti.producers import ProducerOutput
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile, LocalFilePartition
from arti.versions import GitCommit
from arti.versions import String as StringVersion
from arti.versions import Timestamp as TimestampVersion


class Note(Annotation):
    """A test annotation."""

    text: str


class Note2(Annotation):
    """Another one with the same field."""

    text: str


class Num(Artifact):
    """An artifact with a fixed type."""

    type: T.Int64 = T.Int64()


class Double(Producer):
    """A producer."""

    a: Artifact

    @staticmethod
    def build(a: int) -> Annotated[int, Num]:
        return a


class Triple(Producer):
    """A producer with the same fields."""

    a: Artifact

    @staticmethod
    def build(a: int) -> Annotated[int, Num]:
        return a


SCALARS = [T.Boolean, T.Date, T.Float16, T.Float32, T.Float64, T.Int8, T.Int16, T.Int32, T.Int64, T.Null, T.String, T.UInt8, T.UInt64]
WORD = lambda rng: rng.choice(["", "a", "b", "ab", "a b", "\u00e9", "{", "anon", "0", '"'])
PRECISION = lambda rng: rng.choice(["second", "millisecond", "microsecond", "nanosecond"])


class Spec:
    """How an entity is built: its class and its field values (which may be specs again)."""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return f"{self.cls.__name__}({', '.join(f'{k}={v!r}' for k, v in self.fields.items())})"


def opt(rng, fn):
    return fn(rng) if rng.random() < 0.5 else None


def type_spec(rng, depth=2, cls=None):
    k = cls or rng.choice([*SCALARS, T.Binary, T.DateTime, T.Time, T.Timestamp, T.Geography, T.Enum, *([T.List, T.Set, T.Map, T.Struct, T.Collection] * 3 if depth else [])])
    f = {}
    if k is T.Binary:
        f["byte_size"] = opt(rng, lambda r: r.randint(0, 3))
    elif k in (T.DateTime, T.Time, T.Timestamp):
        f["precision"] = PRECISION(rng)
    elif k is T.Geography:
        f.update(format=opt(rng, WORD), srid=opt(rng, WORD))
    elif k is T.Enum:
        if rng.random() < 0.5:
            f.update(type=Spec(T.String), items=frozenset(rng.sample(["a", "b", "c", "dd", "\u00e9"], rng.randint(1, 4))))
        else:
            f.update(type=Spec(T.Int64), items=frozenset(rng.sample(range(-2, 9), rng.randint(1, 4))))
        f["name"] = WORD(rng)
    elif k in (T.List, T.Set):
        f["element"] = type_spec(rng, depth - 1)
    elif k is T.Map:
        f.update(key=type_spec(rng, depth - 1), value=type_spec(rng, depth - 1))
    elif k is T.Struct:
        f.update(name=WORD(rng), fields={n: type_spec(rng, depth - 1) for n in rng.sample(["a", "b", "c", "z y"], rng.randint(0, 3))})
    elif k is T.Collection:
        f["element"] = e = type_spec(rng, depth - 1, T.Struct)
        cols = list(e.fields["fields"])
        rng.shuffle(cols)
        i, j = sorted(rng.randint(0, len(cols)) for _ in range(2))
        f.update(name=WORD(rng), partition_by=tuple(cols[:i]), cluster_by=tuple(cols[i:j]))
    if rng.random() < 0.4:
        f["description"] = opt(rng, WORD)
    if rng.random() < 0.4:
        f["nullable"] = rng.random() < 0.5
    return Spec(k, **f)


def format_spec(rng):
    return Spec(rng.choice([JSON, Pickle]), **({"extension": rng.choice([".json", ".x", ""])} if rng.random() < 0.3 else {}))


def storage_spec(rng):
    tail = "{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}"
    if rng.random() < 0.5:
        return Spec(LocalFile, path=f"/{rng.choice('abc')}/{tail}")
    return Spec(StringLiteral, id=f"/{rng.choice('abc')}/{tail}", value=opt(rng, WORD))


def note_specs(rng):
    return tuple(Spec(rng.choice([Note, Note2]), text=WORD(rng)) for _ in range(rng.choice([0, 0, 1, 2])))


def version_spec(rng):
    k = rng.choice([SemVer, SemVer, StringVersion, TimestampVersion, GitCommit])
    if k is SemVer:
        n = lambda: rng.choice([0, 0, 1, 2])
        return Spec(SemVer, major=n(), minor=n(), patch=n())
    if k is TimestampVersion:
        zone = datetime.timezone(datetime.timedelta(hours=rng.randint(-3, 3)))
        return Spec(k, dt=datetime.datetime(2020, 1, 1, rng.randint(8, 10), tzinfo=datetime.UTC).astimezone(zone))
    return Spec(k, **{"value" if k is StringVersion else "sha": WORD(rng)})


def artifact_spec(rng, depth=1, produced=None):
    f = dict(format=format_spec(rng), storage=storage_spec(rng), annotations=note_specs(rng))
    if produced is None:
        produced = rng.random() < 0.3
    if not produced and rng.random() < 0.7:
        k, f["type"] = Artifact, type_spec(rng, 1, rng.choice([*SCALARS[:4], T.List, T.Struct, T.Timestamp]))
    else:
        k = Num
    if depth and produced:
        f["producer_output"] = Spec(ProducerOutput, producer=producer_spec(rng, depth - 1), position=0)
    return Spec(k, **f)


def producer_spec(rng, depth=1):
    k = rng.choice([Double, Triple])
    a = Spec(Num, **{n: x for n, x in artifact_spec(rng, depth, rng.random() < 0.3).fields.items() if n != "type"})
    if a.fields["storage"].cls is StringLiteral:
        a.fields.update(format=Spec(JSON), storage=Spec(StringLiteral, id=a.fields["storage"].fields["id"]))
    f = dict(a=a, annotations=note_specs(rng))
    if rng.random() < 0.7:
        f["version"] = version_spec(rng)
    return Spec(k, **f)


def key_spec(rng):
    field = lambda: rng.choice([Spec(Int64Field, value=rng.randint(0, 2)), Spec(Int8Field, value=rng.randint(0, 2)), Spec(NullField),
                                Spec(DateField, value=datetime.date(2020, 1, rng.randint(1, 2)))])
    return {n: field() for n in rng.sample(["i", "j"], rng.randint(0, 2))}


def partition_spec(rng):
    f = dict(partition_key=key_spec(rng), input_fingerprint=opt(rng, lambda r: Fingerprint(r.randint(0, 3))))
    if rng.random() < 0.5:
        return Spec(LocalFilePartition, path=WORD(rng), storage=Spec(LocalFile, path="/" + WORD(rng).replace("{", "")), **f)
    return Spec(StringLiteralPartition, id=WORD(rng), value=opt(rng, WORD), storage=Spec(StringLiteral, id=WORD(rng).replace("{", "") + "x"), **f)


def graph_spec(rng):
    return Spec(Graph, name=WORD(rng).replace("{", "") or "g", path_tags={n: WORD(rng).replace("{", "") or "v" for n in rng.sample(["p", "q", "r"], rng.randint(0, 3))},
                artifacts={n: artifact_spec(rng) for n in rng.sample(["x", "y", "z"], rng.randint(0, 3))}, backend=None)


MAKERS = [type_spec, type_spec, format_spec, storage_spec, lambda r: (note_specs(r) or (Spec(Note, text=""),))[0], version_spec, artifact_spec, producer_spec,
          partition_spec, lambda r: Spec(StoragePartitionSnapshot, storage_partition=partition_spec(r), content_fingerprint=Fingerprint(r.randint(1, 3))),
          lambda r: Spec(GraphSnapshot, graph=graph_spec(r), id=Fingerprint(r.randint(1, 3))), graph_spec]
SKIPPED = {(Type, "description"), (Producer, "annotations"), (Artifact, "producer_output"), (Graph, "backend")}


def skipped_field(cls, name):
    return any(issubclass(cls, c) and name == n for c, n in SKIPPED)


def build(v, rng):
    """Build the entity, its dictionaries in some insertion order."""
    if isinstance(v, Spec):
        f = dict(v.fields)
        if v.cls is Graph:
            f["backend"] = MemoryBackend()
            arts = f.pop("artifacts")
            names = list(arts)
            rng.shuffle(names)
            f["path_tags"] = dict(sorted(f["path_tags"].items()))  # their order is part of the artifacts' storage paths
            g = Graph(**f)
            with g:
                for n in names:
                    a = build(arts[n], rng)
                    g.artifacts[n] = a
            return g
        return v.cls(**build(f, rng))
    if isinstance(v, tuple):
        return tuple(build(x, rng) for x in v)
    if isinstance(v, dict):
        names = list(v)
        rng.shuffle(names)
        return {n: build(v[n], rng) for n in names}
    if isinstance(v, frozenset):
        items = list(v)
        rng.shuffle(items)
        return items
    return v


def default(cls, n):
    d = cls.model_fields[n]
    return d.get_default(call_default_factory=True)


def canon(v):
    """The identity-relevant content of a spec."""
    if isinstance(v, Spec):
        f = {n: v.fields[n] if n in v.fields else default(v.cls, n) for n in v.cls.model_fields if not skipped_field(v.cls, n)}
        if v.cls is SemVer and f["major"] > 0:
            f = {"major": f["major"]}
        return (v.cls.__name__, tuple(sorted((n, canon(x)) for n, x in f.items())))
    if isinstance(v, tuple):
        return ("tuple", tuple(canon(x) for x in v))
    if isinstance(v, (dict, frozendict)):
        return ("dict", tuple(sorted((n, canon(x)) for n, x in v.items())))
    if isinstance(v, frozenset):
        return ("set", tuple(sorted(repr(x) for x in v)))
    if isinstance(v, datetime.datetime):
        return ("at", v.astimezone(datetime.UTC).isoformat())
    if isinstance(v, Model):
        return (type(v).__name__, tuple(sorted((n, canon(getattr(v, n))) for n in type(v).model_fields if not skipped_field(type(v), n))))
    return (type(v).__name__, repr(v))


def content(v):
    """The same for a whole entity: a graph also counts which output each of its artifacts holds."""
    if v.cls is not Graph:
        return canon(v)
    held = {n: a.fields.get("producer_output") for n, a in v.fields["artifacts"].items()}
    return canon(v), tuple(sorted((n, canon(o)) for n, o in held.items() if o is not None))


def vary(rng, v, maker):
    """The same spec with one thing changed somewhere (or regenerated)."""
    if isinstance(v, Spec) and v.fields:
        n = rng.choice(list(v.fields))
        x = v.fields[n]
        other = maker(rng)
        for _ in range(30):
            if other.cls is v.cls and n in other.fields and canon(other.fields[n]) != canon(x):
                break
            other = maker(rng)
        f = dict(v.fields)
        if other.cls is v.cls and n in other.fields and n not in ("type", "items", "element", "partition_by", "cluster_by", "producer_output"):
            f[n] = other.fields[n]
        elif isinstance(x, Spec):
            f[n] = vary(rng, x, {**{T.Struct: lambda r: type_spec(r, 1, T.Struct)}}.get(x.cls, maker)) if x.cls is not T.Struct else x
        return Spec(v.cls, **f)
    return v


def find(rng, v):
    """Some nested spec, as a path."""
    here = [()]
    if isinstance(v, Spec):
        for n, x in v.fields.items():
            here += [(n, *p) for p in find(rng, x)]
    elif isinstance(v, (tuple, dict)):
        for n, x in enumerate(v) if isinstance(v, tuple) else v.items():
            here += [(n, *p) for p in find(rng, x)]
    else:
        return [] if not isinstance(v, Spec) else here
    return [p for p in here if isinstance(at(v, p), Spec)]


def at(v, path):
    for n in path:
        v = v.fields[n] if isinstance(v, Spec) else v[n]
    return v


def put(v, path, x):
    if not path:
        return x
    n, *rest = path
    new = put(v.fields[n] if isinstance(v, Spec) else v[n], rest, x)
    if isinstance(v, Spec):
        return Spec(v.cls, **{**v.fields, n: new})
    if isinstance(v, tuple):
        return (*v[:n], new, *v[n + 1:])
    return {**v, n: new}


def change(rng, spec):
    """Replace one nested entity by another of its family with one field changed, added, or another kind."""
    path = rng.choice(find(rng, spec))
    old = at(spec, path)
    family = {Type: type_spec, Format: format_spec, Storage: storage_spec, Version: version_spec, StoragePartition: partition_spec}
    for base, maker in family.items():
        if issubclass(old.cls, base):
            if rng.random() < 0.5 and path:
                return put(spec, path, maker(rng))
            if issubclass(old.cls, Type):
                return put(spec, path, Spec(old.cls, **{**old.fields, **rng.choice([{"nullable": True}, {"description": WORD(rng)}])}))
            return put(spec, path, vary(rng, old, maker))
    if issubclass(old.cls, Annotation):
        return put(spec, path, Spec(rng.choice([Note, Note2]), text=WORD(rng)))
    if issubclass(old.cls, Artifact):
        return put(spec, path, vary(rng, old, lambda r: artifact_spec(r, 1, "producer_output" in old.fields)))
    if issubclass(old.cls, Producer):
        return put(spec, path, vary(rng, old, producer_spec))
    if old.cls is Graph:
        return put(spec, path, vary(rng, old, graph_spec))
    return spec


def copies(rng, m):
    yield "copy", copy_module.copy(m)
    yield "model_copy", m.model_copy()
    yield "update", m.model_copy(update={})
    if not isinstance(m, (Graph, GraphSnapshot)):
        yield "deepcopy", copy_module.deepcopy(m)
        yield "deep", m.model_copy(deep=True)
        yield "pickle", pickle.loads(pickle.dumps(m))
        yield "again", type(m)(**{n: getattr(m, n) for n in type(m).model_fields})


@scenario("C03", runs=1500, bound="entities of every in-tree kind (types, formats, storages, versions, artifacts, producers, partitions, snapshots, graphs) nested up to 4 levels, one nested change each")
def fingerprints_identify_the_relevant_content(rng, tmp):
    maker = rng.choice(MAKERS)
    spec = maker(rng)
    r = outcome(lambda: build(spec, rng))
    if r[0] == "raises":
        return f"not buildable: {spec}"
    a, again = r[1], build(spec, rng)
    if not isinstance(a, (Graph, GraphSnapshot)):
        assert a == again and hash(a) == hash(again), spec
    assert a.fingerprint == again.fingerprint, spec
    for other in [change(rng, spec), change(rng, spec), maker(rng)]:
        r = outcome(lambda: build(other, rng))
        if r[0] == "ok":
            assert (a.fingerprint == r[1].fingerprint) == (content(spec) == content(other)), (spec, other)
    for name, c in copies(rng, again if rng.random() < 0.5 else build(spec, rng)):
        assert c.fingerprint == a.fingerprint, (name, spec)
    for n in type(a).model_fields:
        assert raises(Exception, lambda: setattr(a, n, getattr(a, n))), (n, spec)
    assert isinstance(hash(a), int) and isinstance(a.fingerprint, Fingerprint) and not a.fingerprint.is_identity
    return str(spec)[:200]


VALUES = {
    int: lambda r: r.randint(0, 3), str: WORD, bool: lambda r: r.random() < 0.5, int | None: lambda r: opt(r, lambda r: r.randint(0, 3)),
    tuple[int, ...]: lambda r: tuple(r.randint(0, 2) for _ in range(r.randint(0, 3))),
    FrozenMapping[str, int]: lambda r: frozendict({k: r.randint(0, 1) for k in r.sample(["a", "b", "c"], r.randint(0, 3))}),
}


def user_classes(rng):
    """A base kind and two subclasses, with some fields skipped or excluded from serialization, and where each field counts."""
    names = rng.sample(["b", "a", "z", "_x"[1:], "b2", "B"], rng.randint(1, 5))
    cut = rng.randint(0, len(names))
    counts, kinds, ann = {}, {}, {}
    for n in names:
        kinds[n] = rng.choice(list(VALUES))
        how = rng.choice(["plain", "plain", "skip", "noskip", "exclude", "skip+doc"])
        counts[n] = how in ("plain", "noskip")
        ann[n] = {"plain": kinds[n], "skip": Annotated[kinds[n], SkipFingerprint()], "noskip": Annotated[kinds[n], SkipFingerprint(False)],
                  "exclude": Annotated[kinds[n], Field(exclude=True)], "skip+doc": Annotated[kinds[n], "doc", SkipFingerprint(), Field(repr=False)]}[how]
    base = type("UserBase", (Model,), {"__annotations__": {n: ann[n] for n in names[:cut]}, "__module__": __name__})
    subs = [type(k, (base,), {"__annotations__": {n: ann[n] for n in names[cut:]}, "__module__": __name__}) for k in ("UserOne", "UserTwo")]
    nested = rng.choice([base, base | None, Annotated[base, "doc"]])
    holder = type("UserHolder", (Model,), {"__annotations__": {"item": nested, "more": tuple[base, ...], "by_name": FrozenMapping[str, base]}, "__module__": __name__})
    return subs, holder, kinds, counts


@scenario("C03", runs=150, bound="user classes with up to 5 fields of 6 kinds, skipped, excluded or inherited, also held by another model through their base class")
def user_fields_count_unless_skipped(rng, tmp):
    (one, two), holder, kinds, counts = user_classes(rng)
    for _ in range(6):
        values = {n: VALUES[k](rng) for n, k in kinds.items()}
        others = {n: VALUES[k](rng) if rng.random() < 0.3 else values[n] for n, k in kinds.items()}
        same = all(values[n] == others[n] for n in kinds if counts[n])
        a, b, c = one(**values), one(**others), two(**values)
        if rng.random() < 0.5:
            a.fingerprint  # cached before copying
        b2 = a.model_copy(update={n: x for n, x in others.items() if x != values[n] or rng.random() < 0.3})
        assert (a.fingerprint == b.fingerprint) == same, (values, others, counts)
        assert b2 == b and b2.fingerprint == b.fingerprint, ("model_copy", values, others, counts)
        assert a.fingerprint != c.fingerprint
        hold = lambda x, y, z: holder(item=x, more=(a, y), by_name=frozendict({"k": z, "l": a})).fingerprint
        h = hold(a, a, a)
        for args in ((b, a, a), (a, b, a), (a, a, b), (b, b, b)):
            assert (h == hold(*args)) == same, ("nested", values, others, counts)
        assert len({h, hold(c, a, a), hold(a, c, a), hold(a, a, c)}) == 4
    return str((counts, values))


@scenario("C03", runs=400, bound="three numbers in -1..3, two versions each, with and without copying")
def semantic_versions_follow_the_major_rule(rng, tmp):
    v = [tuple(rng.choice([-1, 0, 0, 1, 1, 2, 3]) for _ in range(3)) for _ in range(2)]
    names = ("major", "minor", "patch")
    a, b = (SemVer(**dict(zip(names, x))) for x in v)
    same = v[0][0] == v[1][0] if v[0][0] > 0 else v[0] == v[1]
    assert (a.fingerprint == b.fingerprint) == same, v
    assert (a.model_copy(update=dict(zip(names, v[1]))).fingerprint == a.fingerprint) == same, v
    assert (Double(a=Num(), version=a).fingerprint == Double(a=Num(), version=b).fingerprint) == same, v
    return str(v)


@scenario("C03", runs=1, bound="every exported interface and freshly defined subclasses of each")
def interfaces_cannot_be_instantiated(rng, tmp):
    for c in (Model, Annotation, Type, Format, PartitionField, StoragePartition, Storage, Backend, View, Version, Producer, Executor):
        assert raises(TypeError, lambda: c()), c
    for c in (Annotation, Type, Version, Model):
        sub = type("Sub", (c,), {"__module__": __name__})
        assert isinstance(sub(), c)
        between = type("Between", (c,), {"_abstract_": True, "__annotations__": {"_abstract_": ClassVar[bool]}, "__module__": __name__})
        assert raises(TypeError, lambda: between())
        assert isinstance(type("Leaf", (between,), {"__module__": __name__})(), c)
    return "interfaces"


class Unhashable(Model):
    """A model whose field may hold anything."""

    x: Any


@scenario("C03", runs=1, bound="unhashable field values")
def entities_are_hashable(rng, tmp):
    for bad in ([1], {"a": 1}, {1}, ([],)):
        assert raises(TypeError, lambda: Unhashable(x=bad)), bad
    for good in (1, "a", (1,), frozenset({1}), frozendict({"a": 1}), None):
        assert hash(Unhashable(x=good)) == hash(Unhashable(x=good))
    return "hashability"


def sample_fingerprints(seed, n):
    rng = random.Random(seed)
    out = []
    while len(out) < n:
        spec = rng.choice(MAKERS)(rng)
        r = outcome(lambda: build(spec, random.Random(seed)))
        if r[0] == "ok":
            out.append((repr_of(spec), int(r[1].fingerprint)))
    return out


def repr_of(spec):
    return str(canon(spec))


@scenario("C03", runs=2, bound="150 entities, three processes with different hash seeds")
def other_processes_agree(rng, tmp):
    seed = rng.randint(0, 10**6)
    code = f"import sys; sys.path[:0] = {sys.path!r}\nfrom contracts import c03\nprint(*[f for _, f in c03.sample_fingerprints({seed}, 150)])"
    here = [f for _, f in sample_fingerprints(seed, 150)]
    for h in ("1", "2"):
        r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": h}, cwd=tmp, check=False)
        assert r.returncode == 0, r.stderr[-2000:]
        there = [int(x) for x in r.stdout.split()]
        assert here == there, [s for (s, _), a, b in zip(sample_fingerprints(seed, 150), here, there) if a != b][:3]
    return f"seed {seed}"


# --------------------------------------------------------------------------------- known findings


@known("C03", "a model that refers to its own class (such as TypeSystem) has no fingerprint: pydantic reports a circular reference")
def self_referencing_models_have_no_fingerprint():
    r = outcome(lambda: T.TypeSystem(key="x").fingerprint)
    return "TypeSystem(key='x').fingerprint raises" if r[0] == "raises" else None


@known("C03", "the fingerprint of a user model with a frozenset field follows the set's iteration order (and so the hash seed)")
def frozenset_fields_follow_the_iteration_order():
    # 0 and 8 collide in a small set, so their iteration order is their insertion order (whatever the hash seed).
    class Numbers(Model):
        x: frozenset[int]

    a, b = Numbers(x=frozenset([0, 8])), Numbers(x=frozenset([8, 0]))
    return "x=frozenset([0, 8]) and x=frozenset([8, 0])" if a == b and a.fingerprint != b.fingerprint else None


@known("C03", "Enums with equal items of different numeric kinds are equal but have different fingerprints")
def enums_of_equal_numbers_of_other_kinds():
    a, b = (T.Enum(type=T.Int64(), items=frozenset([x])) for x in (1, True))
    return "Enum(type=Int64(), items={1}) and items={True}" if a == b and a.fingerprint != b.fingerprint else None
