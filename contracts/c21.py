"""C21: views are chosen and checked so that only compatible data flows."""

import random
import typing
from collections.abc import Sequence
from typing import Annotated, Any, ClassVar, Literal, get_args, get_origin

import arti.io as io
import arti.types.python as types_python
import arti.views as views_module
from arti.artifacts import Artifact
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.models import get_field_default
from arti.internal.type_hints import discard_Annotated, get_item_from_annotated, lenient_issubclass
from arti.internal.utils import import_submodules, register
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Boolean, Collection, Float64, Int8, Int64, List, Map, Null, String, Struct, Type, TypeSystem
from arti.types.python import python_type_system
from arti.views import View
from contracts import common
from pyvc.core import *
from pyvc.spec import *

__lemmas__ = True

Str = KStr()
Obj = KObj(object)


class Entry:
    """A registered value with a priority."""

    def __init__(self, priority):
        self.priority = priority
        self.__name__ = self.__qualname__ = random.choice("XY")

    def __repr__(self):
        return f"Entry({self.priority})"


def entries(engine):
    engine.attr_specs[(Entry, "priority")] = KInt()
    for n in ("__name__", "__qualname__", "__module__"):
        engine.attr_specs[(Entry, n)] = Str


def gen_register(rng):
    keys = ["a", "b", None, "c"]
    reg = {k: Entry(rng.choice([0, 1, -1, 2])) for k in keys if rng.random() < 0.6}
    v = rng.choice([Entry(rng.choice([0, 1, -1, 2])), *reg.values()])
    return dict(reg=reg, key=rng.choice(["a", "b", "c", "d"]), other=rng.choice(["a", "b", "c", "d"]), v=v)


R = dict(reg=KDict(Obj, KObj(Entry)), key=Obj, other=Obj, v=KObj(Entry))


def priority(x):
    return x.priority


@lemma("C21", setup=entries, params=R, gen=gen_register, samples=300)
def the_highest_priority_is_kept_and_equal_ones_are_refused(reg, key, other, v):
    reg = dict(reg)
    before = reg.get(key)
    rest = reg.get(other)
    n = len(reg)
    r = outcome(lambda: register(reg, key, v, priority))
    if before is None:
        assert r[0] == "ok" and reg[key] is v and len(reg) == n + 1
    elif before.priority == v.priority:
        assert r[0] == "raises"
        assert reg[key] is before
        assert raises(ValueError, lambda: register(reg, key, v, priority))
    else:
        assert r[0] == "ok"
        assert reg[key] is (v if v.priority > before.priority else before)
        assert len(reg) == n
    if r[0] == "ok":
        assert r[1] is v
    if other != key:
        assert reg.get(other) is rest


@lemma("C21", setup=entries, params=R, gen=gen_register, samples=300)
def without_priorities_a_used_key_is_refused(reg, key, other, v):
    reg = dict(reg)
    before = reg.get(key)
    rest = reg.get(other)
    r = outcome(lambda: register(reg, key, v))
    assert (r[0] == "raises") == (before is not None)
    assert reg[key] is (v if before is None else before)
    if other != key:
        assert reg.get(other) is rest


# ---------------------------------------------------------------------------- choosing the view


def hints(engine):
    e = engine
    e.used_contracts.add("metadata lookup in an annotation (C22), the type-hint subtype test (C22), field defaults of classes: functions of their arguments")

    def item(e2, args, kw):
        a, k = (e2.ref(e2.res(x)) for x in (args[0], args[1]))
        kind = e2.res(kw["kind"])
        none = ufun(f"no_{kind}_metadata", Ref, Ref, z3.BoolSort())(a, k)
        v = ufun(f"{kind}_metadata", Ref, Ref, Ref)(a, k)
        return SAlt([(none, kw.get("default")), (z3.Not(none), SObj(v, object))])

    def default(e2, args, kw):
        a = e2.ref(e2.res(args[0]))
        n = e2.res(args[1])
        none = ufun(f"no_default_{n}", Ref, z3.BoolSort())(a)
        return SAlt([(none, kw.get("fallback")), (z3.Not(none), SObj(ufun(f"default_{n}", Ref, Ref)(a), Type if n == "type" else object))])

    e.contracts[get_item_from_annotated] = item
    e.contracts[get_field_default] = default
    e.contracts[discard_Annotated] = lambda e2, args, kw: SObj(ufun("bare", Ref, Ref)(e2.ref(e2.res(args[0]))), object)
    none_o = ufun("has_origin", Ref, z3.BoolSort())

    def origin(e2, args, kw):
        t = e2.ref(e2.res(args[0]))
        return SAlt([(none_o(t), SObj(ufun("origin", Ref, Ref)(t), object)), (z3.Not(none_o(t)), None)])

    e.contracts[get_origin] = origin
    e.contracts[import_submodules] = lambda e2, args, kw: None
    e.contracts[lenient_issubclass] = lambda e2, args, kw: SBool(ufun("sub", Ref, Ref, z3.BoolSort())(e2.ref(e2.res(args[0])), e2.ref(e2.res(args[1]))))
    e.attr_specs[(object, "_by_python_type_")] = KDict(Obj, Obj)


def some_hint(rng):
    h = rng.choice([int, str, list, dict, float, list[int], dict[str, int], bytes, tuple, set[int], tuple[int, ...]])
    r = rng.random()
    if r < 0.3:
        return Annotated[h, rng.choice([Int64(), "x", views_module.View])]
    if r < 0.5:
        return Annotated[h, rng.choice(VIEWS())]
    return h


def VIEWS():
    import arti.views.python as v

    return [v.Int, v.List, v.Str, v.Dict]


@lemma("C21", setup=hints, params=dict(cls=Obj, annotation=Obj), gen=lambda rng: dict(cls=View, annotation=some_hint(rng)), samples=300)
def the_named_view_else_the_registered_one_is_chosen(cls, annotation):
    r = outcome(lambda: View.get_class_for.__func__(cls, annotation))
    named = get_item_from_annotated(annotation, cls, kind="class")
    bare = discard_Annotated(annotation)
    origin = get_origin(bare)
    table = cls._by_python_type_
    if named is not None:
        assert r[0] == "ok" and r[1] is named
    elif bare in table:
        assert r[0] == "ok" and r[1] is table[bare]
    elif origin is not None and origin in table:
        assert r[0] == "ok" and r[1] is table[origin]
    else:
        assert r[0] == "raises"


def kwargs_code(engine):
    hints(engine)
    e = engine
    e.used_contracts.add("python_type_system.to_artigraph: a function of the hint (C19)")
    e.contracts[TypeSystem.to_artigraph] = lambda e2, args, kw: SObj(ufun("inferred", Ref, Ref)(e2.ref(e2.res(args[1]))), Type)
    e.contracts[inferred] = lambda e2, args, kw: e2.call(TypeSystem.to_artigraph, [None, args[0]], {"hints": {}})


def inferred(hint):
    return python_type_system.to_artigraph(hint, hints={})


class Typed(Artifact):
    type: Type = Int64()


class Untyped(Artifact):
    pass


def gen_annotation(rng):
    base = rng.choice([int, str, float, list[int], dict[str, int]])
    extra = [x for x in (rng.choice([Typed, Untyped, Artifact]), rng.choice([Int64(), String(), Int8()])) if rng.random() < 0.5]
    return Annotated[(base, *extra, "x")] if rng.random() < 0.9 else base


@lemma("C21", setup=kwargs_code, params=dict(annotation=Obj), gen=lambda rng: dict(annotation=gen_annotation(rng)), samples=300)
def the_type_is_annotated_else_declared_else_inferred(annotation):
    artifact_class = get_item_from_annotated(annotation, Artifact, kind="class")
    if artifact_class is None:
        artifact_class = get_field_default(View, "artifact_class")
    assume(artifact_class is not None and issubclass(artifact_class, Artifact))
    got = View._get_kwargs_from_annotation(annotation)
    annotated = get_item_from_annotated(annotation, Type, kind="object")
    declared = get_field_default(artifact_class, "type", fallback=None)
    assert set(got) == {"artifact_class", "type"}
    assert got["artifact_class"] is artifact_class
    if annotated is not None:
        assert got["type"] is annotated
    elif declared is not None:
        assert got["type"] == declared
    else:
        assert got["type"] == inferred(discard_Annotated(annotation))


class Info:
    def __init__(self, data):
        self.data = data


def validate_code(engine):
    hints(engine)
    engine.attr_specs[(Info, "data")] = KDict(Str, Obj)


@lemma("C21", setup=validate_code, params=dict(type_=KObj(Type), info=KObj(Info)),
       gen=lambda rng: dict(type_=rng.choice([Int64(), Int64(nullable=True), String(), Int8()]), info=Info(rng.choice([{"artifact_class": Typed}, {"artifact_class": Untyped}, {"mode": "READ"}]))))
def the_views_type_equals_the_declared_one(type_, info):
    artifact_class = info.data.get("artifact_class")
    declared = None if artifact_class is None else get_field_default(artifact_class, "type", fallback=None)
    r = outcome(lambda: View._validate_type.__func__(View, type_, info) if hasattr(View._validate_type, "__func__") else View._validate_type(type_, info))
    if declared is None or declared == type_:
        assert r[0] == "ok" and r[1] is type_
    else:
        assert r[0] == "raises"


# ---------------------------------------------------------------------------- checking annotations and artifacts


def check_code(engine):
    hints(engine)
    e = engine
    e.used_contracts.add("TypeSystem.to_system: a function of the type (C19); io handler lookup (C22): finds a handler or raises ValueError")
    e.contracts[TypeSystem.to_system] = lambda e2, args, kw: SObj(ufun("system_type", Ref, Ref, Ref)(e2.ref(e2.res(args[0])), e2.ref(e2.res(args[1]))), object)
    e.attr_specs[(View, "type_system")] = KObj(TypeSystem)
    e.attr_specs[(View, "type")] = KObj(Type)
    e.attr_specs[(View, "mode")] = Str
    e.attr_specs[(View, "artifact_class")] = Obj
    e.attr_specs[(View, "python_type")] = Obj


@lemma("C21", setup=check_code, params=dict(view=KObj(View), annotation=Obj), gen=lambda rng: gen_view(rng), samples=300)
def only_annotations_the_type_can_be_represented_by_are_accepted(view, annotation):
    bare = discard_Annotated(annotation)
    system = view.type_system.to_system(view.type, hints={})
    r = outcome(lambda: view.check_annotation_compatibility(annotation))
    assert (r[0] == "ok") == bool(lenient_issubclass(system, bare) or lenient_issubclass(type(system), bare))


def gen_view(rng):
    import arti.views.python as v

    pairs = [(v.Int, Int64()), (v.Int, Int8()), (v.Str, String()), (v.Float, Float64()), (v.List, List(element=Int64())), (v.Dict, Map(key=String(), value=Int64())),
             (v.Int, String()), (v.List, List(element=Float64()))]
    c, t = rng.choice(pairs)
    return dict(view=c(mode=rng.choice(["READ", "WRITE", "READWRITE"]), type=t), annotation=some_hint(rng))


class NoHandler(ValueError):
    pass


def handlers_code(engine):
    check_code(engine)
    e = engine
    e.attr_specs[(Artifact, "type")] = KObj(Type)
    e.attr_specs[(Artifact, "format")] = Obj
    e.attr_specs[(Artifact, "storage")] = Obj
    e.attr_specs[(object, "storage_partition_type")] = Obj
    D = type(io._read)
    found = lambda d, args: ufun(f"found_{len(args)}_{d.canonical_name}", *[Ref] * len(args), z3.BoolSort())(*args)

    def lookup(e2, args, kw):
        d = e2.res(args[0])
        ts = [e2.ref(e2.res(a)) for a in args[1:]]
        if not e2.branch(found(d, ts)):
            e2.raise_(ValueError, "no implementation found")
        return Native(lambda *a: None, "handler")

    e.contracts[D.lookup] = lookup
    e.contracts[reader_for] = lambda e2, args, kw: lookup(e2, [io._read, *args], kw)
    e.contracts[writer_for] = lambda e2, args, kw: lookup(e2, [io._write, *args], kw)


def reader_for(*types):
    return io._read.lookup(*types)


def writer_for(*types):
    return io._write.lookup(*types)


def can_read(view, artifact):
    return outcome(lambda: reader_for(type(artifact.type), type(artifact.format), list[artifact.storage.storage_partition_type], type(view)))[0] == "ok"


def can_write(view, artifact):
    return outcome(lambda: writer_for(view.python_type, type(artifact.type), type(artifact.format), artifact.storage.storage_partition_type, type(view)))[0] == "ok"


@lemma("C21", setup=handlers_code, params=dict(view=KObj(View), artifact=KObj(Artifact)), gen=lambda rng: gen_pair(rng), samples=400)
def only_artifacts_of_the_class_and_type_with_handlers_are_accepted(view, artifact):
    assume(view.mode in ("READ", "WRITE", "READWRITE"))
    assume(issubclass(view.artifact_class, Artifact))
    r = outcome(lambda: view.check_artifact_compatibility(artifact))
    want = isinstance(artifact, view.artifact_class) and view.type == artifact.type
    if want and view.mode != "WRITE":
        want = can_read(view, artifact)
    if want and view.mode != "READ":
        want = can_write(view, artifact)
    assert (r[0] == "ok") == want


def gen_pair(rng):
    import arti.views.python as v
    from arti.internal.utils import NoCopyMixin

    c = rng.choice([v.Int, v.Str, v.Float, v.List])
    t = rng.choice([Int64(), String(), Int8(), List(element=Int64())])
    mode = rng.choice(["READ", "WRITE", "READWRITE"])
    ac = rng.choice([Artifact, Typed, Untyped])
    if ac is Typed:
        t = Int64()
    view = c(mode=mode, type=t, artifact_class=ac)
    A = rng.choice([Artifact, Typed, Untyped])
    at = t if rng.random() < 0.7 else rng.choice([Int64(), String(), t.model_copy(update={"nullable": not t.nullable})])
    if A is Typed:
        at = Int64()
    f, s = rng.choice([(JSON(), StringLiteral(value="1")), (JSON(), LocalFile(path="/tmp/x.json")), (Pickle(), LocalFile(path="/tmp/x.pkl")), (Pickle(), StringLiteral(value="1"))])
    return dict(view=view, artifact=A(type=at, format=f, storage=s))


# ---------------------------------------------------------------------------- bounded: whole views


def fresh_base():
    class Base(View):
        _abstract_ = True
        _by_python_type_: ClassVar[dict] = {}
        type_system: ClassVar[TypeSystem] = python_type_system

    return Base


PYTHON = [int, str, float, list, dict, tuple, None]
SPELLED = {int: [int], str: [str], float: [float], list: [list, list[int], list[str]], dict: [dict, dict[str, int]], tuple: [tuple, tuple[int, ...]], None: [None]}


@scenario("C21", runs=400, bound="up to 6 views over 7 Python types with priorities -1..2")
def the_registered_view_of_highest_priority_is_chosen(rng, tmp):
    Base = fresh_base()
    best, log = {}, []
    for i in range(rng.randint(0, 6)):
        t, p = rng.choice(PYTHON), rng.choice([-1, 0, 0, 1, 2])
        abstract = rng.random() < 0.15
        name = rng.choice(["V", "W", f"V{i}"])
        ns = {"python_type": t, "__module__": __name__, "__qualname__": name, "__annotations__": {}}
        if p:
            ns["priority"] = p
        if abstract:
            ns["_abstract_"] = True
        r = outcome(lambda: type(Base)(name, (Base,), ns))
        log.append((str(t), p, abstract))
        if abstract:
            assert r[0] == "ok"
            continue
        if t in best and best[t][0] == p:
            assert r[0] == "raises", log
            assert Base._by_python_type_[t] is best[t][1], log
            continue
        assert r[0] == "ok", (log, r)
        if t not in best or best[t][0] < p:
            best[t] = (p, r[1])
    for t, hs in SPELLED.items():
        for h in hs:
            for a in (h, Annotated[h, "x"], Annotated[h, Int64(), 5]) if h is not None else (h,):
                r = outcome(lambda: Base.get_class_for(a))
                if t in best:
                    assert r == ("ok", best[t][1]), (log, a, r)
                else:
                    assert raises(ValueError, lambda: Base.get_class_for(a)), (log, a)
    for _, v in best.values():
        for h in (int, bytes, list[int]):
            assert Base.get_class_for(Annotated[h, "m", v]) is v
    if len(best) > 1:
        a, b = [v for _, v in best.values()][:2]
        assert raises(ValueError, lambda: Base.get_class_for(Annotated[int, a, b]))
    return log


TYPES = {int: [Int64(), Int8()], str: [String()], float: [Float64()], list[int]: [List(element=Int64()), List(element=Int8())],
         list[str]: [List(element=String())], dict[str, int]: [Map(key=String(), value=Int64())], list: [List(element=Int64())]}


def represents(t, h):
    """Can the type be held by a value of this hint?"""
    names = {"Int64": int, "Int8": int, "String": str, "Float64": float}
    if isinstance(t, List):
        if h in (list, Any, Sequence, object):
            return True
        return get_origin(h) is list and represents(t.element, get_args(h)[0])
    if isinstance(t, Map):
        if h in (dict, Any, object):
            return True
        return get_origin(h) is dict and represents(t.key, get_args(h)[0]) and represents(t.value, get_args(h)[1])
    return h is Any or (isinstance(h, type) and get_origin(h) is None and issubclass(names[type(t).__name__], h))


@scenario("C21", runs=500, bound="scalar, list and map types; annotated, declared or inferred")
def a_view_takes_the_right_type_and_refuses_what_it_cannot_represent(rng, tmp):
    h = rng.choice([k for k in TYPES if k is not list])
    declared = rng.choice([None, *[t for ts in TYPES.values() for t in ts][:4], *TYPES[h]])
    annotated = rng.choice([None, None, *[t for ts in TYPES.values() for t in ts], *TYPES[h], *TYPES[h]])
    if declared is None:
        AC = Artifact
        if rng.random() < 0.5:
            class AC(Artifact):
                pass
    else:
        class AC(Artifact):
            type: Type = declared
    meta = [x for x in (AC if AC is not Artifact or rng.random() < 0.5 else None, annotated, "note") if x is not None]
    rng.shuffle(meta)
    a = Annotated[(h, *meta)]
    want = annotated or declared or python_type_system.to_artigraph(h, hints={})
    legal = (declared is None or want == declared) and represents(want, h)
    mode = rng.choice(["READ", "WRITE", "READWRITE"])
    r = outcome(lambda: View.from_annotation(a, mode=mode))
    assert (r[0] == "ok") == legal, (a, want, r)
    if not legal:
        return (str(h), str(declared), str(annotated))
    v = r[1]
    assert v.type == want and v.artifact_class is AC and v.mode == mode, (a, v)
    assert type(v) is View.get_class_for(a)
    for other in [*TYPES, Any, object, bool, Annotated[h, 5], Annotated[bytes, 7]]:
        bare = discard_Annotated(other)
        assert (outcome(lambda: v.check_annotation_compatibility(other))[0] == "ok") == represents(want, bare), (want, other)
    # artifacts: of the class, of an equal type, with handlers
    for cls in (Artifact, AC):
        for t in (want, Int8(), Boolean()):
            for f, s, ok in ((JSON(), LocalFile(path=tmp + "/x.json"), True), (Pickle(), LocalFile(path=tmp + "/x"), True), (JSON(), StringLiteral(value="1"), True),
                             (Pickle(), StringLiteral(value="1"), False)):
                if cls is AC and declared is not None and t != declared:
                    continue
                art = cls(type=t, format=f, storage=s)
                r = outcome(lambda: v.check_artifact_compatibility(art))
                assert (r[0] == "ok") == (isinstance(art, AC) and t == want and ok), (v, art, r)
    for bad in TYPES[str] + TYPES[int]:
        if declared is not None and bad != declared:
            assert outcome(lambda: type(v)(mode=mode, type=bad, artifact_class=AC))[0] == "raises"
    return (str(h), str(declared), str(annotated))


@scenario("C21", runs=30, bound="handlers for one of the two modes only")
def the_mode_decides_which_handlers_are_needed(rng, tmp):
    from arti.formats import Format
    from arti.storage import StoragePartition

    class OnlyRead(Format):
        type_system: ClassVar[TypeSystem] = python_type_system

    class OnlyWrite(Format):
        type_system: ClassVar[TypeSystem] = python_type_system

    class Neither(Format):
        type_system: ClassVar[TypeSystem] = python_type_system

    def rd(type_, format, storage_partitions, view): ...
    def wr(data, type_, format, storage_partition, view): ...

    from arti.storage.local import LocalFilePartition
    import arti.views.python as v

    rd.__annotations__ = dict(type_=Type, format=OnlyRead, storage_partitions=Sequence[LocalFilePartition], view=View, **{"return": Any})
    wr.__annotations__ = dict(data=object, type_=Type, format=OnlyWrite, storage_partition=LocalFilePartition, view=View, **{"return": None})
    io.register_reader(rd)
    io.register_writer(wr)
    for mode in ("READ", "WRITE", "READWRITE"):
        for f, can in ((OnlyRead, {"READ"}), (OnlyWrite, {"WRITE"}), (Neither, set())):
            view = v.Int(mode=mode, type=Int64())
            art = Artifact(type=Int64(), format=f(), storage=LocalFile(path=tmp + "/x"))
            r = outcome(lambda: view.check_artifact_compatibility(art))
            assert (r[0] == "ok") == (mode in can), (mode, f, r)
    return "modes"
