"""C12: producer definitions are validated, outputs are wired to their position."""

import inspect
import typing
from inspect import Parameter, Signature
from typing import Annotated, Any

from arti import Artifact, PartitionKey, Producer
from arti import types
from arti.internal import type_hints, utils
from arti.formats.json import JSON
from arti.internal.mappings import frozendict
from arti.producers import PartitionDependencies, ProducerOutput
from arti.producers import producer as producer_decorator
from arti.versions import SemVer
from arti.storage import StoragePartitions
from arti.storage.literal import StringLiteral
from arti.types import Type, Collection, Date, Int64, Struct
from arti.views import View

from pyvc.core import *
from pyvc.spec import *
from pyvc.values import Native

__lemmas__ = True

Str = KStr()
Art = KObj(Artifact)
R, B, I = Ref, z3.BoolSort(), z3.IntSort()


class Num(Artifact):
    type: Int64 = Int64()


class Other(Artifact):
    type: Int64 = Int64()


class One(Producer):
    a: Num

    @staticmethod
    def build(a: int) -> Annotated[int, Num]:
        return a


class Three(Producer):
    """Any producer: its declared outputs are replaced by arbitrary ones symbolically."""

    a: Num

    @staticmethod
    def build(a: int) -> tuple[Annotated[int, Num], Annotated[int, Other], Annotated[int, Num]]:
        return a, a, a


copied = ufun("artifact.with_output", R, R, R)
has_output, output_of, rest_of = ufun("artifact.produced", R, B), ufun("artifact.output", R, R), ufun("artifact.other_fields", R, R)
output = ufun("producer output", R, I, R)
fits = ufun("view.fits", R, R, B)
default = ufun("view.default_artifact", R, R, R)


def producer(e, n):
    p = SObj(z3.Const(n, R), Three, True)
    a, o, q, i = z3.Const("a", R), z3.Const("o", R), z3.Const("q", R), z3.Int("i")
    e.fact(z3.ForAll([a, o], z3.And(has_output(copied(a, o)), output_of(copied(a, o)) == o, rest_of(copied(a, o)) == rest_of(a)), patterns=[copied(a, o)]))
    e.fact(z3.ForAll([q, i], z3.And(ufun("output.producer", R, R)(output(q, i)) == q, ufun("output.position", R, I)(output(q, i)) == i), patterns=[output(q, i)]))
    nv, nh = (e.int_term(e.call(len, [x], {})) for x in (declared(e, p), hints(e, p)))
    e.fact(z3.And(nv == nh, nv >= 1))
    return p


def declared(e, p):
    return e.seq_of_term(ufun("producer.outputs", R, seq_sort(KObj(View)))(p.t), KObj(View), tuple)


def hints(e, p):
    return e.seq_of_term(ufun("producer.hints", R, seq_sort(KObj(object)))(p.t), KObj(object), tuple)


def outputs(e):
    e.used_contracts.add("Producer._outputs_ and the return annotation list the declared outputs, one each (the definition checks)")
    e.used_contracts.add("View.check_artifact_compatibility: accepts or rejects an artifact with a ValueError (C21)")
    e.used_contracts.add("pydantic: model_copy(update=...) copies the fields and updates those given; ProducerOutput stores its fields")
    e.used_contracts.add("arti.internal.utils.ordinal: some text, used in messages only")
    e.attr_specs[(Three, "_outputs_")] = declared
    e.attr_specs[(Three, "_build_sig_")] = lambda e2, v: Inst(Sig, {"return_annotation": hints(e2, v)})
    e.contracts[utils.ordinal] = lambda e2, args, kw: e2.uf_str("ordinal", e2.res(args[0]))

    def check(e2, args, kw):
        v, art = e2.ref(args[0]), e2.ref(args[1])
        if not e2.branch(fits(v, art)):
            e2.raise_(ValueError, "incompatible")

    def copy(e2, args, kw):
        if set(kw) != {"update"} or len(args) != 1:
            raise Unsupported("model_copy")
        u = e2.content(e2.res(kw["update"]))
        if set(u.d) != {"producer_output"}:
            raise Unsupported("model_copy of other fields")
        return SObj(copied(e2.ref(args[0]), e2.ref(u.d["producer_output"])), Artifact)

    def new(e2, args, kw):
        return SObj(output(e2.ref(kw["producer"]), e2.int_term(kw["position"])), ProducerOutput, True)

    def produced(e2, v):
        return SObj(output_of(v.t), ProducerOutput, True) if e2.branch(has_output(v.t)) else None

    e.contracts[View.check_artifact_compatibility] = check
    e.contracts[Artifact.model_copy] = copy
    e.contracts[ProducerOutput] = new

    def construct(v):
        def new_artifact(e2, args, kw):
            if args or set(kw) != {"type"}:
                raise Unsupported("default artifact")
            return SObj(default(v.t, e2.ref(kw["type"])), Artifact)

        return Native(new_artifact, "artifact class")

    e.attr_specs[(View, "artifact_class")] = lambda e2, v: construct(v)
    e.attr_specs[(View, "type")] = lambda e2, v: SObj(ufun("view.type", R, R)(v.t), Type)
    e.attr_specs[(Artifact, "producer_output")] = produced
    e.attr_specs[(ProducerOutput, "producer")] = lambda e2, v: SObj(ufun("output.producer", R, R)(v.t), Three, True)
    e.attr_specs[(ProducerOutput, "position")] = lambda e2, v: SInt(ufun("output.position", R, I)(v.t))


class Info:
    """Pydantic's description of the validated field."""

    def __init__(self, field_name):
        self.field_name = field_name


class Sig:
    return_annotation: Any


def compatible(view, artifact):
    return not raises(ValueError, view.check_artifact_compatibility, artifact)


def other_fields(artifact):
    """Everything of an artifact but what it is produced by."""
    return type(artifact), {n: getattr(artifact, n) for n in type(artifact).model_fields if n != "producer_output"}


def same_as(e):
    outputs(e)
    e.contracts[other_fields] = lambda e2, args, kw: SObj(rest_of(e2.ref(args[0])), object)


def default_for(view):
    return view.artifact_class(type=view.type)


def gen_out(rng):
    p = rng.choice([One, Three, Three, Three])(a=Num())
    exact = [v.artifact_class() for v in p._outputs_]
    r = rng.random()
    if r < 0.6:
        outs = exact
        if r < 0.3:
            outs[rng.randrange(len(outs))] = any_artifact(rng)
    else:
        outs = [any_artifact(rng) for _ in range(rng.choice([0, 1, 2, 3, 3, 3, 4]))]
    return dict(p=p, outs=tuple(outs))


class Sub(Num):
    pass


def any_artifact(rng):
    return rng.choice([Num, Other, Sub, lambda: One(a=Num()).out(), lambda: Three(a=Num()).out()[1], lambda: Artifact(type=Int64(), format=JSON(), storage=StringLiteral(id="x"))])()


@lemma("C12", params=dict(p=producer, outs=KSeq(Art)), setup=same_as, gen=gen_out)
def one_output_per_declaration_in_order(p, outs):
    assume(len(outs) > 1)
    got = outcome(p.out, *outs)
    if got[0] == "ok":
        assert type(got[1]) is tuple
        assert len(got[1]) == len(outs)
        assert len(got[1]) == len(p._outputs_)
        for i in range(len(outs)):
            assert got[1][i].producer_output.position == i
            assert got[1][i].producer_output.producer is p
            assert other_fields(got[1][i]) == other_fields(outs[i])


@lemma("C12", params=dict(p=producer, out=Art), setup=same_as, gen=lambda rng: dict(p=One(a=Num()), out=any_artifact(rng)))
def a_single_output_is_not_wrapped(p, out):
    got = outcome(p.out, out)
    if got[0] == "ok":
        assert isinstance(got[1], Artifact)
        assert got[1].producer_output.position == 0
        assert got[1].producer_output.producer is p
        assert other_fields(got[1]) == other_fields(out)


@lemma("C12", params=dict(p=producer, outs=KSeq(Art)), setup=same_as, gen=gen_out)
def only_fitting_unproduced_artifacts_in_the_right_number(p, outs):
    assume(len(outs) >= 1)
    got = outcome(p.out, *outs)
    fits = len(outs) == len(p._outputs_)
    if fits:
        fits = all(compatible(p._outputs_[i], outs[i]) and outs[i].producer_output is None for i in range(len(outs)))
    assert (got[0] == "ok") == fits
    if not fits:
        assert raises(ValueError, p.out, *outs)


@lemma("C12", params=dict(p=producer), setup=same_as, gen=lambda rng: dict(p=rng.choice([One, Three])(a=Num())))
def default_outputs(p):
    assume(all(compatible(v, default_for(v)) and default_for(v).producer_output is None for v in p._outputs_))
    outs = tuple(iter(Producer.__iter__(p)))
    assert len(outs) == len(p._outputs_)
    for i in range(len(outs)):
        assert outs[i].producer_output.position == i
        assert outs[i].producer_output.producer is p
        assert other_fields(outs[i]) == other_fields(default_for(p._outputs_[i]))
    got = p.out()
    assert got == (outs if len(outs) > 1 else outs[0])


# -------------------------------------------------------------------------------------- definitions

Ann, Par, Cls = KObj(object), KObj(Parameter), KObj(type)
has_hint, hint = ufun("param.hinted", R, B), ufun("param.hint", R, R)
has_default, kind_of = ufun("param.default", R, B), ufun("param.kind", R, I)


class Definition(Producer):
    """A producer class being defined."""

    _abstract_ = True


def definition(e, n):
    return Inst(Definition, {
        "_input_artifact_classes_": e.fresh_val(KDict(Str, Cls, frozendict), n + ".fields"),
        "_build_inputs_": e.fresh_val(KDict(Str, KObj(View), frozendict), n + ".build_inputs"),
        "_build_sig_": Inst(Sig, {"parameters": e.fresh_val(KDict(Str, Par), n + ".build_parameters")}),
        "_map_sig_": Inst(Sig, {"parameters": e.fresh_val(KDict(Str, Par), n + ".map_parameters")}),
    }, payload="class")


def signature_of(e, n):
    return Inst(Sig, {"parameters": e.fresh_val(KDict(Str, Par), n + ".parameters")})


def validated(name, param):
    """What a validator made of a parameter."""
    return VALIDATE[0](name, param)


VALIDATE = [None]


def parameters(e):
    e.used_contracts.add("inspect.Parameter: annotation and default are the empty marker if there is none")

    def annotation(e2, v):
        return SObj(hint(v.t), object) if e2.branch(has_hint(v.t)) else Parameter.empty

    def dflt(e2, v):
        return SObj(ufun("param.default_value", R, R)(v.t), object) if e2.branch(has_default(v.t)) else Parameter.empty

    def kind(e2, v):
        e2.fact(z3.And(0 <= kind_of(v.t), kind_of(v.t) <= 4))
        return SInt(kind_of(v.t))

    def valid(e2, args, kw):
        name, p = e2.res(args[0]), e2.ref(args[1])
        if not e2.branch(ufun("validator.accepts", z3.StringSort(), R, B)(e2.unwrap(Str, name)[0], p)):
            e2.raise_(ValueError, "validator")
        return SObj(ufun("validator.result", z3.StringSort(), R, R)(e2.unwrap(Str, name)[0], p), object)

    e.attr_specs[(Parameter, "annotation")] = annotation
    e.attr_specs[(Parameter, "default")] = dflt
    e.attr_specs[(Parameter, "kind")] = kind
    e.contracts[validated] = valid


def keyword_parameter(p):
    """Usable as a keyword argument, with a type hint and without a default."""
    return p.annotation is not Parameter.empty and p.default is Parameter.empty and p.kind in (Parameter.POSITIONAL_OR_KEYWORD, Parameter.KEYWORD_ONLY)


NAMES = ["a", "b", "c"]


def gen_parameter(rng, name):
    kind = rng.choice([Parameter.POSITIONAL_OR_KEYWORD] * 4 + [Parameter.KEYWORD_ONLY] * 3 + [Parameter.POSITIONAL_ONLY, Parameter.VAR_POSITIONAL, Parameter.VAR_KEYWORD])
    more = {}
    if rng.random() < 0.8:
        more["annotation"] = rng.choice([int, Annotated[int, Num], Num, str, None, StoragePartitions])
    if rng.random() < 0.15 and kind not in (Parameter.VAR_POSITIONAL, Parameter.VAR_KEYWORD):
        more["default"] = rng.choice([None, 1])
    return Parameter(name, kind, **more)


def gen_parameters(rng):
    return {n: gen_parameter(rng, n) for n in rng.sample(NAMES, rng.randint(0, 3))}


def sig_of(parameters):
    sig = Sig()
    sig.parameters = parameters
    return sig


def gen_definition(rng):
    fields = rng.sample(NAMES, rng.randint(0, 3))

    class D(Definition):
        _abstract_ = True
        _input_artifact_classes_ = frozendict({n: rng.choice([Num, Other]) for n in fields})
        _build_inputs_ = frozendict({n: Three._outputs_[0] for n in fields if rng.random() < 0.7})
        _build_sig_ = sig_of(gen_parameters(rng))
        _map_sig_ = sig_of(gen_parameters(rng))

    return dict(cls=D)


def gen_signature(rng):
    bad = rng.choice([(), ("a",), ("b", "c")])

    def validate(name, param):
        if name in bad:
            raise ValueError(name)
        return name, str(param)

    VALIDATE[0] = validate
    cls = gen_definition(rng)["cls"]
    if rng.random() < 0.7:
        cls._input_artifact_classes_ = frozendict({n: Num for n in NAMES})
    return dict(cls=cls, sig=sig_of(gen_parameters(rng)))


def gen_value(rng):
    return dict(**gen_definition(rng), value=any_artifact(rng), name=rng.choice(NAMES))


def many(i, key=Int64()):
    return Collection(element=Struct(fields={"i": key, "j": Int64()}), partition_by=(i,))


class Nums(Artifact):
    type: Type = many("i")


class Days(Artifact):
    """Partitioned by a field of the same name and another type."""

    type: Type = many("i", Date())


class Otherwise(Artifact):
    type: Type = many("j")


def gen_return(rng):
    listed = [Annotated[list[dict], c] for c in (Nums, Days, Otherwise)]
    plain = [int, Annotated[int, Num], Annotated[int, Other], str, Annotated[str, Num], None, *listed]
    r = rng.random()
    if r < 0.1:
        return rng.choice([Signature.empty, None, tuple[()], tuple[int, ...]])
    if r < 0.5:
        return rng.choice(plain)
    ok = rng.choice([[int, Annotated[int, Num]], [Annotated[list[dict], Nums]], [Annotated[list[dict], Nums]], listed, plain])
    return tuple[tuple(rng.choice(ok) for _ in range(rng.randint(1, 4)))]


def function(parameters, returns, name="fn"):
    """A function with this signature."""

    def fn(*args, **kwargs):
        raise NotImplementedError

    fn.__name__ = name
    fn.__annotations__ = {n: p.annotation for n, p in parameters.items() if p.annotation is not Parameter.empty}
    if returns is not Signature.empty:
        fn.__annotations__["return"] = returns
    ordered = sorted(parameters.values(), key=lambda p: (p.kind, p.default is not Parameter.empty))
    if any(p.kind == Parameter.POSITIONAL_ONLY and p.default is not Parameter.empty for p in ordered):
        raise Skip
    fn.__signature__ = Signature(ordered, return_annotation=returns)
    return fn


def gen_map(rng):
    cls = gen_definition(rng)["cls"]
    if rng.random() < 0.8:
        cls._input_artifact_classes_ = frozendict({n: Num for n in NAMES})
    if rng.random() < 0.7:
        parameters = {n: Parameter(n, rng.choice([Parameter.KEYWORD_ONLY] * 3 + [Parameter.POSITIONAL_OR_KEYWORD]), annotation=StoragePartitions if rng.random() < 0.95 else int) for n in rng.sample(NAMES, rng.randint(0, 3))}
    else:
        parameters = {n: p for n, p in gen_parameters(rng).items() if p.kind in (Parameter.POSITIONAL_OR_KEYWORD, Parameter.KEYWORD_ONLY)}
    cls.map = rng.choice([staticmethod, staticmethod, staticmethod, lambda f: f])(function(parameters, PartitionDependencies))
    return dict(cls=cls)


def gen_validation(rng):
    cls = gen_definition(rng)["cls"]
    hints = [rng.choice([int, int, Annotated[int, Num], str, Annotated[str, "x"], bool, list[int]]) for _ in range(rng.randint(1, 3))]
    cls._build_sig_ = Sig()
    cls._build_sig_.return_annotation = tuple(hints)
    r = rng.random()
    if r < 0.3:
        more = {} if rng.random() < 0.3 else {"annotation": rng.choice([int, Any, str, object])}
        parameters = {"a": Parameter("a", Parameter.VAR_POSITIONAL, **more)}
    elif r < 0.7:
        parameters = {n: Parameter(n, Parameter.POSITIONAL_OR_KEYWORD, annotation=rng.choice([h, h, Any, int])) for n, h in zip(NAMES, hints)}
    else:
        parameters = gen_parameters(rng)
    cls.validate_outputs = staticmethod(function(parameters, tuple[bool, str]))
    return dict(cls=cls)


def gen_build(rng):
    cls = gen_definition(rng)["cls"]
    if rng.random() < 0.8:
        cls._input_artifact_classes_ = frozendict({n: Num for n in NAMES})
    if rng.random() < 0.5:
        parameters = {n: Parameter(n, Parameter.KEYWORD_ONLY, annotation=int) for n in rng.sample(NAMES, rng.randint(0, 3))}
    else:
        parameters = {n: p for n, p in gen_parameters(rng).items() if p.kind in (Parameter.POSITIONAL_OR_KEYWORD, Parameter.KEYWORD_ONLY)}
    returns = gen_return(rng)
    fn = function(parameters, returns)
    cls.build = rng.choice([staticmethod, staticmethod, staticmethod, lambda f: f])(fn)
    return dict(cls=cls)


def acceptable(cls, sig):
    return all(n in cls._input_artifact_classes_ and keyword_parameter(p) and not raises(ValueError, validated, n, p) for n, p in sig.parameters.items())


@lemma("C12", params=dict(cls=definition, sig=signature_of), setup=parameters, gen=gen_signature)
def parameters_are_declared_hinted_keywords(cls, sig):
    got = outcome(lambda: tuple(cls._validate_parameters(sig, validator=validated)))
    assert (got[0] == "ok") == acceptable(cls, sig)


@lemma("C12", params=dict(cls=definition, sig=signature_of), setup=parameters, gen=gen_signature)
def each_parameter_is_validated(cls, sig):
    assume(acceptable(cls, sig))
    assert tuple(cls._validate_parameters(sig, validator=validated)) == tuple(validated(n, p) for n, p in sig.parameters.items())


@lemma("C12", params=dict(cls=definition, sig=signature_of), setup=parameters, gen=gen_signature)
def other_parameters_are_value_errors(cls, sig):
    assume(not acceptable(cls, sig))
    assert raises(ValueError, lambda: tuple(cls._validate_parameters(sig, validator=validated)))


@lemma("C12", params=dict(cls=definition), setup=parameters, gen=gen_definition)
def every_field_is_used(cls):
    used = all(n in cls._build_sig_.parameters or n in cls._map_sig_.parameters for n in cls._input_artifact_classes_)
    got = outcome(cls._validate_no_unused_fields)
    assert (got[0] == "ok") == used
    if not used:
        assert raises(ValueError, cls._validate_no_unused_fields)


@lemma("C12", params=dict(cls=definition, value=Art, name=Str), setup=outputs, gen=gen_value)
def inputs_fit_the_build_step(cls, value, name):
    info = Info(name)
    got = outcome(cls._validate_instance_artifact_args, value, info)
    if name in cls._build_inputs_:
        assert (got[0] == "ok") == compatible(cls._build_inputs_[name], value)
    else:
        assert got[0] == "ok"
    if got[0] == "ok":
        assert got[1] is value


# ---- the steps of a definition, each by the contracts of what it asks


class Many(Producer):
    """Makes partitions."""

    a: Num

    @staticmethod
    def build(a: int) -> Annotated[list[dict], Nums]:
        return []

    @staticmethod
    def map(a: StoragePartitions) -> PartitionDependencies:
        return {}


class Field:
    """Pydantic's description of a declared field."""

    annotation: Any
    required: bool

    def is_required(self):
        return self.required


def defining(e):
    parameters(e)
    e.used_contracts.add("get_item_from_annotated, is_optional_hint, lenient_issubclass, View.from_annotation, PartitionKey.types_from, is_partitioned, signature: functions of their arguments; from_annotation may reject with a ValueError (C21)")
    u = lambda n, *s: ufun(n, *s)
    pred = lambda n, k: lambda e2, args, kw: SBool(u(n, *[R] * k, B)(*[e2.ref(x) for x in args]))
    e.contracts[type_hints.is_optional_hint] = pred("optional hint", 1)
    e.contracts[type_hints.lenient_issubclass] = pred("subclass", 2)
    e.contracts[types.is_partitioned] = pred("partitioned", 1)
    e.contracts[PartitionKey.types_from.__func__] = lambda e2, args, kw: SObj(u("key types", R, R)(e2.ref(args[-1])), object)

    def item(e2, args, kw):
        assert args[1] is Artifact and kw == {"kind": "class"}, (args, kw)
        t = e2.ref(args[0])
        return SObj(u("artifact hint", R, R)(t), type) if e2.branch(u("has artifact hint", R, B)(t)) else None

    e.contracts[type_hints.get_item_from_annotated] = item

    def view(e2, args, kw):
        t, mode = e2.ref(args[-1]), e2.res(kw["mode"])
        if not e2.branch(u("is a view", R, z3.StringSort(), B)(t, e2.unwrap(Str, mode)[0])):
            e2.raise_(ValueError, "no view")
        return SObj(u("view of", R, z3.StringSort(), R)(t, e2.unwrap(Str, mode)[0]), View)

    e.contracts[View.from_annotation.__func__] = view
    e.attr_specs[(View, "artifact_class")] = lambda e2, v: SObj(u("view.artifact_class", R, R)(v.t), type)
    e.attr_specs[(View, "type")] = lambda e2, v: SObj(ufun("view.type", R, R)(v.t), Type)


def with_fields(e, n):
    own = e.fresh_val(KDict(Str, KObj(Field), dict), n + ".model_fields")
    return Inst(Definition, {"model_fields": own}, payload="class")


def fielding(e):
    defining(e)
    e.attr_specs[(Field, "annotation")] = lambda e2, v: SObj(ufun("field.hint", R, R)(v.t), type)
    e.attr_specs[(Field, "required")] = lambda e2, v: SBool(ufun("field.required", R, B)(v.t))


def artifact_field(f):
    return f.is_required() and not type_hints.is_optional_hint(f.annotation) and type_hints.lenient_issubclass(f.annotation, Artifact)


def gen_fields(rng):
    fields = dict(Producer.model_fields)
    for n in rng.sample(NAMES, rng.randint(0, 3)):
        f = Field()
        f.annotation, f.required = rng.choice([Num, Num, Artifact, Other, int, Num | None, None, Annotated[int, Num], Producer]), rng.random() < 0.85
        fields[n] = f
    cls = gen_definition(rng)["cls"]
    cls.model_fields = fields
    return dict(cls=cls)


def own_fields(cls):
    return {n: f for n, f in cls.model_fields.items() if n not in Producer.model_fields}


@lemma("C12", params=dict(cls=with_fields), setup=fielding, gen=gen_fields)
def fields_are_required_artifacts(cls):
    assume(all(artifact_field(f) for f in own_fields(cls).values()))
    assert cls._validate_fields() == {n: f.annotation for n, f in own_fields(cls).items()}


@lemma("C12", params=dict(cls=with_fields), setup=fielding, gen=gen_fields)
def other_fields_are_rejected(cls):
    assume(not all(artifact_field(f) for f in own_fields(cls).values()))
    assert raises(ValueError, cls._validate_fields)


def gen_build_param(rng):
    name = rng.choice(NAMES)
    cls = gen_definition(rng)["cls"]
    cls._input_artifact_classes_ = frozendict({name: rng.choice([Num, Other])})
    hint = rng.choice([int, str, Annotated[int, Num], Annotated[int, Other], Annotated[str, Num], Annotated[int, "x"], object()])
    return dict(cls=cls, name=name, param=Parameter(name, Parameter.KEYWORD_ONLY, annotation=hint))


def param_named(e, n):
    return SObj(z3.Const(n, R), Parameter, True)


def hinting(e):
    defining(e)
    e.attr_specs[(Parameter, "annotation")] = lambda e2, v: SObj(hint(v.t), object)
    e.attr_specs[(Parameter, "name")] = lambda e2, v: SStr(ufun("param.name", R, z3.StringSort())(v.t))


@lemma("C12", params=dict(cls=definition, name=Str, param=param_named), setup=hinting, gen=gen_build_param)
def build_parameters_match_their_fields(cls, name, param):
    assume(param.name == name)
    assume(name in cls._input_artifact_classes_)
    wanted = cls._input_artifact_classes_[name]
    given = type_hints.get_item_from_annotated(param.annotation, Artifact, kind="class")
    full = Annotated[param.annotation, wanted] if given is None else param.annotation
    view = outcome(View.from_annotation, full, mode="READ")
    got = outcome(cls._validate_build_param, name, param)
    assert (got[0] == "ok") == (view[0] == "ok" and view[1].artifact_class == wanted)
    if got[0] == "ok":
        assert got[1] == (name, view[1])


Hints = KSeq(KObj(object))
Params = KDict(Str, Par)
STATIC = staticmethod(len)


class Step:
    """A build, map or validate_outputs step: its parameters, its return hints, whether it is a class- or staticmethod."""

    is_static: bool
    parameters: Any
    return_annotation: Any


def a_step(e, n, returns):
    return Inst(Step, {"is_static": e.fresh_val(KBool(), n + ".static"), "parameters": e.fresh_val(Params, n + ".parameters"), "return_annotation": e.fresh_val(returns, n + ".hints")})


def with_build(e, n):
    return Inst(Definition, {"build": a_step(e, n + ".build", KAlt([KConst(Signature.empty), KConst((type(None),)), Hints])), "_input_artifact_classes_": e.fresh_val(KDict(Str, Cls, frozendict), n + ".fields")}, payload="class")


def building(e):
    """A step is described by its signature."""
    hinting(e)

    def getattr_static(e2, args, kw):
        step = e2.getattr(e2.res(args[0]), args[1])
        return STATIC if e2.branch(step.f["is_static"].t) else step

    def sig(e2, args, kw):
        s = e2.res(args[0])
        if s.f["return_annotation"] is not None:
            assert kw.get("force_tuple_return") is True, kw
        assert kw.get("remove_owner", True) is True, kw
        return Inst(Sig, {"parameters": s.f["parameters"], "return_annotation": s.f["return_annotation"], "empty": Signature.empty})

    e.contracts[inspect.getattr_static] = getattr_static
    e.contracts[type_hints.signature] = sig
    e.contracts[step_of] = lambda e2, args, kw: e2.getattr(e2.res(args[0]), args[1])


def step_of(cls, name):
    """What the definition says about a step."""
    out, fn = Step(), getattr(cls, name)
    sig = type_hints.signature(fn, force_tuple_return=name == "build")
    out.is_static = isinstance(inspect.getattr_static(cls, name), classmethod | staticmethod)
    out.parameters, out.return_annotation = sig.parameters, sig.return_annotation
    return out


def parameters_by_contract(e):
    e.used_contracts.add("Producer._validate_parameters by its contract: rejects with a ValueError or yields something for each parameter (proved: each_parameter_is_validated, parameters_are_declared_hinted_keywords)")
    Pairs = KSeq(KTuple([Str, KObj(View)]))

    def params(e2, args, kw):
        ts = e2.unwrap(Params, e2.res(args[-1]).f["parameters"])
        if not e2.branch(ufun("parameters ok", *[t.sort() for t in ts], B)(*ts)):
            e2.raise_(ValueError, "parameters")
        return e2.wrap(Pairs, [ufun(f"validated{i}", *[t.sort() for t in ts], s)(*ts) for i, s in enumerate(Pairs.sorts)])

    e.contracts[Producer._validate_parameters.__func__] = params


@lemma("C12", params=dict(cls=with_build), setup=building, gen=gen_build, modular=parameters_by_contract, budget=150)
def the_build_step_declares_its_outputs(cls):
    got = outcome(cls._validate_build_sig)
    if got[0] == "ok":
        sig, inputs, outs = got[1]
        build = step_of(cls, "build")
        hints = build.return_annotation
        assert build.is_static
        assert len(outs) == len(hints) and len(outs) >= 1
        for i in range(len(outs)):
            assert outs[i] == View.from_annotation(hints[i], mode="WRITE")
            assert PartitionKey.types_from(outs[i].type) == PartitionKey.types_from(outs[0].type)


@lemma("C12", params=dict(cls=with_build), setup=building, gen=gen_build, modular=parameters_by_contract, budget=150)
def other_build_steps_are_value_errors(cls):
    assume(all(p.name == n for n, p in step_of(cls, "build").parameters.items()))
    try:
        cls._validate_build_sig()
    except ValueError:
        pass


@lemma("C12", params=dict(cls=definition), setup=building, gen=gen_definition)
def a_build_step_is_needed(cls):
    assert raises(ValueError, cls._validate_build_sig)


# ---- the mapping step


def with_map(e, n):
    fields = {"_input_artifact_classes_": e.fresh_val(KDict(Str, Cls, frozendict), n + ".fields"), "map": a_step(e, n + ".map", KConst(None))}
    return Inst(Definition, fields, payload="class")


def without_map(e, n):
    return Inst(Definition, {
        "_input_artifact_classes_": e.fresh_val(KDict(Str, Cls, frozendict), n + ".fields"),
        "_build_inputs_": e.fresh_val(KDict(Str, KObj(View), frozendict), n + ".build_inputs"),
        "_outputs_": e.fresh_val(KSeq(KObj(View)), n + ".outputs"),
    }, payload="class")


named = ufun("param.name", R, z3.StringSort())
new_parameter = ufun("Parameter", z3.StringSort(), R, I, R)


class Static:
    """A function marked as a static method."""


def default_parameters(cls):
    """The parameters of the generated mapping step."""
    return list(cls.map.__signature__.parameters.values())


def mapping(e):
    building(e)
    parameters(e)

    def new(e2, args, kw):
        assert not args and set(kw) == {"name", "annotation", "kind"}, kw
        name, kind = e2.unwrap(Str, e2.res(kw["name"]))[0], e2.int_term(kw["kind"])
        return SObj(new_parameter(name, e2.ref(kw["annotation"]), kind), Parameter, True)

    def of(n, i, wrap):
        given = e.attr_specs[(Parameter, n)]

        def attr(e2, v):
            if z3.is_app(v.t) and v.t.decl().eq(new_parameter):
                return wrap(v.t.arg(i))
            return given(e2, v)

        e.attr_specs[(Parameter, n)] = attr

    e.used_contracts.add("inspect.Parameter(name, annotation, kind) stores these, without a default")

    def new_signature(e2, args, kw):
        e2.set(e2, ("ghost", "default mapping"), args[0])
        return Inst(Sig, {"parameters": e2.fresh_val(Params, "default parameters"), "return_annotation": kw.get("return_annotation", Signature.empty)})

    def sig(e2, args, kw):
        f = e2.res(args[0])
        return of_steps(e2, args, kw) if f.cls is Step else e2.getattr(f.f["__func__"], "__signature__")

    of_steps = e.contracts[type_hints.signature]
    e.contracts[type_hints.signature] = sig
    e.used_contracts.add("staticmethod: marks a function, which is unchanged otherwise")
    e.contracts[staticmethod] = lambda e2, args, kw: Inst(Static, {"__func__": args[0], "is_static": SBool(z3.BoolVal(True))})
    e.contracts[Signature] = new_signature
    e.models[("new", Signature)] = lambda e2, cls, args, kw: new_signature(e2, args, kw)
    e.models[("new", Parameter)] = lambda e2, cls, args, kw: new(e2, args, kw)
    e.contracts[Parameter] = new
    e.contracts[default_parameters] = lambda e2, args, kw: e2.ghost["default mapping"]
    e.attr_specs[(Parameter, "name")] = lambda e2, v: SStr(named(v.t))
    of("name", 0, SStr)
    of("annotation", 1, lambda t: StoragePartitions if t.eq(e.ref(StoragePartitions)) else SObj(t, object))
    of("kind", 2, SInt)
    of("default", 0, lambda t: Parameter.empty)


@lemma("C12", params=dict(cls=with_map), setup=mapping, gen=gen_map)
def mapping_parameters_are_storage_partitions(cls):
    step = step_of(cls, "map")
    fine = step.is_static and all(n in cls._input_artifact_classes_ and keyword_parameter(p) and p.annotation == StoragePartitions for n, p in step.parameters.items())
    got = outcome(cls._validate_map_sig)
    assert (got[0] == "ok") == fine
    if fine:
        assert got[1][1] == set(step.parameters)
    else:
        assert raises(ValueError, cls._validate_map_sig)


def gen_no_map(rng):
    cls = gen_definition(rng)["cls"]
    cls._outputs_ = tuple(rng.choice([One._outputs_[0], Many._outputs_[0]]) for _ in range(rng.randint(1, 3)))
    return dict(cls=cls)


@lemma("C12", params=dict(cls=without_map), setup=mapping, gen=gen_no_map)
def partitioned_outputs_need_a_mapping_step(cls):
    assume(any(types.is_partitioned(v.type) for v in cls._outputs_))
    assert raises(ValueError, cls._validate_map_sig)


def default_mapping(e):
    mapping(e)
    e.used_contracts.add("Producer._validate_parameters by its contract: rejects with a ValueError or yields the validated parameters (proved above)")

    def params(e2, args, kw):
        ts = e2.unwrap(Params, e2.res(args[-1]).f["parameters"])
        if not e2.branch(ufun("parameters ok", *[t.sort() for t in ts], B)(*ts)):
            e2.raise_(ValueError, "parameters")
        return e2.fresh_val(KSeq(Str), "validated")

    e.contracts[Producer._validate_parameters.__func__] = params


@lemma("C12", params=dict(cls=without_map), setup=default_mapping, gen=gen_no_map)
def the_default_mapping_takes_the_build_inputs(cls):
    assume(not any(types.is_partitioned(v.type) for v in cls._outputs_))
    got = outcome(cls._validate_map_sig)
    assume(got[0] == "ok")
    given = default_parameters(cls)
    assert [p.name for p in given] == [n for n in cls._input_artifact_classes_ if n in cls._build_inputs_]
    assert all(keyword_parameter(p) and p.annotation == StoragePartitions for p in given)


# ---- the output validation


def with_validation(e, n):
    return Inst(Definition, {"_build_sig_": Inst(Sig, {"return_annotation": e.fresh_val(Hints, n + ".hints")}), "validate_outputs": a_step(e, n + ".validate_outputs", KConst(None))}, payload="class")


def validating(e):
    building(e)
    parameters(e)
    e.used_contracts.add("typing.get_origin, get_args: tell whether a hint is Annotated, and what it annotates")
    e.contracts[utils.ordinal] = lambda e2, args, kw: e2.uf_str("ordinal", e2.res(args[0]))
    e.contracts[typing.get_origin] = lambda e2, args, kw: Annotated if e2.branch(ufun("annotated", R, B)(e2.ref(args[0]))) else SObj(ufun("origin", R, R)(e2.ref(args[0])), object)
    e.contracts[typing.get_args] = lambda e2, args, kw: (SObj(ufun("annotated root", R, R)(e2.ref(args[0])), object),)


def plain(hint):
    return typing.get_args(hint)[0] if typing.get_origin(hint) is Annotated else hint


def takes(param, hint):
    return param.annotation is Parameter.empty or type_hints.lenient_issubclass(plain(hint), param.annotation)


def takes_all(params, hints):
    return len(params) == 1 and params[0].kind == Parameter.VAR_POSITIONAL and all(takes(params[0], h) for h in hints)


def takes_each(params, hints):
    if len(params) != len(hints):
        return False
    return all(params[i].default is Parameter.empty and params[i].kind in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD) and takes(params[i], hints[i]) for i in range(len(params)))


@lemma("C12", params=dict(cls=with_validation), setup=validating, gen=gen_validation)
def the_output_validation_takes_the_outputs(cls):
    params, hints = tuple(step_of(cls, "validate_outputs").parameters.values()), cls._build_sig_.return_annotation
    got = outcome(cls._validate_validate_output_sig)
    assert (got[0] == "ok") == (takes_all(params, hints) or takes_each(params, hints))


@lemma("C12", params=dict(cls=with_validation), setup=validating, gen=gen_validation)
def other_output_validations_are_value_errors(cls):
    try:
        cls._validate_validate_output_sig()
    except ValueError:
        pass


# --------------------------------------------------------------- whole definitions (bounded)

HINTS = {Num: [int, Annotated[int, Num], Annotated[int, "x"]], Other: [int, Annotated[int, Other]], **{c: [list[dict], Annotated[list[dict], c]] for c in (Nums, Days, Otherwise)}}


def some_fields(rng, flaws):
    fields, defaults = {}, {}
    for n in rng.sample(NAMES, rng.randint(0, 3)):
        fields[n] = rng.choice([Num, Num, Other, Nums])
        r = rng.random()
        if r < 0.02:
            flaws.append(f"field {n} is optional")
            fields[n] = fields[n] | None
        elif r < 0.04:
            flaws.append(f"field {n} has a default")
            defaults[n] = fields[n]()
        elif r < 0.06:
            flaws.append(f"field {n} is no artifact")
            fields[n] = rng.choice([int, str, Type, Producer, list[Num]])
    return fields, defaults


def some_parameters(rng, what, fields, names, hints, flaws):
    parameters = {}
    for n in names:
        kind, more, r = rng.choice([Parameter.KEYWORD_ONLY, Parameter.POSITIONAL_OR_KEYWORD]), {}, rng.random()
        hint = rng.choice(hints(fields[n]))
        if r < 0.03:
            flaws.append(f"{what} parameter {n} has no hint")
            hint = Parameter.empty
        elif r < 0.06:
            flaws.append(f"{what} parameter {n} has a default")
            more["default"] = None
        elif r < 0.09:
            flaws.append(f"{what} parameter {n} is no keyword")
            kind = rng.choice([Parameter.POSITIONAL_ONLY, Parameter.VAR_POSITIONAL, Parameter.VAR_KEYWORD])
        elif r < 0.12:
            flaws.append(f"{what} parameter {n} has another hint")
            hint = {Num: Annotated[int, Other], Other: Annotated[int, Num], Nums: dict}.get(fields[n], float) if what == "build" else rng.choice([Num, list])
        parameters[n] = Parameter(n, kind, annotation=hint, **more)
    if rng.random() < 0.03:
        flaws.append(f"{what} parameter z is not declared")
        parameters["z"] = Parameter("z", Parameter.KEYWORD_ONLY, annotation=Annotated[int, Num] if what == "build" else StoragePartitions)
    kinds = [p.kind for p in parameters.values()]
    if any(kinds.count(k) > 1 for k in (Parameter.VAR_POSITIONAL, Parameter.VAR_KEYWORD)):
        raise Skip
    return parameters


def wired(rng, what, p, views):
    """The outputs of a producer are its declared ones, in order, linked to it."""

    def check(outs, given=None):
        assert len(outs) == len(views), f"{what}: {len(outs)} outputs, {len(views)} declared"
        for i, (a, (cls, type_)) in enumerate(zip(outs, views)):
            assert type(a) is (type(given[i]) if given else cls) and a.type == type_, f"{what}: output {i} is {a!r}"
            assert a.producer_output.producer == p and a.producer_output.position == i, f"{what}: output {i} is linked to {a.producer_output!r}"
            if given:
                assert other_fields(a) == other_fields(given[i]), f"{what}: output {i} changed"

    single = lambda x: x if isinstance(x, tuple) else (x,)
    assert isinstance(p.out(), Artifact if len(views) == 1 else tuple), what
    check(single(p.out()))
    check(tuple(p))
    given = [cls(storage=StringLiteral(id=f"{i}")) for i, (cls, _) in enumerate(views)]
    before = [(a.model_dump(), a.fingerprint) for a in given]
    check(single(p.out(*given)), given)
    assert [(a.model_dump(), a.fingerprint) for a in given] == before and all(a.producer_output is None for a in given), f"{what}: the given artifacts changed"
    n = rng.randrange(len(views) + 1)
    wrong = {"too many": [*given[:n], Num(), *given[n:]]}
    i = rng.randrange(len(views))
    if len(views) > 1:
        wrong["too few"] = given[:i] + given[i + 1 :]
    replace = lambda a: [*given[:i], a, *given[i + 1 :]]
    wrong["another kind"] = replace(next(c for c in (Other, Num, Nums) if c is not views[i][0])())
    wrong["produced elsewhere"] = replace(given[i].model_copy(update={"producer_output": ProducerOutput(producer=One(a=Num()), position=0)}))
    wrong["its own output"] = replace(single(p.out())[i])
    for why, outs in wrong.items():
        assert raises(ValueError, p.out, *outs), f"{what}: {why} was accepted: {outs}"
    assert [(a.model_dump(), a.fingerprint) for a in given] == before, f"{what}: the given artifacts changed"


@scenario("C12", runs=500, bound="up to 3 fields, 1-3 outputs (plain or partitioned), build, map and validate_outputs steps with up to 4 parameters, up to several flaws at once; half of the definitions extend another one")
def whole_definitions(rng, tmp):
    made = define(rng, Producer, "Made")
    if isinstance(made, str) or rng.random() < 0.5:
        return str(made)
    return str(define(rng, made, "Derived"))


def define(rng, base, name):
    flaws = []
    inherited = {} if base is Producer else {n: f.annotation for n, f in base.model_fields.items() if n not in Producer.model_fields}
    own, defaults = some_fields(rng, flaws)
    own = {n: t for n, t in own.items() if n not in inherited}
    flaws[:] = [f for f in flaws if f.split()[1] in own]
    fields = {**inherited, **own}
    ns = {"__annotations__": own, "__module__": __name__, **{n: d for n, d in defaults.items() if n in own}}
    # the build step
    build, returns = getattr(base, "build", None), PLANS.get(base, {}).get("returns")
    build_names = PLANS.get(base, {}).get("build", [])
    if build is None or rng.random() < 0.7:
        build_names = [n for n in fields if rng.random() < 0.8]
        wanted = rng.choice([[Num], [Nums], [Num, Other], [Nums, Nums], [Num, Num, Other], [Num] * rng.randint(1, 6)])
        if rng.random() < 0.04:
            flaws.append("the outputs are partitioned differently")
            wanted = [*wanted, Num, Nums] if rng.random() < 0.3 else [Nums, *[Nums] * rng.randint(0, 1), rng.choice([Days, Otherwise])]
            rng.shuffle(wanted)
        returns = wanted
        hints = [rng.choice(HINTS[c][1:2]) for c in wanted]
        hint = tuple[tuple(hints)] if len(hints) > 1 or rng.random() < 0.3 else hints[0]
        if rng.random() < 0.04:
            flaws.append("the build step returns nothing")
            hint = rng.choice([Signature.empty, None, tuple[()]])
        fn = function(some_parameters(rng, "build", fields, build_names, lambda t: HINTS.get(t, [int]), flaws), hint, "build")
        if rng.random() < 0.03:
            flaws.append("the build step is a method")
            ns["build"] = fn
        else:
            ns["build"] = staticmethod(fn)
        if build is None and rng.random() < 0.03:
            flaws.append("there is no build step")
            del ns["build"]
    # the mapping step
    map_names, own_map = PLANS.get(base, {}).get("map"), False
    if rng.random() < 0.4 or (any(c not in (Num, Other) for c in returns) and map_names is None and rng.random() < 0.8):
        map_names, own_map = [n for n in fields if rng.random() < 0.8], True
        fn = function(some_parameters(rng, "map", fields, map_names, lambda t: [StoragePartitions], flaws), PartitionDependencies, "map")
        if rng.random() < 0.03:
            flaws.append("the mapping step is a method")
            ns["map"] = fn
        else:
            ns["map"] = staticmethod(fn)
    elif map_names is None and any(c not in (Num, Other) for c in returns):
        flaws.append("partitioned outputs without a mapping step")
    # the output validation
    if rng.random() < 0.4:
        python = [int if c in (Num, Other) else list[dict] for c in returns]
        r = rng.random()
        if r < 0.3:
            params = {"args": Parameter("args", Parameter.VAR_POSITIONAL, annotation=rng.choice([Any, Parameter.empty, object]))}
        else:
            params = {f"x{i}": Parameter(f"x{i}", rng.choice([Parameter.POSITIONAL_OR_KEYWORD] + ([Parameter.POSITIONAL_ONLY] if i == 0 else [])), annotation=rng.choice([t, t, Any, Parameter.empty])) for i, t in enumerate(python)}
            if r < 0.34:
                flaws.append("the validation takes another number of outputs")
                params["more"] = Parameter("more", Parameter.POSITIONAL_OR_KEYWORD, annotation=Any)
            elif r < 0.38:
                flaws.append("the validation takes another type")
                params["x0"] = params["x0"].replace(annotation=bytes)
            elif r < 0.42:
                flaws.append("the validation has a default")
                params[f"x{len(python) - 1}"] = params[f"x{len(python) - 1}"].replace(default=1)
            elif r < 0.46:
                flaws.append("the validation takes a keyword")
                params[f"x{len(python) - 1}"] = params[f"x{len(python) - 1}"].replace(kind=Parameter.KEYWORD_ONLY)
        ns["validate_outputs"] = staticmethod(function(params, tuple[bool, str], "validate_outputs"))
    elif PLANS.get(base, {}).get("validated") not in (None, returns):
        raise Skip
    used = set(build_names) | set(build_names if map_names is None else map_names)
    if set(fields) - used:
        flaws.append(f"{sorted(set(fields) - used)} are not used")
    what = f"{name}({ {n: getattr(t, '__name__', t) for n, t in fields.items()} }, build={sorted(build_names)} -> {[c.__name__ for c in returns]}, map={map_names}, of {base.__name__})"
    try:
        made = type(name, (base,), ns)
    except Exception as e:
        assert flaws, f"{what} was refused: {e}"
        return f"{what}: {flaws}"
    assert not flaws, f"{what} was accepted although {flaws}"
    PLANS[made] = dict(returns=returns, build=build_names, map=map_names, validated=returns if "validate_outputs" in ns else PLANS.get(base, {}).get("validated"))
    inputs = {n: t() for n, t in fields.items()}
    p = made(**{n: a for n, a in rng.sample(sorted(inputs.items()), len(inputs))})
    assert dict(p.inputs) == inputs, f"{what}: inputs {p.inputs}"
    if inputs:
        n = rng.choice(sorted(inputs))
        bad = Other() if fields[n] is not Other else Num()
        assert raises(ValueError, lambda: made(**{**inputs, n: bad})), f"{what}: {bad!r} was accepted as {n}"
        assert raises(ValueError, lambda: made(**{m: a for m, a in inputs.items() if m != n})), f"{what}: {n} is missing"
    wired(rng, what, p, [(c, c.model_fields["type"].default) for c in returns])
    if map_names is None:
        given = {n: (n,) for n in build_names}
        assert dict(made.map(**given)) == {PartitionKey(): frozendict(given)}, f"{what}: the default mapping"
    deps = [n for n in fields if n in (build_names if map_names is None else map_names)]
    if map_names is None:
        assert set(p.compute_dependencies(frozendict({n: () for n in fields}))[1]) == {PartitionKey()}, what
    return made


PLANS = {}


@scenario("C12", runs=150, bound="1-3 functions per decorator, up to 3 parameters, 1-3 outputs")
def decorated_functions(rng, tmp):
    name, version = rng.choice([None, None, "named"]), rng.choice([None, SemVer(major=2, minor=0, patch=0)])
    decorate = producer_decorator(**{k: v for k, v in dict(name=name, version=version).items() if v is not None})
    for i in range(rng.randint(1, 3)):
        wanted = [rng.choice([Num, Other]) for _ in range(rng.randint(1, 3))]
        inputs = {n: rng.choice([Num, Other]) for n in rng.sample(NAMES, rng.randint(0, 3))}
        fn = function({n: Parameter(n, Parameter.KEYWORD_ONLY, annotation=Annotated[int, t]) for n, t in inputs.items()}, tuple[tuple(Annotated[int, c] for c in wanted)], f"f{i}")
        made = decorate(fn)
        what = f"{name}: f{i}({inputs}) -> {wanted}"
        assert made.__name__ == (name or f"f{i}"), f"{what} is called {made.__name__}"
        p = made(**{n: t() for n, t in inputs.items()})
        assert dict(p.inputs) == {n: t() for n, t in inputs.items()}, what
        assert p.version == (version or Producer.model_fields["version"].default), what
        wired(rng, what, p, [(c, Int64()) for c in wanted])
    return what
