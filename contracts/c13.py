"""C13: a graph's structure is complete, acyclic and fixed while sealed."""

from graphlib import CycleError, TopologicalSorter
from typing import Annotated, Any

import arti
from arti import Artifact, Graph, Producer
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.graphs import ArtifactBox
from arti.internal.mappings import BoxStatus, TypedBox, frozendict
from arti.producers import ProducerOutput
from arti.storage import Storage
from arti.storage.literal import StringLiteral
from arti.types import Int64

from pyvc.core import *
from pyvc.spec import *
from pyvc.values import Native

__lemmas__ = True

Str = KStr()
Art, Prod = KObj(Artifact), KObj(Producer)
R, B, I, S = Ref, z3.BoolSort(), z3.IntSort(), z3.StringSort()
STATUS = KAlt([KConst(None), KConst("open"), KConst("closed")])
produced, output_of = ufun("artifact.produced", R, B), ufun("artifact.output", R, R)
producer_of, position_of = ufun("output.producer", R, R), ufun("output.position", R, I)

is_producer = ufun("is a producer", R, B)


class Num(Artifact):
    type: Int64 = Int64()


class Other(Artifact):
    type: Int64 = Int64()


class One(Producer):
    a: Num

    @staticmethod
    def build(a: int) -> Annotated[int, Num]:
        return a + 1


LATER: dict[str, Artifact] = {}


class Late(One):
    """A producer that depends on more than its fields: the only way to a cycle, the fields being frozen."""

    @property
    def inputs(self):
        return {**super().inputs, **LATER}


class Two(Producer):
    a: Num
    b: Other

    @staticmethod
    def build(a: int, b: int) -> tuple[Annotated[int, Num], Annotated[int, Other], Annotated[int, Num]]:
        return a, b, a + b


def defined(rng, name="g", tags=frozendict()):
    """A real graph."""
    arti.context.graph = None
    LATER.clear()
    with Graph(name=name, path_tags=tags) as g:
        some_definitions(rng, g)
    return g


def some_definitions(rng, g, prefix=""):
    for i in range(rng.randint(0, 4)):
        key = rng.choice(["", "", "n.", "n.m."]) + f"{prefix}{i}"
        known = [a for _, a in g.artifacts.walk()]
        nums, others = ([a for a in known if type(a) is c] for c in (Num, Other))
        r = rng.random()
        if r < 0.3 or not nums:
            g.artifacts["r" + key if "." not in key else key + "r"] = rng.choice([Num, Num, Other])()
        elif r < 0.6 or not others:
            g.artifacts[key.replace(prefix, prefix + "p")] = rng.choice([One, Late])(a=rng.choice(nums))
        else:
            outs = Two(a=rng.choice(nums), b=rng.choice(others)).out()
            for j in rng.sample(range(3), rng.randint(1, 3)):
                g.artifacts[f"{key}t{j}"] = outs[j]


def gen_any(rng):
    g = rng.choice([defined, lambda rng: Graph(name="g")])(rng)
    arti.context.graph = rng.choice([None, Graph(name="another")])
    if rng.random() < 0.6:
        arti.context.graph = None
        g.__enter__()
    a = rng.choice([Num(), *(a for _, a in g.artifacts.walk())])
    return dict(ctx=arti.context, g=g, a=a, data=1)


def gen_entering(rng):
    return {k: v for k, v in gen_any(rng).items() if k in ("ctx", "g")}


def gen_sealed(rng):
    g = defined(rng)
    x = rng.choice([None, Num(), One(a=Num()), *g.dependencies])
    return dict(g=g, x=x)


def gen_node(rng):
    g = defined(rng)
    return dict(g=g, a=rng.choice([Num(), *nodes(g)]))


def gen_index(rng):
    g = defined(rng)
    made = [i for i, a in enumerate(nodes(g)) if a.producer_output is not None]
    i = rng.choice(made or [0])
    inputs = nodes(g)[i].producer_output.producer.inputs.values() if made else ()
    return dict(g=g, i=i, x=rng.choice([Num(), *nodes(g), *inputs]))


def gen_open(rng):
    g = defined(rng)
    for name in rng.sample(["dependencies", "producers", "producer_outputs", "fingerprint"], 2):
        getattr(g, name)
    g.__enter__()
    some_definitions(rng, g, "x")
    if rng.random() < 0.5 and nodes(g):
        LATER["later"] = rng.choice(nodes(g))
    return dict(ctx=arti.context, g=g)


def gen_failing(rng):
    return dict(**gen_open(rng), error=rng.choice([None, *ERRORS]))


def gen_names(rng):
    case = gen_open(rng)
    return dict(**case, x=rng.choice([Num(), *nodes(case["g"])]))


def context(e, n):
    """The definition context: another graph may be open."""
    c = Inst(type(arti.context), {"graph": e.fresh_val(KAlt([KConst(None), KObj(Graph)]), n + ".graph")})
    e.proxies[id(arti.context)] = (arti.context, c)
    return c


def graph(e, n):
    status = e.fresh_val(STATUS, n + ".status")
    root = e.fresh_val(KAlt([KConst("open"), KConst("closed")]), n + ".box_status")
    return Inst(Graph, {
        "name": e.fresh_val(Str, n + ".name"),
        "artifacts": Inst(ArtifactBox, {"_status": Inst(BoxStatus, {"root": root}), "walked": e.fresh_val(KSeq(KTuple([Str, Art])), n + ".walk")}),
        "_status": status,
        "_artifact_to_key": e.fresh_val(KDict(Art, Str, frozendict), n + ".keys"),
    })


def structure(e):
    e.used_contracts.add("TypedBox.walk: the artifacts with their dotted names, in order (C05)")
    e.used_contracts.add("Producer.inputs: its artifacts by name (C12)")
    e.contracts[TypedBox.walk] = lambda e2, args, kw: e2.getattr(args[0], "walked")

    def output(e2, v):
        e2.fact(z3.Not(is_producer(v.t)))
        return SObj(output_of(v.t), ProducerOutput, True) if e2.branch(produced(v.t)) else None

    def producer(e2, v):
        e2.fact(is_producer(producer_of(v.t)))
        return SObj(producer_of(v.t), Producer)

    e.attr_specs[(Artifact, "producer_output")] = output
    e.attr_specs[(ProducerOutput, "producer")] = producer
    e.attr_specs[(ProducerOutput, "position")] = lambda e2, v: SInt(position_of(v.t))
    Inputs = KDict(Str, Art)
    e.attr_specs[(Producer, "inputs")] = lambda e2, v: e2.wrap(Inputs, [ufun(f"producer.inputs{i}", R, s)(v.t) for i, s in enumerate(Inputs.sorts)])


def sealed(g):
    return g._status == "closed"


@lemma("C13", params=dict(ctx=context, g=graph, a=Art, data=KObj(object)), setup=structure, gen=gen_any)
def nothing_but_definitions_while_open(ctx, g, a, data):
    assume(g._status != "closed")
    assert raises(ValueError, lambda: g.dependencies)
    assert raises(ValueError, lambda: g.producers)
    assert raises(ValueError, lambda: g.producer_outputs)
    assert raises(ValueError, g.snapshot)
    assert raises(ValueError, g.build)
    assert raises(ValueError, g.read, a, annotation=int)
    assert raises(ValueError, g.write, data, artifact=a)


@lemma("C13", params=dict(ctx=context, g=graph), setup=structure, gen=gen_entering)
def one_definition_at_a_time(ctx, g):
    before = (ctx.graph, g._status, g.artifacts._status.root)
    got = outcome(g.__enter__)
    if before[0] is None:
        assert got[0] == "ok" and got[1] is g
        assert ctx.graph is g
        assert g._status == "open" and g.artifacts._status.root == "open"
    else:
        assert raises(ValueError, g.__enter__)
        assert ctx.graph is before[0] and g._status == before[1] and g.artifacts._status.root == before[2]


CACHED = ("dependencies", "fingerprint", "producer_outputs", "producers")


def sealed_graph(e, n):
    """A sealed graph that was looked at (what was found is cached)."""
    g = graph(e, n)
    g.f["_status"] = g.f["artifacts"].f["_status"].f["root"] = "closed"
    for name in CACHED:
        g.f[name] = e.fresh_val(KObj(object), f"{n}.old_{name}")
    return g


def no_context(e, n):
    c = Inst(type(arti.context), {"graph": None})
    e.proxies[id(arti.context)] = (arti.context, c)
    return c


def gen_looked_at(rng):
    g = defined(rng)
    for name in CACHED:
        getattr(g, name)
    return dict(ctx=arti.context, g=g)


@lemma("C13", params=dict(ctx=no_context, g=sealed_graph), setup=structure, gen=gen_looked_at)
def opening_forgets_the_old_structure(ctx, g):
    g.__enter__()
    assert raises(ValueError, lambda: g.dependencies)
    assert raises(ValueError, lambda: g.producers)
    assert raises(ValueError, lambda: g.producer_outputs)


def nodes(g):
    return [a for _, a in g.artifacts.walk()]


def producers(g):
    return [a.producer_output.producer for a in nodes(g) if a.producer_output is not None]


def artifact(e, n):
    t = z3.Const(n, R)
    e.fact(z3.Not(is_producer(t)))
    return SObj(t, Artifact)


def producer(e, n):
    t = z3.Const(n, R)
    e.fact(is_producer(t))
    return SObj(t, Producer)


@lemma("C13", params=dict(g=graph, x=KObj(object)), setup=structure, gen=gen_sealed)
def exactly_the_artifacts_and_their_producers(g, x):
    assume(sealed(g))
    assert (x in g.dependencies) == (x in nodes(g) or x in producers(g))


def gen_made(rng):
    g = defined(rng)
    return dict(g=g, p=rng.choice([One(a=Num()), *producers(g)]))


@lemma("C13", params=dict(g=graph, p=producer), setup=structure, gen=gen_made)
def each_producer_with_its_outputs(g, p):
    assume(sealed(g))
    made = [a for a in g.artifact_to_key if a.producer_output is not None and a.producer_output.producer == p]
    outputs = g.producer_outputs
    assert (p in outputs) == (len(made) > 0)
    assert (p in g.producers) == (len(made) > 0)
    if p in outputs:
        listed = outputs[p]
        assert all(a in made for a in listed)
        assert all(a in listed for a in made)
        assert listed[0] in made


def gen_several(rng):
    for _ in range(20):
        g = defined(rng)
        some = [p for p in producers(g) if producers(g).count(p) > 1]
        if some:
            p = rng.choice(some)
            i, j = sorted(rng.sample(range(producers(g).count(p)), 2))
            return dict(g=g, p=p, i=i, j=j)
    return {**gen_made(rng), "i": 0, "j": 1}


@lemma("C13", params=dict(g=graph, p=producer, i=KInt(), j=KInt()), setup=structure, gen=gen_several)
def outputs_are_listed_by_position(g, p, i, j):
    assume(sealed(g))
    outputs = g.producer_outputs
    assume(p in outputs)
    listed = outputs[p]
    assume(0 <= i < j < len(listed))
    assert listed[i] != listed[j]
    assert listed[i].producer_output.position <= listed[j].producer_output.position


@lemma("C13", params=dict(g=graph, a=artifact), setup=structure, gen=gen_node)
def artifacts_depend_on_their_producers(g, a):
    assume(sealed(g))
    assume(a in nodes(g))
    if a.producer_output is None:
        assert g.dependencies[a] == frozenset()
    else:
        assert g.dependencies[a] == frozenset({a.producer_output.producer})


@lemma("C13", params=dict(g=graph, i=KInt(), x=artifact), setup=structure, gen=gen_index)
def producers_depend_on_all_inputs(g, i, x):
    assume(sealed(g))
    assume(0 <= i < len(nodes(g)))
    a = nodes(g)[i]
    assume(a.producer_output is not None)
    p = a.producer_output.producer
    assert (x in g.dependencies[p]) == (x in p.inputs.values())



class Sorter:
    """graphlib's sorter of some dependencies."""

    def prepare(self):
        raise NotImplementedError


def sorting(e):
    structure(e)
    e.used_contracts.add("graphlib.TopologicalSorter(dependencies).prepare: raises CycleError exactly for cyclic dependencies")

    def sorter(e2, args, kw):
        return Inst(Sorter, {"of": args[0]})

    def prepare(e2, args, kw):
        e2.set(e2, ("ghost", "checked"), e2.res(args[0]).f["of"])
        if e2.branch(z3.Bool("cyclic")):
            e2.raise_(CycleError, "cycle")

    e.contracts[TopologicalSorter] = sorter
    e.contracts[Sorter.prepare] = prepare
    e.contracts[is_cyclic] = lambda e2, args, kw: SBool(z3.Bool("cyclic"))
    e.used_contracts.add("Graph.dependencies by its contract: determined by the artifacts, refused unless sealed (proved: exactly_the_artifacts_and_their_producers, artifacts_depend_on_their_producers, producers_depend_on_all_inputs, nothing_but_definitions_while_open)")
    Walk = KSeq(KTuple([Str, Art]))

    def expected(e2, g):
        ts = e2.unwrap(Walk, e2.res(e2.getattr(g, "artifacts")).f["walked"])
        return SObj(ufun("structure", *[t.sort() for t in ts], R)(*ts), object)

    def dependencies(e2, args, kw):
        if not e2.branch(e2.truth(e2.eq(e2.getattr(args[0], "_status"), "closed"))):
            e2.raise_(ValueError, "open")
        return expected(e2, args[0])

    e.contracts[Graph.__dict__["dependencies"].func] = dependencies
    e.contracts[structure_of] = lambda e2, args, kw: expected(e2, args[0])
    e.contracts[checked] = lambda e2, args, kw: e2.ghost["checked"]


def is_cyclic(g):
    try:
        TopologicalSorter(g.dependencies).prepare()
    except CycleError:
        return True
    return False


def checked(g):
    """The structure that was checked for cycles."""
    return g.dependencies


def structure_of(g):
    out = {a: frozenset() if a.producer_output is None else frozenset({a.producer_output.producer}) for a in nodes(g)}
    return frozendict({**out, **{p: frozenset(p.inputs.values()) for p in producers(g)}})


def open_graph(e, n):
    """A graph being defined, with whatever was looked at before (and cached)."""
    g = graph(e, n)
    g.f["_status"] = g.f["artifacts"].f["_status"].f["root"] = "open"
    for name in CACHED:
        g.f[name] = e.fresh_val(KObj(object), f"{n}.old_{name}")
    return g


def defining(e, n):
    c = Inst(type(arti.context), {"graph": SObj(z3.Const(n + ".graph", R), Graph, True)})
    e.proxies[id(arti.context)] = (arti.context, c)
    return c


ERRORS = [ValueError, KeyError, KeyboardInterrupt, SystemExit, GeneratorExit, BaseException]


@lemma("C13", params=dict(ctx=defining, g=open_graph, error=KAlt([KConst(e) for e in (None, *ERRORS)])), setup=sorting, gen=gen_failing)
def leaving_seals_the_graph(ctx, g, error):
    try:
        swallowed = g.__exit__(error, None if error is None else error(), None)
    except CycleError:
        swallowed = False
    assert not swallowed
    assert ctx.graph is None
    assert g._status == "closed" and g.artifacts._status.root == "closed"


@lemma("C13", params=dict(ctx=defining, g=open_graph), setup=sorting, gen=gen_open)
def cyclic_structures_are_rejected(ctx, g):
    got = outcome(g.__exit__, None, None, None)
    assert (got[0] == "ok") == (not is_cyclic(g))
    assert checked(g) == structure_of(g)


@lemma("C13", params=dict(ctx=defining, g=open_graph), setup=sorting, gen=gen_open)
def the_structure_is_looked_up_again(ctx, g):
    assume(outcome(g.__exit__, None, None, None)[0] == "ok")
    assert g.dependencies == structure_of(g)


@lemma("C13", params=dict(ctx=defining, g=open_graph, x=artifact), setup=sorting, gen=gen_names)
def artifacts_have_their_names(ctx, g, x):
    assume(outcome(g.__exit__, None, None, None)[0] == "ok")
    assert (x in g.artifact_to_key) == (x in nodes(g))
    if x in nodes(g):
        assert any(n == g.artifact_to_key[x] and x == a for n, a in g.artifacts.walk())


# --------------------------------------------------------------- what enters a graph

visits = {n: ufun(f"storage.{n}", R, R, R) for n in ("graph", "names")}
visit_ok = {n: ufun(f"storage.{n}.ok", R, R, B) for n in ("graph", "names")}
stripped, strip_ok, templated = ufun("storage.stripped", R, R), ufun("storage.strippable", R, B), ufun("storage.templated", R, B)
storage_of, stored_copy, others_of = ufun("artifact.storage", R, R), ufun("artifact.stored", R, R, R), ufun("artifact.others", R, R)


def entering(e):
    e.used_contracts.add("Storage._visit_graph/_visit_names/_visit_input_fingerprint fill in what they are given (C07)")
    e.used_contracts.add("TypedBox._cast_value: an artifact is returned as it is, other values are cast or refused (C05)")
    e.used_contracts.add("pydantic: model_copy(update=...) copies the fields and updates those given")
    Names = KSeq(Str)

    def names_ref(e2, names):
        ts = e2.unwrap(Names, e2.res(names))
        return ufun("names", *[t.sort() for t in ts], R)(*ts)

    def visit(n, key):
        def run(e2, args, kw):
            s, k = e2.ref(args[0]), key(e2, args[1])
            if not e2.branch(visit_ok[n](s, k)):
                e2.raise_(ValueError, "empty")
            return SObj(visits[n](s, k), Storage)

        return run

    def strip(e2, args, kw):
        if e2.res(args[1]) is not None:
            raise Unsupported("filling the input fingerprint in")
        s = e2.ref(args[0])
        if not e2.branch(strip_ok(s)):
            e2.raise_(ValueError, "empty")
        return SObj(stripped(s), Storage)

    e.contracts[Storage._visit_graph] = visit("graph", lambda e2, g: e2.ref(g))
    e.contracts[Storage._visit_names] = visit("names", names_ref)
    e.contracts[Storage._visit_input_fingerprint] = strip
    e.attr_specs[(Storage, "includes_input_fingerprint_template")] = lambda e2, v: SBool(templated(v.t))
    e.attr_specs[(Artifact, "storage")] = lambda e2, v: SObj(v.t.arg(1) if v.t.decl().eq(stored_copy) else storage_of(v.t), Storage)
    is_made = lambda t: z3.Not(produced(t))
    e.attr_specs[(Artifact, "producer_output")] = lambda e2, v: None if e2.branch(is_made(v.t)) else SObj(output_of(v.t), ProducerOutput, True)

    def cast(e2, args, kw):
        v = e2.res(args[2])
        t = e2.ref(v)
        if e2.branch(ufun("is an artifact", R, B)(t)):
            return SObj(t, Artifact)
        if not e2.branch(ufun("castable", R, B)(t)):
            e2.raise_(TypeError, "not an artifact")
        return SObj(ufun("cast", R, R)(t), Artifact)

    e.contracts[TypedBox._cast_value] = cast

    def copy(e2, args, kw):
        if set(kw) != {"update"} or len(args) != 1:
            raise Unsupported("model_copy")
        u = e2.content(e2.res(kw["update"]))
        if set(u.d) != {"storage"}:
            raise Unsupported("model_copy of other fields")
        return SObj(stored_copy(e2.ref(args[0]), e2.ref(u.d["storage"])), Artifact)

    e.contracts[Artifact.model_copy] = copy
    e.contracts[other_fields] = lambda e2, args, kw: SObj(others_of(args[0].t.arg(0) if args[0].t.decl().eq(stored_copy) else args[0].t), object)


def other_fields(artifact):
    """Everything of an artifact but its storage."""
    return type(artifact), {n: getattr(artifact, n) for n in type(artifact).model_fields if n != "storage"}


def box(e, n):
    return Inst(ArtifactBox, {"_namespace": e.fresh_val(KSeq(Str), n + ".namespace")})


def gen_entry(rng):
    arti.context.graph = None
    LATER.clear()
    g = Graph(name=rng.choice(["g", "", "h"]), path_tags=rng.choice([{}, {"a": "b"}, {"a": "b", "c": "d"}]))
    parts = ["{graph_name}", "{path_tags}", "{names}", "{name}", "{input_fingerprint}", "x", "/"]
    at = StringLiteral(id="".join(rng.choice(parts) for _ in range(rng.randint(1, 4)))) if rng.random() < 0.8 else StringLiteral()
    with_storage = lambda: Num().model_copy(update={"storage": at})
    box = ArtifactBox(_namespace=tuple(rng.choice("abc") for _ in range(rng.randint(0, 3))))
    value = rng.choice([with_storage, with_storage, lambda: One(a=Num()).out(Num().model_copy(update={"storage": at})), lambda: One(a=Num()), lambda: 1, lambda: object(), lambda: Two(a=Num(), b=Other())])()
    arti.context.graph = rng.choice([None, g, g])
    return dict(ctx=arti.context, box=box, key=rng.choice("abc"), value=value)


@lemma("C13", params=dict(ctx=context, box=box, key=Str, value=KObj(object)), setup=entering, gen=gen_entry)
def entering_fills_the_storage(ctx, box, key, value):
    given = outcome(TypedBox._cast_value, box, key, value)
    got = outcome(box._cast_value, key, value)
    if given[0] == "raises":
        assert got[0] == "raises"
        return
    a = given[1]
    wanted = outcome(storage_in, ctx.graph, (*box._namespace, key), a)
    assert got[0] == wanted[0]
    if got[0] == "ok":
        assert got[1].storage == wanted[1]
        assert other_fields(got[1]) == other_fields(a)


def storage_in(graph, names, a):
    """Where an artifact of a graph is stored."""
    s = a.storage
    if graph is not None:
        s = s._visit_graph(graph)
        s = s._visit_names(names)
    if a.producer_output is None:
        return s._visit_input_fingerprint(None)
    if not s.includes_input_fingerprint_template:
        raise ValueError("no input fingerprint")
    return s


# --------------------------------------------------------------- whole histories (bounded)

KEYS = ["a", "b", "c", "n.a", "n.b", "n.m.a", "n.m.b", "o.a"]
TEMPLATES = [None, None, "{graph_name}-{name}-{names}{input_fingerprint}", "{names}/{input_fingerprint}", "x{input_fingerprint}/{path_tags}{names}/{graph_name}"]


def filled_template(g, key, template, produced):
    """The storage of an artifact of the graph, by hand."""
    names, tags = key.split("."), [f"{k}={v}" for k, v in g.path_tags.items()]
    fp = "{input_fingerprint}" if produced else ""
    if template is None:
        return "/".join([g.name, *tags, *names, *([fp] if fp else []), names[-1] + ".json"])
    text = template.replace("{graph_name}", g.name).replace("{names}", "/".join(names)).replace("{name}", names[-1]).replace("{path_tags}", "/".join(tags))
    return text if fp else text.replace("{input_fingerprint}/", "").replace("{input_fingerprint}", "").rstrip("/")


class Expected:
    """What a history of definitions must have led to."""

    def __init__(self, graph, entries=None):
        self.graph, self.entries = graph, dict(entries or {})  # key -> (class, producer, position, storage id)

    def check(self, what):
        g = self.graph
        walked = dict(g.artifacts.walk())
        assert set(walked) == set(self.entries), f"{what}: artifacts {sorted(walked)}, defined {sorted(self.entries)}"
        deps, outs = {}, {}
        for key, (cls, p, position, at) in self.entries.items():
            a = walked[key]
            assert type(a) is cls and (a.producer_output is None) == (p is None), f"{what}: {key} is {a!r}"
            assert a.storage.id == at, f"{what}: {key} is stored at {a.storage.id}, not {at}"
            if p is not None:
                assert a.producer_output.producer == p and a.producer_output.position == position, f"{what}: {key} is {a.producer_output!r}"
                deps[p] = frozenset(p.inputs.values())
                outs.setdefault(p, []).append((position, key))
            deps[a] = frozenset() if p is None else frozenset({p})
        got = g.dependencies
        assert dict(got) == deps, f"{what}: dependencies {[(k, got.get(k), deps.get(k)) for k in {*got, *deps} if got.get(k) != deps.get(k)]}"
        assert g.producers == frozenset(outs), f"{what}: producers {g.producers}"
        assert set(g.producer_outputs) == set(outs), f"{what}: outputs of {set(g.producer_outputs)}"
        for p, listed in g.producer_outputs.items():
            keys = [g.artifact_to_key[a] for a in listed]
            assert [a.producer_output.position for a in listed] == sorted(i for i, _ in outs[p]), f"{what}: outputs {keys} of {p}"
            assert sorted(keys) == sorted(k for _, k in outs[p]), f"{what}: outputs {keys} of {p}"
        assert dict(g.artifact_to_key) == {a: k for k, a in walked.items()}, f"{what}: names {g.artifact_to_key}"
        assert arti.context.graph is None, f"{what}: {arti.context.graph} is still being defined"
        assert not g.artifacts._status.root == "open", f"{what}: is still open"


def refused_while_open(rng, g, what, old):
    uses = {
        "dependencies": lambda: g.dependencies,
        "producers": lambda: g.producers,
        "producer_outputs": lambda: g.producer_outputs,
        "snapshot": g.snapshot,
        "build": g.build,
        "read": lambda: g.read(next(iter(g.artifacts.walk()))[1], annotation=int),
        "write": lambda: g.write(1, artifact=next(iter(g.artifacts.walk()))[1]),
    }
    if not dict(g.artifacts.walk()):
        del uses["read"], uses["write"]
    if old is not None:
        a = next(iter(old.artifacts.walk()), (None, None))[1]
        uses["building an old snapshot"] = old.build
        if a is not None:
            uses["reading an old snapshot"] = lambda: old.read(a, annotation=int)
            uses["writing an old snapshot"] = lambda: old.write(1, artifact=a)
    for name in rng.sample(sorted(uses), 2):
        assert raises(ValueError, uses[name]), f"{what}: {name} while it is open"


with Graph(name="outside") as OUTSIDE:
    OUTSIDE.artifacts.x = Num()
    OUTSIDE.artifacts.y = One(a=OUTSIDE.artifacts.x)


def add_some(rng, e, what):
    """One definition in an open graph."""
    g = e.graph
    free = [k for k in KEYS if k not in e.entries]
    if not free:
        return
    key = rng.choice(free)
    walked = [a for _, a in g.artifacts.walk()]
    nums, others = ([a for a in walked if type(a) is c] for c in (Num, Other))
    template = rng.choice(TEMPLATES if g.path_tags else TEMPLATES[:4])
    if rng.random() < 0.3:  # something outside of the graph
        nums, others = [*nums, rng.choice([Num(), OUTSIDE.artifacts.x, OUTSIDE.artifacts.y])], [*others, Other()]
    made = lambda cls: cls() if template is None else cls(storage=StringLiteral(id=template))
    r = rng.random()

    def store(key, value):
        way = rng.random()
        if way < 0.4:
            g.artifacts[key] = value
        else:
            *head, tail = key.split(".")
            box = g.artifacts
            for part in head:
                box = getattr(box, part) if rng.random() < 0.5 else box[part]
            if way < 0.7:
                setattr(box, tail, value)
            elif head:
                g.artifacts[".".join(head)] = {tail: value}
            else:
                box[tail] = value

    def note(key, cls, p, position, template):
        e.entries[key] = (cls, p, position, filled_template(g, key, template, p is not None))

    if r < 0.3 or not nums:
        cls = rng.choice([Num, Num, Other])
        store(key, made(cls))
        note(key, cls, None, None, template)
    elif r < 0.4:
        n = rng.randint(0, 9)
        store(key, n)
        at = dict(g.artifacts.walk())[key]
        assert at.storage.value == str(n), f"{what}: {key} = {n} is stored as {at.storage!r}"
        note(key, Artifact, None, None, None)
    elif r < 0.45:
        bad = One(a=rng.choice(nums)).out(Num(storage=StringLiteral(id="{names}/fixed")))
        assert raises(ValueError, store, key, bad), f"{what}: {key} has no input fingerprint in its storage"
    elif r < 0.6 or not others:
        p = One(a=rng.choice(nums))
        out = p if template is None and rng.random() < 0.5 else p.out(made(Num))
        store(key, out)
        note(key, Num, p, 0, template)
    else:
        p = Two(a=rng.choice(nums), b=rng.choice(others))
        outs = p.out(made(Num), made(Other), made(Num))
        rng.shuffle(free)
        for k, i in zip(free, [rng.randrange(3) for _ in range(rng.randint(1, 5))]):
            store(k, outs[i])
            note(k, type(outs[i]), p, i, template)


def refused_while_sealed(rng, e, boxes, what):
    g = e.graph
    ways = {
        "an item": lambda: g.artifacts.__setitem__("zz", Num()),
        "an attribute": lambda: setattr(g.artifacts, "zz", Num()),
        "a nested item": lambda: g.artifacts.__setitem__("n.zz", Num()),
        "a dictionary": lambda: g.artifacts.__setitem__("n", {"zz": Num()}),
        "a new namespace": lambda: g.artifacts.__setitem__("zz", {"a": Num()}),
        "a value": lambda: g.artifacts.__setitem__("zz", 5),
        **{f"a box met before ({i})": lambda b=b: b.__setitem__("zz", Num()) for i, b in enumerate(boxes)},
    }
    for name in rng.sample(sorted(ways), 3):
        assert raises(Exception, ways[name]), f"{what}: {name} was added while it is sealed"


def copies(rng, g):
    import copy
    import pickle

    return rng.choice([lambda: g.model_copy(), lambda: g.model_copy(deep=True), lambda: copy.copy(g), lambda: copy.deepcopy(g), lambda: pickle.loads(pickle.dumps(g))])()


@scenario("C13", runs=150, bound="up to 8 artifacts (nested names), producers with 1-3 outputs, up to 4 definition blocks of up to 5 steps, failing blocks, a second graph, copies")
def definition_histories(rng, tmp):
    arti.context.graph = None
    LATER.clear()
    tags = rng.choice([{}, {"t": "1"}, {"t": "1", "s": "x"}])
    all_ = [Expected(Graph(name=n, path_tags=tags, backend=MemoryBackend())) for n in ("g", "h")]
    old, steps = {}, []
    for _ in range(rng.randint(1, 4)):
        e = rng.choice(all_)
        g, other = e.graph, rng.choice([x for x in all_ if x is not e]).graph
        status = (other._status, other.artifacts._status.root)
        what = f"{g.name} after {steps}"
        boxes = []
        if rng.random() < 0.5 and g._status == "closed":
            for name in rng.sample(["dependencies", "producers", "producer_outputs", "fingerprint"], 2):
                getattr(g, name)
        failing = rng.choice([None] * 3 * len(ERRORS) + ERRORS)
        try:
            with g as opened:
                assert opened is g and arti.context.graph is g, what
                for _ in range(rng.randint(0, 5)):
                    refused_while_open(rng, g, what, old.get(id(g)))
                    if rng.random() < 0.2:
                        assert raises(ValueError, other.__enter__), f"{what}: {other.name} was opened in the block of {g.name}"
                        assert (other._status, other.artifacts._status.root) == status and arti.context.graph is g, f"{what}: the refused opening of {other.name} changed something"
                    if rng.random() < 0.1:
                        assert raises(ValueError, g.__enter__), f"{what}: opened twice"
                    add_some(rng, e, what)
                boxes = [g.artifacts, *(b for b in g.artifacts.values() if isinstance(b, ArtifactBox))]
                if failing:
                    raise failing("in the block")
        except BaseException as x:
            if failing is None or type(x) is not failing or x.args != ("in the block",):
                raise
        else:
            assert failing is None, f"{what}: the error of the block is lost"
        steps.append(f"{g.name}{'!' if failing else ''}:{len(e.entries)}")
        what = f"{g.name} after {steps}"
        for x in all_:
            if x.graph._status == "closed":
                x.check(f"{x.graph.name} after {steps}")
                refused_while_sealed(rng, x, boxes if x is e else [], what)
                x.check(f"{x.graph.name} after {steps} and refused additions")
        if all(c is Artifact or p is not None for c, p, *_ in e.entries.values()):
            old[id(g)] = g.snapshot()
        if rng.random() < 0.4:
            c = copies(rng, g)
            x = Expected(c, e.entries)
            x.check(f"a copy of {what}")
            assert dict(c.artifacts.walk()) == dict(g.artifacts.walk()) and c.name == g.name and c.path_tags == g.path_tags, f"{what}: the copy differs"
            all_.append(x)
            steps.append(f"copy of {g.name}")
    return str(steps)
