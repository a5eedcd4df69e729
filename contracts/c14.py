"""C14: a snapshot id identifies graph structure plus raw data."""

import json
import os
from contextlib import contextmanager

import arti
from arti import Annotation, Artifact, Fingerprint, Graph, GraphSnapshot, PartitionKey, Producer
from arti.backends import Backend, BackendConnection
from arti.backends.memory import MemoryBackend, MemoryConnection
from arti.formats.json import JSON
from arti.graphs import ArtifactBox
from arti.internal.mappings import TypedBox, frozendict
from arti.internal.models import Model
from arti.producers import ProducerOutput
from arti.storage import Storage, StoragePartitionSnapshot
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Int64, Struct, Type, is_partitioned
from arti.versions import String as StringVersion

from pyvc.core import *
from pyvc.interp import Star
from pyvc.models import set_of
from pyvc.spec import *

from .c13 import Late, Num, One, Other, Two, defined
from .c16 import Connected

__lemmas__ = True

Str, FP = KStr(), KInt(Fingerprint)
Node, Art, Part = KObj(Model), KObj(Artifact), KObj(StoragePartitionSnapshot, True)
Parts = KSeq(Part)
R, B, I, S = Ref, z3.BoolSort(), z3.IntSort(), z3.StringSort()


class Seen:
    """What was combined into the id and what was recorded while taking a snapshot."""

    def __init__(self):
        self.combined = set()
        self.graphs, self.snapshots, self.partitions, self.links = [], [], [], []

    def nothing(self):
        return len(self.graphs) == len(self.snapshots) == len(self.partitions) == len(self.links) == 0


def new_seen(e, n):
    s = Inst(Seen, {n: Cell(list, SSeq([], None, list)) for n in ("graphs", "snapshots", "partitions", "links")})
    s.f["combined"] = frozenset()
    e.set(e, ("ghost", "seen"), s)
    return s


def a_graph(e, n):
    nodes, keys = KDict(Node, KObj(object), frozendict), KDict(Art, Str, frozendict)
    deps, names = e.fresh_val(nodes, n + ".nodes"), e.fresh_val(keys, n + ".keys")
    x = z3.Const("x?", R)
    name = z3.Select(names.gets[0], x)
    is_art = e.isa(SObj(x, Model), Artifact)
    has, named = z3.Select(deps.has, x), z3.Select(names.has, x)
    e.fact(z3.ForAll([x], has == z3.Or(named, z3.And(has, z3.Not(is_art))), patterns=[has, named]))
    e.fact(z3.ForAll([x], z3.Implies(named, z3.And(has, is_art, held(name) == x)), patterns=[named]))
    return Inst(Graph, {
        "name": e.fresh_val(Str, n + ".name"),
        "backend": SObj(z3.Const(n + ".backend", R), Backend),
        "artifacts": Inst(ArtifactBox, {}),
        "fingerprint": e.fresh_val(FP, n + ".fingerprint"),
        "dependencies": deps,
        "_status": "closed",
        "_artifact_to_key": names,
    })


held = ufun("artifact held under", S, R)


def taking(e):
    e.used_contracts.add("Graph.dependencies: all artifacts of the graph and the producers (C13), each artifact under its name; ArtifactBox[name] is the artifact of that name (C05)")
    e.used_contracts.add("Model.fingerprint: a 64-bit number determined by the model (C03)")
    e.used_contracts.add("Storage.discover_partitions: some partition snapshots determined by what is on storage now (C08, C09)")
    e.used_contracts.add("Fingerprint.from_string: a 64-bit number determined by the text; Fingerprint.combine: determined by the set of combined fingerprints when these are different (C02); what is combined is noted here")
    e.used_contracts.add("Backend.connect: a context manager giving a connection; BackendConnection's writes by C10, noted here")
    e.attr_specs[(Model, "fingerprint")] = lambda e2, v: v.f["fingerprint"] if isinstance(v, Inst) else e2.wrap(FP, [ufun("fingerprint of", R, I)(v.t)])
    e.attr_specs[(Artifact, "producer_output")] = lambda e2, v: SObj(ufun("artifact.output", R, R)(v.t), ProducerOutput, True) if e2.branch(ufun("artifact.produced", R, B)(v.t)) else None
    e.attr_specs[(Artifact, "storage")] = lambda e2, v: SObj(ufun("artifact.storage", R, R)(v.t), Storage)
    e.attr_specs[(Artifact, "type")] = lambda e2, v: SObj(ufun("artifact.type", R, R)(v.t), Type)
    e.contracts[is_partitioned] = lambda e2, args, kw: SBool(ufun("partitioned", R, B)(e2.ref(args[0])))
    e.contracts[TypedBox.__getitem__] = lambda e2, args, kw: SObj(held(e2.unwrap(Str, args[1])[0]), Artifact)
    e.contracts[Backend.connect] = lambda e2, args, kw: Inst(Connected, {"connection": SObj(ufun("backend.connection", R, R)(e2.ref(args[0])), BackendConnection)})
    e.contracts[BackendConnection.connect] = lambda e2, args, kw: Inst(Connected, {"connection": args[0]})

    def discover(e2, args, kw):
        if len(args) > 1 or kw:
            raise Unsupported("discovering some partitions")
        return e2.seq_of_term(ufun("discovered", R, seq_sort(Part))(e2.ref(args[0])), Part, tuple)

    e.contracts[Storage.discover_partitions] = discover

    def combine(e2, args, kw):
        if kw or e2.loop_depth:
            raise Unsupported("combining fingerprints one at a time")
        seen, sets = e2.ghost["seen"], []
        for x in args:
            if isinstance(x, Star):
                sets.append(set_of(e2, x.source, frozenset))
            else:
                t = z3.simplify(e2.int_term(x))
                if not (z3.is_int_value(t) and t.as_long() == 0):  # not the identity
                    sets.append(CSet((x,), frozenset))
        combined = sets[0] if sets else CSet((), frozenset)
        for x in sets[1:]:
            combined = e2.set_union(combined, x, frozenset)
        e2.set(seen, ("field", "combined"), combined)
        t = e2.as_sset(combined, FP).has
        return e2.wrap(FP, [ufun("combination", t.sort(), I)(t)])

    e.contracts[Fingerprint.combine] = combine
    e.contracts[combination] = lambda e2, args, kw: e2.wrap(FP, [ufun("combination", z3.ArraySort(I, B), I)(e2.as_sset(args[0], FP).has)])
    e.contracts[Fingerprint.from_string.__func__] = lambda e2, args, kw: e2.wrap(FP, [ufun("hash of text", S, I)(e2.unwrap(Str, args[-1])[0])])

    def record_snapshot(e2, args, kw):
        if args or set(kw) != {"graph", "id"}:
            raise Unsupported("constructing a snapshot")
        return Inst(GraphSnapshot, dict(kw))

    e.models[("new", GraphSnapshot)] = lambda e2, cls, args, kw: record_snapshot(e2, args, kw)
    e.contracts[GraphSnapshot] = record_snapshot

    def noted(field, n):
        def run(e2, args, kw):
            if kw or len(args) != n:
                raise Unsupported(field)
            e2.list_append(e2.ghost["seen"].f[field], tuple(args))

        return run

    e.contracts[BackendConnection.write_graph] = as_declared(BackendConnection.write_graph, noted("graphs", 2), 2)
    e.contracts[BackendConnection.write_snapshot] = as_declared(BackendConnection.write_snapshot, noted("snapshots", 2), 2)
    e.contracts[BackendConnection.write_artifact_partitions] = as_declared(BackendConnection.write_artifact_partitions, noted("partitions", 3), 3)
    e.contracts[BackendConnection.write_snapshot_partitions] = as_declared(BackendConnection.write_snapshot_partitions, noted("links", 5), 5)


CASE = dict(seen=new_seen, g=a_graph, conn=KAlt([KConst(None), KObj(BackendConnection)]))


@lemma("C14", params=dict(**CASE, node=Node, i=KInt()), setup=taking, gen=lambda rng: gen_part(rng), around=lambda: noting())
def everything_counts(seen, g, conn, node, i):
    got = outcome(GraphSnapshot.from_graph, g, connection=conn)
    assume(got[0] == "ok")
    assert got[1].graph is g
    assert g.fingerprint in seen.combined
    assume(node in g.dependencies)
    assert node.fingerprint in seen.combined
    if isinstance(node, Artifact):
        assert Fingerprint.from_string(g.artifact_to_key[node]) in seen.combined
        if node.producer_output is None:
            found = node.storage.discover_partitions()
            if 0 <= i < len(found):
                assert found[i].fingerprint in seen.combined


@lemma("C14", params=dict(seen=new_seen, g=a_graph, x=FP), setup=taking, gen=lambda rng: gen_counted(rng), around=lambda: noting(), budget=120)
def nothing_else_counts(seen, g, x):
    got = outcome(GraphSnapshot.from_graph, g)
    assume(got[0] == "ok")
    assert got[1].id == combination(seen.combined)
    assume(x in seen.combined)
    if x != g.fingerprint:
        assert any(counts(g, node, x) for node in g.dependencies)


def counts(g, node, x):
    if node.fingerprint == x:
        return True
    if not isinstance(node, Artifact):
        return False
    if Fingerprint.from_string(g.artifact_to_key[node]) == x:
        return True
    return node.producer_output is None and any(p.fingerprint == x for p in node.storage.discover_partitions())


def is_raw(node):
    return isinstance(node, Artifact) and node.producer_output is None


@lemma("C14", params=dict(**CASE, node=Node), setup=taking, gen=lambda rng: gen_node(rng), around=lambda: noting())
def missing_data_is_refused(seen, g, conn, node):
    assume(node in g.dependencies)
    assume(is_raw(node))
    assume(len(node.storage.discover_partitions()) == 0)
    assert raises(ValueError, GraphSnapshot.from_graph, g, connection=conn)
    assert seen.nothing()


@lemma("C14", params=CASE, setup=taking, gen=lambda rng: gen_case(rng), around=lambda: noting())
def refused_only_for_missing_data(seen, g, conn):
    got = outcome(GraphSnapshot.from_graph, g, connection=conn)
    assume(got[0] == "raises")
    assert any(is_raw(node) and len(node.storage.discover_partitions()) == 0 for node in g.dependencies)
    assert seen.nothing()


def connected(g, conn):
    with (g.backend if conn is None else conn).connect() as c:
        return c


@lemma("C14", params=dict(**CASE, i=KInt()), setup=taking, gen=lambda rng: gen_index(rng), around=lambda: noting())
def graph_and_snapshot_are_recorded(seen, g, conn, i):
    got = outcome(GraphSnapshot.from_graph, g, connection=conn)
    assume(got[0] == "ok")
    c = connected(g, conn)
    assert len(seen.graphs) == 1 and seen.graphs[0][0] == c and seen.graphs[0][1] is g
    assert len(seen.snapshots) == 1 and seen.snapshots[0][0] == c and seen.snapshots[0][1] is got[1]


@lemma("C14", params=dict(**CASE, node=Node), setup=taking, gen=lambda rng: gen_node(rng), around=lambda: noting())
def raw_partitions_are_recorded(seen, g, conn, node):
    assume(node in g.dependencies)
    assume(is_raw(node))
    got = outcome(GraphSnapshot.from_graph, g, connection=conn)
    assume(got[0] == "ok")
    found = node.storage.discover_partitions()
    c = connected(g, conn)
    assert any(r == (c, node, found) for r in seen.partitions)
    assert any(r[0] == c and r[1] is got[1] and r[2] == g.artifact_to_key[node] and r[3] == node and r[4] == found for r in seen.links)


@lemma("C14", params=dict(**CASE, i=KInt()), setup=taking, gen=lambda rng: gen_index(rng), around=lambda: noting())
def nothing_else_is_recorded(seen, g, conn, i):
    got = outcome(GraphSnapshot.from_graph, g, connection=conn)
    assume(got[0] == "ok")
    c = connected(g, conn)
    assert len(seen.links) == len(seen.partitions)
    assume(0 <= i < len(seen.links))
    to, artifact, found = seen.partitions[i]
    assert to == c and artifact in g.dependencies and is_raw(artifact) and found == artifact.storage.discover_partitions()
    to, snapshot, key, artifact, found = seen.links[i]
    assert to == c and snapshot is got[1] and artifact in g.dependencies and is_raw(artifact)
    assert key == g.artifact_to_key[artifact] and found == artifact.storage.discover_partitions()


def combination(fingerprints):
    return Fingerprint(0).combine(*fingerprints)


# --------------------------------------------------------------- native values

NOW = [Seen()]


class Recording(MemoryConnection):
    def write_graph(self, graph):
        NOW[0].graphs.append((self, graph))

    def write_snapshot(self, snapshot):
        NOW[0].snapshots.append((self, snapshot))

    def write_artifact_partitions(self, artifact, partitions):
        NOW[0].partitions.append((self, artifact, partitions))

    def write_snapshot_partitions(self, snapshot, artifact_key, artifact, partitions):
        NOW[0].links.append((self, snapshot, artifact_key, artifact, partitions))

    def __eq__(self, other):
        return isinstance(other, Recording) and self.container is other.container

    @contextmanager
    def connect(self):
        yield self


class RecordingBackend(MemoryBackend):
    @contextmanager
    def connect(self):
        with super().connect() as c:
            yield Recording(c.container)


@contextmanager
def noting():
    real = Fingerprint.combine

    def combine(self, *others):
        NOW[0].combined = {*others, self} - {0}
        return real(self, *others)

    Fingerprint.combine = combine
    try:
        yield
    finally:
        Fingerprint.combine = real


def some_graph(rng, backend, raw, missing=0.0):
    """A graph whose raw artifacts are made by raw(class, name)."""
    arti.context.graph = None
    with Graph(name=rng.choice("gh"), backend=backend) as g:
        for i in range(rng.randint(1, 3)):
            cls = rng.choice([Num, Num, Other])
            g.artifacts[rng.choice(["", "n."]) + f"r{i}"] = cls() if rng.random() < missing else raw(cls, i)
        for i in range(rng.randint(0, 3)):
            known_ = [a for _, a in g.artifacts.walk()]
            nums, others = ([a for a in known_ if type(a) is c] for c in (Num, Other))
            if nums and others and rng.random() < 0.5:
                outs = Two(a=rng.choice(nums), b=rng.choice(others)).out()
                for j in rng.sample(range(3), rng.randint(1, 3)):
                    g.artifacts[f"t{i}{j}"] = outs[j]
            elif nums:
                g.artifacts[rng.choice(["", "n."]) + f"p{i}"] = One(a=rng.choice(nums))
    return g


def literal(rng):
    return lambda cls, i: cls(storage=StringLiteral(**({"id": "shared"} if rng.random() < 0.3 else {}), value=str(rng.randint(0, 2))), annotations=(Note(text=str(i)),))


class Note(Annotation):
    text: str


def gen_case(rng, **more):
    g = some_graph(rng, RecordingBackend(), literal(rng), rng.choice([0, 0, 0.4]))
    NOW[0] = Seen()
    with RecordingBackend().connect() as other:
        pass
    return dict(seen=NOW[0], g=g, conn=rng.choice([None, other]), **more)


def gen_node(rng):
    c = gen_case(rng)
    return dict(**c, node=rng.choice(list(c["g"].dependencies)))


def gen_part(rng):
    c = gen_node(rng)
    return dict(**c, i=rng.randint(-1, 1))


def gen_index(rng):
    return gen_case(rng, i=rng.randint(0, 2))


def gen_counted(rng):
    c = gen_case(rng)
    del c["conn"]
    g = c["g"]
    xs = [g.fingerprint, Fingerprint(rng.randint(-5, 5)), Fingerprint.from_string("r0")]
    for n in g.dependencies:
        xs += [n.fingerprint, Fingerprint.from_string(g.artifact_to_key.get(n, "x"))]
        if is_raw(n):
            xs += [p.fingerprint for p in n.storage.discover_partitions()]
    return dict(**c, x=rng.choice(xs))


# --------------------------------------------------------------- whole histories


class Rows(Artifact):
    type: Collection = Collection(element=Struct(fields={"k": Int64(), "v": Int64()}), partition_by=("k",))


def plan(rng):
    """What a graph is made of: {name: (class, place)} of the raw artifacts and {name: ...} of the produced ones."""
    raw = {}
    for i in range(rng.randint(1, 3)):
        cls = rng.choice([Num, Num, Other, Rows])
        raw[rng.choice(["a", "b", "n.a", "n.b"])] = (cls, rng.choice([1, 1, 2, 3]), rng.choice(["", "note"]))
    nums = [k for k, v in raw.items() if v[0] is Num]
    made = {}
    for i in range(rng.randint(0, 3) if nums else 0):
        made[f"p{i}"] = (rng.choice([One, Again]), rng.choice(nums + [k for k in made]), rng.choice(["v1", "v2"]))
    return dict(name="g", raw=raw, made=made)


class Again(One):
    pass


def replan(rng, p):
    """The same with one thing changed (or nothing)."""
    p = dict(p, raw=dict(p["raw"]), made=dict(p["made"]))
    how = rng.choice(["same", "name", "note", "swap raw", "swap made", "version", "class", "order", "input"])
    swap = lambda d, x, y: d.update({x: d[y], y: d[x]})
    if how == "name":
        p["name"] = "h"
    elif how == "note":
        k = rng.choice(list(p["raw"]))
        p["raw"][k] = (*p["raw"][k][:2], "other")
    elif how == "swap raw" and len(p["raw"]) > 1:
        x, y = rng.sample(list(p["raw"]), 2)
        if p["raw"][x][0] is p["raw"][y][0]:
            swap(p["raw"], x, y)
    elif how in ("swap made", "version", "class", "input") and p["made"]:
        k = rng.choice(list(p["made"]))
        cls, src, version = p["made"][k]
        if how == "version":
            p["made"][k] = (cls, src, "v3")
        elif how == "class":
            p["made"][k] = (Again if cls is One else One, src, version)
        elif how == "input":
            p["made"][k] = (cls, rng.choice([r for r, v in p["raw"].items() if v[0] is Num]), version)
        else:
            x, y = rng.choices(list(p["made"]), k=2)
            if not p["made"][x][1].startswith("p") and not p["made"][y][1].startswith("p"):
                swap(p["made"], x, y)
    elif how == "order":
        items = list(p["raw"].items())
        rng.shuffle(items)
        p["raw"] = dict(items)
    return p


def realized(p, tmp, backend):
    arti.context.graph = None
    with Graph(name=p["name"], backend=backend) as g:
        for k, (cls, place, note) in p["raw"].items():
            path = f"{tmp}/{place}.json" if cls is not Rows else f"{tmp}/rows{place}/" + "{k.value}.json"
            g.artifacts[k] = cls(format=JSON(), storage=LocalFile(path=path), annotations=(Note(text=note),))
        for k, (cls, src, version) in p["made"].items():
            out = cls(a=g.artifacts[src], version=StringVersion(value=version)).out(Num(format=JSON(), storage=LocalFile(path=tmp + "/made/{names}/{input_fingerprint}{extension}")))
            g.artifacts[k] = out
    return g


def model_of(a):
    return (type(a).__name__, a.storage.path, tuple(n.text for n in a.annotations))


def structure(g):
    out = [g.name]
    for a, k in sorted(g.artifact_to_key.items(), key=lambda x: x[1]):  # equal ones count once, under the last name
        o = a.producer_output
        out.append((k, model_of(a), o and (type(o.producer).__name__, o.producer.version.value, model_of(o.producer.a), o.position)))
    return tuple(out)


def contents(g, tmp):
    """What is on storage for the raw artifacts."""
    out = {}
    for a in g.artifact_to_key:
        if a.producer_output is None:
            paths = [a.storage.path] if not isinstance(a, Rows) else [os.path.join(os.path.dirname(a.storage.path), f) for f in (os.listdir(os.path.dirname(a.storage.path)) if os.path.isdir(os.path.dirname(a.storage.path)) else [])]
            for p in paths:
                if os.path.exists(p):
                    with open(p, "rb") as f:
                        out[a.storage.path, p] = f.read()
    return out


def put(tmp, rng, one=False):
    """Write the raw files (or change one of them)."""
    os.makedirs(tmp, exist_ok=True)
    for i in (1, 2, 3):
        os.makedirs(f"{tmp}/rows{i}", exist_ok=True)
    if one:
        i = rng.choice([1, 2, 3])
        how = rng.choice(["content", "add", "drop", "swap", "rewrite"])
        if how == "content":
            write(f"{tmp}/{i}.json", rng.randint(0, 2))
        elif how == "add":
            write(f"{tmp}/rows{i}/{rng.randint(0, 3)}.json", [{"v": rng.randint(0, 2)}])
        elif how == "drop" and rng.random() < 0.3:
            for f in os.listdir(f"{tmp}/rows{i}")[:1]:
                os.unlink(f"{tmp}/rows{i}/{f}")
        elif how == "swap":
            fs = [f"{tmp}/rows{i}/{f}" for f in os.listdir(f"{tmp}/rows{i}")] if rng.random() < 0.5 else [x for x in (f"{tmp}/1.json", f"{tmp}/2.json") if os.path.exists(x)]
            if len(fs) >= 2:
                x, y = rng.sample(fs, 2)
                os.rename(x, x + "~"), os.rename(y, x), os.rename(x + "~", y)
        return
    for i in (1, 2, 3):
        if rng.random() < 0.97:
            write(f"{tmp}/{i}.json", rng.randint(0, 2))
        for k in rng.sample(range(4), rng.choice([0, 1, 2, 2, 3])):
            write(f"{tmp}/rows{i}/{k}.json", [{"v": rng.randint(0, 2)}])


def write(path, data):
    with open(path, "w") as f:
        f.write(json.dumps(data))


@scenario("C14", runs=200, bound="up to 6 snapshots between edits of a graph (up to 3 raw and 3 produced artifacts on files, shared or partitioned) or of its raw files, with builds in between")
def ids_identify_structure_and_raw_data(rng, tmp):
    backend = MemoryBackend()
    put(tmp, rng)
    p = plan(rng)
    seen, known_ = {}, {}
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < 0.45:
            p = replan(rng, p)
        elif r < 0.9:
            put(tmp, rng, one=True)
        if rng.random() < 0.3:
            backend = MemoryBackend()
        g = realized(p, tmp, backend)
        state = (structure(g), tuple(sorted(contents(g, tmp).items())))
        before = links(backend)
        raw = [a for a in g.artifact_to_key if a.producer_output is None]
        missing = [a for a in raw if not any(s == a.storage.path for s, _ in contents(g, tmp))]
        got = outcome(g.snapshot)
        assert (got[0] == "raises") == bool(missing), (p, missing)
        if missing:
            assert links(backend) == before, p
            continue
        s = got[1]
        assert g.snapshot().id == s.id and g.snapshot() == s
        for other, i in seen.items():
            assert (other == state) == (i == s.id), (other, state)
        seen[state] = s.id
        with backend.connect() as c:
            assert c.read_graph(g.name, g.fingerprint) == g and c.read_snapshot(g.name, s.fingerprint) == s
            for a in raw:
                assert sorted(x.storage_partition.path for x in c.read_snapshot_partitions(s, g.artifact_to_key[a], a)) == sorted(f for t, f in contents(g, tmp) if t == a.storage.path)
        for k, v in links(backend).items():
            if k[0] == s and before.get(k) != v:
                assert k[1] in {g.artifact_to_key[a] for a in raw} and len(v) == sum(t == g.artifacts[k[1]].storage.path for t, _ in contents(g, tmp)), (p, k)
        if rng.random() < 0.4:
            r = outcome(s.build)
            assert r[0] == "ok", p
            assert g.snapshot().id == s.id, p
    return str((len(seen), p))


def links(backend):
    c = backend._container
    return {(s, k): set(v) for s, ks in c.snapshot_partitions.items() for k, v in ks.items() if v}
