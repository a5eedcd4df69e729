"""C16: reads and writes through a graph touch only the addressed artifact and snapshot."""

import inspect
import os
from contextlib import contextmanager
from typing import Annotated, Any

import arti
from arti import Artifact, Fingerprint, Graph, GraphSnapshot, PartitionKey, Producer, View, io
from arti.backends import Backend, BackendConnection
from arti.backends.memory import MemoryBackend, MemoryConnection
from arti.formats import Format
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import frozendict
from arti.producers import ProducerOutput
from arti.storage import Storage, StoragePartition, StoragePartitions, StoragePartitionSnapshot
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.partitions import Int64Field
from arti.producers import PartitionDependencies
from arti.types import Collection, Int64, String, Struct, Type

from pyvc.core import *
from pyvc.spec import *
from pyvc.values import Native

__lemmas__ = True

Str, FP = KStr(), KInt(Fingerprint)
Art, Part, Snap = KObj(Artifact), KObj(StoragePartitionSnapshot, True), KObj(GraphSnapshot, True)
Parts = KSeq(Part)
R, B, I, S = Ref, z3.BoolSort(), z3.IntSort(), z3.StringSort()

LOG: list = []


def graph(e, n):
    return Inst(Graph, {
        "name": e.fresh_val(Str, n + ".name"),
        "backend": SObj(z3.Const(n + ".backend", R), Backend),
        "_status": "closed",
        "_artifact_to_key": e.fresh_val(KDict(Art, Str, frozendict), n + ".keys"),
    })


class Connected:
    """What is returned for `with backend.connect() as connection`."""

    def __init__(self, connection):
        self.connection = connection

    def __enter__(self):
        return self.connection

    def __exit__(self, *error):
        return False


def log():
    """What was read and recorded, in order."""
    return list(LOG)


def through(e):
    e.used_contracts.add("Backend.connect: a context manager giving a connection; BackendConnection's reads and writes by C10, noted here")
    e.used_contracts.add("View.get_class_for, View construction and both compatibility checks: functions of their arguments that may refuse with a ValueError (C21)")
    e.used_contracts.add("Storage.generate_partition: a function of the storage, the key and the input fingerprint that may refuse with a ValueError (C07); discover_partitions (C08)")
    e.used_contracts.add("io.read / io.write: some data, some partition snapshot, or an error (C17); noted here")
    e.used_contracts.add("GraphSnapshot.from_graph: some snapshot of the graph or a ValueError (C14)")
    e.attr_specs[(Artifact, "producer_output")] = lambda e2, v: SObj(ufun("artifact.output", R, R)(v.t), ProducerOutput, True) if e2.branch(ufun("artifact.produced", R, B)(v.t)) else None
    for name, cls in (("type", Type), ("format", Format), ("storage", Storage)):
        e.attr_specs[(Artifact, name)] = lambda e2, v, name=name, cls=cls: SObj(ufun(f"artifact.{name}", R, R)(v.t), cls)
    e.contracts[Backend.connect] = lambda e2, args, kw: Inst(Connected, {"connection": SObj(ufun("backend.connection", R, R)(e2.ref(args[0])), BackendConnection)})

    def note(e2, *event):
        e2.set(e2, ("ghost", "log"), (*e2.ghost.get("log", ()), event))

    e.contracts[log] = lambda e2, args, kw: e2.lift(list(e2.ghost.get("log", ())))

    def ref(e2, v):
        """One term for a value (a number, a text, a sequence, ...)."""
        v = e2.res(v)
        if v is None or isinstance(v, (str, int)) and not isinstance(v, Val):
            return z3.Const(f"const {v!r}", R)
        for k in (Parts,):
            if isinstance(v, (SSeq, tuple, list)):
                ts = e2.unwrap(k, v)
                return ufun("parts", *[t.sort() for t in ts], R)(*ts)
        if isinstance(v, (SInt, SStr)):
            t = e2.int_term(v) if isinstance(v, SInt) else v.t
            return ufun(f"value {t.sort()}", t.sort(), R)(t)
        return e2.ref(v)

    def chance(e2, name, *ts):
        return e2.branch(ufun(name, *[R] * len(ts), B)(*ts))

    def get_class_for(e2, args, kw):
        hint = ref(e2, args[-1])
        if not chance(e2, "a view for", hint):
            e2.raise_(ValueError, "no view")

        def construct(e3, a, k):
            if a or set(k) != {"artifact_class", "type", "mode"}:
                raise Unsupported("constructing a view")
            ts = [hint, *(ref(e3, k[n]) for n in ("artifact_class", "type", "mode"))]
            if not chance(e3, "view ok", *ts):
                e3.raise_(ValueError, "view")
            return SObj(ufun("view", R, R, R, R, R)(*ts), View)

        return Native(construct, "view class")

    def check(name):
        def run(e2, args, kw):
            if not chance(e2, name, ref(e2, args[0]), ref(e2, args[1])):
                e2.raise_(ValueError, name)

        return run

    e.contracts[View.get_class_for.__func__] = get_class_for
    e.contracts[View.check_annotation_compatibility] = check("annotation fits")
    e.contracts[View.check_artifact_compatibility] = check("artifact fits")

    def discover(e2, args, kw):
        if len(args) > 1 or kw:
            raise Unsupported("discovering some partitions")
        s = ref(e2, args[0])
        note(e2, "discovered", args[0])
        return e2.seq_of_term(ufun("discovered", R, seq_sort(Part))(s), Part, tuple)

    e.contracts[Storage.discover_partitions] = discover

    def linked(e2, args, kw):
        if kw or len(args) != 4:
            raise Unsupported("reading linked partitions")
        note(e2, "linked", *args)
        return e2.seq_of_term(ufun("linked", R, R, R, R, seq_sort(Part))(*[ref(e2, a) for a in args]), Part, tuple)

    e.contracts[BackendConnection.read_snapshot_partitions] = as_declared(BackendConnection.read_snapshot_partitions, linked, 4)

    def noted(what, n):
        def run(e2, args, kw):
            if kw or len(args) != n:
                raise Unsupported(what)
            note(e2, what, *args)

        return run

    e.contracts[BackendConnection.write_artifact_partitions] = as_declared(BackendConnection.write_artifact_partitions, noted("record", 3), 3)
    e.contracts[BackendConnection.write_snapshot_partitions] = as_declared(BackendConnection.write_snapshot_partitions, noted("link", 5), 5)

    def from_graph(e2, args, kw):
        g, c = args[-1], kw.get("connection")
        note(e2, "snapshotted", c)
        name = e2.ref(e2.res(g).f["backend"])
        if not chance(e2, "complete", name):
            e2.raise_(ValueError, "no data")
        return SObj(ufun("current snapshot", R, R)(name), GraphSnapshot, True)

    e.contracts[GraphSnapshot.from_graph.__func__] = from_graph

    def generate(e2, args, kw):
        if len(args) > 1 or set(kw) - {"input_fingerprint", "partition_key"}:
            raise Unsupported("generating a partition")
        fp, key = kw.get("input_fingerprint"), kw.get("partition_key", PartitionKey())
        ts = [ref(e2, args[0]), ref(e2, fp), ref(e2, key)]
        if not chance(e2, "partition ok", *ts):
            e2.raise_(ValueError, "partition")
        return SObj(ufun("partition", R, R, R, R)(*ts), StoragePartition)

    e.contracts[Storage.generate_partition] = generate

    def read(e2, args, kw):
        names = ("type_", "format", "storage_partition_snapshots", "view")
        vs = list(args) + [kw[n] for n in names[len(args):]]
        ts = [ref(e2, v) for v in vs]
        note(e2, "read", vs[2])
        if not chance(e2, "readable", *ts):
            e2.raise_(FileNotFoundError, "No data")
        return SObj(ufun("data", R, R, R, R, R)(*ts), object)

    def write(e2, args, kw):
        names = ("data", "type_", "format", "storage_partition", "view")
        vs = list(args) + [kw[n] for n in names[len(args):]]
        ts = [ref(e2, v) for v in vs]
        if not chance(e2, "writable", *ts):
            e2.raise_(ValueError, "not written")
        note(e2, "write", vs[3])
        return SObj(ufun("written", R, R, R, R, R, R)(*ts), StoragePartitionSnapshot, True)

    e.contracts[io.read] = read
    e.contracts[io.write] = write


def connection_for(g, connection):
    with (g.backend if connection is None else connection).connect() as c:
        return c


Maybe = lambda k: KAlt([KConst(None), k])
READ = dict(g=graph, a=Art, hint=Maybe(KObj(object)), view=Maybe(KObj(View)), conn=Maybe(KObj(BackendConnection)), snapshot=Maybe(Snap), given=Maybe(Parts))


def read_view(g, a, hint, view):
    """The view data is read with; refuses what does not fit."""
    g.artifact_to_key[a]
    if (hint is None) == (view is None):
        raise ValueError("both or neither")
    if view is None:
        view = View.get_class_for(hint)(artifact_class=type(a), type=a.type, mode="READ")
        view.check_annotation_compatibility(hint)
    view.check_artifact_compatibility(a)
    return view


@lemma("C16", params=READ, setup=through, gen=lambda rng: gen_read(rng), around=lambda: noting())
def unfitting_reads_are_refused_at_once(g, a, hint, view, conn, snapshot, given):
    wanted = outcome(read_view, g, a, hint, view)
    assume(wanted[0] == "raises")
    got = outcome(g.read, a, annotation=hint, view=view, connection=conn, snapshot=snapshot, storage_partition_snapshots=given)
    assert got[0] == "raises"
    assert log() == []


@lemma("C16", params=READ, setup=through, gen=lambda rng: gen_read(rng), around=lambda: noting())
def given_partitions_are_read(g, a, hint, view, conn, snapshot, given):
    assume(given is not None)
    wanted = outcome(read_view, g, a, hint, view)
    assume(wanted[0] == "ok")
    got = outcome(g.read, a, annotation=hint, view=view, connection=conn, snapshot=snapshot, storage_partition_snapshots=given)
    assert log() == [("read", given)]
    data = outcome(io.read, type_=a.type, format=a.format, storage_partition_snapshots=given, view=wanted[1])
    assert got == data


@lemma("C16", params=READ, setup=through, gen=lambda rng: gen_read(rng), around=lambda: noting())
def raw_artifacts_are_read_from_storage(g, a, hint, view, conn, snapshot, given):
    assume(given is None and snapshot is None and a.producer_output is None)
    wanted = outcome(read_view, g, a, hint, view)
    assume(wanted[0] == "ok")
    got = outcome(g.read, a, annotation=hint, view=view, connection=conn)
    events = log()
    current = a.storage.discover_partitions()
    assert events == [("discovered", a.storage), ("read", current)]
    assert got == outcome(io.read, type_=a.type, format=a.format, storage_partition_snapshots=current, view=wanted[1])


@lemma("C16", params=READ, setup=through, gen=lambda rng: gen_read(rng), around=lambda: noting())
def snapshots_are_read_by_name(g, a, hint, view, conn, snapshot, given):
    assume(given is None and (snapshot is not None or a.producer_output is not None))
    wanted = outcome(read_view, g, a, hint, view)
    assume(wanted[0] == "ok")
    got = outcome(g.read, a, annotation=hint, view=view, connection=conn, snapshot=snapshot)
    events = [x for x in log() if x[0] != "snapshotted"]
    if snapshot is None:
        current = outcome(g.snapshot)
        if current[0] == "raises":
            assert got[0] == "raises" and events == []
            return
        snapshot = current[1]
    key = g.artifact_to_key[a]
    c = connection_for(g, conn)
    parts = c.read_snapshot_partitions(snapshot, key, a)
    assert events == [("linked", c, snapshot, key, a), ("read", parts)]
    assert got == outcome(io.read, type_=a.type, format=a.format, storage_partition_snapshots=parts, view=wanted[1])


WRITE = dict(g=graph, a=Art, data=KObj(object), fp=Maybe(FP), key=KObj(PartitionKey), view=Maybe(KObj(View)), snapshot=Maybe(Snap), conn=Maybe(KObj(BackendConnection)))


def write_target(g, a, data, fp, key, view, snapshot):
    """The view and the partition data is written to; refuses what does not fit."""
    g.artifact_to_key[a]
    if snapshot is not None and a.producer_output is None:
        raise ValueError("raw artifacts are not written in a snapshot")
    if view is None:
        view = View.get_class_for(type(data))(artifact_class=type(a), type=a.type, mode="WRITE")
    view.check_annotation_compatibility(type(data))
    view.check_artifact_compatibility(a)
    return view, a.storage.generate_partition(input_fingerprint=fp, partition_key=key)


@lemma("C16", params=WRITE, setup=through, gen=lambda rng: gen_write(rng), around=lambda: noting())
def unfitting_writes_are_refused_at_once(g, a, data, fp, key, view, snapshot, conn):
    assume(outcome(write_target, g, a, data, fp, key, view, snapshot)[0] == "raises")
    assert outcome(g.write, data, artifact=a, input_fingerprint=fp, partition_key=key, view=view, snapshot=snapshot, connection=conn)[0] == "raises"
    assert log() == []


@lemma("C16", params=WRITE, setup=through, gen=lambda rng: gen_write(rng), around=lambda: noting())
def exactly_the_written_partition_is_recorded(g, a, data, fp, key, view, snapshot, conn):
    wanted = outcome(write_target, g, a, data, fp, key, view, snapshot)
    assume(wanted[0] == "ok")
    view_, partition = wanted[1]
    got = outcome(g.write, data, artifact=a, input_fingerprint=fp, partition_key=key, view=view, snapshot=snapshot, connection=conn)
    events = log()
    written = outcome(io.write, data, type_=a.type, format=a.format, storage_partition=partition, view=view_)
    assert got == written
    if got[0] == "raises":
        assert events == []
        return
    c = connection_for(g, conn)
    expected = [("record", c, a, (written[1],))]
    if snapshot is not None:
        expected.append(("link", c, snapshot, g.artifact_to_key[a], a, (written[1],)))
    assert events[0] == ("write", partition)
    assert len(events) == 1 + len(expected)
    for x in expected:
        assert x in events


# --------------------------------------------------------------- through a snapshot

PASSED_READ = ("annotation", "connection", "snapshot", "storage_partition_snapshots", "view")
PASSED_WRITE = ("connection", "input_fingerprint", "partition_key", "snapshot", "view")


def a_snapshot(e, n):
    return Inst(GraphSnapshot, {"id": e.fresh_val(FP, n + ".id"), "graph": graph(e, n + ".graph")})


def delegating(e):
    e.used_contracts.add("Graph.read / Graph.write by their contracts (proved above)")

    def passed(what, names, defaults, positional):
        def run(e2, args, kw):
            kw = dict(kw)
            vs = list(args)
            for n in positional[len(vs):]:
                vs.append(kw.pop(n))
            if len(vs) > len(positional) or set(kw) - set(names):
                raise Unsupported(what)
            got = tuple(kw.get(n, defaults.get(n)) for n in names)
            e2.set(e2, ("ghost", "calls"), (*e2.ghost.get("calls", ()), (what, *vs, *got)))
            return SObj(z3.Const(f"result of {what}", R), object)

        return run

    e.contracts[Graph.read] = passed("read", PASSED_READ, {}, ("self", "artifact"))
    e.contracts[Graph.write] = passed("write", PASSED_WRITE, {"partition_key": PartitionKey()}, ("self", "data", "artifact"))
    e.contracts[calls] = lambda e2, args, kw: e2.lift(list(e2.ghost.get("calls", ())))


CALLS: list = []


def calls():
    """What was asked from the graph."""
    return list(CALLS)


@lemma("C16", params=dict(s=a_snapshot, a=Art, hint=Maybe(KObj(object)), view=Maybe(KObj(View)), conn=Maybe(KObj(BackendConnection)), given=Maybe(Parts)), setup=delegating, gen=lambda rng: gen_delegated_read(rng), around=lambda: noting())
def a_snapshot_reads_its_own_data(s, a, hint, view, conn, given):
    s.read(a, annotation=hint, connection=conn, storage_partition_snapshots=given, view=view)
    [(what, g, artifact, hint2, conn2, snapshot, given2, view2)] = calls()
    assert what == "read" and g is s.graph and snapshot is s
    assert (artifact, hint2, conn2, given2, view2) == (a, hint, conn, given, view)


@lemma("C16", params=dict(s=a_snapshot, a=Art, data=KObj(object), fp=Maybe(FP), key=KObj(PartitionKey), view=Maybe(KObj(View)), conn=Maybe(KObj(BackendConnection))), setup=delegating, gen=lambda rng: gen_delegated_write(rng), around=lambda: noting())
def a_snapshot_writes_into_itself(s, a, data, fp, key, view, conn):
    s.write(data, artifact=a, connection=conn, input_fingerprint=fp, partition_key=key, view=view)
    [(what, g, data2, artifact, conn2, fp2, key2, snapshot, view2)] = calls()
    assert what == "write" and g is s.graph and snapshot is s
    assert (data2, artifact, conn2, fp2, key2, view2) == (data, a, conn, fp, key, view)


# --------------------------------------------------------------- native values


class Num(Artifact):
    type: Int64 = Int64()


class Other(Artifact):
    type: Int64 = Int64()


class Text(Artifact):
    type: String = String()


class One(Producer):
    a: Num

    @staticmethod
    def build(a: int) -> Annotated[int, Num]:
        return a + 1


class Recording(MemoryConnection):
    def read_snapshot_partitions(self, snapshot, artifact_key, artifact):
        LOG.append(("linked", self, snapshot, artifact_key, artifact))
        return super().read_snapshot_partitions(snapshot, artifact_key, artifact)

    def write_artifact_partitions(self, artifact, partitions):
        LOG.append(("record", self, artifact, partitions))
        return super().write_artifact_partitions(artifact, partitions)

    def write_snapshot_partitions(self, snapshot, artifact_key, artifact, partitions):
        LOG.append(("link", self, snapshot, artifact_key, artifact, partitions))
        return super().write_snapshot_partitions(snapshot, artifact_key, artifact, partitions)

    def __eq__(self, other):
        return isinstance(other, Recording) and self.container is other.container


class RecordingBackend(MemoryBackend):
    @contextmanager
    def connect(self):
        with super().connect() as c:
            yield Recording(c.container)


@contextmanager
def noting():
    """Let io, discovery, snapshotting and the graph's reads and writes note what they are asked for."""
    real = io.read, io.write, StringLiteral.discover_partitions, GraphSnapshot.__dict__["from_graph"], Graph.read, Graph.write

    def read(type_, format, storage_partition_snapshots, view):
        LOG.append(("read", storage_partition_snapshots))
        return real[0](type_, format, storage_partition_snapshots, view)

    def write(data, type_, format, storage_partition, view):
        out = real[1](data, type_, format, storage_partition, view)
        LOG.append(("write", storage_partition))
        return out

    def discover_partitions(self, *args, **kwargs):
        LOG.append(("discovered", self))
        return real[2](self, *args, **kwargs)

    def from_graph(cls, graph, *, connection=None):
        before = list(LOG)
        try:
            return real[3].__func__(cls, graph, connection=connection)
        finally:
            LOG[:] = [*before, ("snapshotted", connection)]

    def noted(name, fn, names):
        def run(self, *args, **kwargs):
            b = inspect.signature(fn).bind(self, *args, **kwargs)
            b.apply_defaults()
            CALLS.append((name, self, *[b.arguments[n] for n in names]))
            return fn(self, *args, **kwargs)

        return run

    io.read, io.write, StringLiteral.discover_partitions, GraphSnapshot.from_graph = read, write, discover_partitions, classmethod(from_graph)
    Graph.read = noted("read", real[4], ("artifact", *PASSED_READ))
    Graph.write = noted("write", real[5], ("data", "artifact", *PASSED_WRITE))
    try:
        yield
    finally:
        io.read, io.write, StringLiteral.discover_partitions, GraphSnapshot.from_graph, Graph.read, Graph.write = real


def forget():
    LOG.clear(), CALLS.clear()


def world(rng):
    arti.context.graph = None
    with Graph(name="g", backend=RecordingBackend()) as g:
        g.artifacts.a = Num(storage=StringLiteral(value="1"))
        g.artifacts.b = Num(storage=StringLiteral(value="2"))
        g.artifacts.t = Text(storage=StringLiteral(value='"t"'))
        if rng.random() < 0.2:
            g.artifacts.missing = Num()
        g.artifacts.x = One(a=g.artifacts.a)
        g.artifacts.n.x = One(a=g.artifacts.b)
    snapshots = []
    if "missing" not in g.artifacts:
        snapshots.append(g.snapshot())
        if rng.random() < 0.7:
            snapshots[0].build()
        snapshots.append(GraphSnapshot(graph=g, id=Fingerprint(rng.randint(0, 5))))
    return g, snapshots


def some_of(rng):
    g, snapshots = world(rng)
    a = rng.choice([*(a for _, a in g.artifacts.walk()), *[a for _, a in g.artifacts.walk()], Num()])
    known = [p for s in snapshots for k, b in g.artifacts.walk() for p in connection_for(g, None).read_snapshot_partitions(s, k, b)]
    return g, a, dict(
        conn=rng.choice([None, connection_for(RecordingGraph(), None)]),
        snapshot=rng.choice([None, None, *snapshots]),
        given=rng.choice([None, None, tuple(rng.sample(known, min(len(known), rng.choice([0, 1, 1, 2]))))]),
    ), snapshots


class RecordingGraph:
    def __init__(self):
        self.backend = RecordingBackend()


VIEWS = [Annotated[int, Num], Annotated[int, Other], Annotated[str, Text], int, str]


def a_view(rng, a, mode):
    hint = rng.choice([*VIEWS, *[Annotated[{Int64: int, String: str}[type(a.type)], type(a)]] * 3])
    return View.from_annotation(hint, mode=mode)


def gen_read(rng):
    g, a, more, _ = some_of(rng)
    r = rng.random()
    hint = rng.choice([int, int, str, object, dict[int, int], Annotated[int, "x"]]) if r < 0.5 or r > 0.95 else None
    view = a_view(rng, a, "READ") if 0.5 <= r and r < 0.98 else None
    forget()
    return dict(g=g, a=a, hint=hint, view=view, **more)


def gen_write(rng):
    g, a, more, _ = some_of(rng)
    del more["given"]
    if a.producer_output is None and rng.random() < 0.6:  # only literals without a value can be written
        a = g.artifacts.b.model_copy(update={"storage": StringLiteral(id=rng.choice(["w", "w/{input_fingerprint}"]))._visit_type(Int64())})
        g._artifact_to_key = frozendict({**g._artifact_to_key, a: "w"})
    data = rng.choice([1, 2, 3, "s", None, object()])
    forget()
    fp = rng.choice([None, Fingerprint(3)] if a.producer_output is None else [None, Fingerprint(3), Fingerprint(4)])
    return dict(g=g, a=a, data=data, fp=fp, key=rng.choice([PartitionKey()] * 5 + [PartitionKey(i=Int64Field(value=1))]), view=rng.choice([None, a_view(rng, a, "WRITE")]), **more)


def gen_delegated_read(rng):
    g, a, more, snapshots = some_of(rng)
    if not snapshots or a not in g.artifact_to_key:
        raise Skip
    del more["snapshot"]
    more["given"] = None
    s = snapshots[0]
    hint, view = rng.choice([({Int64: int, String: str}[type(a.type)], None), (None, a_view(rng, a, "READ"))])
    if a.producer_output is not None and not connection_for(g, more["conn"]).read_snapshot_partitions(s, g.artifact_to_key[a], a) or more["conn"] is not None:
        raise Skip
    if view is not None and outcome(view.check_artifact_compatibility, a)[0] == "raises":
        raise Skip
    forget()
    return dict(s=s, a=a, hint=hint, view=view, **more)


def gen_delegated_write(rng):
    g, a, more, snapshots = some_of(rng)
    if not snapshots or a.producer_output is None:
        raise Skip
    forget()
    return dict(s=snapshots[0], a=a, data=rng.randint(0, 5), fp=Fingerprint(rng.randint(1, 5)), key=PartitionKey(), view=rng.choice([None, View.from_annotation(Annotated[int, Num], mode="WRITE")]), conn=more["conn"])


# --------------------------------------------------------------- whole histories


class Rows(Artifact):
    type: Collection = Collection(element=Struct(fields={"k": Int64(), "v": String()}), partition_by=("k",))


class Upper(Producer):
    rows: Rows

    @staticmethod
    def build(rows: list[dict]) -> Annotated[list[dict], Rows]:
        return [{**r, "v": r["v"].upper()} for r in rows]

    @staticmethod
    def map(rows: StoragePartitions) -> PartitionDependencies:
        return PartitionDependencies({p.partition_key: {"rows": (p,)} for p in rows})


def recorded(backend):
    c = backend.container if hasattr(backend, "container") else backend._container
    return (
        {s: set(ps) for s, ps in c.storage_partitions.items() if ps},
        {(s, k): set(ps) for s, ks in c.snapshot_partitions.items() for k, ps in ks.items() if ps},
    )


def files(tmp):
    out = {}
    for d, _, names in os.walk(tmp):
        for n in names:
            with open(os.path.join(d, n), "rb") as f:
                out[os.path.join(d, n)] = f.read()
    return out


@scenario("C16", runs=150, bound="up to 25 reads, writes and snapshots of a graph of 6 artifacts (numbers, partitioned rows, raw and produced; JSON and pickle files), 2 backends, legal and illegal arguments")
def reads_and_writes_touch_one_thing(rng, tmp):
    arti.context.graph = None
    fmt = lambda: rng.choice([JSON(), Pickle()])
    at = lambda: LocalFile(path=tmp + "/{graph_name}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}")
    backends = [MemoryBackend(), MemoryBackend()]
    with Graph(name="g", backend=backends[0]) as g:
        g.artifacts.a = Num(format=fmt(), storage=at())
        g.artifacts.n.a = Num(format=fmt(), storage=at())
        g.artifacts.rows = Rows(format=fmt(), storage=at())
        g.artifacts.x = One(a=g.artifacts.a).out(Num(format=fmt(), storage=at()))
        g.artifacts.y = One(a=g.artifacts.n.a).out(Num(format=fmt(), storage=at()))
        g.artifacts.upper = Upper(rows=g.artifacts.rows).out(Rows(format=fmt(), storage=at()))
    snapshots, stored = [], {}
    by_key = {k: a for a, k in g.artifact_to_key.items()}
    trace = []
    links = [{}, {}]  # per backend: (snapshot, key) -> partitions
    known_ = [{}, {}]  # per backend: storage -> partitions

    def state():
        return files(tmp), recorded(backends[0]), recorded(backends[1])

    def expect(disk):
        got = state()
        assert set(got[0]) == set(disk), (trace, set(got[0]) ^ set(disk))
        for i in (0, 1):
            assert got[1 + i] == (known_[i], links[i]), (trace, i, got[1 + i], known_[i], links[i])
        return got[0]

    disk = {}

    def data_for(a):
        if isinstance(a, Num):
            return rng.randint(-3, 3), PartitionKey()
        k = rng.randint(0, 2)
        return [{"k": k, "v": rng.choice("ab")} for _ in range(rng.randint(1, 2))], PartitionKey(k=Int64Field(value=k))

    def rows_of(a, partitions):
        vs = [stored[p.storage_partition.path] for p in partitions]
        if isinstance(a, Num):
            return ("ok", vs[0]) if len(vs) == 1 else ("raises", None)
        return ("ok", [r for v in vs for r in v]) if vs else ("raises", None)

    for step in range(rng.randint(5, 25)):
        raw_first = step < 4 and rng.random() < 0.8
        op = "write" if raw_first else rng.choice(["write", "write", "read", "read", "snapshot", "bad"])
        key = rng.choice(["a", "n/a", "rows"][step % 3:][:1] if raw_first else list(by_key))
        a = by_key.get(key) or by_key[key.replace("/", ".")]
        key = g.artifact_to_key[a]
        raw = a.producer_output is None
        i = rng.choice([0, 0, 1])
        snapshot = rng.choice([None, *snapshots])
        trace.append((op, key, i, snapshot and snapshots.index(snapshot)))
        hint = int if isinstance(a, Num) else list[dict]
        before = state()
        with backends[1].connect() as conn:
            conn = conn if i else None
            target = g if snapshot is None else snapshot
            if op == "write":
                data, pk = data_for(a)
                fp = None if raw else Fingerprint(rng.randint(1, 3))
                partition = a.storage.generate_partition(input_fingerprint=fp, partition_key=pk)
                view = rng.choice([None, View.from_annotation(Annotated[hint, type(a)], mode="WRITE")])
                if view is None and not isinstance(a, Num):
                    view = View.from_annotation(Annotated[hint, type(a)], mode="WRITE")
                r = outcome(lambda: target.write(data, artifact=a, input_fingerprint=fp, partition_key=pk, view=view, connection=conn))
                if raw and snapshot is not None:
                    assert r[0] == "raises" and state() == before, trace
                    continue
                assert r[0] == "ok" and r[1].storage_partition == partition, (trace, r)
                assert r[1] == partition.with_content_fingerprint() if hasattr(partition, "with_content_fingerprint") else r[1] == partition.snapshot(), trace
                known_[i].setdefault(a.storage, set()).add(r[1])
                if snapshot is not None:
                    links[i].setdefault((snapshot, key), set()).add(r[1])
                stored[partition.path] = data
                disk[partition.path] = None
                now = expect(disk)
                assert {p: b for p, b in now.items() if p != partition.path} == {p: b for p, b in before[0].items() if p != partition.path}, trace
            elif op == "read":
                how = dict(annotation=hint) if rng.random() < 0.5 else dict(view=View.from_annotation(Annotated[hint, type(a)], mode="READ"))
                if raw and snapshot is None:
                    given = None
                    parts = a.storage.discover_partitions()
                elif snapshot is None:
                    continue
                else:
                    parts = tuple(links[i].get((snapshot, key), ()))
                mine = [p for ps in known_[0].values() for p in ps if p.storage_partition.storage == a.storage]
                if mine and rng.random() < 0.3:
                    parts = tuple(sorted(rng.sample(mine, rng.randint(1, len(mine))), key=lambda p: p.fingerprint))
                    how["storage_partition_snapshots"] = parts
                r = outcome(lambda: target.read(a, connection=conn, **how))
                want = rows_of(a, parts)
                assert r[0] == want[0], (trace, r, want)
                if r[0] == "ok" and isinstance(a, Num):
                    assert r[1] == want[1], (trace, r, want)
                elif r[0] == "ok" and "storage_partition_snapshots" in how:
                    assert r[1] == want[1], (trace, r, want)
                elif r[0] == "ok":
                    assert sorted(r[1], key=repr) == sorted(want[1], key=repr), (trace, r, want)
                assert state() == before, trace
            elif op == "snapshot":
                r = outcome(lambda: g.snapshot(connection=conn))
                found = {k: b.storage.discover_partitions() for k, b in by_key.items() if b.producer_output is None}
                assert (r[0] == "ok") == all(found.values()), (trace, r)
                if r[0] == "ok":
                    snapshots.append(r[1])
                    for k, ps in found.items():
                        known_[i].setdefault(by_key[k].storage, set()).update(ps)
                        links[i].setdefault((r[1], k), set()).update(ps)
                    assert expect(disk) == before[0], trace
                else:
                    assert state() == before, trace
            else:
                data, pk = data_for(a)
                fp = None if raw else Fingerprint(1)
                foreign = type(a)(format=a.format, storage=LocalFile(path=tmp + "/foreign.json"))
                view = lambda m: View.from_annotation(Annotated[hint, type(a)], mode=m)
                wrong = {Num: Annotated[int, Other], Rows: Annotated[int, Num]}[type(a)]
                calls_ = {
                    "foreign write": lambda: target.write(data, artifact=foreign, partition_key=pk, view=view("WRITE"), connection=conn),
                    "foreign read": lambda: target.read(foreign, annotation=hint, connection=conn),
                    "wrong view write": lambda: target.write(data, artifact=a, input_fingerprint=fp, partition_key=pk, view=View.from_annotation(wrong, mode="WRITE"), connection=conn),
                    "wrong view read": lambda: target.read(a, view=View.from_annotation(wrong, mode="READ"), connection=conn),
                    "wrong data": lambda: target.write("text", artifact=a, input_fingerprint=fp, partition_key=pk, view=view("WRITE"), connection=conn),
                    "wrong hint": lambda: target.read(a, annotation=str, connection=conn),
                    "neither": lambda: target.read(a, connection=conn),
                    "both": lambda: target.read(a, annotation=hint, view=view("READ"), connection=conn),
                    "wrong key": lambda: target.write(data, artifact=a, input_fingerprint=fp, partition_key=PartitionKey(z=Int64Field(value=1)), view=view("WRITE"), connection=conn),
                    "no fingerprint": lambda: target.write(data, artifact=a, input_fingerprint=Fingerprint(1) if raw else None, partition_key=pk, view=view("WRITE"), connection=conn),
                }
                name = rng.choice(list(calls_))
                trace[-1] = (*trace[-1], name)
                assert outcome(calls_[name])[0] == "raises", trace
                assert state() == before, trace
    return str([t[:2] for t in trace])
