"""C15: a build produces every output exactly when needed, in dependency order."""

import itertools
import json
import os
import pickle
import resource
import signal
import sys
import zlib
from contextlib import contextmanager
from graphlib import TopologicalSorter
from typing import Annotated

import arti
from arti import Artifact, Fingerprint, Graph, GraphSnapshot, InputFingerprints, PartitionKey, Producer, StoragePartitionSnapshot, View
from arti.backends import Backend, BackendConnection
from arti.backends.memory import MemoryBackend, MemoryConnection
from arti.executors import Executor
from arti.executors.local import LocalExecutor
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import frozendict
from arti.internal.models import Model
from arti.partitions import Int64Field, NotPartitioned
from arti.producers import InputPartitions, PartitionDependencies, ProducerOutput
from arti.storage import StoragePartitions
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Int64, List, Struct
from arti.versions import String as StringVersion

from pyvc.core import *
from pyvc.interp import Star
from pyvc.spec import *
from pyvc.values import Native

from .c16 import Connected

__lemmas__ = True

Str, FP = KStr(), KInt(Fingerprint)
Art, Part, Key = KObj(Artifact), KObj(StoragePartitionSnapshot, True), KObj(PartitionKey)
Parts, Prod, Views = KSeq(Part), KObj(Producer), KObj(View)
Inputs = KDict(Str, Parts, frozendict)
Dependencies = KDict(Key, Inputs, frozendict)
Fingerprints = KDict(Key, KAlt([KConst(None), FP]), frozendict)
R, B, I, S = Ref, z3.BoolSort(), z3.IntSort(), z3.StringSort()


class Seen:
    """What was done while building, in order."""

    def __init__(self):
        self.links, self.reads, self.builds, self.checks, self.writes = [], [], [], [], []
        self.steps, self.built = [], []
        self.found = {}


def seen_by(*fields):
    def new(e, n):
        s = Inst(Seen, {n: Cell(list, SSeq([], None, list)) for n in fields})
        e.set(e, ("ghost", "seen"), s)
        return s

    return new


def note(e2, field, *event):
    if field not in e2.ghost["seen"].f:
        return
    e2.list_append(e2.ghost["seen"].f[field], tuple(event))


def a_snapshot(e, n):
    keys = e.fresh_val(KDict(Art, Str, frozendict), n + ".keys")
    outputs = e.fresh_val(KDict(Prod, KSeq(Art), frozendict), n + ".outputs")
    g = Inst(Graph, {
        "name": e.fresh_val(Str, n + ".name"),
        "backend": SObj(z3.Const(n + ".backend", R), Backend),
        "_status": "closed",
        "_artifact_to_key": keys,
        "producer_outputs": outputs,
    })
    e.set(e, ("ghost", "graph"), g)
    return SObj(z3.Const(n, R), GraphSnapshot, True)


def executor(e, n):
    return Inst(LocalExecutor, {})


def metadata(e):
    e.used_contracts.add("BackendConnection.read_*: some partition snapshots, determined by the backend's state and what is asked for (C10); write_snapshot_partitions is noted here")
    e.used_contracts.add("Graph.artifact_to_key, Graph.producer_outputs: names of all artifacts, including the producers' inputs and outputs; at least one output for each producer (C13)")

    def linked(e2, args, kw):
        if kw or len(args) != 4:
            raise Unsupported("reading linked partitions")
        ts = [e2.ref(args[0]), e2.ref(args[1]), e2.unwrap(Str, args[2])[0], e2.ref(args[3])]
        return e2.seq_of_term(ufun("linked", R, R, S, R, seq_sort(Part))(*ts), Part, tuple)

    def recorded(e2, args, kw):
        if kw or len(args) != 3:
            raise Unsupported("reading partitions")
        fps = e2.unwrap(Fingerprints, args[2])[:3]
        ts = [e2.ref(args[0]), e2.ref(args[1]), *fps]
        return e2.seq_of_term(ufun("recorded", *[t.sort() for t in ts], seq_sort(Part))(*ts), Part, tuple)

    e.contracts[BackendConnection.read_snapshot_partitions] = as_declared(BackendConnection.read_snapshot_partitions, linked, 4)
    e.contracts[BackendConnection.read_artifact_partitions] = as_declared(BackendConnection.read_artifact_partitions, recorded, 3)
    e.contracts[BackendConnection.write_snapshot_partitions] = as_declared(BackendConnection.write_snapshot_partitions, lambda e2, args, kw: note(e2, "links", *args), 5)
    e.attr_specs[(GraphSnapshot, "graph")] = lambda e2, v: e2.ghost["graph"]
    e.attr_specs[(Graph, "producer_outputs")] = lambda e2, v: v.f["producer_outputs"]
    e.attr_specs[(StoragePartitionSnapshot, "partition_key")] = lambda e2, v: SObj(ufun("partition.key", R, R)(v.t), PartitionKey)
    e.attr_specs[(StoragePartitionSnapshot, "input_fingerprint")] = lambda e2, v: e2.wrap(FP, [ufun("partition.fingerprint", R, I)(v.t)]) if e2.branch(ufun("partition.produced", R, B)(v.t)) else None


def producing(e, n):
    """A producer of the graph with its inputs."""
    p = SObj(z3.Const(n, R), Producer)
    e.set(e, ("ghost", "inputs"), e.fresh_val(KDict(Str, Art, dict), n + ".inputs"))
    return p


def inputs_of(e):
    metadata(e)
    e.attr_specs[(Producer, "inputs")] = lambda e2, v: e2.ghost["inputs"]


@lemma("C15", params=dict(x=executor, s=a_snapshot, conn=KObj(BackendConnection), p=producing, name=Str), setup=inputs_of, gen=lambda rng: gen_inputs(rng), around=lambda: noting())
def the_inputs_are_the_snapshots_partitions(x, s, conn, p, name):
    assume(all(a in s.graph.artifact_to_key for a in p.inputs.values()))
    got = x.get_producer_inputs(s, conn, p)
    assert (name in got) == (name in p.inputs)
    if name in got:
        a = p.inputs[name]
        assert got[name] == conn.read_snapshot_partitions(s, s.graph.artifact_to_key[a], a)


FOUND = dict(seen=seen_by("links"), x=executor, s=a_snapshot, conn=KObj(BackendConnection), p=Prod, fps=Fingerprints)


def ready(s, p):
    return p in s.graph.producer_outputs and len(s.graph.producer_outputs[p]) > 0 and all(o in s.graph.artifact_to_key for o in s.graph.producer_outputs[p])


@lemma("C15", params=dict(**FOUND, k=Key), setup=metadata, gen=lambda rng: gen_found_key(rng), around=lambda: noting())
def partitions_exist_when_every_output_has_them(seen, x, s, conn, p, fps, k):
    assume(ready(s, p))
    got = x.discover_producer_partitions(s, conn, p, partition_input_fingerprints=fps)
    if len(fps) == 0:
        assert len(got) == 0
    else:
        assert (k in got) == all(any(f.partition_key == k for f in conn.read_artifact_partitions(o, fps)) for o in s.graph.producer_outputs[p])


@lemma("C15", params=dict(**FOUND, i=KInt()), setup=metadata, gen=lambda rng: gen_found_index(rng), around=lambda: noting())
def existing_partitions_are_linked(seen, x, s, conn, p, fps, i):
    assume(ready(s, p))
    x.discover_producer_partitions(s, conn, p, partition_input_fingerprints=fps)
    outputs = s.graph.producer_outputs[p]
    assume(0 <= i < len(outputs))
    o = outputs[i]
    if len(fps) > 0:
        assert any(r[0] == conn and r[1] == s and r[2] == s.graph.artifact_to_key[o] and r[3] == o and r[4] == conn.read_artifact_partitions(o, fps) for r in seen.links)


@lemma("C15", params=dict(**FOUND, i=KInt()), setup=metadata, gen=lambda rng: gen_found_index(rng), around=lambda: noting())
def nothing_else_is_linked(seen, x, s, conn, p, fps, i):
    assume(ready(s, p))
    x.discover_producer_partitions(s, conn, p, partition_input_fingerprints=fps)
    assume(0 <= i < len(seen.links))
    to, snapshot, key, o, parts = seen.links[i]
    assert len(fps) > 0
    assert to == conn and snapshot == s and o in s.graph.producer_outputs[p] and key == s.graph.artifact_to_key[o]
    assert parts == conn.read_artifact_partitions(o, fps)


# --------------------------------------------------------------- one partition

Out, Named = KSeq(KObj(object)), KDict(Str, KObj(object))


def building(e):
    inputs_of(e)
    e.used_contracts.add("Producer.build / validate_outputs: user code that may fail; build returns as many outputs as declared, validate_outputs a (passed, message) pair; both noted here")
    e.used_contracts.add("GraphSnapshot.read / write: some data or an error, touching exactly the addressed artifact (C16); noted here")
    e.used_contracts.add("ProducerOutput.position: the position of a declared output (C12)")
    e.attr_specs[(Producer, "_build_inputs_")] = lambda e2, v: e2.ghost["views"]
    e.attr_specs[(Producer, "_outputs_")] = lambda e2, v: e2.ghost["outputs"]
    e.attr_specs[(Artifact, "producer_output")] = lambda e2, v: SObj(ufun("artifact.output", R, R)(v.t), ProducerOutput, True) if e2.branch(ufun("artifact.produced", R, B)(v.t)) else None
    e.attr_specs[(ProducerOutput, "position")] = lambda e2, v: SInt(ufun("output.position", R, I)(v.t))

    e.attr_specs[(frozendict, "_data")] = lambda e2, v: e2.wrap(Named, [ufun(f"key data {i}", R, t)(v.t) for i, t in enumerate(Named.sorts)])

    e.attr_specs[(PartitionKey, "__getitem__")] = lambda e2, v, k: SObj(ufun("key field", R, S, R)(v.t, e2.unwrap(Str, k)[0]), object)

    def read(e2, args, kw):
        if len(args) != 1 or set(kw) != {"artifact", "storage_partition_snapshots", "view"}:
            raise Unsupported("reading")
        ts = [e2.ref(args[0]), e2.ref(kw["artifact"]), *e2.unwrap(Parts, kw["storage_partition_snapshots"]), e2.ref(kw["view"])]
        if not e2.branch(ufun("readable", *[t.sort() for t in ts], B)(*ts)):
            e2.raise_(FileNotFoundError, "No data")
        return SObj(ufun("data", *[t.sort() for t in ts], R)(*ts), object)

    def write(e2, args, kw):
        if len(args) != 2 or set(kw) != {"artifact", "input_fingerprint", "partition_key", "view"}:
            raise Unsupported("writing")
        note(e2, "writes", *args, kw["artifact"], kw["input_fingerprint"], kw["partition_key"], kw["view"])

    e.contracts[GraphSnapshot.read] = as_declared(GraphSnapshot.read, read, 1)
    e.contracts[GraphSnapshot.write] = as_declared(GraphSnapshot.write, write, 2)

    def build(e2, args, kw):
        d = kw.pop("**", None)
        if args or kw or d is None:
            raise Unsupported("calling build")
        ts = e2.unwrap(KDict(Str, KObj(object)), d)[:2]
        if not e2.branch(ufun("builds", *[t.sort() for t in ts], B)(*ts)):
            note(e2, "builds", d, None)
            e2.raise_(RuntimeError, "build")
        n = e2.seq_length(e2.ghost["outputs"])
        if e2.branch(n == 1):
            out = SObj(ufun("result", *[t.sort() for t in ts], R)(*ts), object)
            note(e2, "builds", d, out)
            return out
        t = ufun("results", *[t.sort() for t in ts], seq_sort(KObj(object)))(*ts)
        out = e2.seq_of_term(t, KObj(object), tuple)
        e2.fact(e2.seq_length(out) == n)
        note(e2, "builds", d, out)
        return out

    def validate(e2, args, kw):
        if kw:
            raise Unsupported("calling validate_outputs")
        if any(isinstance(x, Star) for x in args):
            if len(args) != 1:
                raise Unsupported("calling validate_outputs")
            args = args[0].v
        t = e2.unwrap(Out, args if not isinstance(args, list) else tuple(args))
        note(e2, "checks", args if not isinstance(args, list) else tuple(args))
        return (SBool(ufun("valid", *[x.sort() for x in t], B)(*t)), e2.wrap(Str, [ufun("message", *[x.sort() for x in t], S)(*t)]))

    e.attr_specs[(Producer, "build")] = lambda e2, v: Native(build, "build")
    e.attr_specs[(Producer, "validate_outputs")] = lambda e2, v: Native(validate, "validate_outputs")


def declaring(e, n):
    p = producing(e, n)
    e.set(e, ("ghost", "views"), e.fresh_val(KDict(Str, KObj(View), frozendict), n + ".views"))
    e.set(e, ("ghost", "outputs"), e.fresh_val(KSeq(KObj(View)), n + ".outputs"))
    return p


ONE = dict(seen=seen_by("builds", "checks", "writes"), x=executor, s=a_snapshot, conn=KObj(BackendConnection), p=declaring, done=KSet(Key, set), fp=FP, deps=Inputs, key=Key)


def consistent(s, p, deps):
    """What defining the producer and opening the graph guarantee."""
    return (
        ready(s, p)
        and all(name in p.inputs and name in deps for name in p._build_inputs_)
        and all(o.producer_output is not None and 0 <= o.producer_output.position < len(p._outputs_) for o in s.graph.producer_outputs[p])
    )


def run(x, s, conn, p, done, fp, deps, key):
    return outcome(x.build_producer_partition, s, conn, p, existing_partition_keys=done, input_fingerprint=fp, input_partitions=deps, partition_key=key)


@lemma("C15", params=ONE, setup=building, gen=lambda rng: gen_one(rng), around=lambda: noting())
def existing_partitions_are_not_computed(seen, x, s, conn, p, done, fp, deps, key):
    assume(consistent(s, p, deps) and key in done)
    assert run(x, s, conn, p, done, fp, deps, key)[0] == "ok"
    assert len(seen.builds) == 0 and len(seen.checks) == 0 and len(seen.writes) == 0


@lemma("C15", params=dict(**ONE, name=Str), setup=building, gen=lambda rng: gen_one_name(rng), around=lambda: noting())
def missing_partitions_are_computed_from_the_inputs(seen, x, s, conn, p, done, fp, deps, key, name):
    assume(consistent(s, p, deps) and key not in done)
    got = run(x, s, conn, p, done, fp, deps, key)
    assert len(seen.builds) <= 1
    if got[0] == "ok":
        assert len(seen.builds) == 1
    assume(len(seen.builds) == 1)
    args = seen.builds[0][0]
    assert (name in args) == (name in p._build_inputs_)
    if name in args:
        assert args[name] == s.read(artifact=p.inputs[name], storage_partition_snapshots=deps[name], view=p._build_inputs_[name])


@lemma("C15", params=ONE, setup=building, gen=lambda rng: gen_one(rng), around=lambda: noting())
def nothing_is_written_without_a_passed_check(seen, x, s, conn, p, done, fp, deps, key):
    assume(consistent(s, p, deps) and key not in done)
    got = run(x, s, conn, p, done, fp, deps, key)
    assert len(seen.checks) <= 1
    if got[0] == "raises":
        assert len(seen.writes) == 0
    assume(len(seen.checks) == 1)
    outputs = seen.checks[0][0]
    assert len(outputs) == len(p._outputs_)
    assert len(seen.builds) == 1
    results = seen.builds[0][1]
    assert outputs == ((results,) if len(p._outputs_) == 1 else results)
    assert (got[0] == "ok") == p.validate_outputs(*outputs)[0]


def already_there(s, conn, o, key, fp):
    return any(f.partition_key == key and f.input_fingerprint == fp for f in conn.read_snapshot_partitions(s, s.graph.artifact_to_key[o], o))


@lemma("C15", params=dict(**ONE, i=KInt()), setup=building, gen=lambda rng: gen_one_index(rng), around=lambda: noting())
def exactly_the_missing_outputs_are_written(seen, x, s, conn, p, done, fp, deps, key, i):
    assume(consistent(s, p, deps) and key not in done)
    outputs = s.graph.producer_outputs[p]
    assume(0 <= i < len(outputs))
    o = outputs[i]
    there = already_there(s, conn, o, key, fp)
    got = run(x, s, conn, p, done, fp, deps, key)
    assume(got[0] == "ok")
    if there:
        assert not any(w[2] == o for w in seen.writes)
    else:
        n = o.producer_output.position
        assert any(w == (s, seen.checks[0][0][n], o, fp, key, p._outputs_[n]) for w in seen.writes)


@lemma("C15", params=dict(**ONE, i=KInt()), setup=building, gen=lambda rng: gen_one_index(rng), around=lambda: noting())
def nothing_else_is_written(seen, x, s, conn, p, done, fp, deps, key, i):
    assume(consistent(s, p, deps) and key not in done)
    got = run(x, s, conn, p, done, fp, deps, key)
    assume(0 <= i < len(seen.writes))
    assert got[0] == "ok"
    to, data, o, fp2, key2, view = seen.writes[i]
    assert to == s and fp2 == fp and key2 == key and o in s.graph.producer_outputs[p]
    n = o.producer_output.position
    assert data == seen.checks[0][0][n] and view == p._outputs_[n]


# --------------------------------------------------------------- the whole build

PlannedDeps, PlannedFps = KDict(Key, KObj(InputPartitions), frozendict), KDict(Key, FP, frozendict)


def a_whole_snapshot(e, n):
    g = Inst(Graph, {"dependencies": e.fresh_val(KDict(KObj(Model), KObj(object), frozendict), n + ".dependencies")})
    e.set(e, ("ghost", "graph"), g)
    e.set(e, ("ghost", "done"), False)
    e.set(e, ("ghost", "early"), False)
    return SObj(z3.Const(n, R), GraphSnapshot, True)


def planning(e):
    e.used_contracts.add("graphlib.TopologicalSorter.static_order: every node once, none before the nodes it depends on (Graph.dependencies has no cycles, C13)")
    e.used_contracts.add("Executor.get_producer_inputs / discover_producer_partitions / build_producer_partition by their contracts (the lemmas above); noted here")
    e.used_contracts.add("Producer.compute_dependencies: dependencies and an input fingerprint for each partition key, determined by the producer and its inputs (C11)")
    e.used_contracts.add("Backend.connect: a context manager giving a connection (C10)")
    e.attr_specs[(GraphSnapshot, "graph")] = lambda e2, v: e2.ghost["graph"]
    e.attr_specs[(GraphSnapshot, "backend")] = lambda e2, v: SObj(ufun("snapshot.backend", R, R)(v.t), Backend)
    e.contracts[Backend.connect] = lambda e2, args, kw: Inst(Connected, {"connection": SObj(ufun("backend.connection", R, R)(e2.ref(args[0])), BackendConnection)})

    class Order:
        pass

    def sorter(e2, args, kw):
        if kw or len(args) != 1:
            raise Unsupported("another graph")
        return Inst(Order, {"graph": args[0]})

    def order(e2, args, kw):
        return in_order(e2, e2.content(args[0].f["graph"]))

    e.models[("new", TopologicalSorter)] = lambda e2, cls, args, kw: sorter(e2, args, kw)
    e.contracts[TopologicalSorter] = sorter
    Order.static_order = lambda self: None
    e.contracts[Order.static_order] = order

    def in_order(e2, d):
        t = ufun("order", d.has.sort(), seq_sort(KObj(Model)))(d.has)
        s = e2.seq_of_term(t, KObj(Model), tuple)
        i, x = z3.Int("i?"), z3.Const("x?", R)
        at = lambda j: seq_at(t, KObj(Model), j)[0]
        where = lambda x: ufun("place in order", t.sort(), R, I)(t, x)
        e2.fact(forall([i], z3.Implies(z3.And(0 <= i, i < seq_len(t)), z3.And(z3.Select(d.has, at(i)), where(at(i)) == i)), pats=[at(i)]))
        e2.fact(forall([x], z3.Implies(z3.Select(d.has, x), z3.And(0 <= where(x), where(x) < seq_len(t), at(where(x)) == x)), pats=[z3.Select(d.has, x)]))
        return s

    def inputs(e2, args, kw):
        if kw or len(args) != 4:
            raise Unsupported("get_producer_inputs")
        note(e2, "steps", "read inputs", args[3])
        return SObj(ufun("inputs", R, R, R, R)(*[e2.ref(a) for a in args[1:]]), InputPartitions)

    def dependencies(e2, args, kw):
        if kw or len(args) != 2:
            raise Unsupported("compute_dependencies")
        ts = [e2.ref(args[0]), e2.ref(args[1])]
        deps = e2.wrap(PlannedDeps, [ufun(f"dependencies{j}", R, R, t)(*ts) for j, t in enumerate(PlannedDeps.sorts)])
        fps = e2.wrap(PlannedFps, [ufun(f"fingerprints{j}", R, R, t)(*ts) for j, t in enumerate(PlannedFps.sorts)])
        e2.fact(deps.has == fps.has)
        return (deps, fps)

    def discover(e2, args, kw):
        if set(kw) != {"partition_input_fingerprints"} or len(args) != 4:
            raise Unsupported("discover_producer_partitions")
        ts = [*[e2.ref(a) for a in args[1:]], *e2.unwrap(PlannedFps, kw["partition_input_fingerprints"])[:2]]
        k = KSet(Key, set)
        return e2.wrap(k, [ufun("existing", *[x.sort() for x in ts], k.sorts[0])(*ts)])

    names = ("existing_partition_keys", "input_fingerprint", "input_partitions", "partition_key")

    def build(e2, args, kw):
        if set(kw) != set(names) or len(args) != 4:
            raise Unsupported("build_producer_partition")
        note(e2, "steps", "build", args[3])
        note(e2, "built", *args[1:], *[kw[n] for n in names])

    e.contracts[Executor.get_producer_inputs] = as_declared(Executor.get_producer_inputs, inputs, 4)
    e.contracts[Executor.discover_producer_partitions] = as_declared(Executor.discover_producer_partitions, discover, 4)
    e.contracts[Executor.build_producer_partition] = as_declared(Executor.build_producer_partition, build, 4)
    e.contracts[found_before] = lambda e2, args, kw: discover(e2, args[:4], {"partition_input_fingerprints": args[4]})
    e.contracts[Producer.compute_dependencies] = as_declared(Producer.compute_dependencies, dependencies, 2)


def some_producer(e, n):
    p = z3.Const(n, R)
    e.fact(e.isa_pred(Producer)(p))
    e.fact(z3.Not(e.isa_pred(Artifact)(p)))
    return SObj(p, Producer)


WHOLE = dict(seen=seen_by("built"), x=executor, s=a_whole_snapshot)


def made_of_artifacts_and_producers(s):
    return all(isinstance(n, (Artifact, Producer)) for n in s.graph.dependencies)


def found_before(x, s, c, p, fps):
    """The partitions found when the producer's turn came."""
    return NOW[0].found[p]


def connection_of(s):
    with s.backend.connect() as c:
        return c


@lemma("C15", params=dict(**WHOLE, p=some_producer, key=Key), setup=planning, gen=lambda rng: gen_whole_key(rng), around=lambda: noting())
def every_partition_of_every_producer_is_built(seen, x, s, p, key):
    assume(made_of_artifacts_and_producers(s))
    got = outcome(x.build, s)
    assume(got[0] == "ok")
    assume(p in s.graph.dependencies)
    c = connection_of(s)
    deps, fps = p.compute_dependencies(x.get_producer_inputs(s, c, p))
    assume(key in deps)
    done = found_before(x, s, c, p, fps)
    assert any(b == (s, c, p, done, fps[key], deps[key], key) for b in seen.built)


def called_for(x, s, b):
    s2, c, p, done, fp, inputs, key = b
    if not isinstance(p, Producer):
        return False
    deps, fps = p.compute_dependencies(x.get_producer_inputs(s, c, p))
    return (
        s2 == s
        and c == connection_of(s)
        and p in s.graph.dependencies
        and key in deps
        and inputs == deps[key]
        and fp == fps[key]
        and done == found_before(x, s, c, p, fps)
    )


@lemma("C15", params=WHOLE, setup=planning, gen=lambda rng: gen_whole(rng), around=lambda: noting())
def nothing_else_is_built(seen, x, s):
    assume(made_of_artifacts_and_producers(s))
    outcome(x.build, s)
    assert all(called_for(x, s, b) for b in seen.built)


@lemma("C15", params=dict(seen=seen_by("steps"), x=executor, s=a_whole_snapshot), setup=planning, gen=lambda rng: gen_whole(rng), around=lambda: noting())
def inputs_are_read_after_all_they_depend_on_was_built(seen, x, s):
    assume(made_of_artifacts_and_producers(s))
    got = outcome(x.build, s)
    assume(got[0] == "ok")
    expected = []
    c = connection_of(s)
    done = list(seen.steps)
    for n in TopologicalSorter(s.graph.dependencies).static_order():
        if isinstance(n, Artifact):
            pass
        elif isinstance(n, Producer):
            expected.append(("read inputs", n))
            deps, fps = n.compute_dependencies(x.get_producer_inputs(s, c, n))
            for key in deps:
                expected.append(("build", n))
    assert done == expected


# --------------------------------------------------------------- native values

NOW = [Seen()]


class Num(Artifact):
    type: Int64 = Int64()


class Other(Artifact):
    type: Int64 = Int64()


PLAN = {}


def planned_build(rng, failing=0.1):
    PLAN.clear()
    PLAN.update(build=rng.random() < failing, bad=rng.choice([0, 9, 9, 9, 9]))
    if rng.random() < 0.3:
        PLAN["odd"] = [0]


def noted_build(args, result):
    NOW[0].builds.append((args, None if PLAN["build"] else result))
    if PLAN["build"]:
        raise RuntimeError("build")
    return result


def noted_check(*outputs):
    NOW[0].checks.append((outputs,))
    return sum(outputs) % 5 != PLAN["bad"], "bad sum"


class Inc(Producer):
    a: Num

    @staticmethod
    def build(a: int) -> Annotated[int, Num]:
        return noted_build(dict(a=a), PLAN.get("odd", [a + 1])[0])

    @staticmethod
    def validate_outputs(x):
        return noted_check(x)


class Split(Producer):
    a: Num
    b: Other

    @staticmethod
    def build(a: int, b: int) -> tuple[Annotated[int, Num], Annotated[int, Other], Annotated[int, Num]]:
        return noted_build(dict(a=a, b=b), (a, b + 10, PLAN.get("odd", [a + b])[0]))

    @staticmethod
    def validate_outputs(x, y, z):
        return noted_check(x, y, z)


class Recording(MemoryConnection):
    def write_snapshot_partitions(self, snapshot, artifact_key, artifact, partitions):
        NOW[0].links.append((self, snapshot, artifact_key, artifact, partitions))
        super().write_snapshot_partitions(snapshot, artifact_key, artifact, partitions)

    def __eq__(self, other):
        return isinstance(other, Recording) and self.container is other.container


class RecordingBackend(MemoryBackend):
    @contextmanager
    def connect(self):
        with super().connect() as c:
            yield Recording(c.container)


@contextmanager
def noting():
    real = GraphSnapshot.write

    def write(self, data, *, artifact, input_fingerprint, partition_key, view):
        NOW[0].writes.append((self, data, artifact, input_fingerprint, partition_key, view))
        return real(self, data, artifact=artifact, input_fingerprint=input_fingerprint, partition_key=partition_key, view=view)

    def reading(self, snapshot, connection, producer):
        NOW[0].steps.append(("read inputs", producer))
        return inputs(self, snapshot, connection, producer)

    def finding(self, snapshot, connection, producer, *, partition_input_fingerprints):
        found = find(self, snapshot, connection, producer, partition_input_fingerprints=partition_input_fingerprints)
        NOW[0].found.setdefault(producer, set(found))
        return found

    def building_one(self, snapshot, connection, producer, **kw):
        NOW[0].steps.append(("build", producer))
        NOW[0].built.append((snapshot, connection, producer, *(kw[n] for n in ("existing_partition_keys", "input_fingerprint", "input_partitions", "partition_key"))))
        return build(self, snapshot, connection, producer, **kw)

    inputs, find, build = Executor.get_producer_inputs, Executor.discover_producer_partitions, Executor.build_producer_partition
    GraphSnapshot.write = write
    Executor.get_producer_inputs, Executor.discover_producer_partitions, Executor.build_producer_partition = reading, finding, building_one
    try:
        yield
    finally:
        GraphSnapshot.write = real
        Executor.get_producer_inputs, Executor.discover_producer_partitions, Executor.build_producer_partition = inputs, find, build


def a_real_graph(rng, backend):
    arti.context.graph = None
    with Graph(name=rng.choice("gh"), backend=backend) as g:
        g.artifacts.a, g.artifacts.b = (cls(storage=StringLiteral(value=str(rng.randint(0, 3)))) for cls in (Num, Other))
        for i in range(rng.randint(1, 3)):
            known_ = [a for _, a in g.artifacts.walk()]
            nums, others = ([a for a in known_ if type(a) is c] for c in (Num, Other))
            if rng.random() < 0.5:
                outs = Split(a=rng.choice(nums), b=rng.choice(others)).out()
                for j in rng.sample(range(3), rng.randint(1, 3)):
                    g.artifacts[f"t{i}{j}"] = outs[j]
                if rng.random() < 0.3:
                    g.artifacts[f"t{i}again"] = rng.choice(outs)
            else:
                g.artifacts[rng.choice(["", "n."]) + f"p{i}"] = Inc(a=rng.choice(nums))
    return g


def stored(rng, a, fp):
    """Some partition of an artifact."""
    if a.producer_output is None:
        return a.storage.generate_partition().snapshot()
    return a.storage.generate_partition(input_fingerprint=fp).model_copy(update={"value": str(rng.randint(0, 2))}).snapshot()


def gen_snapshot(rng):
    g = a_real_graph(rng, RecordingBackend())
    with g.backend.connect() as conn:
        s = GraphSnapshot(graph=g, id=Fingerprint(rng.randint(0, 9)))
        for a, key in g.artifact_to_key.items():
            for _ in range(rng.choice([0, 1, 2])):
                found = (stored(rng, a, rng.choice(FPS)),)
                conn.write_artifact_partitions(a, found)
                if rng.random() < 0.5:
                    conn.write_snapshot_partitions(s, key, a, found)
    NOW[0] = Seen()
    return s, conn


def gen_one(rng, **more):
    c = gen_inputs(rng)
    del c["name"]
    planned_build(rng)
    deps = {n: (stored(rng, a, FPS[0]),) for n, a in c["p"].inputs.items()}
    if rng.random() < 0.1:
        deps["a"] = ()
    if rng.random() < 0.2:
        deps["z"] = ()
    return dict(seen=NOW[0], **c, done=set(rng.choice([[], [], [NotPartitioned], [PartitionKey(i=Int64Field(value=1))]])), fp=rng.choice(FPS), deps=frozendict(deps), key=NotPartitioned, **more)


def gen_whole(rng):
    planned_build(rng)
    s, _ = gen_snapshot(rng)
    return dict(seen=NOW[0], x=LocalExecutor(), s=s)


def gen_whole_key(rng):
    c = gen_whole(rng)
    return dict(**c, p=rng.choice(sorted(c["s"].graph.producers, key=lambda p: p.fingerprint)), key=rng.choice([NotPartitioned] * 3 + [PartitionKey(i=Int64Field(value=1))]))


def gen_one_name(rng):
    return gen_one(rng, name=rng.choice("abz"))


def gen_one_index(rng):
    return gen_one(rng, i=rng.randint(-1, 3))


FPS = [Fingerprint(1), Fingerprint(2)]


def gen_inputs(rng):
    s, conn = gen_snapshot(rng)
    p = rng.choice(sorted(s.graph.producers, key=lambda p: p.fingerprint))
    return dict(x=LocalExecutor(), s=s, conn=conn, p=p, name=rng.choice([*p.inputs, "z"]))


def gen_found(rng, **more):
    c = gen_inputs(rng)
    del c["name"]
    fps = rng.choice([{}, {NotPartitioned: FPS[0]}, {NotPartitioned: FPS[1]}, {PartitionKey(i=Int64Field(value=1)): FPS[0]}])
    return dict(seen=NOW[0], **c, fps=InputFingerprints(fps), **more)


def gen_found_key(rng):
    return gen_found(rng, k=rng.choice([NotPartitioned, PartitionKey(i=Int64Field(value=1))]))


def gen_found_index(rng):
    return gen_found(rng, i=rng.randint(-1, 2))


# --------------------------------------------------------------- whole histories


class Third(Artifact):
    type: Int64 = Int64()


class Few(Artifact):
    type: List = List(element=Int64())


ROWS = Collection(element=Struct(fields={"k": Int64(), "v": Int64()}), partition_by=("k",))


class Rows(Artifact):
    type: Collection = ROWS


class More(Artifact):
    type: Collection = ROWS


class History:
    def __init__(self):
        self.calls, self.stop_at, self.bad = [], None, set()

    def call(self, label, args, results):
        self.calls.append((label, args))
        if self.stop_at == len(self.calls):
            raise RuntimeError("stopped")
        return results


def mixed(*parts):
    """A value no other producer, output or input gives."""
    return zlib.crc32(repr(parts).encode())


def few(label, a):
    return [mixed(label, a)] * (mixed(label, a) % 2)


def verdict(h, label, values):
    return not any(v % 7 in h.bad for v in values), "bad value"


def make(kind, label, h):
    """A producer (class) noting its calls."""
    if kind == "one":

        class One(Producer):
            a: Num

            @staticmethod
            def build(a: int) -> Annotated[int, Num]:
                return h.call(label, (a,), mixed(label, a))

            @staticmethod
            def validate_outputs(x):
                return verdict(h, label, [x])

        return One
    if kind == "split":

        class Three(Producer):
            a: Num
            b: Other

            @staticmethod
            def build(a: int, b: int) -> tuple[Annotated[int, Num], Annotated[int, Other], Annotated[int, Third]]:
                return h.call(label, (a, b), tuple(mixed(label, i, a, b) for i in range(3)))

            @staticmethod
            def validate_outputs(x, y, z):
                return verdict(h, label, [x, y, z])

        return Three
    if kind == "each":

        class Each(Producer):
            rows: Rows
            a: Num

            @staticmethod
            def map(rows: StoragePartitions, a: StoragePartitions) -> PartitionDependencies:
                return PartitionDependencies({p.partition_key: InputPartitions({"rows": (p,), "a": a}) for p in rows if p.partition_key["k"].value != 2})

            @staticmethod
            def build(rows: list, a: int) -> Annotated[list, More]:
                return h.call(label, (tuple(r["v"] for r in rows), a), [{"k": r["k"], "v": mixed(label, r["v"], a)} for r in rows])

            @staticmethod
            def validate_outputs(rows):
                return verdict(h, label, [r["v"] for r in rows])

        return Each

    if kind == "pick":

        class Pick(Producer):
            a: Num

            @staticmethod
            def build(a: int) -> Annotated[list[int], Few]:
                return h.call(label, (a,), few(label, a))

            @staticmethod
            def validate_outputs(x):
                return verdict(h, label, x)

        return Pick

    class Total(Producer):
        rows: More if kind == "total more" else Rows

        @staticmethod
        def build(rows: list) -> Annotated[int, Num]:
            vs = tuple(sorted(r["v"] for r in rows))
            return h.call(label, (vs,), mixed(label, vs))

        @staticmethod
        def validate_outputs(x):
            return verdict(h, label, [x])

    return Total


def some_plan(rng):
    """Nodes in dependency order: kind, inputs, and the names (with positions) of the outputs in the graph."""
    nums, others, rows, mores, nodes = ["n"], ["o"], ["r"], [], []
    for i in range(rng.randint(1, 4)):
        label = f"p{i}"
        kind = rng.choice(["one", "split", "split", "each", "total", "pick"] + ["total more"] * 2 * bool(mores))
        if kind in ("one", "pick"):
            args, out = [rng.choice(nums)], [0]
        elif kind == "split":
            args, out = [rng.choice(nums), rng.choice(others)], sorted(rng.sample(range(3), rng.randint(1, 3)))
        elif kind == "each":
            args, out = [rng.choice(rows), rng.choice(nums)], [0]
        else:
            args, out = [rng.choice(mores if kind == "total more" else rows)], [0]
        names = [(rng.choice(["", "m."]) + f"x{i}{j}", j) for j in out]
        if rng.random() < 0.2:
            names.append((f"y{i}", rng.choice(out)))
        if kind == "pick":
            pass
        elif kind == "each":
            mores += [n for n, _ in names]
        else:
            nums += [n for n, j in names if j == 0]
            others += [n for n, j in names if j == 1 and kind == "split"]
        nodes.append((label, kind, args, names, rng.choice(["file", "file", "file", "literal"])))
    return nodes


INPUTS = {"one": ["a"], "pick": ["a"], "split": ["a", "b"], "each": ["rows", "a"], "total": ["rows"], "total more": ["rows"]}
OUTPUTS = {"one": [Num], "pick": [Few], "split": [Num, Other, Third], "each": [More], "total": [Num], "total more": [Num]}


def graph_of(nodes, tmp, h, backend):
    arti.context.graph = None
    raw = dict(n=Num(format=JSON(), storage=LocalFile(path=tmp + "/n.json")), o=Other(format=Pickle(), storage=LocalFile(path=tmp + "/o.pkl")), r=Rows(format=JSON(), storage=LocalFile(path=tmp + "/r/{k.value}.json")))
    made = dict(raw)
    with Graph(name="g", backend=backend) as g:
        for label, kind, args, names, where in nodes:
            p = make(kind, label, h)(**dict(zip(INPUTS[kind], [made[a] for a in args])), version=StringVersion(value=label))
            end = ("{k.value}/" if kind == "each" else "") + "{input_fingerprint}"
            outs = p.out(*[
                cls(format=JSON() if j else Pickle(), storage=LocalFile(path=f"{tmp}/made/{label}.{j}/{end}")) if where == "file" else cls(format=JSON(), storage=StringLiteral(id=f"{label}.{j}/{end}"))
                for j, cls in enumerate(OUTPUTS[kind])
            ])
            outs = outs if isinstance(outs, tuple) else (outs,)
            for n, j in names:
                g.artifacts[n] = made[n] = outs[j]
        for k, a in raw.items():
            g.artifacts[k] = a
    return g


def put_raw(tmp, raw):
    os.makedirs(f"{tmp}/r", exist_ok=True)
    with open(f"{tmp}/n.json", "w") as f:
        json.dump(raw["n"], f)
    with open(f"{tmp}/o.pkl", "wb") as f:
        pickle.dump(raw["o"], f)
    for k in range(4):
        if k in raw["r"]:
            with open(f"{tmp}/r/{k}.json", "w") as f:
                json.dump([{"k": k, "v": raw["r"][k]}], f)
        elif os.path.exists(f"{tmp}/r/{k}.json"):
            os.unlink(f"{tmp}/r/{k}.json")


def expected(nodes, raw):
    """The value of everything, the computations it takes (with what gets checked), and the producers without input data."""
    values, steps, empty = dict(raw), {}, set()
    for label, kind, args, names, _ in nodes:
        given = [values.get(a) for a in args]
        if any(v is None for v in given):
            continue  # something before it fails
        if kind == "each":
            rows, a = given
            todo = {k: (label, ((v,), a)) for k, v in rows.items() if k != 2}
            results = [{k: mixed(label, rows[k], a) for k in todo}]
            checks = {k: [results[0][k]] for k in todo}
        else:
            key = tuple(sorted(given[0].values())) if kind.startswith("total") else None
            todo = {None: (label, (key,) if key is not None else tuple(given))}
            results = [mixed(label, i, *given) for i in range(3)] if kind == "split" else [mixed(label, key if key is not None else given[0])]
            if kind == "pick":
                results = [few(label, given[0])]
            checks = {None: results if kind != "pick" else results[0]}
            if key == ():
                empty.add(label)
                continue
        for k, call in todo.items():
            steps[call] = (label, k, checks[k])
        for n, j in names:
            values[n] = results[j]
    return values, steps, empty


def killed_while_building(s, rng):
    """Build in a process that dies at some point (or when writing a file)."""
    nth, room, seen = rng.randint(1, 12), rng.choice([0, 1, 3, 9, 10**6]), [0]
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)

            def hook(event, args):
                if event in ("open", "os.rename", "os.mkdir") and "/made/" in str(args[0]):
                    seen[0] += 1
                    if seen[0] == nth:
                        if room == 10**6:
                            os._exit(1)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (room, resource.RLIM_INFINITY))

            sys.addaudithook(hook)
            s.build()
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


@contextmanager
def failing_writes(nth, after):
    """The nth write fails (after having written, possibly)."""
    real, seen = GraphSnapshot.write, [0]

    def write(self, data, **kw):
        seen[0] += 1
        if seen[0] == nth and not after:
            raise OSError("no space")
        out = real(self, data, **kw)
        if seen[0] == nth:
            raise OSError("connection lost")
        return out

    GraphSnapshot.write = write
    try:
        yield
    finally:
        GraphSnapshot.write = real


def made_files(tmp):
    return {os.path.join(d, f) for d, _, fs in os.walk(tmp + "/made") for f in fs if not f.startswith(".")}


def rows_of(values):
    return sorted((k, v) for k, v in values.items()) if isinstance(values, dict) else values


@scenario("C15", runs=150, bound="up to 7 builds of a graph of up to 4 producers (3 raw inputs, one partitioned; multiple outputs, some left out or under two names; partitioned, filtered and total outputs; files and literals), between which raw data changes, outputs get lost, builds or checks or writes fail, and the building process gets killed at any point")
def builds_compute_what_is_missing(rng, tmp):
    nodes, h = some_plan(rng), History()
    raw = {"n": rng.randint(0, 3), "o": 10 + rng.randint(0, 3), "r": {k: 100 * k + rng.randint(0, 3) for k in rng.sample(range(4), rng.randint(1, 3))}}
    put_raw(tmp, raw)
    backend, events = MemoryBackend(), []
    recorded, ever, unsure, paths = set(), set(), False, {}
    for _ in range(rng.randint(2, 7)):
        what = rng.choice(["raw", "raw", "lost", "fresh", "again", "kill", "kill"])
        events.append(what)
        if what == "raw":
            k = rng.choice("nor")
            raw = {**raw, k: raw[k] ^ 1 if k != "r" else {j: 100 * j + rng.randint(0, 3) for j in rng.sample(range(4), rng.randint(1, 3))}}
            put_raw(tmp, raw)
        elif what == "lost":
            for f in sorted(made_files(tmp)):
                if rng.random() < 0.3:
                    os.unlink(f)
        if what == "kill":
            killed_while_building(graph_of(nodes, tmp, h, backend).snapshot(), rng)
            unsure = True
        if what in ("lost", "fresh", "kill"):
            backend, recorded = MemoryBackend(), set()
        h.bad = {rng.randint(0, 6)} if rng.random() < 0.15 else set()
        values, steps, empty = expected(nodes, raw)
        s = graph_of(nodes, tmp, h, backend).snapshot()
        there = made_files(tmp)
        fault = rng.choice([None] * 3 + ["build", "write", "written"])
        h.calls, h.stop_at = [], rng.randint(1, 4) if fault == "build" else None
        with failing_writes(rng.randint(1, 6) if fault in ("write", "written") else 0, fault == "written"):
            got = outcome(s.build)
        story = (nodes, raw, h.bad, fault, events, h.calls)
        assert set(h.calls) <= set(steps) and len(set(h.calls)) == len(h.calls), story
        assert not recorded & set(h.calls), story
        wrong = [c for c in h.calls if any(v % 7 in h.bad for v in steps[c][2])]
        assert not wrong or got[0] == "raises" and wrong == h.calls[-1:], story
        for label, *_ in nodes:
            mine = [c for c in h.calls if c[0] == label]
            done = [c for c in mine if c not in wrong and (c != h.calls[-1] or len(h.calls) != h.stop_at)]
            for j in range(3):
                new = [f for f in made_files(tmp) - there if f.startswith(f"{tmp}/made/{label}.{j}/")]
                assert len(new) <= len(done) or fault in ("write", "written") and len(new) <= len(mine), story
        ever |= set(h.calls)
        recorded |= set(h.calls if got[0] == "ok" else h.calls[:-1])
        if empty or got[0] != "ok":
            assert got[0] == "raises" and (empty or fault or wrong), story
            h.calls, h.stop_at, h.bad = [], None, set()
            got = outcome(s.build)
            assert (got[0] == "ok") == (not empty), story
            assert set(h.calls) <= set(steps) - recorded, story
            ever |= set(h.calls)
            recorded |= set(h.calls)
            if empty:
                continue
        elif what in ("lost", "fresh"):
            lost = {c for c in steps if c in paths and any(p is None or p not in there for p in paths[c])}
            assert lost <= set(h.calls) and not (set(steps) & set(paths)) - lost & set(h.calls), story
        if not unsure:
            assert set(steps) <= ever, story
        for label, kind, args, names, _ in nodes:
            for n, j in names:
                a = s.graph.artifacts[n]
                if values[n] == {}:
                    assert outcome(s.read, a, annotation=list)[0] == "raises", story
                    continue
                v = s.read(a, annotation={dict: list, list: list[int]}.get(type(values[n]), int))
                assert (sorted((r["k"], r["v"]) for r in v) if isinstance(values[n], dict) else v) == rows_of(values[n]), (n, v, story)
        with s.backend.connect() as c:
            for call, (label, k, _) in steps.items():
                outs = {s.graph.artifacts[n] for lab, _, _, names, _ in nodes if lab == label for n, _ in names}
                paths[call] = []
                for a in outs:
                    found = [p for p in c.read_snapshot_partitions(s, s.graph.artifact_to_key[a], a) if k is None or p.partition_key["k"].value == k]
                    assert len(found) == 1, story
                    paths[call].append(getattr(found[0].storage_partition, "path", None))
        h.calls = []
        s.build()
        graph_of(nodes, tmp, h, backend).snapshot().build()
        assert not h.calls, story
    return str((nodes, events))
