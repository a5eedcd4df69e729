"""C10: the metadata backend returns what was recorded, for exactly that subject.

The lemmas run the real MemoryConnection on an arbitrary container: any storages, snapshots, names and
tags, each with any recorded partitions.  Each operation is compared with what every read returned
before it; the whole history follows by induction.
"""

from arti import Artifact, Graph, GraphSnapshot
from arti.backends.memory import MemoryBackend, MemoryConnection
from arti.fingerprints import Fingerprint
from arti.internal.mappings import frozendict
from arti.partitions import Int64Field, PartitionKey
from arti.storage import Storage, StoragePartitionSnapshot
from arti.storage.literal import StringLiteral, StringLiteralPartition
from pyvc.core import *
from pyvc.spec import *

__lemmas__ = True

Str, FP = KStr(), KInt(Fingerprint)
Snap, Part, Stor = KObj(GraphSnapshot, True), KObj(StoragePartitionSnapshot, True), KObj(Storage)
Parts = KSeq(Part)
Fps = KDict(KObj(PartitionKey), KAlt([KConst(None), FP]), frozendict)


def artifact(e, n):
    return SObj(z3.Const(n, Ref), Artifact, True)


def graph(e, n):
    return SObj(z3.Const(n, Ref), Graph, True)


def snapshot(e, n):
    return SObj(z3.Const(n, Ref), GraphSnapshot, True)


NESTED = {
    "graphs": KDict(Str, KDict(FP, KObj(Graph, True))),
    "snapshots": KDict(Str, KDict(FP, Snap)),
    "snapshot_tags": KDict(Str, KDict(Str, Snap)),
    "snapshot_partitions": KDict(Snap, KDict(Str, KSet(Part, set))),
    "storage_partitions": KDict(Stor, KSet(Part, set)),
}


def connection(e, n):
    from arti.backends import memory

    c = e.call(memory._NoCopyContainer, [], {})
    for name, kind in NESTED.items():
        e.set_content(c.f[name], e.fresh_val(kind, f"{n}.{name}"))
    return e.call(MemoryConnection, [c], {})


def code(e):
    e.used_contracts.add("Storage.discover_partitions: some partitions, determined by the storage and the requested input fingerprints while nothing is written (C08)")

    def discover(e2, args, kw):
        fps = kw.get("input_fingerprints", args[1] if len(args) > 1 else frozendict())
        t = ufun("discover", Ref, e2.ref(fps).sort(), seq_sort(Part))(e2.ref(args[0]), e2.ref(fps))
        return e2.seq_of_term(t, Part, tuple)

    e.contracts[Storage.discover_partitions] = discover
    e.attr_specs[(StoragePartitionSnapshot, "partition_key")] = lambda e2, v: SObj(e2.uf_ref("partition_key", v), PartitionKey)
    e.attr_specs[(StoragePartitionSnapshot, "input_fingerprint")] = lambda e2, v: e2.wrap(KAlt([KConst(None), FP]), [ufun("ifp.tag", Ref, z3.IntSort())(v.t), ufun("ifp", Ref, z3.IntSort())(v.t)])
    for cls in (Graph, GraphSnapshot):
        e.attr_specs[(cls, "fingerprint")] = lambda e2, v: e2.wrap(FP, [ufun("fingerprint", Ref, z3.IntSort())(v.t)])
    e.attr_specs[(Artifact, "storage")] = lambda e2, v: SObj(e2.uf_ref("storage", v), Storage)



# ------------------------------------------------------------------------------------- native values


def storages():
    return [StringLiteral(id="a"), StringLiteral(id="b"), StringLiteral(id="a", value="v"), StringLiteral(id="c", value="")]


def artifacts():
    from arti.formats.json import JSON
    from arti.types import Int64

    return [Artifact(type=Int64(), format=JSON(), storage=s) for s in storages()]


def partitions(arts):
    out = []
    for a in arts:
        for v, f, k in (("1", None, PartitionKey()), ("2", None, PartitionKey()), ("1", Fingerprint(1), PartitionKey()), ("1", Fingerprint(2), PartitionKey(i=Int64Field(value=2))), ("1", Fingerprint(1), PartitionKey(i=Int64Field(value=2)))):
            out.append(StringLiteralPartition(id=a.storage.id, value=v, storage=a.storage, input_fingerprint=f, partition_key=k).snapshot())
    # the same partitions with other content (eg: files rewritten in place)
    return out + [StoragePartitionSnapshot(storage_partition=p.storage_partition, content_fingerprint=Fingerprint(7)) for p in out[::2]]


def graphs():
    return [Graph(name="g"), Graph(name="h"), Graph(name="G"), Graph(name="g", path_tags={"x": "y"})]


def snapshots():
    return [GraphSnapshot(graph=g, id=Fingerprint(i)) for g in graphs() for i in (1, 2)]


NAMES = ["a", "A", "b", "a.b", "a_b", " a"]
TAGS = ["t", "T", "u", "", "t.1"]


def gen(*names):
    def g(rng):
        arts = artifacts()
        parts, snaps, gs = partitions(arts), snapshots(), graphs()
        some = lambda: tuple(rng.choice(parts) for _ in range(rng.randint(0, 3)))
        with MemoryBackend().connect() as conn:
            for _ in range(rng.randint(0, 6)):
                r = rng.randrange(6)
                if r == 0:
                    conn.write_artifact_partitions(rng.choice(arts), some())
                elif r == 1:
                    conn.write_snapshot_partitions(rng.choice(snaps), rng.choice(NAMES), rng.choice(arts), some())
                elif r == 2:
                    conn.write_graph(rng.choice(gs))
                elif r == 3:
                    conn.write_snapshot(rng.choice(snaps))
                elif r == 4:
                    conn.write_snapshot_tag(rng.choice(snaps), rng.choice(TAGS), overwrite=True)
                else:
                    conn.read_artifact_partitions(rng.choice(arts))
        arts2, snaps2, gs2 = artifacts(), snapshots(), graphs()
        make = {"conn": lambda: conn, "ps": some, "name": lambda: rng.choice(NAMES), "tag": lambda: rng.choice(TAGS), "overwrite": lambda: rng.random() < 0.5,
                "fp": lambda: rng.choice([Fingerprint(1), rng.choice(gs).fingerprint, rng.choice(snaps).fingerprint]),
                "fps": lambda: frozendict({p.partition_key: rng.choice([p.input_fingerprint, Fingerprint(9), None]) for p in some()}), "i": lambda: rng.randint(0, 3), "j": lambda: rng.randint(0, 3)}
        out = {}
        for n in names:
            key = n.rstrip("2")
            if key in make:
                out[n] = make[key]()
            else:
                out[n] = rng.choice({"a": arts2, "b": arts2, "s": snaps2, "r": snaps2, "g": gs2}[key])
        return out

    return g


KINDS = {"conn": connection, "a": artifact, "b": artifact, "s": snapshot, "r": snapshot, "g": graph, "ps": Parts, "name": Str, "tag": Str, "overwrite": KBool(), "fp": FP, "fps": Fps, "i": KInt(), "j": KInt()}


def L(*names, **kw):
    return lemma("C10", params={n: KINDS[n.rstrip("2")] for n in names}, setup=code, gen=gen(*names), **kw)


def looked_up(f, *args):
    """What is found, or None when nothing is recorded."""
    got = outcome(f, *args)
    return got[1] if got[0] == "ok" else None


# ------------------------------------------------------------------------------- artifact partitions


@L("conn", "a", "ps")
def partitions_accumulate(conn, a, ps):
    before = set(conn.read_artifact_partitions(a))
    conn.write_artifact_partitions(a, ps)
    assert set(conn.read_artifact_partitions(a)) == before | set(ps)


@L("conn", "a", "ps", "i", "j")
def partitions_are_not_duplicated(conn, a, ps, i, j):
    conn.write_artifact_partitions(a, ps)
    got = conn.read_artifact_partitions(a)
    assume(0 <= i < j < len(got))
    assert got[i] != got[j]


@L("conn", "a", "ps")
def written_partitions_are_recorded(conn, a, ps):
    conn.write_artifact_partitions(a, ps)
    got = conn.read_artifact_partitions(a)
    assert all(p in got for p in ps)


@L("conn", "a", "b", "ps", "s", "name")
def artifact_writes_touch_one_storage(conn, a, b, ps, s, name):
    assume(a.storage != b.storage)
    before, linked = set(conn.read_artifact_partitions(b)), set(conn.read_snapshot_partitions(s, name, b))
    conn.write_artifact_partitions(a, ps)
    assert set(conn.read_artifact_partitions(b)) == before
    assert set(conn.read_snapshot_partitions(s, name, b)) == linked


@L("conn", "a", "fps")
def requested_fingerprints_filter(conn, a, fps):
    known = set(conn.read_artifact_partitions(a))
    got = set(conn.read_artifact_partitions(a, fps))
    if fps:
        assert got == {p for p in known if fps.get(p.partition_key) == p.input_fingerprint}
    else:
        assert got == known
    assert set(conn.read_artifact_partitions(a)) == known


@L("conn", "a", "b")
def reading_records_nothing_else(conn, a, b):
    first = set(conn.read_artifact_partitions(a))
    conn.read_artifact_partitions(b)
    assert set(conn.read_artifact_partitions(a)) == first


# ------------------------------------------------------------------------------- snapshot partitions


@L("conn", "s", "name", "a", "ps")
def linked_partitions_accumulate(conn, s, name, a, ps):
    before = set(conn.read_snapshot_partitions(s, name, a))
    conn.write_snapshot_partitions(s, name, a, ps)
    assert set(conn.read_snapshot_partitions(s, name, a)) == before | set(ps)


@L("conn", "s", "r", "name", "name2", "a", "ps")
def linking_touches_one_name_of_one_snapshot(conn, s, r, name, name2, a, ps):
    assume(s != r or name != name2)
    stored = set(conn.read_artifact_partitions(a))
    before = set(conn.read_snapshot_partitions(r, name2, a))
    conn.write_snapshot_partitions(s, name, a, ps)
    assert set(conn.read_snapshot_partitions(r, name2, a)) == before
    assert set(conn.read_artifact_partitions(a)) == stored


@L("conn", "s", "name", "a", "ps")
def writing_and_linking_does_both(conn, s, name, a, ps):
    stored, linked = set(conn.read_artifact_partitions(a)), set(conn.read_snapshot_partitions(s, name, a))
    conn.write_artifact_and_graph_partitions(s, name, a, ps)
    assert set(conn.read_artifact_partitions(a)) == stored | set(ps)
    assert set(conn.read_snapshot_partitions(s, name, a)) == linked | set(ps)


# ------------------------------------------------------------------------------- graphs and snapshots


@L("conn", "g", "name", "fp")
def graphs_are_found_under_their_name_and_fingerprint(conn, g, name, fp):
    before = looked_up(conn.read_graph, name, fp)
    conn.write_graph(g)
    assert conn.read_graph(g.name, g.fingerprint) == g
    if not (name == g.name and fp == g.fingerprint):
        assert looked_up(conn.read_graph, name, fp) == before


@L("conn", "s", "name", "fp")
def snapshots_are_found_under_their_name_and_fingerprint(conn, s, name, fp):
    before = looked_up(conn.read_snapshot, name, fp)
    conn.write_snapshot(s)
    assert conn.read_snapshot(s.name, s.fingerprint) == s
    if not (name == s.name and fp == s.fingerprint):
        assert looked_up(conn.read_snapshot, name, fp) == before


@L("conn", "g", "s", "name", "fp", "tag")
def graphs_and_snapshots_are_kept_apart(conn, g, s, name, fp, tag):
    found = looked_up(conn.read_snapshot, name, fp), looked_up(conn.read_snapshot_tag, name, tag)
    conn.write_graph(g)
    assert (looked_up(conn.read_snapshot, name, fp), looked_up(conn.read_snapshot_tag, name, tag)) == found
    kept = looked_up(conn.read_graph, name, fp)
    conn.write_snapshot(s)
    assert looked_up(conn.read_graph, name, fp) == kept and looked_up(conn.read_snapshot_tag, name, tag) == found[1]


# ---------------------------------------------------------------------------------------------- tags


@L("conn", "s", "tag", "overwrite", "name", "tag2")
def tags_are_never_redirected_unasked(conn, s, tag, overwrite, name, tag2):
    existing = looked_up(conn.read_snapshot_tag, s.name, tag)
    other = looked_up(conn.read_snapshot_tag, name, tag2)
    got = outcome(conn.write_snapshot_tag, s, tag, overwrite)
    if existing is not None and not overwrite:
        assert got[0] == "raises"
        assert conn.read_snapshot_tag(s.name, tag) == existing
    else:
        assert got[0] == "ok"
        assert conn.read_snapshot_tag(s.name, tag) == s
    if not (name == s.name and tag2 == tag):
        assert looked_up(conn.read_snapshot_tag, name, tag2) == other


@L("conn", "name", "tag")
def an_unknown_tag_is_an_error(conn, name, tag):
    first = looked_up(conn.read_snapshot_tag, name, tag)
    if first is None:
        assert raises(ValueError, conn.read_snapshot_tag, name, tag)
    assert looked_up(conn.read_snapshot_tag, name, tag) == first


@L("conn", "s", "tag", "overwrite")
def snapshots_tag_themselves(conn, s, tag, overwrite):
    from_tag = lambda: GraphSnapshot.from_tag(s.name, tag, connectable=conn)
    existing = looked_up(from_tag)
    assert existing == looked_up(conn.read_snapshot_tag, s.name, tag)
    got = outcome(s.tag, tag, overwrite=overwrite, connection=conn)
    now = from_tag()
    assert got[0] == ("raises" if existing is not None and not overwrite else "ok")
    assert now == (existing if existing is not None and not overwrite else s)
    assert conn.read_snapshot_tag(s.name, tag) == now


@L("conn", "s", "tag")
def tagging_does_not_overwrite_by_default(conn, s, tag):
    existing = looked_up(conn.read_snapshot_tag, s.name, tag)
    got = outcome(s.tag, tag, connection=conn)
    assert got[0] == ("raises" if existing is not None else "ok")
    assert conn.read_snapshot_tag(s.name, tag) == (existing if existing is not None else s)


# ------------------------------------------------------------------------------------- two backends


def fresh_connection():
    with MemoryBackend().connect() as conn:
        return conn


def fresh(e2):
    from arti.backends import memory

    c = e2.call(memory._NoCopyContainer, [], {})
    for n, k in NESTED.items():
        cell = c.f[n]
        e2.set_content(cell, e2.as_sdict(e2.content(cell), k.kk, k.vk))  # same (empty) content, kinds known
    return e2.call(memory.MemoryConnection, [c], {})


def new_backends(e):
    code(e)
    e.used_contracts.add("pydantic: a private attribute's default factory is called once per constructed model")
    e.contracts[fresh_connection] = lambda e2, args, kw: fresh(e2)


def two_backends(*names, **kw):
    return lemma("C10", params={n: KINDS[n] for n in names}, setup=new_backends, gen=gen(*names), **kw)


@two_backends("a", "b", "s", "g", "ps", "name", "tag", "fp")
def two_backends_share_nothing(a, b, s, g, ps, name, tag, fp):
    one, two = fresh_connection(), fresh_connection()
    one.write_artifact_and_graph_partitions(s, name, a, ps)
    one.write_graph(g)
    one.write_snapshot(s)
    one.write_snapshot_tag(s, tag)
    unwritten = fresh_connection()
    assert set(two.read_artifact_partitions(b)) == set(unwritten.read_artifact_partitions(b))
    assert two.read_snapshot_partitions(s, name, b) == ()
    assert raises(KeyError, two.read_graph, g.name, fp)
    assert raises(KeyError, two.read_snapshot, s.name, fp)
    assert raises(ValueError, two.read_snapshot_tag, s.name, tag)


# ----------------------------------------------------------------------------- histories (bounded)


class Model:
    def __init__(self):
        self.stored, self.linked, self.graphs, self.snapshots, self.tags = {}, {}, {}, {}, {}


@scenario("C10", runs=200, bound="up to 60 operations on 2 backends with 4 storages, 32 partitions, 4 graphs, 8 snapshots, 6 names, 5 tags; each read compared with a reference, through fresh equal objects and connections")
def histories(rng, tmp):
    backends = [(MemoryBackend(), Model()), (MemoryBackend(), Model())]
    log = []
    for _ in range(rng.randint(1, 60)):
        k = rng.randrange(2)
        backend, m = backends[k]
        if rng.random() < 0.1:
            backend = backend.model_copy() if rng.random() < 0.5 else backend.model_copy(deep=True)
        arts, snaps, gs = artifacts(), snapshots(), graphs()
        parts = partitions(arts)
        a, s, g, name, tag = rng.choice(arts), rng.choice(snaps), rng.choice(gs), rng.choice(NAMES), rng.choice(TAGS)
        some = tuple(rng.choice(parts) for _ in range(rng.randint(0, 3)))
        op = rng.randrange(12)
        log.append((k, op, a.storage.id, a.storage.value, name, tag, len(some)))
        found = a.storage.discover_partitions()
        with backend.connect() as conn:
            if op == 0:
                conn.write_artifact_partitions(a, some)
                m.stored.setdefault(a.storage, set()).update(some)
            elif op == 1:
                conn.write_snapshot_partitions(s, name, a, some)
                m.linked.setdefault((s, name), set()).update(some)
            elif op == 2:
                conn.write_artifact_and_graph_partitions(s, name, a, some)
                m.stored.setdefault(a.storage, set()).update(some)
                m.linked.setdefault((s, name), set()).update(some)
            elif op == 3:
                conn.write_graph(g)
                m.graphs[g.name, g.fingerprint] = g
            elif op == 4:
                conn.write_snapshot(s)
                m.snapshots[s.name, s.fingerprint] = s
            elif op in (5, 6):
                overwrite = rng.choice([None, False, True])
                kw = {} if overwrite is None else {"overwrite": overwrite}
                got = outcome(s.tag, tag, connection=conn, **kw) if op == 5 else outcome(conn.write_snapshot_tag, s, tag, **kw)
                if (s.name, tag) in m.tags and not overwrite:
                    assert got[0] == "raises", f"{log}: the existing tag was redirected"
                else:
                    assert got[0] == "ok", f"{log}: tagging failed"
                    m.tags[s.name, tag] = s
        with backend.connect() as conn:
            if op == 7:
                fps = frozendict({p.partition_key: rng.choice([p.input_fingerprint, Fingerprint(9), None]) for p in some})
                if a.storage not in m.stored:
                    expected = outcome(a.storage.discover_partitions, fps)
                    got = outcome(conn.read_artifact_partitions, a, fps)
                    assert got[0] == expected[0], log
                    if got[0] == "raises":
                        continue
                    m.stored[a.storage] = set(expected[1])
                got = conn.read_artifact_partitions(a, fps)
                expected = {p for p in m.stored[a.storage] if not fps or fps.get(p.partition_key) == p.input_fingerprint}
                assert len(got) == len(expected) and set(got) == expected, f"{log}: read {got}, expected {expected}"
            else:
                got = conn.read_artifact_partitions(a)
                expected = m.stored.setdefault(a.storage, set(found))
                assert len(got) == len(expected) and set(got) == expected, f"{log}: read {got}, expected {expected}"
            got, expected = conn.read_snapshot_partitions(s, name, a), m.linked.get((s, name), set())
            assert len(got) == len(expected) and set(got) == expected, f"{log}: linked {got}, expected {expected}"
            for n in ("g", "h", "G", "other"):
                for fp in {s.fingerprint, g.fingerprint}:
                    assert looked_up(conn.read_graph, n, fp) == m.graphs.get((n, fp)), f"{log}: graph {n} {fp}"
                    assert looked_up(conn.read_snapshot, n, fp) == m.snapshots.get((n, fp)), f"{log}: snapshot {n} {fp}"
                if (n, tag) in m.tags:
                    assert conn.read_snapshot_tag(n, tag) == m.tags[n, tag] == GraphSnapshot.from_tag(n, tag, connectable=backend), log
                else:
                    assert raises(ValueError, conn.read_snapshot_tag, n, tag), f"{log}: unknown tag {tag} of {n}"
                    assert outcome(lambda: GraphSnapshot.from_tag(n, tag, connectable=conn))[0] == "raises", log
    return f"{len(log)} operations"
