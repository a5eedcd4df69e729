"""C11: input fingerprints identify a producer's code version and its inputs' contents."""

from typing import Annotated

from arti import Artifact, Fingerprint, PartitionKey, Producer, StoragePartitionSnapshot
from arti.formats.json import JSON
from arti.internal.mappings import frozendict
from arti.partitions import Int64Field, NotPartitioned
from arti.producers import PartitionDependencies
from arti.storage import StoragePartitions, StoragePartitionSnapshots
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile, LocalFilePartition
from arti.types import Collection, Int64, Struct
from arti.versions import GitCommit, SemVer, String, Timestamp, Version
from arti.views import View

from pyvc.core import *
from pyvc.spec import *
from pyvc.values import Native

__lemmas__ = True

Str, FP = KStr(), KInt(Fingerprint)
Part = KObj(StoragePartitionSnapshot, True)
Inputs = KDict(Str, KSeq(Part), frozendict)
Deps = KDict(KObj(PartitionKey), Inputs, frozendict)


class Num(Artifact):
    type: Int64 = Int64()


class Nums(Artifact):
    type: Collection = Collection(element=Struct(fields={"i": Int64()}), partition_by=("i",))


class Two(Producer):
    """Any producer: what it needs and how it maps is replaced by arbitrary values symbolically."""

    a: Num
    b: Num

    @staticmethod
    def build(a: int, b: int) -> Annotated[int, Num]:
        return a + b


class Picky(Producer):
    """The mapping step asks for other inputs than the build step."""

    a: Num
    b: Num
    c: Num

    @staticmethod
    def build(a: int, b: int) -> Annotated[int, Num]:
        return a + b

    @staticmethod
    def map(a: StoragePartitions, c: StoragePartitions) -> PartitionDependencies:
        return PLAN[0](a=a, c=c)


PLAN = [None]


def producer(e, n):
    f = {
        "version": SObj(z3.Const(n + ".version", Ref), Version),
        "_arti_type_key_": e.fresh_val(Str, n + ".key"),
        "_build_inputs_": e.fresh_val(KDict(Str, KObj(View), frozendict), n + ".build_inputs"),
        "_map_inputs_": e.fresh_val(KSet(Str, set), n + ".map_inputs"),
        "map": Native(mapping, "map"),
    }
    return Inst(Two, f)


MapArgs = KDict(Str, KSeq(Part))


def mapping(e2, args, kw):
    """The mapping step: some dependencies, determined by the keyword arguments."""
    if args:
        e2.raise_(TypeError, "map() takes keyword arguments")
    e2.set(e2, ("ghost", "map calls"), e2.ghost.get("map calls", 0) + 1)
    d = kw.pop("**", None)
    if d is None:
        d = CDict(kw)
    elif kw:
        raise Unsupported("mixed symbolic and explicit keywords")
    ts = e2.unwrap(MapArgs, d)
    return e2.wrap(Deps, [ufun(f"mapped{i}", *[t.sort() for t in ts[:2]], s)(*ts[:2]) for i, s in enumerate(Deps.sorts)])


def code(e):
    e.used_contracts.add("Producer.map: some dependencies, determined by its keyword arguments")
    e.attr_specs[(Version, "fingerprint")] = lambda e2, v: e2.wrap(FP, [ufun("fingerprint", Ref, z3.IntSort())(v.t)])
    e.attr_specs[(StoragePartitionSnapshot, "content_fingerprint")] = lambda e2, v: e2.wrap(FP, [ufun("content_fingerprint", Ref, z3.IntSort())(v.t)])


# ------------------------------------------------------------------------------------- native values


def part(rng, where=None, content=None):
    """A partition snapshot: any place, any key, any recorded content."""
    where = where or rng.choice("abc")
    content = Fingerprint(rng.choice([0, 1, 2, 3, -5, 2**62, rng.randint(-(2**63), 2**63 - 1)])) if content is None else content
    key = rng.choice([PartitionKey(), PartitionKey(i=Int64Field(value=rng.randint(0, 2)))])
    fp = rng.choice([None, Fingerprint(4)])
    if rng.random() < 0.5:
        p = StringLiteralPartition(id=where, storage=StringLiteral(id=where), partition_key=key, input_fingerprint=fp)
    else:
        p = LocalFilePartition(path=where, storage=LocalFile(path=where), partition_key=key, input_fingerprint=fp)
    return StoragePartitionSnapshot(storage_partition=p, content_fingerprint=content)


def parts(rng):
    return tuple(part(rng) for _ in range(rng.choice([0, 1, 1, 2, 4])))


def number(name="n"):
    return Num(format=JSON(), storage=StringLiteral(id=name, value="1"))


VERSIONS = [SemVer(major=0, minor=0, patch=1), SemVer(major=0, minor=0, patch=2), SemVer(major=1, minor=0, patch=0), String(value="0.0.1"), String(value=""), GitCommit(sha="0" * 40)]


def a_producer(rng, cls=None):
    cls = cls or rng.choice([Two, Picky])
    return cls(**{n: number(n) for n in ("a", "b", "c") if n in cls.model_fields}, version=rng.choice(VERSIONS))


def deps_for(rng):
    names = rng.choice([["a", "b"]] * 6 + [["b", "a"], ["a"], ["a", "b", "c"], [], ["a", "x"]])
    return frozendict({n: parts(rng) for n in names})


def gen_one(rng):
    return dict(p=a_producer(rng), deps=deps_for(rng))


def gen_all(rng):
    p = a_producer(rng)
    fixed = frozendict({k: deps_for(rng) for k in {NotPartitioned, *[PartitionKey(i=Int64Field(value=i)) for i in range(rng.randint(0, 3))]}})
    PLAN[0] = lambda **kw: fixed if rng_bit else frozendict({NotPartitioned: frozendict(a=kw["a"], b=kw["c"])})
    rng_bit = rng.random() < 0.7
    return dict(p=p, inputs=frozendict({n: parts(rng) for n in p.inputs}))


def gen_key(rng):
    out = gen_all(rng)
    return {**out, "k": rng.choice([NotPartitioned, PartitionKey(i=Int64Field(value=rng.randint(0, 3)))])}


def expected(p, deps):
    """The contents in any order: combining is commutative and associative (C02)."""
    return Fingerprint.from_string(p._arti_type_key_).combine(p.version.fingerprint, *(s.content_fingerprint for parts in deps.values() for s in parts))


@lemma("C11", params=dict(p=producer, deps=Inputs), setup=code, gen=gen_one)
def kind_version_and_every_content(p, deps):
    assume(set(deps) == set(p._build_inputs_))
    got = p.compute_input_fingerprint(deps)
    assert type(got) is Fingerprint
    assert got == expected(p, deps)


@lemma("C11", params=dict(p=producer, deps=Inputs), setup=code, gen=gen_one)
def other_inputs_are_rejected(p, deps):
    got = outcome(p.compute_input_fingerprint, deps)
    assert (got[0] == "ok") == (set(deps) == set(p._build_inputs_))
    if got[0] == "raises":
        assert raises(ValueError, p.compute_input_fingerprint, deps)


def fingerprinting(e):
    """compute_input_fingerprint by its contract (the lemmas above)."""
    e.used_contracts.add("Producer.compute_input_fingerprint by its contract: a function of the producer and the dependencies, rejecting other inputs (proved: kind_version_and_every_content, other_inputs_are_rejected)")

    def contract(e2, args, kw):
        p, deps = args[0], kw.get("dependency_partitions", args[1] if len(args) > 1 else None)
        ts = e2.unwrap(Inputs, deps)
        if not e2.branch(ts[0] == e2.unwrap(Inputs.__class__(Str, KObj(View), frozendict), e2.res(p).f["_build_inputs_"])[0]):
            e2.raise_(ValueError, "Mismatched dependency inputs")
        return e2.wrap(FP, [ufun("input_fingerprint", *[t.sort() for t in ts], z3.IntSort())(*ts)])

    e.contracts[Producer.compute_input_fingerprint] = contract


def seen(p, inputs):
    """What the mapping step may see: the inputs it asked for."""
    return {name: parts for name, parts in inputs.items() if name in p._map_inputs_}


@lemma("C11", params=dict(p=producer, inputs=Inputs), setup=code, gen=gen_all, modular=fingerprinting)
def the_mapping_step_sees_what_it_asked_for(p, inputs):
    got = outcome(p.compute_dependencies, inputs)
    if got[0] == "ok":
        assert got[1][0] == p.map(**seen(p, inputs))


@lemma("C11", params=dict(p=producer, inputs=Inputs, k=KObj(PartitionKey)), setup=code, gen=gen_key, modular=fingerprinting)
def each_announced_partition_gets_one_fingerprint(p, inputs, k):
    got = outcome(p.compute_dependencies, inputs)
    if got[0] == "ok":
        dependencies, fingerprints = got[1]
        assert (k in fingerprints) == (k in dependencies)
        if k in dependencies:
            assert fingerprints[k] == p.compute_input_fingerprint(dependencies[k])


@lemma("C11", params=dict(p=producer, inputs=Inputs), setup=code, gen=gen_all, modular=fingerprinting)
def the_announced_partitions_are_listed_once(p, inputs):
    got = outcome(p.compute_dependencies, inputs)
    if got[0] == "ok":
        assert tuple(got[1][1]) == tuple(got[1][0])


@lemma("C11", params=dict(p=producer, inputs=Inputs, k=KObj(PartitionKey)), setup=code, gen=gen_key, modular=fingerprinting)
def a_mapping_to_other_inputs_is_rejected(p, inputs, k):
    deps = p.map(**seen(p, inputs))
    assume(k in deps)
    if set(deps[k]) != set(p._build_inputs_):
        assert raises(ValueError, p.compute_dependencies, inputs)


# ------------------------------------------------------------------------ what changes it (bounded)


def odd(deps):
    """The contents that do not cancel each other out (see the known findings)."""
    out = set()
    for snapshots in deps.values():
        for s in snapshots:
            if s.content_fingerprint != 0:
                out ^= {int(s.content_fingerprint)}
    return out


class Renamed(Two):
    pass


@scenario("C11", runs=300, bound="2 producers, 6 versions, up to 4 partitions per input in 2 storages with contents from a small set; changes of the version, the kind, one content, the places, the order, the number of partitions")
def what_changes_the_fingerprint(rng, tmp):
    p = a_producer(rng, Two)
    deps = {"a": parts(rng), "b": parts(rng)}
    base = p.compute_input_fingerprint(frozendict(deps))
    what = f"{p.version!r} {[[int(s.content_fingerprint) for s in x] for x in deps.values()]}"
    assert p.compute_input_fingerprint(frozendict(deps)) == base, what
    # places and order do not matter
    moved = {n: [part(rng, content=s.content_fingerprint) for s in x] for n, x in rng.sample(sorted(deps.items()), 2)}
    for x in moved.values():
        rng.shuffle(x)
    moved = frozendict({n: tuple(x) for n, x in moved.items()})
    assert p.compute_input_fingerprint(moved) == base, f"{what}: moving the partitions changed it"
    other = Two(a=number("elsewhere"), b=number("n"), version=p.version, annotations=p.annotations)
    assert other.compute_input_fingerprint(moved) == base, f"{what}: other artifacts changed it"
    # versions, kinds and contents do
    for v in VERSIONS:
        got = Two(a=p.a, b=p.b, version=v).compute_input_fingerprint(moved)
        assert (got == base) == (v == p.version), f"{what}: version {v!r}"
    assert Renamed(a=p.a, b=p.b, version=p.version).compute_input_fingerprint(moved) != base, f"{what}: another producer"
    changed = dict(deps)
    n = rng.choice(["a", "b"])
    x = list(changed[n])
    r = rng.random()
    if x and r < 0.5:
        x[rng.randrange(len(x))] = part(rng)
    elif x and r < 0.7:
        del x[rng.randrange(len(x))]
    else:
        x.insert(rng.randint(0, len(x)), part(rng))
    changed[n] = tuple(x)
    got = p.compute_input_fingerprint(frozendict(changed))
    assert (got == base) == (odd(changed) == odd(deps)), f"{what}: contents {[[int(s.content_fingerprint) for s in x] for x in changed.values()]}"
    return what


class PerKey(Producer):
    nums: Nums
    n: Num

    @staticmethod
    def build(nums: list[dict], n: int) -> Annotated[list[dict], Nums]:
        return nums

    @staticmethod
    def map(nums: StoragePartitions, n: StoragePartitions) -> PartitionDependencies:
        return PartitionDependencies({k: frozendict(nums=tuple(s for s in nums if s.partition_key == k), n=n) for k in {s.partition_key for s in nums}})


@scenario("C11", runs=150, bound="partitioned inputs with up to 6 partitions over 3 keys; one content changed")
def partitions_depend_on_their_own_inputs(rng, tmp):
    p = PerKey(nums=Nums(format=JSON(), storage=LocalFile(path=tmp + "/{i.key}")), n=number())
    nums = tuple(part(rng) for _ in range(rng.randint(1, 6)))
    n = (part(rng),)
    deps, fps = p.compute_dependencies(frozendict(nums=nums, n=n))
    keys = {s.partition_key for s in nums}
    assert set(deps) == set(fps) == keys, (keys, set(fps))
    for k in keys:
        assert set(deps[k]["nums"]) == {s for s in nums if s.partition_key == k} and deps[k]["n"] == n
        assert fps[k] == p.compute_input_fingerprint(deps[k])
    i = rng.randrange(len(nums))
    old = nums[i]
    new = StoragePartitionSnapshot(storage_partition=old.storage_partition, content_fingerprint=Fingerprint(12345))
    changed = p.compute_dependencies(frozendict(nums=(*nums[:i], new, *nums[i + 1 :]), n=n))[1]
    for k in keys:
        assert (changed[k] == fps[k]) == (k != old.partition_key or old.content_fingerprint == 12345), f"{k} after a change in {old.partition_key}"
    changed = p.compute_dependencies(frozendict(nums=nums, n=(StoragePartitionSnapshot(storage_partition=n[0].storage_partition, content_fingerprint=Fingerprint(12345)),)))[1]
    assert all(changed[k] != fps[k] for k in keys) or n[0].content_fingerprint == 12345
    return f"{len(nums)} partitions over {len(keys)} keys"


@known("C11", "the fingerprints of the inputs' contents are combined by exclusive or, so equal contents cancel each other out")
def equal_contents_cancel_out():
    import random

    p = Two(a=number("a"), b=number("b"))
    one, two = part(random.Random(1), content=Fingerprint(11)), part(random.Random(2), content=Fingerprint(12))
    if p.compute_input_fingerprint(frozendict(a=(one,), b=(one,))) == p.compute_input_fingerprint(frozendict(a=(two,), b=(two,))):
        return "inputs a and b with the equal contents 11, 11 and then 12, 12"


@known("C11", "the contents are combined without the names of the inputs they belong to, so exchanging the contents of two inputs changes nothing")
def exchanged_contents_are_not_noticed():
    import random

    p = Two(a=number("a"), b=number("b"))
    one, two = part(random.Random(1), content=Fingerprint(11)), part(random.Random(2), content=Fingerprint(12))
    if p.compute_input_fingerprint(frozendict(a=(one,), b=(two,))) == p.compute_input_fingerprint(frozendict(a=(two,), b=(one,))):
        return "inputs a and b with the contents 11, 12 and then 12, 11"
