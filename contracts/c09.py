"""C09: content fingerprints depend on the stored bytes only, and on all of them."""

import hashlib
import os
import pathlib

import gcsfs
from arti.fingerprints import Fingerprint
from arti.internal.mappings import frozendict
from arti.partitions import Int64Field, PartitionKey
from arti.storage import StoragePartition, StoragePartitionSnapshot
from arti.storage.google.cloud.storage import GCSFile, GCSFilePartition
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile, LocalFilePartition
from contracts import c08
from contracts.c08 import scratch
from pyvc.core import *
from pyvc.models import str_t
from pyvc.spec import *
from pyvc.values import Native

__lemmas__ = True

Str, FP = KStr(), KInt(Fingerprint)

# ---------------------------------------------------------------------------------------- local files


class File:
    """A file opened for reading bytes."""

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def read(self, n=-1):
        raise NotImplementedError

    def close(self):
        return None

    def tell(self):
        raise NotImplementedError

    def seek(self, offset, whence=0):
        raise NotImplementedError


class Digest:
    """A hash being computed."""

    def update(self, data):
        raise NotImplementedError

    def hexdigest(self):
        raise NotImplementedError


def content(path):
    return pathlib.Path(path).read_bytes()


def reading(engine):
    """Byte strings are modelled as texts: only their concatenation, length and emptiness matter."""
    e = engine
    e.used_contracts.add("open(path, 'rb').read(n): the next bytes, at most n of them, none exactly at the end; everything left without n (or n < 0)")
    e.used_contracts.add("hashlib: the digest is a function of the concatenation of the updates")
    of = ufun("content", z3.StringSort(), z3.StringSort())

    def open_(e2, args, kw):
        mode = e2.res(kw["mode"]) if "mode" in kw else e2.res(args[1]) if len(args) > 1 else "r"
        if mode != "rb" or set(kw) - {"mode", "buffering"}:
            raise Unsupported("opening a file in another way")
        if e2.ghost.get("pos") is not None:
            raise Unsupported("two open files")
        e2.set(e2, ("ghost", "pos"), SInt(z3.IntVal(0)))
        return Inst(File, {"c": SStr(of(str_t(e2, args[0])))})

    def read(e2, args, kw):
        c, pos = e2.res(args[0]).f["c"].t, e2.ghost["pos"].t
        left = z3.Length(c) - pos
        n = kw.get("n", kw.get("size", args[1] if len(args) > 1 else None))
        n = z3.IntVal(-1) if n is None else e2.int_term(e2.res(n))
        k = e2.fresh(z3.IntSort(), "chunk")
        e2.fact(z3.If(n < 0, k == left, z3.And(0 <= k, k <= n, k <= left, z3.Implies(z3.And(n > 0, left > 0), k > 0))))
        e2.set(e2, ("ghost", "pos"), SInt(pos + k))
        return SStr(z3.SubString(c, pos, k))

    def sha256(e2, args, kw):
        e2.set(e2, ("ghost", "hashed"), SStr(str_t(e2, args[0]) if args else z3.StringVal("")))
        return Inst(Digest, {})

    def update(e2, args, kw):
        e2.set(e2, ("ghost", "hashed"), SStr(z3.Concat(e2.ghost["hashed"].t, str_t(e2, args[1]))))

    e.contracts[open] = open_
    def seek(e2, args, kw):
        whence, off = e2.res(args[2]) if len(args) > 2 else 0, e2.int_term(e2.res(args[1]))
        base = {0: z3.IntVal(0), 1: e2.ghost["pos"].t, 2: z3.Length(e2.res(args[0]).f["c"].t)}[whence]
        if not e2.branch(base + off >= 0):
            e2.raise_(OSError, "negative position")
        e2.set(e2, ("ghost", "pos"), SInt(base + off))
        return SInt(base + off)

    e.contracts[File.read] = read
    e.contracts[File.tell] = lambda e2, args, kw: SInt(e2.ghost["pos"].t)
    e.contracts[File.seek] = seek
    e.contracts[os.path.getsize] = lambda e2, args, kw: SInt(z3.Length(of(str_t(e2, args[0]))))
    e.contracts[File.__exit__] = e.contracts[File.close] = lambda e2, args, kw: e2.set(e2, ("ghost", "pos"), None)
    e.contracts[hashlib.sha256] = sha256
    e.contracts[Digest.update] = update
    e.contracts[Digest.hexdigest] = lambda e2, args, kw: e2.uf_str("sha256", e2.ghost["hashed"])
    e.contracts[content] = lambda e2, args, kw: SStr(of(str_t(e2, args[0])))
    e.contracts[Fingerprint.from_string.__func__] = lambda e2, args, kw: e2.wrap(FP, [ufun("from_string", z3.StringSort(), FP.sorts[0])(str_t(e2, args[1]))])

    def hashed_so_far(e2, state, i):
        st = state(i)
        pos, acc = st.get("ghost:pos"), st.get("ghost:hashed")
        if pos is None or acc is None:
            return None
        c = e2.the_content
        return z3.And(0 <= pos.t, pos.t <= z3.Length(c), acc.t == z3.SubString(c, 0, pos.t))

    class Anywhere(dict):
        def get(self, key, default=None):
            return [hashed_so_far]

    e.loop_invariants = Anywhere()
    e.of_content = of


def local_partition(e, n):
    f = {"path": e.fresh_val(Str, n + ".path"), "input_fingerprint": e.fresh_val(KAlt([KConst(None), FP]), n + ".fp"), "partition_key": SObj(z3.Const(n + ".key", Ref), PartitionKey, True),
         "storage": SObj(z3.Const(n + ".storage", Ref), LocalFile, True)}
    e.the_content = e.of_content(f["path"].t)
    return Inst(LocalFilePartition, f)


def gen_local(rng):
    path = pathlib.Path(scratch()) / f"c09-{rng.randint(0, 4)}"
    path.write_bytes(rng.choice([b"", b"x", bytes(range(256)), rng.randbytes(rng.randint(0, 70)), b"\r\n\x00\xff"]))
    return dict(p=LocalFilePartition(path=str(path), storage=LocalFile(path=str(path)), input_fingerprint=rng.choice([None, Fingerprint(3)])), n=rng.choice([-1, 1, 2, 3, 7, 64, 10**9]))


@lemma("C09", params=dict(p=local_partition, n=KInt()), setup=reading, gen=gen_local)
def the_whole_file_is_hashed_whatever_the_buffer_size(p, n):
    assume(n != 0)
    assert p.compute_content_fingerprint(buffer_size=n) == Fingerprint.from_string(hashlib.sha256(content(p.path)).hexdigest())


@lemma("C09", params=dict(p=local_partition), setup=reading, gen=lambda rng: {"p": gen_local(rng)["p"]})
def the_default_buffer_reads_the_whole_file_too(p):
    assert p.compute_content_fingerprint() == Fingerprint.from_string(hashlib.sha256(content(p.path)).hexdigest())


# ------------------------------------------------------------------------------- literals and snapshots


def literal_partition(e, n):
    return Inst(StringLiteralPartition, {"id": e.fresh_val(Str, n + ".id"), "value": e.fresh_val(KAlt([KConst(None), Str]), n + ".value"), "input_fingerprint": e.fresh_val(KAlt([KConst(None), FP]), n + ".fp"),
                                         "partition_key": SObj(z3.Const(n + ".key", Ref), PartitionKey, True), "storage": SObj(z3.Const(n + ".storage", Ref), StringLiteral, True)})


def snapshots(engine):
    reading(engine)
    engine.used_contracts.add("pydantic: StoragePartitionSnapshot(...) stores the given field values")
    engine.contracts[StoragePartitionSnapshot] = (
        lambda e2, args, kw: Inst(StoragePartitionSnapshot, dict(kw)) if not args and set(kw) == set(StoragePartitionSnapshot.model_fields) else e2.raise_(ValueError, "fields")
    )


def gen_literal(rng):
    v = rng.choice([None, "", "v", "{a}", "\u00e9\x01", "x" * 100])
    return dict(p=StringLiteralPartition(id=rng.choice(["a", "b"]), value=v, storage=StringLiteral(id="x", value=v), partition_key=rng.choice([PartitionKey(), PartitionKey(i=Int64Field(value=3))]),
                                         input_fingerprint=rng.choice([None, Fingerprint(3)])))


def refers(s, p):
    return (s.storage_partition is p and s.content_fingerprint == p.compute_content_fingerprint() and s.input_fingerprint == p.input_fingerprint
            and s.partition_key is p.partition_key and s.storage is p.storage)


@lemma("C09", params=dict(p=literal_partition), setup=snapshots, gen=gen_literal)
def literals_are_hashed_and_unwritten_ones_refused(p):
    if p.value is None:
        assert raises(FileNotFoundError, p.compute_content_fingerprint)
        assert raises(FileNotFoundError, p.snapshot)
    else:
        assert p.compute_content_fingerprint() == Fingerprint.from_string(p.value)
        assert refers(p.snapshot(), p)


@lemma("C09", params=dict(p=local_partition), setup=snapshots, gen=lambda rng: {"p": gen_local(rng)["p"]})
def snapshots_refer_to_their_partition(p):
    before = p.path
    assert refers(p.snapshot(), p) and p.path == before


# ------------------------------------------------------------------------------------------ remote files


def remote_partition(e, n):
    return Inst(GCSFilePartition, {"bucket": e.fresh_val(Str, n + ".bucket"), "path": e.fresh_val(Str, n + ".path"), "input_fingerprint": e.fresh_val(KAlt([KConst(None), FP]), n + ".fp"),
                                   "partition_key": SObj(z3.Const(n + ".key", Ref), PartitionKey, True), "storage": SObj(z3.Const(n + ".storage", Ref), GCSFile, True)})


def describing(engine):
    e = engine
    snapshots(e)
    e.used_contracts.add("GCSFileSystem.info: the current hashes (crc32c, perhaps md5Hash) of the content of the file at that path, an error if there is none")
    e.contracts[gcsfs.GCSFileSystem] = lambda e2, args, kw: Inst(c08.Bucket, {})
    kind = KDict(Str, Str)

    def hashes(e2, args, kw):
        t = str_t(e2, args[-1])
        if not e2.branch(ufun("stored", z3.StringSort(), z3.BoolSort())(t)):
            e2.raise_(FileNotFoundError, "no such file")
        return e2.wrap(kind, [ufun(f"info.{i}", z3.StringSort(), x)(t) for i, x in enumerate(kind.sorts)])

    e.contracts[c08.Bucket.info] = e.contracts[c08.remote_info] = hashes


def gen_remote(rng):
    path = f"c09-{rng.randint(0, 9)}"
    c08.REMOTE.pop(f"b/{path}", None)
    if rng.randint(0, 4):
        c08.REMOTE[f"b/{path}"] = {"crc32c": rng.choice("abc")} | {k: rng.choice("abc") for k in ("md5Hash", "etag") if rng.randint(0, 2)}
    return dict(p=GCSFilePartition(bucket="b", path=path, storage=GCSFile(bucket="b", path="{name}"), input_fingerprint=rng.choice([None, Fingerprint(3)]), partition_key=PartitionKey(i=Int64Field(value=rng.randint(0, 3)))))


@lemma("C09", params=dict(p=remote_partition), setup=describing, gen=gen_remote, around=lambda: c08.no_network())
def remote_contents_decide(p):
    hashes = outcome(lambda: c08.remote_info(f"{p.bucket}/{p.path}"))
    if hashes[0] == "raises":
        assert raises(FileNotFoundError, p.compute_content_fingerprint)
        assert raises(FileNotFoundError, p.snapshot)
    else:
        assume("crc32c" in hashes[1] and hashes[1].get("md5Hash") != "")
        assert p.compute_content_fingerprint() == Fingerprint.from_string(hashes[1]["md5Hash"] if "md5Hash" in hashes[1] else hashes[1]["crc32c"])
        assert refers(p.snapshot(), p)


# ---------------------------------------------------------------------------------- real files (bounded)


@scenario("C09", runs=150, bound="files up to 3 MB with boundaries around the buffer sizes tried, two locations per run, rewritten in place")
def contents_decide(rng, tmp):
    sizes = [0, 1, 2, 63, 64, 65, 4096] + ([1024 * 1024 - 1, 1024 * 1024, 1024 * 1024 + 1, 3 * 1024 * 1024 + 17] if rng.random() < 0.3 else [])
    n = rng.choice(sizes)
    data = rng.randbytes(n)
    paths = [os.path.join(tmp, "a"), os.path.join(tmp, "sub", "b")]
    os.mkdir(os.path.dirname(paths[1]))
    parts = [
        LocalFilePartition(path=x, storage=LocalFile(path=x), input_fingerprint=fp, partition_key=k)
        for x, fp, k in zip(paths, [None, Fingerprint(5)], [PartitionKey(), PartitionKey(i=Int64Field(value=1))])
    ]
    for p in parts:
        for f in (p.compute_content_fingerprint, p.snapshot):
            got = outcome(f)
            assert got[0] == "raises", f"{p.path} was never written but has {got[1]}"
        pathlib.Path(p.path).write_bytes(data)
    expected = Fingerprint.from_string(hashlib.sha256(data).hexdigest())
    buffers = [b for b in (1, 2, 7, 64, 65, n, n + 1, max(n - 1, 1), 1024 * 1024, -1) if b and (b < 0 or n < 5000 * b)]
    what = f"{n} bytes read with buffers of {buffers}"
    for p in parts:
        assert p.compute_content_fingerprint() == expected == p.snapshot().content_fingerprint, what
        for b in buffers:
            assert p.compute_content_fingerprint(buffer_size=b) == expected, f"{n} bytes with a buffer of {b}"
    # any difference counts, at the time of the call
    at = rng.choice([0, n - 1, n // 2, rng.randrange(n)]) if n else 0
    other = rng.choice([data + b"\0", data[:at] + bytes([data[at] ^ (1 << rng.randint(0, 7))]) + data[at + 1 :] if n else b"!", data[:-1] if n else b"\n", data + data if n else b" "])
    stat = os.stat(paths[0])
    pathlib.Path(paths[0]).write_bytes(other)
    os.utime(paths[0], ns=(stat.st_atime_ns, stat.st_mtime_ns))
    for b in (None, *[b for b in (1, 64, len(other)) if b and len(other) < 5000 * b]):
        got = parts[0].compute_content_fingerprint(**({} if b is None else {"buffer_size": b}))
        assert got != expected and got == Fingerprint.from_string(hashlib.sha256(other).hexdigest()), f"{n} bytes changed to {len(other)} (byte {at}) with a buffer of {b}"
    assert parts[1].compute_content_fingerprint() == expected, what
    return what


@scenario("C09", runs=100, bound="texts with braces, control characters and several scripts")
def literal_contents_decide(rng, tmp):
    a, b = ("".join(rng.choice("ab{}\1\n \u00e9\u4e2d\U0001f600") for _ in range(rng.randint(0, 12))) for _ in range(2))
    make = lambda i, v, fp=None: StringLiteralPartition(id=i, value=v, storage=StringLiteral(id=i, value=v), input_fingerprint=fp)
    x, y, z = make("1", a), make("2", a, Fingerprint(1)), make("1", b)
    assert x.compute_content_fingerprint() == y.compute_content_fingerprint() == Fingerprint.from_string(a), repr(a)
    assert (x.compute_content_fingerprint() == z.compute_content_fingerprint()) == (a == b), (a, b)
    s = y.snapshot()
    assert s.storage_partition == y and s.content_fingerprint == Fingerprint.from_string(a) and s.input_fingerprint == Fingerprint(1)
    return a, b
