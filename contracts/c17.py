"""C17: stored data reads back unchanged, partitions concatenated in order; writing touches only its own file."""

import hashlib
import io as stdio
import json
import os
import pathlib
import pickle
import shutil
import uuid
from collections.abc import Sequence
from contextlib import contextmanager

import gcsfs
import multimethod
from arti import Artifact, Fingerprint, StoragePartition, StoragePartitionSnapshot, View
from arti import io
from arti.formats import Format
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import Int64Field, PartitionKey
from arti.storage.google.cloud.storage import GCSFile, GCSFilePartition
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile, LocalFilePartition
from arti.types import Collection, Int64, List, Struct, Type, is_partitioned
from arti.views.python import Int, PythonBuiltin

from pyvc.core import *
from pyvc.models import str_t
from pyvc.spec import *
from pyvc.values import Native

from .c09 import scratch

__lemmas__ = True

Str, FP, Bytes, Text, Any_ = KStr(), KInt(Fingerprint), KObj(bytes, True), KObj(str), KObj(object)
Files = KDict(Str, Bytes, dict)
Rows = KSeq(Any_, list)
R, B, I, S = Ref, z3.BoolSort(), z3.IntSort(), z3.StringSort()

# --------------------------------------------------------------- the files


class FS:
    """The files below a directory (natively), or all there are; nothing fails half-way unless it is faulty."""

    faulty = False

    def __init__(self, root, remote=False):
        self.root, self.remote = str(root), remote

    @property
    def files(self):
        found = [os.path.join(d, f) for d, _, fs in os.walk(self.root) for f in fs]
        return {os.path.relpath(p, self.root) if self.remote else p: pathlib.Path(p).read_bytes() for p in found}


class File:
    """An open file."""

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def read(self):
        raise NotImplementedError

    def write(self, data):
        raise NotImplementedError


class Bucket:
    """The remote files (natively a directory standing in for them)."""

    def open(self, path, mode="rb"):
        return Upload(path, mode) if "w" in mode else open(os.path.join(remote_root(), path), mode)

    def info(self, path):
        return {"md5Hash": hashlib.md5(pathlib.Path(remote_root(), path).read_bytes()).hexdigest()}


class Upload(stdio.BytesIO):
    """Uploads what was written when it gets closed."""

    def __init__(self, path, mode):
        super().__init__()
        self.path, self.mode = path, mode

    def write(self, data):
        if isinstance(data, str) == ("b" in self.mode):
            raise TypeError("text or bytes")
        return super().write(data.encode() if isinstance(data, str) else data)

    def close(self):
        if not self.closed:
            to = pathlib.Path(remote_root(), self.path)
            to.parent.mkdir(parents=True, exist_ok=True)
            to.write_bytes(self.getvalue())
        super().close()


def remote_root():
    return pathlib.Path(scratch()) / "remote"


@contextmanager
def no_network():
    """Remote files are kept in a scratch directory."""
    import arti.io.json_gcsfile_python as a
    import arti.io.pickle_gcsfile_python as b
    import arti.storage.google.cloud.storage as c

    real = [m.GCSFileSystem for m in (a, b, c)]
    a.GCSFileSystem = b.GCSFileSystem = c.GCSFileSystem = Bucket
    try:
        yield
    finally:
        a.GCSFileSystem, b.GCSFileSystem, c.GCSFileSystem = real


class Unique:
    pass


def fs(e, n):
    v = Inst(FS, {"cell": Cell(dict, e.fresh_val(Files, n + ".files")), "faulty": e.fresh_val(KBool(), n + ".faulty")})
    e.set(e, ("ghost", "fs"), v)
    e.set(e, ("ghost", "unique"), ())
    e.set(e, ("ghost", "made"), ())
    return v


def encoded(fmt, data):
    """What is stored for some data."""
    return json.dumps(data).encode() if isinstance(fmt, JSON) else pickle.dumps(data)


def decoded(fmt, content):
    """What is read from it."""
    return json.loads(content) if isinstance(fmt, JSON) else pickle.loads(content)


def encodable(fmt, data):
    return outcome(encoded, fmt, data)[0] == "ok"


def survives(fmt, data):
    """Can the format represent the data?"""
    return encodable(fmt, data) and decoded(fmt, encoded(fmt, data)) == data


def files(e2):
    return e2.ghost["fs"].f["cell"]


def put(e2, path, content):
    e2.setitem(files(e2), SStr(path), content)


def stops(e2):
    """Does the file system fail now?"""
    return e2.branch(z3.And(e2.ghost["fs"].f["faulty"].t, e2.fresh(B, "stops")))


def there(e2, path):
    return e2.branch(e2.contains(files(e2), SStr(path)))


def filesystem(rows):
    """Contracts of files, json and pickle; what is read is rows (a list) or any single value."""

    def setup(e):
        c = e.contracts
        e.used_contracts.add("json / pickle: dumps is a function of the data (or an error), loads of the contents, and gives back data the format can represent; dump/load do the same through a file")
        e.used_contracts.add("open, pathlib.Path: reading gives a file's contents (FileNotFoundError if there is none); creating, writing (which may fail half-way), replacing and removing change just the addressed file; with_name of a unique name addresses a file that is not there")
        e.used_contracts.add("GCSFileSystem.open: as for local files, writing when the file gets closed")
        e.used_contracts.add("is_partitioned: a predicate of the type (C18)")

        def kind(k, **more):
            """json or pickle, on contents and data terms."""

            def dumps(e2, args, kw):
                if kw or len(args) != 1:
                    raise Unsupported(f"{k}.dumps with options")
                ts = e2.unwrap(kindof(e2, args[0]), args[0])
                return encode(e2, ts)

            def encode(e2, ts):
                f = lambda n, s: ufun(f"{k} {n}", *[t.sort() for t in ts], s)(*ts)
                if not e2.branch(f("encodes", B)):
                    e2.raise_(TypeError, f"not {k} serializable")
                out = f("encoded", R)
                if rows is False:
                    back = ufun(f"{k} decoded", R, R)(contents(out))
                    e2.fact(z3.Implies(ufun(f"{k} keeps", R, B)(ts[0]), z3.And(ufun(f"{k} decodes", R, B)(contents(out)), back == ts[0])))
                return SObj(out, str) if k == "json" else SObj(out, bytes, True)

            def contents(t):
                return ufun("utf8", R, R)(t) if k == "json" else t

            def decode(e2, t):
                if not e2.branch(ufun(f"{k} decodes", R, B)(t)):
                    e2.raise_(ValueError, f"not {k}")
                if rows:
                    t = ufun(f"{k} decoded rows", R, seq_sort(Any_))(t)
                    return e2.lift_rows(t)
                return SObj(ufun(f"{k} decoded", R, R)(t), object)

            def loads(e2, args, kw):
                if kw or len(args) != 1:
                    raise Unsupported(f"{k}.loads with options")
                v = e2.res(args[0])
                t = e2.ref(v)
                return decode(e2, ufun("utf8", R, R)(t) if v.cls is str else t)

            def load(e2, args, kw):
                if kw or len(args) != 1:
                    raise Unsupported(f"{k}.load with options")
                return loads(e2, [e2.call(e2.getattr(args[0], "read"), [], {})], {})

            def dump(e2, args, kw):
                if kw or len(args) != 2:
                    raise Unsupported(f"{k}.dump with options")
                e2.call(e2.getattr(args[1], "write"), [dumps(e2, args[:1], {})], {})

            mod = {"json": json, "pickle": pickle}[k]
            c[mod.dumps], c[mod.loads], c[mod.dump], c[mod.load] = dumps, loads, dump, load
            return dumps, decode, contents

        tools = {"json": kind("json"), "pickle": kind("pickle")}
        fmt_of = lambda v: "json" if issubclass(e.class_of(v), JSON) else "pickle"

        def kindof(e2, v):
            return Any_

        e.lift_rows = lambda t: e.lift_list(t) if hasattr(e, "lift_list") else Cell(list, e.content(e.seq_of_term(t, Any_, list)))

        def as_bytes(e2, v):
            v = e2.res(v)
            if v.cls is str:
                return SObj(ufun("utf8", R, R)(e2.ref(v)), bytes, True)
            return v

        e.attr_specs[(str, "encode")] = lambda e2, v: Native(lambda e3, a, kw: as_bytes(e3, v) if not a and not kw else unsupported("encode"), "encode")

        def unsupported(what):
            raise Unsupported(what)

        e.attr_specs[(FS, "files")] = lambda e2, v: v.f["cell"]
        c[reader] = lambda e2, args, kw: reader(*args)
        c[writer] = lambda e2, args, kw: writer(*args)
        c[encoded] = lambda e2, args, kw: as_bytes(e2, tools[fmt_of(args[0])][0](e2, [args[1]], {}))
        c[decoded] = lambda e2, args, kw: tools[fmt_of(args[0])][1](e2, e2.ref(args[1]))
        c[survives] = lambda e2, args, kw: SBool(z3.And(*[ufun(f"{fmt_of(args[0])} {w}", R, B)(e2.ref(args[1])) for w in ("keeps", "encodes")]))
        c[encodable] = lambda e2, args, kw: SBool(ufun(f"{fmt_of(args[0])} encodes", R, B)(e2.ref(args[1])))
        c[is_partitioned] = lambda e2, args, kw: SBool(ufun("partitioned", R, B)(e2.ref(args[0])))

        # files
        parent = ufun("parent", S, S)

        def opened(e2, path, mode, remote=False):
            if mode in ("r", "rb"):
                if not there(e2, path):
                    e2.raise_(FileNotFoundError, "no such file")
            elif mode in ("w", "wb"):
                if not remote:
                    stored(e2, path, SObj(z3.Const("nothing", R), bytes, True))
            else:
                raise Unsupported(f"mode {mode}")
            f = Inst(File, {"path": SStr(path), "mode": mode, "remote": remote, "written": Cell(list, SSeq([], None, list))})
            return f

        def mode_of(e2, args, kw, i, default="r"):
            if set(kw) - {"mode"}:
                raise Unsupported("opening a file in another way")
            return e2.res(kw["mode"]) if "mode" in kw else e2.res(args[i]) if len(args) > i else default

        def path_t(e2, v):
            v = e2.res(v)
            return v.f["path"].t if isinstance(v, Inst) else str_t(e2, v)

        c[open] = lambda e2, args, kw: opened(e2, path_t(e2, args[0]), mode_of(e2, args, kw, 1))
        c[pathlib.Path.open] = lambda e2, args, kw: opened(e2, path_t(e2, args[0]), mode_of(e2, args, kw, 1))
        c[Bucket.open] = lambda e2, args, kw: opened(e2, path_t(e2, args[1]), mode_of(e2, args, kw, 2, "rb"), True)

        def read(e2, args, kw):
            if len(args) != 1 or kw:
                raise Unsupported("reading a part")
            f = e2.res(args[0])
            return e2.getitem(files(e2), f.f["path"])

        def write(e2, args, kw):
            f = e2.res(args[0])
            if not f.f["mode"].startswith("w") or e2.branch(e2.truth_term(f.f["written"])):
                raise Unsupported("writing in several parts")
            e2.list_append(f.f["written"], args[1])
            if not f.f["remote"]:
                stored(e2, f.f["path"].t, as_bytes(e2, args[1]))

        def stored(e2, path, content, remote=False):
            """Writing, which may stop half-way."""
            if not remote and not there(e2, path) and not e2.branch(z3.Or(ufun("directory", S, B)(parent(path)), *[parent(path) == m for m in e2.ghost["made"]])):
                e2.raise_(FileNotFoundError, "no such directory")
            if stops(e2):
                put(e2, path, SObj(e2.fresh(R, "part"), bytes, True))
                e2.raise_(OSError, "no space left")
            put(e2, path, content)

        def closed(e2, args, kw):
            f = e2.res(args[0])
            if f.f["remote"] and f.f["mode"].startswith("w"):
                if e2.branch(e2.truth_term(f.f["written"])):
                    stored(e2, f.f["path"].t, as_bytes(e2, e2.getitem(f.f["written"], 0)), True)
                else:
                    put(e2, f.f["path"].t, SObj(z3.Const("nothing", R), bytes, True))

        c[File.read], c[File.write], c[File.__exit__] = read, write, closed

        # paths
        a_path = lambda t: Inst(pathlib.Path, {"path": SStr(t)})
        sibling = ufun("sibling", S, S, S)
        c[pathlib.Path] = lambda e2, args, kw: a_path(path_t(e2, args[0])) if len(args) == 1 and not kw else unsupported("Path")
        e.attr_specs[(pathlib.Path, "parent")] = lambda e2, v: a_path(parent(v.f["path"].t))

        def named(e2, args, kw):
            p, n = path_t(e2, args[0]), str_t(e2, args[1])
            t = sibling(p, n)
            if any(u in free_consts(n) for u in e2.ghost["unique"]):
                e2.fact(z3.And(t != p, parent(t) == parent(p)))
                e2.assume(z3.Not(z3.Select(e2.content(files(e2)).has, t)))
            return a_path(t)

        c[pathlib.Path.with_name] = named
        c[pathlib.Path.exists] = lambda e2, args, kw: SBool(e2.contains(files(e2), SStr(path_t(e2, args[0]))))

        def mkdir(e2, args, kw):
            if len(args) != 1 or set(kw) != {"exist_ok", "parents"} or not all(e2.res(v) is True for v in kw.values()):
                raise Unsupported("mkdir")
            e2.set(e2, ("ghost", "made"), (*e2.ghost["made"], path_t(e2, args[0])))

        c[pathlib.Path.mkdir] = mkdir
        c[os.makedirs] = lambda e2, args, kw: mkdir(e2, args, {"parents": True, **kw})

        def written(e2, args, kw):
            stored(e2, path_t(e2, args[0]), as_bytes(e2, args[1]))

        def removed(e2, args, kw):
            p = path_t(e2, args[0])
            if there(e2, p):
                e2.call(e2.getattr(files(e2), "pop"), [SStr(p)], {})
            elif not e2.truth(kw.get("missing_ok", False)):
                e2.raise_(FileNotFoundError, "no such file")

        def replaced(e2, args, kw):
            p, q = path_t(e2, args[0]), path_t(e2, args[1])
            if not there(e2, p):
                e2.raise_(FileNotFoundError, "no such file")
            if stops(e2):
                e2.raise_(OSError, "cannot replace")
            v = e2.getitem(files(e2), SStr(p))
            put(e2, q, v)
            if e2.branch(p != q):
                removed(e2, args[:1], {})

        c[pathlib.Path.write_bytes], c[pathlib.Path.write_text] = written, written
        c[pathlib.Path.unlink] = removed
        c[pathlib.Path.replace] = c[os.replace] = replaced

        def unique(e2, args, kw):
            t = e2.fresh(S, "unique")
            e2.set(e2, ("ghost", "unique"), (*e2.ghost["unique"], t.decl().name()))
            return Inst(Unique, {"hex": SStr(t)})

        c[uuid.uuid4] = unique
        c[gcsfs.GCSFileSystem] = lambda e2, args, kw: Inst(Bucket, {})

    return setup


# --------------------------------------------------------------- partitions


def local(e, n):
    return Inst(LocalFilePartition, {"path": e.fresh_val(Str, n + ".path"), "storage": SObj(z3.Const(n + ".storage", R), LocalFile, True)})


def remote(e, n):
    return Inst(GCSFilePartition, {"bucket": e.fresh_val(Str, n + ".bucket"), "path": e.fresh_val(Str, n + ".path"), "storage": SObj(z3.Const(n + ".storage", R), GCSFile, True)})


def place(part):
    return part.path if isinstance(part, LocalFilePartition) else part.qualified_path


def reader(fmt, storage):
    """The registered handlers of a format and storage."""
    io._discover()
    return io._read[Type, fmt, multimethod.subtype(Sequence[storage]), PythonBuiltin]


def writer(fmt, storage):
    io._discover()
    return io._write[object, Type, fmt, storage, PythonBuiltin]


VIEW = Int(artifact_class=Artifact, type=Int64(), mode="READWRITE")
LOCAL, REMOTE, LITERAL = (LocalFilePartition, local), (GCSFilePartition, remote), (StringLiteralPartition, None)


def ways(*more):
    """One lemma for each format and storage."""
    return [(f"{n}_{storage.__name__.lower().removesuffix('partition')}", fmt, storage, param) for n, fmt in (("json", JSON()), ("pickle", Pickle())) for storage, param in (LOCAL, REMOTE, *more)]


def gen_key(rng, n):
    """Parts differ in what they are for as well."""
    return dict(input_fingerprint=rng.choice([None, Fingerprint(rng.randint(1, 9))]), partition_key=rng.choice([PartitionKey(), PartitionKey(i=Int64Field(value=n)), PartitionKey(i=Int64Field(value=20 - n))]))


def gen_part(rng, storage, n):
    if storage is LocalFilePartition:
        s = LocalFile(path=scratch() + "/{name}")
        return LocalFilePartition(path=f"{scratch()}/files/{rng.choice('abc')}/{n}", storage=s, **gen_key(rng, n))
    return GCSFilePartition(bucket="b", path=f"{rng.choice('abc')}/{n}", storage=GCSFile(bucket="b", path="{name}"), **gen_key(rng, n))


def gen_files(rng, storage):
    """A new directory of files."""
    for d in ("files", "remote"):
        shutil.rmtree(pathlib.Path(scratch()) / d, ignore_errors=True)
        (pathlib.Path(scratch()) / d).mkdir()
    return FS(remote_root(), True) if storage is GCSFilePartition else FS(pathlib.Path(scratch()) / "files")


def gen_data(rng, depth=2):
    kind = rng.randint(0, 7 if depth else 4)
    if kind < 5:
        return rng.choice([None, True, 0, -1, 1 << 70, 0.5, 1e300, "", "x", "\u00e9\u4e2d\U0001f600", "\x00\n\"", float("inf")])
    if kind < 7:
        return [gen_data(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice("abc"): gen_data(rng, depth - 1) for _ in range(rng.randint(0, 2))}


def gen_any(rng, fmt):
    """Some of it cannot be stored."""
    return rng.choice([lambda: 0, {1, 2} if isinstance(fmt, JSON) else open, [gen_data(rng), lambda: 0]]) if rng.random() < 0.2 else gen_data(rng)


def at(fs, part):
    return pathlib.Path(fs.root, place(part)) if fs.remote else pathlib.Path(place(part))


def fill(rng, fs, part, content):
    at(fs, part).parent.mkdir(parents=True, exist_ok=True)
    at(fs, part).write_bytes(content)


TYPES = [Int64(), Collection(element=Struct(fields={"a": Int64()})), Collection(element=Struct(fields={"a": Int64()}), partition_by=("a",))]


def gen_reading(rng, fmt, storage, rows):
    fs = gen_files(rng, storage)
    parts = tuple(gen_part(rng, storage, n) for n in rng.sample(range(6), rng.randint(0, 4) if rows else 1))
    for p in parts:
        if rng.random() < 0.95:
            data = [gen_data(rng, 1) for _ in range(rng.randint(0, 3))] if rows else gen_data(rng)
            fill(rng, fs, p, encoded(fmt, data) if rng.random() < 0.95 else b"?")
    return dict(fs=fs, parts=parts) if rows else dict(fs=fs, part=parts[0])


def _reading():
    for name, fmt, storage, param in ways():
        Parts = KSeq(KObj(storage, True), tuple)

        @lemma("C17", name="partitions_are_read_in_the_given_order_" + name, params=dict(fs=fs, parts=Parts, type_=KObj(Type)), setup=filesystem(True), around=lambda: no_network(),
               gen=lambda rng, fmt=fmt, storage=storage: dict(gen_reading(rng, fmt, storage, True), type_=TYPES[2]))
        def partitions_are_read_in_the_given_order(fs, parts, type_, fmt=fmt, storage=storage):
            assume(is_partitioned(type_))
            got = outcome(reader(type(fmt), storage), type_, fmt, parts, VIEW)
            wanted = outcome(lambda: [row for p in parts for row in decoded(fmt, fs.files[place(p)])])
            assert got[0] == wanted[0]
            if got[0] == "ok":
                assert got[1] == wanted[1]

        @lemma("C17", name="one_partition_is_read_as_stored_" + name, params=dict(fs=fs, part=param, type_=KObj(Type)), setup=filesystem(None), around=lambda: no_network(),
               gen=lambda rng, fmt=fmt, storage=storage: dict(gen_reading(rng, fmt, storage, False), type_=rng.choice(TYPES[:2])))
        def one_partition_is_read_as_stored(fs, part, type_, fmt=fmt, storage=storage):
            assume(not is_partitioned(type_))
            got = outcome(reader(type(fmt), storage), type_, fmt, (part,), VIEW)
            wanted = outcome(lambda: decoded(fmt, fs.files[place(part)]))
            assert got[0] == wanted[0]
            if got[0] == "ok":
                assert got[1] == wanted[1]


_reading()


def gen_writing(rng, fmt, storage):
    fs = gen_files(rng, storage)
    part = gen_part(rng, storage, 0)
    others = [gen_part(rng, storage, n) for n in (1, 2)]
    for p in [part, *others]:
        if rng.random() < 0.5:
            fill(rng, fs, p, b"old")
    return dict(fs=fs, part=part, q=place(rng.choice(others)), data=gen_any(rng, fmt), type_=rng.choice(TYPES))


def _writing():
    for name, fmt, storage, param in ways():
        P = dict(params=dict(fs=fs, part=param, q=Str, data=Any_, type_=KObj(Type)), around=lambda: no_network(), gen=lambda rng, fmt=fmt, storage=storage: gen_writing(rng, fmt, storage))

        @lemma("C17", name="writing_stores_exactly_the_data_" + name, setup=filesystem(None), **P)
        def writing_stores_exactly_the_data(fs, part, q, data, type_, fmt=fmt, storage=storage):
            before = dict(fs.files)
            assume(q != place(part))
            r = outcome(writer(type(fmt), storage), data, type_, fmt, part, VIEW)
            after = fs.files
            # other files stay as they are
            assert (q in after) == (q in before)
            if q in before:
                assert after[q] == before[q]
            if encodable(fmt, data) and not fs.faulty:
                assert r[0] == "ok"
            if r[0] == "ok":
                assert r[1] is None
                assert encodable(fmt, data)
                assert place(part) in after and after[place(part)] == encoded(fmt, data)
            elif not encodable(fmt, data) or storage is LocalFilePartition:
                # a failed write leaves no new file, and data that cannot be stored nothing else
                if place(part) not in before:
                    assert place(part) not in after
                elif not encodable(fmt, data):
                    assert place(part) in after and after[place(part)] == before[place(part)]

        @lemma("C17", name="what_was_written_is_read_back_" + name, setup=filesystem(False), **P)
        def what_was_written_is_read_back(fs, part, q, data, type_, fmt=fmt, storage=storage):
            assume(survives(fmt, data))
            assume(not is_partitioned(type_))
            r = outcome(writer(type(fmt), storage), data, type_, fmt, part, VIEW)
            if r[0] == "ok":
                assert reader(type(fmt), storage)(type_, fmt, (part,), VIEW) == data


_writing()


# --------------------------------------------------------------- literals


def literal(e, n):
    return Inst(StringLiteralPartition, {"id": e.fresh_val(Str, n + ".id"), "value": e.fresh_val(KAlt([KConst(None), Text]), n + ".value"),
                                         "storage": SObj(z3.Const(n + ".storage", R), StringLiteral, True)})


def literals(rows):
    def setup(e):
        filesystem(rows)(e)
        e.used_contracts.add("pydantic: model_copy(update=...) copies the fields and updates those given")
        if rows:
            e.attr_specs[(StringLiteralPartition, "value")] = KAlt([KConst(None), Text])

        def copy(e2, args, kw):
            m = e2.res(args[0])
            up = e2.content(kw["update"])
            if len(args) != 1 or set(kw) != {"update"} or not isinstance(up, (CDict, dict)):
                raise Unsupported("copying a partition")
            return Inst(m.cls, {**m.f, **(up.d if isinstance(up, CDict) else up)})

        e.contracts[StringLiteralPartition.model_copy] = copy

    return setup


def gen_literal(rng, value=None):
    n = rng.randint(0, 9)
    return StringLiteralPartition(id=rng.choice(["x", "y/{z}"]), value=value, storage=StringLiteral(id="x"), **gen_key(rng, n))


def gen_literals(rng):
    text = lambda: rng.choice(["[1, 2]", "[]", "[{}]", '["\\u00e9"]']) if rng.random() < 0.95 else rng.choice(["?", "", "3"])
    return dict(parts=tuple(gen_literal(rng, text()) for _ in range(rng.randint(0, 4))), type_=TYPES[2])


@lemma("C17", params=dict(fs=fs, parts=KSeq(KObj(StringLiteralPartition, True), tuple), type_=KObj(Type)), setup=literals(True), gen=lambda rng: dict(fs=gen_files(rng, LocalFilePartition), **gen_literals(rng)))
def literals_are_read_in_the_given_order(fs, parts, type_):
    assume(is_partitioned(type_))
    assume(all(p.value is not None for p in parts))
    got = outcome(reader(JSON, StringLiteralPartition), type_, JSON(), parts, VIEW)
    wanted = outcome(lambda: [row for p in parts for row in json.loads(p.value)])
    assert got[0] == wanted[0]
    if got[0] == "ok":
        assert got[1] == wanted[1]


@lemma("C17", params=dict(fs=fs, part=literal, type_=KObj(Type)), setup=literals(None),
       gen=lambda rng: dict(fs=gen_files(rng, LocalFilePartition), part=gen_literal(rng, json.dumps(gen_data(rng)) if rng.random() < 0.9 else "?"), type_=rng.choice(TYPES[:2])))
def one_literal_is_read_as_set(fs, part, type_):
    assume(not is_partitioned(type_))
    assume(part.value is not None)
    got = outcome(reader(JSON, StringLiteralPartition), type_, JSON(), (part,), VIEW)
    wanted = outcome(json.loads, part.value)
    assert got[0] == wanted[0]
    if got[0] == "ok":
        assert got[1] == wanted[1]


@lemma("C17", params=dict(fs=fs, part=literal, data=Any_, type_=KObj(Type)), setup=literals(False),
       gen=lambda rng: dict(fs=gen_files(rng, LocalFilePartition), part=gen_literal(rng, rng.choice([None, None, "", "3"])), data=gen_any(rng, JSON()), type_=rng.choice(TYPES)))
def literals_are_written_once(fs, part, data, type_):
    before = (part.id, part.value, part.storage)
    r = outcome(writer(JSON, StringLiteralPartition), data, type_, JSON(), part, VIEW)
    assert (part.id, part.value, part.storage) == before
    if part.value is not None or not encodable(JSON(), data):
        assert r[0] == "raises"
    else:
        assert r[0] == "ok"
        copy = r[1]
        assert isinstance(copy, StringLiteralPartition)
        assert (copy.id, copy.storage) == (part.id, part.storage)
        assert copy.value == json.dumps(data)
        if survives(JSON(), data) and not is_partitioned(type_):
            assert reader(JSON, StringLiteralPartition)(type_, JSON(), (copy,), VIEW) == data


# --------------------------------------------------------------- io.read and io.write


def handled(*args):
    """What the reader registered for the arguments gives."""
    return io._read(*args)


def handle(*args):
    return io._write(*args)


def dispatching(e):
    e.used_contracts.add("the registered handlers (the lemmas above), selected by the types of the arguments (C22): functions of their arguments that may fail")
    e.used_contracts.add("StoragePartition.snapshot: the snapshot of what the partition holds, or an error (C09)")
    e.attr_specs[(StoragePartitionSnapshot, "storage_partition")] = KObj(StoragePartition)
    e.contracts[is_partitioned] = lambda e2, args, kw: SBool(ufun("partitioned", R, B)(e2.ref(args[0])))

    def bound(names, args, kw):
        args = list(args)
        if len(args) + len(kw) != len(names) or set(kw) != set(names[len(args):]):
            raise Unsupported("calling a handler")
        return args + [kw[n] for n in names[len(args):]]

    def read(e2, args, kw):
        vs = [e2.res(v) for v in bound(["type_", "format", "storage_partitions", "view"], args, kw)]
        parts = e2.unwrap(KSeq(KObj(StoragePartition), tuple), vs[2])[0]
        ts = [e2.ref(vs[0]), e2.ref(vs[1]), parts, e2.ref(vs[3])]
        if not e2.branch(ufun("reads", *[t.sort() for t in ts], B)(*ts)):
            e2.raise_(ValueError, "cannot read")
        return SObj(ufun("read", *[t.sort() for t in ts], R)(*ts), object)

    def write(e2, args, kw):
        ts = [e2.ref(v) for v in bound(["data", "type_", "format", "storage_partition", "view"], args, kw)]
        if not e2.branch(ufun("writes", *[R] * 5, B)(*ts)):
            e2.raise_(ValueError, "cannot write")
        if e2.branch(ufun("updates", *[R] * 5, B)(*ts)):
            return SObj(ufun("updated", *[R] * 5, R)(*ts), StoragePartition)
        return None

    e.contracts[handled], e.contracts[handle] = read, write
    e.proxies[id(io._read)] = (io._read, Native(read, "io._read"))
    e.proxies[id(io._write)] = (io._write, Native(write, "io._write"))

    def snapshot(e2, args, kw):
        t = e2.ref(args[0])
        if not e2.branch(ufun("has content", R, B)(t)):
            e2.raise_(FileNotFoundError, "nothing there")
        return SObj(ufun("snapshot", R, R)(t), StoragePartitionSnapshot, True)

    e.contracts[StoragePartition.snapshot] = snapshot


def gen_io_read(rng):
    fmt, storage = rng.choice([(JSON(), LocalFilePartition), (Pickle(), LocalFilePartition), (JSON(), GCSFilePartition), (Pickle(), GCSFilePartition)])
    case = gen_reading(rng, fmt, storage, True)
    parts = case["parts"]
    if rng.random() < 0.5:
        parts = parts[: rng.randint(0, 1)]
    shots = tuple(StoragePartitionSnapshot(storage_partition=p, content_fingerprint=Fingerprint(3)) for p in parts)
    return dict(type_=rng.choice(TYPES), fmt=fmt, shots=shots, view=VIEW)


@lemma("C17", params=dict(type_=KObj(Type), fmt=KObj(Format), shots=KSeq(KObj(StoragePartitionSnapshot, True), tuple), view=KObj(View)), setup=dispatching, gen=gen_io_read, around=lambda: no_network())
def what_is_given_is_read_in_order(type_, fmt, shots, view):
    got = outcome(io.read, type_, fmt, shots, view)
    if len(shots) == 0 or (len(shots) > 1 and not is_partitioned(type_)):
        assert got[0] == "raises"
    else:
        assert got == outcome(handled, type_, fmt, tuple(s.storage_partition for s in shots), view)


def gen_io_write(rng):
    fmt, storage = rng.choice([(JSON(), LocalFilePartition), (Pickle(), LocalFilePartition), (JSON(), GCSFilePartition), (Pickle(), GCSFilePartition), (JSON(), StringLiteralPartition)])
    if storage is StringLiteralPartition:
        return dict(data=gen_any(rng, fmt), type_=rng.choice(TYPES), fmt=fmt, part=gen_literal(rng, rng.choice([None, None, "3"])), view=VIEW)
    c = gen_writing(rng, fmt, storage)
    return dict(data=c["data"], type_=c["type_"], fmt=fmt, part=c["part"], view=VIEW)


@lemma("C17", params=dict(data=Any_, type_=KObj(Type), fmt=KObj(Format), part=KObj(StoragePartition), view=KObj(View)), setup=dispatching, gen=gen_io_write, around=lambda: no_network())
def writing_returns_the_snapshot_of_what_holds_the_data(data, type_, fmt, part, view):
    got = outcome(io.write, data, type_, fmt, part, view)
    done = outcome(handle, data, type_, fmt, part, view)
    if done[0] == "raises":
        assert got[0] == "raises"
    else:
        holding = part if done[1] is None else done[1]
        assert got == outcome(lambda: holding.snapshot())


# --------------------------------------------------------------- whole round trips (bounded)


def gen_value(rng, type_, fmt):
    if not is_partitioned(type_):
        v = gen_data(rng, 3)
        return v if isinstance(fmt, JSON) else rng.choice([v, (v, {1, 2}), b"\x00\xff", {1: v, None: ()}])
    return [{"a": rng.randint(0, 3), "v": gen_data(rng, 1)} for _ in range(rng.randint(0, 4))]


@scenario("C17", runs=200, bound="up to 6 partitions of one location, random nested JSON / pickle values, JSON and pickle on local and remote files and JSON literals, written, overwritten and read in any order")
def stored_data_reads_back(rng, tmp):
    fmt, storage = rng.choice([(JSON(), LocalFilePartition), (Pickle(), LocalFilePartition), (JSON(), GCSFilePartition), (Pickle(), GCSFilePartition), (JSON(), StringLiteralPartition)])
    type_ = rng.choice(TYPES)
    root = pathlib.Path(tmp)
    with no_network():
        fs = gen_files(rng, storage) if storage is GCSFilePartition else FS(root)
        deep = lambda n: "/".join(["d", *rng.choice([(), ("e f",), ("\u00fc", "[x]", "*")])]) + f"/{n}.x"
        if storage is LocalFilePartition:
            parts = [LocalFilePartition(path=f"{root}/{deep(n)}", storage=LocalFile(path="{name}"), **gen_key(rng, n)) for n in range(6)]
        elif storage is GCSFilePartition:
            parts = [GCSFilePartition(bucket="b", path=deep(n), storage=GCSFile(bucket="b", path="{name}"), **gen_key(rng, n)) for n in range(6)]
        else:
            parts = [StringLiteralPartition(id=str(n), storage=StringLiteral(id="x"), **gen_key(rng, n)) for n in range(6)]
        (root / "foreign").write_text("x")
        stored, shots = {}, {}
        for _ in range(rng.randint(0, 8)):
            n = rng.randrange(6)
            data = gen_value(rng, type_, fmt)
            faulty = rng.random() < 0.15
            if faulty:
                data = [data, lambda: 0]
            before = fs.files
            if storage is StringLiteralPartition and rng.random() < 0.3 and n in shots:
                # literals with a value are not written again
                assert raises(ValueError, lambda: io.write(data, type_, fmt, shots[n].storage_partition, VIEW))
                continue
            r = outcome(io.write, data, type_, fmt, parts[n], VIEW)
            changed = {p for p in {*before, *fs.files} if before.get(p) != fs.files.get(p)}
            if faulty:
                assert r[0] == "raises" and not changed, (data, changed)
                continue
            assert r[0] == "ok", (data, r)
            assert changed <= ({place(parts[n])} if storage is not StringLiteralPartition else set()), changed
            stored[n], shots[n] = data, r[1]
            assert shots[n] == shots[n].storage_partition.snapshot(), "not the content"
            assert shots[n].storage_partition.path == parts[n].path if storage is not StringLiteralPartition else parts[n].value is None
        assert (root / "foreign").read_text() == "x"
        wanted = [n for n in shots if rng.random() < 0.8] if is_partitioned(type_) else rng.sample(sorted(shots), min(len(shots), 1))
        rng.shuffle(wanted)
        given = tuple(shots[n] for n in wanted)
        if given:
            got = io.read(type_, fmt, given, VIEW)
            assert got == ([row for n in wanted for row in stored[n]] if is_partitioned(type_) else stored[wanted[0]]), (got, stored)
        assert raises(FileNotFoundError, lambda: io.read(type_, fmt, (), VIEW))
        if len(shots) > 1 and not is_partitioned(type_):
            assert raises(ValueError, lambda: io.read(type_, fmt, tuple(shots.values()), VIEW))
    return type(fmt).__name__, storage.__name__, is_partitioned(type_), len(shots), len(wanted)
