"""C08: partition discovery finds exactly what was stored."""

import atexit
import datetime
import functools
import glob
import os
import pathlib
import shutil
import tempfile
from contextlib import contextmanager

import arti.storage._internal as internal
import arti.storage.google.cloud.storage as gcs
import gcsfs
from arti import Annotation, InputFingerprints
from arti.fingerprints import Fingerprint
from arti.internal.mappings import frozendict
from arti.partitions import DateField, Int8Field, Int16Field, Int64Field, NullField, PartitionField, PartitionKey
from arti.storage import Storage, StoragePartition, StoragePartitionSnapshot
from arti.storage.google.cloud.storage import GCSFile, GCSFilePartition
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile, LocalFilePartition
from arti.types import Collection, Date, Int8, Int16, Int64, Null, Struct
from pyvc.core import *
from pyvc.models import _pieces, _unpieces, set_of, str_t
from pyvc.spec import *
from pyvc.values import Native

__lemmas__ = True

Str = KStr()
FP = KInt(Fingerprint)
OptFP = KAlt([KConst(None), FP])
Key = KObj(PartitionKey)
Requests = KDict(Key, FP, InputFingerprints)


# ------------------------------------------------------------------------ which parsed paths are taken


def parsing(engine):
    e = engine
    e.used_contracts.add("parse.compile: a parser for the template (a value that depends on the template only)")
    import parse

    e.contracts[parse.compile] = lambda e2, args, kw: e2.uf_ref("parser", list(args))

    def extract(e2, args, kw):
        path = e2.res(kw["path"])
        fp = e2.wrap(FP, [ufun("fp_of", z3.StringSort(), FP.sorts[0])(str_t(e2, path))])
        return (fp if WITH_FP in str(kw["spec"]) else None, SObj(e2.uf_ref("key_of", path), PartitionKey, True))

    e.contracts[internal.extract_placeholders] = extract


WITH_FP = "{input_fingerprint}"
PLAIN = "/x/{i.value}"
TYPES = {"i": Int64Field}


def placeholders(path, spec):
    return internal.extract_placeholders(key_types=TYPES, parser=internal.parse.compile(spec, case_sensitive=True), path=path, spec=spec)


def _parse_lemmas():
    for name, spec in dict(with_fingerprints="/x/{i.value}/{input_fingerprint}", without_fingerprints="/x/{i.value}").items():

        def gen(rng, spec=spec):
            key = lambda: PartitionKey(i=Int64Field(value=rng.randint(0, 2)))
            path = lambda: f"/x/{rng.randint(0, 2)}" + (f"/{rng.randint(5, 6)}" if WITH_FP in spec else "")
            return dict(
                paths=frozenset(path() for _ in range(rng.randint(0, 4))),
                requests=InputFingerprints({key(): Fingerprint(rng.randint(5, 6)) for _ in range(rng.randint(0, 3))}),
                probe=path(), spec=spec,
            )

        @lemma("C08", name="exactly_the_requested_paths_are_taken_" + name, params=dict(paths=KSet(Str), requests=Requests, probe=Str, spec=KConst(spec)), setup=parsing, gen=gen)
        def exactly_the_requested_paths_are_taken(paths, requests, probe, spec):
            r = internal.parse_spec(paths, input_fingerprints=requests, key_types=TYPES, spec=spec)
            if probe in paths:
                fp, key = placeholders(probe, spec)
                wanted = requests[key] if key in requests else None
                if wanted == fp:
                    assert probe in r and r[probe] == (fp, key)
                else:
                    assert probe not in r
            else:
                assert probe not in r


_parse_lemmas()


# -------------------------------------------------------------------------------- reading one path


class Parsed:
    def __init__(self, named):
        self.named = named


class Parser:
    """What parse.compile gives: the texts of the fields found in a path, or None."""

    def __init__(self, named):
        self.named = named

    def parse(self, path):
        return None if self.named is None else Parsed(self.named)


def components(engine):
    e = engine
    e.used_contracts.add("from_components: a field made of the component texts (C06)")

    def made(cls):
        def f(e2, args, kw):
            return SObj(e2.uf_ref("made", cls, *[x for k in sorted(kw) for x in (k, kw[k])]), cls, True)

        return f

    for cls in (Int64Field, DateField):
        e.contracts[cls.from_components.__func__] = lambda e2, args, kw: made(args[0])(e2, args, kw)
    e.contracts[Fingerprint.from_int.__func__] = lambda e2, args, kw: e2.wrap(FP, [ufun("from_int", z3.IntSort(), FP.sorts[0])(e2.int_term(e2.res(args[-1])))])


def extract(named, types, path="/p", **kw):
    return internal.extract_placeholders(key_types=types, parser=Parser(named), path=path, spec="/s", **kw)


def texts(rng, *names):
    return {n: rng.choice(["2021", "3", "7", "11"]) for n in names}


@lemma("C08", params=dict(y=Str, m=Str, d=Str, v=Str, f=Str), setup=components, gen=lambda rng: {**texts(rng, "y", "m", "d", "v", "f"), "m": "3", "d": "7"})
def the_texts_of_a_path_make_its_key(y, m, d, v, f):
    two = {"d": DateField, "i": Int64Field}
    made = outcome(lambda: PartitionKey({"d": DateField.from_components(Y=y, m=m, d=d), "i": Int64Field.from_components(value=v)}))
    number = outcome(lambda: Fingerprint.from_int(int(f)))
    assume(made[0] == "ok" and number[0] == "ok")
    key, fp = made[1], number[1]
    assert extract({"d.Y": y, "d.m": m, "i.value": v, "d.d": d}, two) == (None, key)
    assert extract({"d.Y": y, "input_fingerprint": f, "d.m": m, "i.value": v, "d.d": d}, two) == (fp, key)
    assume(outcome(lambda: DateField.from_components(Y="1970", m=m, d=d))[0] == "ok")
    # preset components are read from the template
    assert extract({"d.Y": {"1970": "1970"}, "d.m": m, "d.d": d}, {"d": DateField}) == (None, PartitionKey({"d": DateField.from_components(Y="1970", m=m, d=d)}))
    assert extract({}, {}) == (None, PartitionKey())
    assert extract({"input_fingerprint": f}, {}) == (fp, PartitionKey())


@lemma("C08", params=dict(y=Str, m=Str, d=Str, v=Str, f=Str), setup=components, gen=lambda rng: {**texts(rng, "y", "m", "d", "v", "f"), "m": "3", "d": "7"})
def other_paths_and_incomplete_templates_are_refused(y, m, d, v, f):
    two = {"d": DateField, "i": Int64Field}
    assert raises(ValueError, lambda: extract(None, two))
    assert extract(None, two, error_on_no_match=False) is None
    assert raises(ValueError, lambda: extract({"d.Y": y, "d.m": m, "d.d": d}, two))
    assert raises(ValueError, lambda: extract({"i.value": v}, two))
    assert raises(ValueError, lambda: extract({}, two))


# ------------------------------------------------------------------------------- looking a location up


def storage(e, n):
    return Inst(LocalFile, {"path": e.fresh_val(Str, n + ".path"), "_key_types": {"i": Int64Field}})


def remote(e, n):
    return Inst(GCSFile, {"bucket": e.fresh_val(Str, n + ".bucket"), "path": e.fresh_val(Str, n + ".path"), "_key_types": {"i": Int64Field}})


class Bucket:
    """The remote files; natively a directory stands in for them."""

    def glob(self, wildcard):
        return [os.path.relpath(p, scratch()) for p in glob.glob(os.path.join(scratch(), wildcard))]

    def info(self, path):
        return dict(remote_info(path))


REMOTE = {}


def remote_info(path):
    if path not in REMOTE and not os.path.exists(os.path.join(scratch(), path)):
        raise FileNotFoundError(path)
    return REMOTE.get(path, {"crc32c": "crc"})


@contextmanager
def no_network():
    """Remote files are kept in a scratch directory."""
    real, gcs.GCSFileSystem = gcs.GCSFileSystem, Bucket
    try:
        yield
    finally:
        gcs.GCSFileSystem = real


def looking(engine):
    e = engine
    import arti.storage.local as local

    e.used_contracts.add("glob.glob, GCSFileSystem.glob: the paths matching a wildcard (the files do not change meanwhile)")
    e.used_contracts.add("parse_spec / generate_partition / snapshot: functions of what they are given (proved above, C07, C09)")
    e.contracts[local.spec_to_wildcard] = lambda e2, args, kw: e2.uf_str("wildcard", *args)
    listing = ufun("globbed", z3.StringSort(), seq_sort(Str))
    e.contracts[local.glob] = lambda e2, args, kw: e2.seq_of_term(listing(str_t(e2, args[0])), Str, list)
    e.contracts[gcsfs.GCSFileSystem] = lambda e2, args, kw: Inst(Bucket, {})
    e.contracts[Bucket.glob] = lambda e2, args, kw: e2.seq_of_term(listing(str_t(e2, args[1])), Str, list)
    meta = KDict(Str, KTuple([FP, Key]))

    def parse_spec(e2, args, kw):
        call = e2.uf_ref("parse_spec", e2.freeze(set_of(e2, args[0], frozenset)), *[x for k in sorted(kw) for x in (k, e2.res(kw[k]))])
        return e2.wrap(meta, [ufun(f"parse_spec.{i}", call.sort(), x)(call) for i, x in enumerate(meta.sorts)])

    e.contracts[local.parse_spec] = parse_spec

    def generate(e2, args, kw):
        s = e2.res(args[0])
        fp, key = e2.res(kw["input_fingerprint"]), e2.res(kw["partition_key"])
        if s.cls is GCSFile:
            return SObj(e2.uf_ref("partition", s.f["bucket"], s.f["path"], fp, key), GCSFilePartition, True)
        return SObj(e2.uf_ref("partition", s.f["path"], fp, key), LocalFilePartition, True)

    e.contracts[Storage.generate_partition] = generate
    e.attr_specs[(LocalFilePartition, "path")] = Str
    e.attr_specs[(GCSFilePartition, "path")] = Str
    e.attr_specs[(GCSFilePartition, "bucket")] = Str
    e.contracts[StoragePartition.snapshot] = lambda e2, args, kw: SObj(e2.uf_ref("snapshot", e2.res(args[0])), StoragePartitionSnapshot, True)


@functools.cache
def scratch():
    d = tempfile.mkdtemp(prefix="vp-c08-")
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    return d


def gen_location(rng):
    root = pathlib.Path(scratch()) / str(rng.randint(0, 9))
    for _ in range(rng.randint(0, 3)):
        d = root / f"{rng.randint(0, 3):0{rng.choice([1, 1, 1, 1, 2])}}"
        d.mkdir(parents=True, exist_ok=True)
        (d / str(rng.choice([5, 6, 7]))).write_text("x")
    s = LocalFile(path=str(root) + "/{i.value}/{input_fingerprint}")
    s._key_types = frozendict(i=Int64Field)
    return dict(s=s, requests=InputFingerprints({PartitionKey(i=Int64Field(value=rng.randint(0, 3))): Fingerprint(rng.choice([5, 6, 7])) for _ in range(rng.randint(0, 3))}))


def same_snapshots(r, partitions):
    return r[0] == "ok" and len(r[1]) == len(partitions) and set(r[1]) == {p.snapshot() for p in partitions}


@lemma("C08", params=dict(s=storage, requests=Requests), setup=looking, gen=gen_location)
def the_stored_partitions_are_those_parsed_at_their_own_location(s, requests):
    import arti.storage.local as local

    found = local.parse_spec(set(local.glob(local.spec_to_wildcard(s.path, s.key_types))), spec=s.path, key_types=s.key_types, input_fingerprints=requests)
    expected = {p: s.generate_partition(input_fingerprint=fp, partition_key=key) for p, (fp, key) in found.items()}
    r = outcome(lambda: s.discover_partitions(requests))
    if all(x.path == p for p, x in expected.items()):
        assert same_snapshots(r, expected.values())
    else:
        assert r[0] == "raises"


def gen_remote(rng):
    d = gen_location(rng)
    s = GCSFile(bucket=str(rng.randint(0, 9)), path="{i.value}/{input_fingerprint}")
    s._key_types = frozendict(i=Int64Field)
    return {**d, "s": s}


@lemma("C08", params=dict(s=remote, requests=Requests), setup=looking, gen=gen_remote, around=lambda: no_network())
def remote_partitions_are_those_parsed_at_their_own_location(s, requests):
    where = f"{s.bucket}/{s.path}"
    found = gcs.parse_spec(set(gcs.GCSFileSystem().glob(gcs.spec_to_wildcard(where, s.key_types))), spec=where, key_types=s.key_types, input_fingerprints=requests)
    expected = {p: s.generate_partition(input_fingerprint=fp, partition_key=key) for p, (fp, key) in found.items()}
    r = outcome(lambda: s.discover_partitions(requests))
    if all(f"{x.bucket}/{x.path}" == p for p, x in expected.items()):
        assert same_snapshots(r, expected.values())
    else:
        assert r[0] == "raises"


# ----------------------------------------------------------------------------------------- wildcards

from contracts import c07


def wildcards(engine):
    e = engine
    c07.formatting(e)
    import glob

    e.used_contracts.add("glob.escape: escapes a text part by part")

    def escape(e2, args, kw):
        return _unpieces([glob.escape(p) if isinstance(p, str) else e2.uf_str("glob.escape", SStr(p)).t for p in _pieces(e2, args[0])])

    e.contracts[glob.escape] = escape


KT = {"d": DateField, "i": Int64Field}


@lemma("C08", params=dict(l0=Str, l1=Str, l2=Str), setup=wildcards, gen=lambda rng: {k: rng.choice(c07.LIT + ["[x]", "*?"]) for k in ("l0", "l1", "l2")})
def wildcards_stand_for_components_only(l0, l1, l2):
    import glob

    assume(c07.plain(l0, l1, l2))
    w, x = lambda t: internal.spec_to_wildcard(t, KT), glob.escape
    assert w(l0 + "{d.Y}" + l1 + "{d.m:02}" + l2) == x(l0) + "*" + x(l1) + "*" + x(l2)
    assert w(l0 + "{i.hex}" + l1 + "{input_fingerprint}" + l2) == x(l0) + "*" + x(l1) + "*" + x(l2)
    assert w(l0 + "{i.value[5]:03}" + l1 + "{d.iso[2021-01-02]}" + l2) == x(l0) + "005" + x(l1) + "2021-01-02" + x(l2)
    for bad in ("{d}", "{i:02}", "{d[5]}", "{d.nope}", "{i.Y}", "{d.Y.x}", "{other.value}", "{other}", "{d.value.year}"):
        assert raises(Exception, lambda: w(l0 + bad + l1))
        assert raises(Exception, lambda: w(l0 + "{i.value}" + l1 + bad))


# ------------------------------------------------------------------------------------------ literals


def literal(e, n):
    return Inst(StringLiteral, {"id": e.fresh_val(Str, n + ".id"), "value": e.fresh_val(KAlt([KConst(None), Str]), n + ".value"),
                                "_key_types": e.fresh_val(KDict(Str, KObj(type)), n + ".key_types")})


def literals(engine):
    e = engine
    e.used_contracts.add("generate_partition / snapshot: functions of what they are given (C07, C09); they refuse the same inputs always")

    def generate(e2, args, kw):
        s = e2.res(args[0])
        fp, key = e2.res(kw["input_fingerprint"]), e2.res(kw["partition_key"])
        return SObj(e2.uf_ref("partition", s.f["id"], fp, key), StringLiteralPartition, True)

    e.contracts[Storage.generate_partition] = generate
    e.contracts[PartitionKey] = lambda e2, args, kw: SObj(e2.uf_ref("no key"), PartitionKey, True) if not args and not kw else e2.raise_(TypeError, "key")
    e.contracts[StoragePartition.snapshot] = lambda e2, args, kw: SObj(e2.uf_ref("snapshot", e2.res(args[0])), StoragePartitionSnapshot, True)


def gen_literal(rng):
    s = StringLiteral(id=rng.choice(["x", "x/{input_fingerprint}"]), value=rng.choice([None, "", "v", "{a}"]))
    s._key_types = frozendict() if rng.random() < 0.6 else frozendict(i=Int64Field)
    return dict(s=s, requests=InputFingerprints({PartitionKey(): Fingerprint(rng.choice([5, 6]))} if rng.random() < 0.4 else {}))


@lemma("C08", params=dict(s=literal, requests=Requests), setup=literals, gen=gen_literal)
def literals_give_their_preset_value_only(s, requests):
    preset = s.value is not None
    r = outcome(lambda: s.discover_partitions(requests))
    if (len(requests) > 0 and preset) or (len(s._key_types) > 0 and not len(requests) > 0):
        assert r[0] == "raises"
    elif not preset:
        assert r == ("ok", ())
    else:
        one = outcome(lambda: s.generate_partition(input_fingerprint=None, partition_key=PartitionKey()).snapshot())
        assert r[0] == one[0]
        if r[0] == "ok":
            assert r[1] == (one[1],)


# ------------------------------------------------------------------------- real directories (bounded)

import hashlib

ROOTS = ["plain", "a[bc]d", "x*y", "q?", "sp ace", "\u00fcn\u00ef", "100%", "a.b", "[!x]", "(p)|^$+", "UPPER"]
FIELDS = {
    "d": (Date(), lambda r: DateField(value=datetime.date(r.choice([1, 987, 2021, 2022, 9999]), r.randint(1, 12), r.randint(1, 28))),
          [["{d.Y}", "{d.m:02}", "{d.d:02}"], ["{d.Y:04}", "{d.m}", "{d.d}"], ["{d.iso}"], ["{d.value}"], ["{d.Y[2021]}", "{d.m:02}", "{d.d:02}"], ["{d.m}", "{d.Y}", "{d.d:02}"]]),
    "i": (Int64(), lambda r: Int64Field(value=r.choice([0, 7, -7, 16, 12, 1 << 40, -(1 << 63)])), [["{i.value}"], ["{i.hex}"], ["{i.value[7]}"]]),
    "jj": (Int16(), lambda r: Int16Field(value=r.choice([0, 7, -7, 300])), [["{jj.value}"], ["{jj.hex}"]]),
    "n": (Null(), lambda r: NullField(), [["{n.value}"]]),
}
FP_FIELD = "{input_fingerprint}"


def _fill(parts, key, fp):
    return "".join(_component(p, key, fp) if p[0] == "{" else p for p in parts)


def _component(p, key, fp):
    if p == FP_FIELD:
        return str(int(fp))
    name, rest = p[1:-1].split(".")
    rest, _, spec = rest.partition(":")
    return format(getattr(key[name], rest.partition("[")[0]), spec)


def _fits(parts, key, fp):
    """Preset components have their preset value."""
    for p in parts:
        if "[" in p and p[0] == "{":
            name, rest = p[1:-1].split(".")
            comp, _, preset = rest.partition(":")[0].partition("[")
            if str(getattr(key[name], comp)) != preset[:-1]:
                return False
    return True


def _template(rng, names, with_fp):
    comps = [c for n in names for c in rng.choice(FIELDS[n][2])]
    rng.shuffle(comps)
    if with_fp:
        comps.insert(rng.randint(0, len(comps)), FP_FIELD)
    parts = ["/"]
    for c in comps:
        parts += [rng.choice(["", "k=", "[lit]", "a*b_"]), c, rng.choice(["/", "/", "_x_", "=", "/sub dir/"])]
    return [p for p in parts if p] + [rng.choice(["data.json", "part[0].bin", "x?y"])]


def _write(path, text):
    pathlib.Path(path).parent.mkdir(parents=True, exist_ok=True)
    pathlib.Path(path).write_text(text)


@scenario("C08", runs=250, bound="up to 3 key fields of 4 kinds, up to 6 stored partitions with up to 3 fingerprints each, foreign files, 11 root names, up to 4 requests")
def local_files_are_found_again(rng, tmp):
    root = os.path.join(tmp, rng.choice(ROOTS))
    names = rng.sample(sorted(FIELDS), rng.randint(0, 3))
    with_fp = rng.random() < 0.6
    parts = [root, *_template(rng, names, with_fp)]
    kt = Collection(element=Struct(fields={"x": Int64(), **{n: FIELDS[n][0] for n in names}}), partition_by=tuple(names))
    s = LocalFile(path="".join(parts))._visit_type(kt)
    keys = {PartitionKey({n: FIELDS[n][1](rng) for n in names}) for _ in range(rng.randint(0, 6))}
    keys = sorted(keys, key=repr)
    stored = {}
    for key in keys:
        for fp in rng.sample([5, -6, (1 << 63) - 1], rng.randint(1, 3)) if with_fp else [None]:
            fp = None if fp is None else Fingerprint(fp)
            p = s.generate_partition(partition_key=key, input_fingerprint=fp)
            assert p.path == _fill(parts, key, fp), (p.path, parts)
            content = f"{dict(key)}{fp}"
            _write(p.path, content)
            stored[p.path] = (key, fp, content)
    for path in list(stored):
        if rng.random() < 0.3:  # files that do not fit the template
            d, f = os.path.split(path)
            _write(rng.choice([path + ".bak", os.path.join(d, "other"), os.path.join(d, "sub", f), os.path.join(d, "." + f), os.path.join(os.path.dirname(root), "elsewhere", f)]), "foreign")
    if rng.random() < 0.3:
        _write(os.path.join(tmp, "abd" if "[" in root else "xzy", *"".join(parts[1:]).split("/")[1:-1], "data.json"), "foreign")
    requests = InputFingerprints({k: Fingerprint(rng.choice([5, -6, 7])) for k in keys if rng.random() < 0.5})
    expected = {}
    for path, (key, fp, content) in stored.items():
        if _fits(parts, key, fp) and requests.get(key) == fp:
            expected[path] = (key, fp, Fingerprint.from_string(hashlib.sha256(content.encode()).hexdigest()))
    what = f"{''.join(parts)} storing {sorted(stored)} asked for {dict(requests)}"
    found = s.discover_partitions(requests) if requests or rng.random() < 0.5 else s.discover_partitions()
    got = {x.storage_partition.path: (x.partition_key, x.input_fingerprint, x.content_fingerprint) for x in found}
    assert len(got) == len(found), f"{what}: found twice: {found}"
    assert got == expected, f"{what}: found {got} instead of {expected}"
    assert all(x.storage == s and type(x.storage_partition) is LocalFilePartition for x in found), what
    return what


@scenario("C08", runs=120, bound="one stored partition and one fault: an unparsable, respelled or incomplete path; a faulty template")
def faulty_paths_and_templates_are_errors(rng, tmp):
    names = rng.sample(["d", "i", "jj"], rng.randint(1, 2))
    parts = [os.path.join(tmp, "r"), "/"]
    for n in names:
        for c in FIELDS[n][2][0] if n != "i" else rng.choice(FIELDS[n][2][:2]):
            parts += [c, "/"]
    with_fp = rng.random() < 0.5
    parts += [FP_FIELD, "/f"] if with_fp else ["f"]
    kt = Collection(element=Struct(fields={"x": Int64(), **{n: FIELDS[n][0] for n in names}}), partition_by=tuple(names))
    key = PartitionKey({n: FIELDS[n][1](rng) for n in names})
    fp = Fingerprint(5) if with_fp else None
    requests = InputFingerprints({key: fp}) if with_fp else InputFingerprints()
    _write(_fill(parts, key, fp), "x")
    s = LocalFile(path="".join(parts))._visit_type(kt)
    assert [x.partition_key for x in s.discover_partitions(requests)] == [key]
    comps = [k for k, p in enumerate(parts) if p[0] == "{" and ".hex" not in p]
    fault = rng.choice(["garbage", "respelled", "incomplete", "whole", "unknown", "nested", "other"])
    if fault in ("garbage", "respelled") and comps:
        at = rng.choice(comps)
        texts = [_component(p, key, fp) if p[0] == "{" else p for p in parts]
        texts[at] = rng.choice(["zzz", "1.5", "--1", "0x"]) if fault == "garbage" else ("-0" + texts[at][1:] if texts[at][0] == "-" else "0" + texts[at])
        _write("".join(texts), "x")
        got = outcome(s.discover_partitions, requests)
        assert got[0] == "raises", f"{''.join(texts)} next to {_fill(parts, key, fp)} gave {got[1]}"
        return "".join(texts)
    n = names[0]
    at = next(k for k, p in enumerate(parts) if p.startswith("{" + n + "."))
    broken = list(parts)
    if fault == "incomplete":
        broken[at] = _component(parts[at], key, fp)
    else:
        broken[at] = {"whole": "{%s}" % n, "unknown": "{%s.nope}" % n, "nested": "{%s.value.real}" % n}.get(fault, "{other.value}")
    s = LocalFile(path="".join(broken))._visit_type(kt)
    got = outcome(s.discover_partitions, requests)
    assert got[0] == "raises", f"{s.path} gave {got[1]}"
    return s.path


@scenario("C08", runs=60, bound="preset, absent and produced literals")
def literals_are_found_as_set(rng, tmp):
    value = rng.choice([None, "", "v", "{a}", "{input_fingerprint}", "x" * 50])
    produced = rng.random() < 0.5
    by = rng.random() < 0.5
    s = StringLiteral(id=rng.choice(["a", "a/{input_fingerprint}"]), value=value)._visit_type(
        Collection(element=Struct(fields={"x": Int64(), "i": Int64()}), partition_by=("i",) if by else ())
    )
    key = PartitionKey(i=Int64Field(value=3)) if by else PartitionKey()
    requests = InputFingerprints({key: Fingerprint(9)}) if produced else InputFingerprints()
    got = outcome(s.discover_partitions, requests)
    what = f"{s!r} {dict(requests)}"
    if (produced and value is not None) or (by and not produced):
        assert got[0] == "raises", f"{what}: {got[1]}"
    elif value is None:
        assert got == ("ok", ()), f"{what}: {got}"
    elif FP_FIELD in s.id:
        assert got[0] == "raises", f"{what}: {got[1]}"
    else:
        [one] = got[1]
        assert one.storage_partition.value == value and one.partition_key == key and one.input_fingerprint is None, f"{what}: {one}"
        assert one.content_fingerprint == Fingerprint.from_string(value), what
    return what
