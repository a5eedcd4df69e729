"""C07: storage templates are resolved exactly, and only where asked."""

import _string
import re
import string

import arti.storage._internal as internal
from pyvc.core import *
from pyvc.models import _concat_parts, str_t
from pyvc.spec import *
from pyvc.values import Native

__lemmas__ = True

Str = KStr()
SEP = "/"

# ---------------------------------------------------------------------------- filling placeholders


def formatting(engine):
    """string.Formatter is executed; only its parser (C code) is a contract, on texts concatenated from known pieces."""
    e = engine
    e.used_contracts.add("string.Formatter.parse splits a template into literal texts without braces and {name.attr[index]:suffix} fields")
    e.inline_prefixes = (*e.inline_prefixes, "string")

    def unmark(text, mark):
        if not any(c in text for c in mark):
            return text
        parts = re.split("([%s])" % "".join(mark), text)
        ts = [mark.get(x, None) if x in mark else z3.StringVal(x) for x in parts if x]
        return e.wrap(Str, [z3.simplify(z3.Concat(*ts) if len(ts) > 1 else ts[0])])

    def split(e2, args, kw):
        """_string.formatter_field_name_split with an unknown text as the last index (not a number)."""
        name = e2.res(args[0])
        if isinstance(name, str):
            return e2.lift(_string.formatter_field_name_split(name))
        parts = _concat_parts(z3.simplify(name.t))
        if len(parts) != 3 or not parts[0].as_string().endswith("[") or parts[2].as_string() != "]":
            raise Unsupported("an unknown text elsewhere in a field")
        first, rest = _string.formatter_field_name_split(parts[0].as_string() + "0]")
        index = e2.wrap(Str, [parts[1]])
        if e2.branch(decimal(parts[1])):
            raise Unsupported("a numeric index")
        return e2.lift((first, [*list(rest)[:-1], (False, index)]))

    decimal = ufun("str.isdecimal", z3.StringSort(), z3.BoolSort())
    e.models[(str, "isdecimal")] = lambda e2, a, kw: SBool(decimal(str_t(e2, a[0])))

    def isdigit(e2, a, kw):
        parts = _concat_parts(z3.simplify(str_t(e2, a[0])))
        if any(z3.is_string_value(p) and not p.as_string().isdigit() for p in parts):
            return False
        raise Unsupported("isdigit of an unknown text")

    e.models[(str, "isdigit")] = isdigit
    e.contracts[_string.formatter_field_name_split] = split

    def parse(e2, args, kw):
        text = e2.res(args[-1])
        pieces, out, lit = [], [], []
        for p in _concat_parts(text.t) if isinstance(text, SStr) else [z3.StringVal(text)]:
            if pieces and z3.is_string_value(p) and z3.is_string_value(pieces[-1]):
                p = z3.StringVal(pieces.pop().as_string() + p.as_string())
            pieces.append(p)

        def literal():
            t = z3.Concat(*lit) if len(lit) > 1 else lit[0] if lit else z3.StringVal("")
            lit.clear()
            return e2.wrap(Str, [z3.simplify(t)])

        mark = {}
        while pieces:
            p = pieces.pop(0)
            if not z3.is_string_value(p):
                if e2.branch(z3.Or(z3.Contains(p, "{"), z3.Contains(p, "}"))):
                    raise Unsupported("braces in an unknown text")
                lit.append(p)
                continue
            s = p.as_string()
            i = s.find("{")
            if i < 0:
                lit.append(p)
                continue
            while "}" not in s[i:] and pieces:  # an unknown text inside the braces: stands for one character
                q = pieces.pop(0)
                if z3.is_string_value(q):
                    s += q.as_string()
                elif e2.branch(z3.Or(q == "", *[z3.Contains(q, c) for c in "{}[]"])):
                    raise Unsupported("an empty text or brackets inside a field")
                else:
                    c = chr(0xE000 + len(mark))
                    mark[c] = q
                    s += c
            j = s.index("}", i)
            if i:
                lit.append(z3.StringVal(s[:i]))
            [(_, name, spec, conv)] = string.Formatter().parse(s[i : j + 1])
            out.append((literal(), unmark(name, mark), unmark(spec, mark), conv))
            if s[j + 1 :]:
                pieces.insert(0, z3.StringVal(s[j + 1 :]))
        if lit:
            out.append((literal(), None, None, None))
        return e2.lift(out)

    e.contracts[string.Formatter.parse] = parse
    e.contracts[internal.FormatDict] = lambda e2, args, kw: Inst(internal.FormatDict, {"placeholder_type": args[0], "values": dict(kw)})

    def item(e2, d):
        def get(e3, args, kw):
            vs, k = d.f["values"], args[0]
            return vs[k] if k in vs else e3.call(internal.FormatDict.__missing__, [d, k], {})

        return Native(get, "FormatDict.__getitem__")

    e.attr_specs[(internal.FormatDict, "__getitem__")] = item
    e.used_contracts.add("dict: a subclass's __missing__ answers for keys that are not there")


LIT = ["", "/", "a/", "x y", "\u00e9=", "/b/c_", "p=1/"]
OTHER = ["{b}", "{b.m}", "{b.m[7]}", "{b.m:02}", "{b.m[7]:02}", "{b[k].c:x}", "{aa}", "{b.a}", "{b:a}"]
PARAMS = dict(l0=Str, l1=Str, l2=Str, v=Str)


def gen(rng, values=("v", "", "{", "{b}", "{a}", "a/b", "}")):
    return dict(l0=rng.choice(LIT), l1=rng.choice(LIT), l2=rng.choice(LIT), v=rng.choice(values))


def plain(*texts):
    return not any("{" in x or "}" in x for x in texts)


def _template_lemmas():
    for n, other in enumerate(OTHER):

        @lemma("C07", name=f"only_the_named_placeholder_is_filled_{n}", params={**PARAMS, "other": KConst(other)}, setup=formatting,
               gen=lambda rng, other=other: {**gen(rng), "other": other})
        def only_the_named_placeholder_is_filled(l0, l1, l2, v, other):
            """Every occurrence of the placeholder, nothing else, whatever braces the given text has."""
            assume(plain(l0, l1, l2))
            assert internal.partial_format(l0 + "{a}" + l1 + other + l2, a=v) == l0 + v + l1 + other + l2
            assert internal.partial_format(l0 + other + l1 + "{a}" + l2, a=v) == l0 + other + l1 + v + l2
            assert internal.partial_format(l0 + "{a}" + l1 + "{a}" + l2, a=v, c="unused") == l0 + v + l1 + v + l2
            assert internal.partial_format(l0 + other + l1 + other + l2) == l0 + other + l1 + other + l2

        @lemma("C07", name=f"several_steps_equal_one_{n}", params={**PARAMS, "w": Str, "other": KConst(other)}, setup=formatting,
               gen=lambda rng, other=other: {**gen(rng, ("v", "x/", "")), "w": rng.choice(["", "w", "a"]), "other": other})
        def several_steps_equal_one(l0, l1, l2, v, w, other):
            assume(plain(l0, l1, l2, v, w))
            t = l0 + "{a}" + l1 + "{c}" + other + l2
            at_once = internal.partial_format(t, a=v, c=w)
            assert at_once == l0 + v + l1 + w + other + l2
            assert internal.partial_format(internal.partial_format(t, a=v), c=w) == at_once
            assert internal.partial_format(internal.partial_format(t, c=w), a=v) == at_once


_template_lemmas()


@lemma("C07", params=PARAMS, setup=formatting, gen=gen)
def preset_indices_are_dropped_to_fill_in_key_components(l0, l1, l2, v):
    assume(plain(l0, l1, l2))
    strip = internal.strip_partition_indexes
    assert strip(l0 + "{b.m[7]:02}" + l1 + "{b.m[7]}" + l2) == l0 + "{b.m:02}" + l1 + "{b.m}" + l2
    assert strip(l0 + "{b.m:02}" + l1 + "{b.m}" + l2) == l0 + "{b.m:02}" + l1 + "{b.m}" + l2
    assert strip(l0 + "{c[x]}" + l1 + "{input_fingerprint}" + l2) == l0 + "{c}" + l1 + "{input_fingerprint}" + l2


IDX = ["x", "2021-01-01", "-5", "a b", "0x1f", "1.5"]


@lemma("C07", params=dict(l0=Str, l1=Str, k=Str, v=Str), setup=formatting, gen=lambda rng: {"l0": rng.choice(LIT), "l1": rng.choice(LIT), "k": rng.choice(IDX), "v": "v"})
def any_preset_index_is_kept_or_dropped(l0, l1, k, v):
    """Indices that are not numbers (whole numbers: above)."""
    assume(plain(l0, l1, k) and not k.isdecimal() and k != "" and "[" not in k and "]" not in k)
    strip = internal.strip_partition_indexes
    assert strip(l0 + "{b.m[" + k + "]:02}" + l1) == l0 + "{b.m:02}" + l1
    assert strip(l0 + "{b[" + k + "]}" + l1) == l0 + "{b}" + l1
    t = l0 + "{b.m[" + k + "]:02}{a}" + l1
    assert internal.partial_format(t, a=v) == l0 + "{b.m[" + k + "]:02}" + v + l1


@lemma("C07", params=PARAMS, setup=formatting, gen=gen)
def a_field_is_resolved_with_the_given_texts(l0, l1, l2, v):
    """Storage._resolve_field on texts that are not empty."""
    assume(plain(l0, l1, l2))
    assume(v != "")
    s = LocalFile(path="x")
    for other in ("{b}", "{b.m[7]:02}"):
        t = l0 + "{a}" + l1 + other + l2
        assert Storage._resolve_field(s, "path", t, {"a": v}) == l0 + v + l1 + other + l2


@lemma("C07", params=PARAMS, setup=formatting, gen=lambda rng: {**gen(rng), "v": ""})
def an_empty_text_removes_the_placeholder_and_its_separator(l0, l1, l2, v):
    assume(plain(l0, l1, l2))
    assume(not l0.endswith("/") and not l1.endswith("/") and not l2.endswith("/") and not l2.startswith("/"))
    s = LocalFile(path="x")
    resolve = lambda t: Storage._resolve_field(s, "path", t, {"a": ""})
    for other in ("{b}", "{b.m[7]:02}"):
        assert resolve(l0 + "{a}/" + other + l1) == l0 + other + l1
        assert resolve(l0 + other + "{a}/" + l1) == l0 + other + l1
        assert resolve(l0 + "{a}/x/" + other + "{a}/{a}" + l2) == l0 + "x/" + other + l2
        assert resolve(l0 + other + "///{a}/{a}") == l0 + other
    assert raises(ValueError, lambda: resolve("{a}/{a}"))
    assert raises(ValueError, lambda: resolve("/{a}//"))


# ----------------------------------------------------------------------------- resolving storages

from arti import Graph
from arti.formats.json import JSON
from arti.fingerprints import Fingerprint
from arti.internal.mappings import frozendict
from arti.partitions import Int64Field, PartitionField, PartitionKey
from arti.storage import Storage, StoragePartition
from arti.storage.local import LocalFile
from pydantic import BaseModel


class TwoPartition(StoragePartition):
    """A partition with two templated fields and one other."""

    first: str
    n: int
    second: str

    def compute_content_fingerprint(self):
        return Fingerprint(1)


class Two(Storage[TwoPartition]):
    """A storage with two templated fields and one other."""

    first: str = "{a}"
    n: int = 3
    second: str = "{b}"

    def discover_partitions(self, input_fingerprints=frozendict()):
        return ()


def storage(e, n):
    f = {k: e.fresh_val(kind, f"{n}.{k}") for k, kind in dict(first=Str, n=KInt(), second=Str).items()}
    f["_key_types"] = e.fresh_val(KDict(Str, KObj(type)), n + ".key_types")
    return Inst(Two, f)


def resolving(engine):
    e = engine
    e.used_contracts.add("pydantic: model_copy(update=...) copies the fields and updates those given")
    e.used_contracts.add("filling one field is a function of the field's name, its text and the given texts (proved above for the shapes listed)")

    def copy(e2, args, kw):
        m = e2.res(args[0])
        up = e2.content(kw["update"])
        f = dict(m.f)
        if isinstance(up, CDict):
            f.update(up.d)
        elif isinstance(up, dict):
            f.update(up)
        else:
            raise Unsupported("update")
        return Inst(m.cls, f)

    e.contracts[Storage.model_copy] = copy
    e.contracts[Storage._resolve_field] = lambda e2, args, kw: e2.uf_str("resolved", *[e2.res(a) for a in args[1:3]], e2.res(args[3]))


def gen_storage(rng):
    t = lambda: rng.choice(["{a}", "{a}/{b}", "x/{c}/{input_fingerprint}", "lit", "{b.Y}/{a}"])
    s = Two(first=t(), second=t(), n=rng.randint(0, 3))
    s._key_types = rng.choice([frozendict(), frozendict(c=Int64Field)])
    return dict(s=s, v=rng.choice(["x", "y/z"]))


@lemma("C07", params=dict(s=storage, v=Str), setup=resolving, gen=gen_storage)
def every_text_field_is_resolved_and_nothing_else_changes(s, v):
    r = s.resolve(a=v)
    assert r.first == s._resolve_field("first", s.first, {"a": v})
    assert r.second == s._resolve_field("second", s.second, {"a": v})
    assert r.n == s.n and r._key_types == s._key_types


# ------------------------------------------------------------------------ generating concrete partitions


def generating(engine):
    e = engine
    resolving(e)
    e.used_contracts.add("pydantic: TwoPartition(...) stores the given field values")
    e.contracts[TwoPartition] = lambda e2, args, kw: Inst(TwoPartition, dict(kw)) if set(kw) == set(TwoPartition.model_fields) else e2.raise_(ValueError, "fields")
    e.used_contracts.add("str.format: fills in the named texts (every placeholder is given; exercised natively)")
    e.contracts[internal.strip_partition_indexes] = lambda e2, args, kw: e2.uf_str("stripped", e2.res(args[0]))

    def fmt(e2, args, kw):
        s = e2.res(args[0])
        return e2.uf_str("formatted", s, e2.res(kw["**"]) if set(kw) == {"**"} else e2.lift(dict(kw)))

    e.models[(str, "format")] = fmt
    e.contracts[BaseModel.__repr__] = lambda e2, args, kw: "a model's repr"
    e.contracts[int.__str__] = e.contracts[Fingerprint.__str__] = lambda e2, args, kw: e2.uf_str("fp.str", e2.res(args[0]))


def gen_generate(rng):
    s = gen_storage(rng)["s"]
    t = lambda: rng.choice(["x/{c.value}", "{c.hex[7]}/{input_fingerprint}", "lit", "{input_fingerprint}/y", "{c.value:03}"])
    s = s.model_copy(update={"first": t(), "second": t()})
    s._key_types = frozendict() if rng.random() < 0.3 and "{c" not in s.first + s.second else frozendict(c=Int64Field)
    c = Int64Field(value=rng.randint(-3, 300))
    return dict(s=s, key=rng.choice([PartitionKey(), PartitionKey(c=c), PartitionKey(c=c)]), fp=Fingerprint(rng.choice([5, -5, 1 << 62])))


Key = KDict(Str, KObj(PartitionField), PartitionKey)


def templated(s):
    return "{input_fingerprint}" in s.first or "{input_fingerprint}" in s.second


def filled(text, values):
    return internal.strip_partition_indexes(text).format(**values)


@lemma("C07", params=dict(s=storage, key=Key), setup=generating, gen=lambda rng: {k: v for k, v in gen_generate(rng).items() if k != "fp"})
def a_partition_without_fingerprint_fills_in_its_key(s, key):
    refused = (bool(s._key_types) and not key) or (bool(key) and not s._key_types) or templated(s)
    assume(bool(key) == bool(s._key_types) or refused)
    r = outcome(lambda: s.generate_partition(partition_key=key))
    assert (r[0] == "raises") == refused
    if not refused:
        p = r[1]
        assert p.first == filled(s.first, dict(key)) and p.second == filled(s.second, dict(key))
        assert p.n == s.n and p.partition_key == key and p.input_fingerprint is None and p.storage is s


@lemma("C07", params=dict(s=storage, key=Key, fp=KInt(Fingerprint)), setup=generating, gen=gen_generate)
def a_partition_with_fingerprint_fills_in_both(s, key, fp):
    refused = (bool(s._key_types) and not key) or (bool(key) and not s._key_types) or not templated(s)
    r = outcome(lambda: s.generate_partition(input_fingerprint=fp, partition_key=key))
    assert (r[0] == "raises") == refused
    if not refused:
        p = r[1]
        values = {**key, "input_fingerprint": str(fp)}
        assert p.first == filled(s.first, values) and p.second == filled(s.second, values)
        assert p.n == s.n and p.partition_key == key and p.input_fingerprint == fp and p.storage is s


# ---------------------------------------------------------------------------- what is given by the graph


def alike(a, b):
    return a.first == b.first and a.second == b.second and a.n == b.n


@lemma("C07", params=dict(s=storage, names=KSeq(Str), fp=KAlt([KInt(Fingerprint), KConst(None)])), setup=generating,
       gen=lambda rng: dict(s=gen_storage(rng)["s"], names=tuple(rng.choice("abc") for _ in range(rng.randint(0, 3))), fp=rng.choice([None, Fingerprint(3)])))
def names_and_fingerprints_are_resolved(s, names, fp):
    r = s._visit_names(names)
    if names:
        assert alike(r, s.resolve(name=names[-1], names="/".join(names)))
    else:
        assert alike(r, s.resolve(name="", names=""))
    if fp is None:
        assert alike(s._visit_input_fingerprint(fp), s.resolve(input_fingerprint=""))
    else:
        assert alike(s._visit_input_fingerprint(fp), s.resolve(input_fingerprint=str(fp)))


def graphs(e, n):
    return Inst(Graph, {"name": e.fresh_val(Str, n + ".name"), "path_tags": e.fresh_val(KDict(Str, Str, frozendict), n + ".path_tags")})


def gen_graph(rng):
    g = Graph(name=rng.choice(["g", ""]), path_tags={k: rng.choice("xy") for k in rng.sample("abc", rng.randint(0, 3))})
    return dict(s=gen_storage(rng)["s"], g=g)


@lemma("C07", params=dict(s=storage, g=graphs), setup=generating, gen=gen_graph)
def the_graph_name_and_path_tags_are_resolved(s, g):
    expected = s.resolve(graph_name=g.name, path_tags="/".join(f"{k}={v}" for k, v in g.path_tags.items()))
    assert alike(s._visit_graph(g), expected)


@lemma("C07", params=dict(s=storage, f=lambda e, n: Inst(JSON, {"extension": e.fresh_val(Str, "extension")})), setup=generating,
       gen=lambda rng: dict(s=gen_storage(rng)["s"], f=rng.choice([JSON(), JSON(extension=""), JSON(extension=".a.gz")])))
def the_format_extension_is_resolved(s, f):
    assert alike(s._visit_format(f), s.resolve(extension=f.extension))


# ----------------------------------------------------------------------- whole templates (bounded)

import datetime

from arti import Annotation
from arti.partitions import DateField, Int8Field
from arti.storage.literal import StringLiteral
from arti.types import Collection, Date, Int8, Int64, Struct

TOKEN = re.compile(r"(\{[^{}]*\})")
NAMES = ["a", "b", "c", "graph_name", "aa"]


def some_template(rng):
    out = []
    for _ in range(rng.randint(1, 6)):
        n = rng.choice(NAMES)
        out.append(rng.choice(["x", "/", "/y/", "e\u0301=", "-", " ", "{%s}" % n, "{%s}" % n, "{%s}/" % n, "/{%s}" % n, "{k.Y}", "{k.Y[1970]:04}/", "{k.m:02}", "{aaa}"]))
    t = "".join(out)
    return t if t.rstrip("/") == t else t + "z"


def reference(template, values):
    """What resolving gives (None: an error), written independently: tokens are removed or filled one by one."""
    toks = [x for x in TOKEN.split(template) if x]
    dropped = False
    out = []
    for i, t in enumerate(toks):
        if t[0] == "{" and t[1:-1] in values:
            v = values[t[1:-1]]
            if v == "":
                dropped = True
                if i + 1 < len(toks) and toks[i + 1][0] == "/":
                    toks[i + 1] = toks[i + 1][1:] or " "[:0]
                    if not toks[i + 1]:
                        toks[i + 1] = "\0"
            out.append(v)
        elif t != "\0":
            out.append(t)
    text = "".join(out)
    if dropped:
        text = text.rstrip("/")
    return text or None


def values_for(rng, names, texts=("v", "x/y", "0", " ", "\u00e9", "a")):
    return {n: ("" if rng.random() < 0.3 else rng.choice(texts)) for n in names}


@scenario("C07", runs=400, bound="templates of up to 6 parts over 5 placeholder names; values without braces or separators at their ends; 1-3 steps")
def templates_are_resolved_like_the_reference(rng, tmp):
    t = some_template(rng)
    values = values_for(rng, rng.sample(NAMES, rng.randint(0, 4)))
    make = rng.choice([lambda p: LocalFile(path=p), lambda p: StringLiteral(id=p, value=rng.choice([None, "{a}", "", "x/"]))])
    s = make(t)
    field = "path" if isinstance(s, LocalFile) else "id"
    expected = reference(t, values)
    what = f"{t!r} given {values!r}"
    before = (repr(s), s.fingerprint)

    def run(steps):
        r = s
        for st in steps:
            r = r.resolve(**st)
        return r

    order = list(values.items())
    rng.shuffle(order)
    cut = sorted(rng.randint(0, len(order)) for _ in range(2))
    for steps in ([values], [dict(order)], [dict(order[: cut[0]]), dict(order[cut[0] : cut[1]]), dict(order[cut[1] :])]):
        got = outcome(run, steps)
        if expected is None:
            assert got[0] == "raises", f"{what}: {steps} gave {got[1]!r} instead of an error"
        else:
            assert got[0] == "ok", f"{what}: {steps} is refused instead of giving {expected!r}"
            r = got[1]
            assert getattr(r, field) == expected, f"{what}: {steps} gave {getattr(r, field)!r} instead of {expected!r}"
            if field == "id":
                assert r.value == s.value, f"{what}: the value became {r.value!r}"
    assert (repr(s), s.fingerprint) == before, f"{what}: resolving changed the storage itself"
    return what


@scenario("C07", runs=200, bound="placeholder texts with braces, each filled once")
def texts_with_braces_are_data(rng, tmp):
    t = some_template(rng)
    values = {n: rng.choice(["{", "}", "{b}", "{a}", "x{{y", "{k.Y}", "{}"]) for n in rng.sample(NAMES, rng.randint(0, 4))}
    got = LocalFile(path=t).resolve(**values).path
    expected = reference(t, values)
    assert got == expected, f"{t!r} given {values!r} gave {got!r} instead of {expected!r}"
    return f"{t!r} {values!r}"


COMPONENTS = {
    "d": (Date(), lambda r: DateField(value=datetime.date(r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28))),
          {"{d.Y}": lambda f: str(f.value.year), "{d.Y:04}": lambda f: f"{f.value.year:04}", "{d.m:02}": lambda f: f"{f.value.month:02}", "{d.m}": lambda f: str(f.value.month),
           "{d.d[7]:02}": lambda f: f"{f.value.day:02}", "{d.iso}": lambda f: f.value.isoformat(), "{d.iso[2021-01-01]}": lambda f: f.value.isoformat(), "{d.Y[1970]}": lambda f: str(f.value.year), "{d.value}": lambda f: str(f.value)}),
    "i": (Int64(), lambda r: Int64Field(value=r.choice([0, -1, 7, 255, -256, (1 << 63) - 1])),
          {"{i.value}": lambda f: str(f.value), "{i.hex}": lambda f: hex(f.value), "{i.value[-3]}": lambda f: str(f.value), "{i.hex[0x1f]}": lambda f: hex(f.value), "{i.value[3]}": lambda f: str(f.value), "{i.value:05}": lambda f: f"{f.value:05}"}),
    "b8": (Int8(), lambda r: Int8Field(value=r.choice([0, -128, 127, 5])), {"{b8.value}": lambda f: str(f.value), "{b8.hex}": lambda f: hex(f.value)}),
}


@scenario("C07", runs=300, bound="keys of up to 3 fields (Date, Int64, Int8), templates of up to 6 parts, local files and literals")
def concrete_partitions_fill_in_the_key_and_the_fingerprint(rng, tmp):
    names = rng.sample(sorted(COMPONENTS), rng.randint(0, 3))
    type_ = Collection(element=Struct(fields={"x": Int64(), **{n: COMPONENTS[n][0] for n in names}}), partition_by=tuple(names))
    parts = [rng.choice(["lit", "a=", "-"])]
    for n in names:
        parts += rng.choices(sorted(COMPONENTS[n][2]), k=rng.randint(1, 2))
    if rng.random() < 0.5:
        parts += ["{input_fingerprint}"] * rng.randint(1, 2)
    rng.shuffle(parts)
    t = "/".join(parts)
    s = rng.choice([lambda: LocalFile(path=t), lambda: StringLiteral(id=t, value=rng.choice([None, "{d.Y}"]))])()._visit_type(type_)
    field = "path" if isinstance(s, LocalFile) else "id"
    key = PartitionKey({n: COMPONENTS[n][1](rng) for n in names})
    given = rng.random()
    if given < 0.15:
        key = PartitionKey()
    elif given < 0.25 and not key:
        key = PartitionKey(i=Int64Field(value=1))
    fp = rng.choice([None, Fingerprint(5), Fingerprint(-(1 << 63))])
    what = f"{t!r} given {dict(key)!r}, {fp!r}"
    refused = bool(key) != bool(names) or (fp is None) == ("{input_fingerprint}" in t)
    got = outcome(s.generate_partition, partition_key=key, input_fingerprint=fp)
    assert (got[0] == "raises") == refused, f"{what}: {got!r}"
    if refused:
        return what
    expected = "/".join(
        str(fp) if p == "{input_fingerprint}" else COMPONENTS[p[1:].split(".")[0]][2][p](key[p[1:].split(".")[0]]) if p[0] == "{" else p for p in parts
    )
    p = got[1]
    assert getattr(p, field) == expected, f"{what}: {getattr(p, field)!r} instead of {expected!r}"
    assert p.partition_key == key and p.input_fingerprint == fp and p.storage == s, what
    if field == "id":
        assert p.value == s.value, f"{what}: value {p.value!r}"
    return what


@scenario("C07", runs=150, bound="graphs, names, formats and key types as above, visited in any order")
def what_the_graph_gives_is_resolved_in_any_order(rng, tmp):
    names = rng.sample(sorted(COMPONENTS), rng.randint(0, 3))
    type_ = Collection(element=Struct(fields={"x": Int64(), **{n: COMPONENTS[n][0] for n in names}}), partition_by=tuple(names))
    graph = Graph(name=rng.choice(["g", "my graph"]), path_tags={k: rng.choice("xy") for k in rng.sample("pqr", rng.randint(0, 2))})
    path = tuple(rng.choice(["n1", "m"]) for _ in range(rng.randint(1, 3)))
    fmt = JSON(extension=rng.choice([".json", "", ".j.gz"]))
    fp = rng.choice([None, Fingerprint(77)])
    spec = "/".join(f"{n}_{c}={{{n}.{k}}}" for n in names for c, k in PartitionField.get_class_for(COMPONENTS[n][0]).default_components.items())
    tags = "/".join(f"{k}={v}" for k, v in graph.path_tags.items())
    steps = [lambda s: s._visit_type(type_), lambda s: s._visit_format(fmt), lambda s: s._visit_graph(graph), lambda s: s._visit_names(path), lambda s: s._visit_input_fingerprint(fp)]
    rng.shuffle(steps)
    s = LocalFile.rooted_at("/root")
    for st in steps:
        s = st(s)
    expected = "/".join(x for x in ["/root", graph.name, tags, "/".join(path), spec, str(fp) if fp is not None else "", path[-1] + fmt.extension] if x)
    assert s.path == expected, f"{s.path!r} instead of {expected!r}"
    assert dict(s.key_types) == {n: PartitionField.get_class_for(COMPONENTS[n][0]) for n in names}, s.key_types
    return s.path
