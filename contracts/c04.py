"""C04: frozen mappings are immutable, order-insensitive values."""

from arti.internal.mappings import frozendict
from pyvc.spec import *

__lemmas__ = True

Str, Int = KStr(), KInt()
D = KDict(Str, Int)
Pairs = KSeq(KTuple([Str, Int]))


def code(engine):
    """frozendict's own methods are under verification: do not treat it as a primitive value."""
    engine.frozen_as_value = False


def L(**kw):
    return lemma("C04", setup=code, **kw)


@L(params=dict(d=D, k=Str))
def lookups_agree_with_the_dictionary(d, k):
    f = frozendict(d)
    assert len(f) == len(d)
    assert (k in f) == (k in d)
    assert f.get(k) == d.get(k)
    if k in d:
        assert f[k] == d[k]
    else:
        assert raises(KeyError, lambda: f[k])
    assert list(f) == list(d)
    assert list(f.keys()) == list(d.keys())


@L(params=dict(xs=Pairs, k=Str))
def pairs_agree_with_the_dictionary(xs, k):
    d = dict(xs)
    f = frozendict(xs)
    assert len(f) == len(d)
    assert f.get(k) == d.get(k)
    assert (k in f) == (k in d)


@L(params=dict(d=D, a=Int, b=Int, k=Str))
def keywords_agree_with_the_dictionary(d, a, b, k):
    f = frozendict(d, left=a, right=b)
    e = dict(d, left=a, right=b)
    assert len(f) == len(e)
    assert f.get(k) == e.get(k)
    assert frozendict(left=a)["left"] == a


@L(params=dict(d=D, k=Str, v=Int, j=Str))
def later_changes_of_the_source_do_not_show(d, k, v, j):
    src = dict(d)
    f = frozendict(src)
    h = hash(f)
    src[k] = v
    assert f.get(j) == d.get(j)
    assert len(f) == len(d)
    src.clear()
    assert f.get(j) == d.get(j)
    assert len(f) == len(d)
    assert hash(f) == h


@L(params=dict(xs=Pairs, k=Str, v=Int, j=Str))
def later_changes_of_the_pairs_do_not_show(xs, k, v, j):
    src = list(xs)
    f = frozendict(src)
    before = f.get(j)
    src.append((k, v))
    assert f.get(j) == before


@L(params=dict(d=D, e=D))
def equal_contents_equal_hash(d, e):
    assume(d == e)
    f, g = frozendict(d), frozendict(e)
    assert f == g
    assert hash(f) == hash(g)


@L(params=dict(d=D, e=D))
def equality_is_equality_of_contents(d, e):
    f, g = frozendict(d), frozendict(e)
    assert (f == g) == (d == e)
    assert (f == e) == (d == e)


UNIONS = {
    "frozen_frozen": lambda d, e: (frozendict(d), frozendict(e)),
    "frozen_plain": lambda d, e: (frozendict(d), dict(e)),
    "plain_frozen": lambda d, e: (dict(d), frozendict(e)),
}


def _unions():
    for name, mk in UNIONS.items():

        def right_biased(d, e, k, mk):
            f, g = mk(d, e)
            u = f | g
            assert type(u) is frozendict
            assert (k in u) == (k in d or k in e)
            if k in e:
                assert u[k] == e[k]
            elif k in d:
                assert u[k] == d[k]

        def operands_kept(d, e, k, mk):
            f, g = mk(d, e)
            f | g
            assert f.get(k) == d.get(k) and g.get(k) == e.get(k)
            assert (k in f) == (k in d) and (k in g) == (k in e)
            assert len(f) == len(d) and len(g) == len(e)

        L(params=dict(d=D, e=D, k=Str, mk=KConst(mk)), name=f"union_is_right_biased_{name}")(right_biased)
        L(params=dict(d=D, e=D, k=Str, mk=KConst(mk)), name=f"union_keeps_its_operands_{name}")(operands_kept)


_unions()


@L(params=dict(d=D, k=Str, v=Int))
def has_no_mutating_operation(d, k, v):
    f = frozendict(d)

    def assign():
        f[k] = v

    def delete():
        del f[k]

    assert raises(TypeError, assign)
    assert raises(TypeError, delete)
    for name in ("update", "pop", "popitem", "clear", "setdefault", "__setitem__", "__delitem__", "__ior__"):
        assert not hasattr(f, name)


# ------------------------------------------------------------------ bounded stand-ins (real code, sampled)


class _View:
    """A mapping that is not a dict."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]


def _values(rng, depth=0):
    pick = rng.choice("isbtnf" if depth < 2 else "isbn")
    return {
        "i": lambda: rng.randint(-3, 3), "s": lambda: rng.choice(["", "a", "b", "-1"]), "b": lambda: rng.random() < 0.5,
        "t": lambda: tuple(_values(rng, depth + 1) for _ in range(rng.randint(0, 2))), "n": lambda: None,
        "f": lambda: frozendict({_values(rng, 2): _values(rng, depth + 1) for _ in range(rng.randint(0, 2))}),
    }[pick]()


@scenario("C04", runs=200, bound="up to 5 pairs of nested hashable values (numbers, texts, tuples, frozen mappings), dict / pairs / view / iterator sources")
def mixed_values(rng, tmp):
    pairs = [(_values(rng), _values(rng)) for _ in range(rng.randint(0, 5))]
    kw = {k: _values(rng) for k in ("a", "b", "arg1") if rng.random() < 0.3}
    how = rng.choice(["dict", "pairs", "view", "iter", "frozen", "items"])
    base = dict(pairs)
    src = {"dict": base, "pairs": list(pairs), "view": _View(base), "iter": iter(list(pairs)), "frozen": frozendict(base),
           "items": base.items()}[how]
    want = dict(pairs, **kw)
    f = frozendict(src, **kw)
    h, r = hash(f), repr(f)
    base.clear()
    base["new"] = 1
    if isinstance(src, list):
        src.append(("new", 1))
    kw["b"] = "changed"
    assert dict(f) == want and list(f) == list(want) and len(f) == len(want) and hash(f) == h and repr(f) == r == repr(want)
    for k in [*want, "missing", 0, None, ()]:
        assert (k in f) == (k in want) and f.get(k, "d") == want.get(k, "d")
    shuffled = list(want.items())
    rng.shuffle(shuffled)
    g = frozendict(shuffled)
    assert g == f and f == g and hash(g) == h and f == want and {f: 1}[g] == 1
    more = {k: _values(rng) for k in [*list(want)[:2], "zz"] if rng.random() < 0.7}
    for left, right in ((f, frozendict(more)), (f, more), (want, frozendict(more))):
        lw, rw = dict(left), dict(right)
        u = left | right
        assert isinstance(u, frozendict) and dict(u) == {**lw, **rw}, (left, right, u)
        assert dict(left) == lw and dict(right) == rw and hash(f) == h
    assert (f == frozendict({**want, "zz": object()})) is False
    return how, want


@scenario("C04", runs=60, bound="one unhashable value at a random place among up to 5 pairs")
def unhashable_is_rejected(rng, tmp):
    d = {f"k{i}": _values(rng) for i in range(rng.randint(1, 5))}
    bad = rng.choice([[], {}, set(), [1], ({},), (1, [2])])
    d[rng.choice(list(d))] = bad
    how = rng.choice(["dict", "pairs", "kw"])
    try:
        frozendict(**d) if how == "kw" else frozendict(d if how == "dict" else list(d.items()))
    except TypeError:
        return how, d
    raise AssertionError(f"frozendict accepted the unhashable {bad!r}")


@scenario("C04", runs=60, bound="model fields declared FrozenMapping / frozendict, up to 4 entries")
def model_fields_are_frozen(rng, tmp):
    from arti.internal.mappings import FrozenMapping
    from arti.internal.models import Model

    class M(Model):
        a: FrozenMapping[str, int]
        b: frozendict[str, tuple[int, ...]]

    src = {f"k{i}": rng.randint(-5, 5) for i in range(rng.randint(0, 4))}
    srcb = {k: (v, v) for k, v in src.items()}
    want, wantb = dict(src), dict(srcb)
    m = M(a=src, b=srcb)
    src["x"] = 1
    srcb["x"] = (1,)
    assert isinstance(m.a, frozendict) and isinstance(m.b, frozendict)
    assert dict(m.a) == want and dict(m.b) == wantb
    n = M(a=dict(reversed(list(want.items()))), b=frozendict(wantb))
    assert n == m and hash(n) == hash(m)
    return want
