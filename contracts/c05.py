"""C05: namespaces hold each name once and are fixed once closed.

The lemmas run the real TypedBox code on namespaces of fixed shape with arbitrary (symbolic) names and
values: {h: {x: v}, g: w}.  Names are arbitrary texts without "." (a dotted name is written out as
f"{p}.{q}").  Deeper nestings and longer histories are covered by the bounded model-based stand-in.
"""

from arti.internal.mappings import BoxStatus, InvalidKeyError, TypedBox
from pyvc.spec import *
from pyvc.values import Inst

__lemmas__ = True

Str, Int, Bool = KStr(), KInt(), KBool()


class Box(TypedBox[int]):
    pass


def code(engine):
    def status(e, args, kw):
        s = Inst(BoxStatus, name="status")
        e.set(s, ("field", "root"), args[0])
        return s

    engine.contracts[BoxStatus] = status


def gen(*names, ints=(), bools=()):
    def g(rng):
        out = {n: rng.choice(["a", "b", "c", "x1", "", " ", "_p", "é", "a.b", "__init__", "keys", "h-1"]) for n in names}
        out |= {n: rng.randint(-3, 3) for n in ints}
        return out | {n: rng.random() < 0.5 for n in bools}

    return g


def L(budget=60, samples=400, **params):
    ints = [n for n, k in params.items() if k is Int]
    strs = [n for n, k in params.items() if k is Str]
    bools = [n for n, k in params.items() if k is Bool]
    return lemma("C05", setup=code, params=params, gen=gen(*strs, ints=ints, bools=bools), budget=budget, samples=samples,
                 note="names and values arbitrary, namespace shape fixed")


def name(*ns):
    """Plain names: no dots, no leading underscore."""
    for n in ns:
        assume("." not in n)
        assume(not n.startswith("_"))


def snap(b):
    return [(k, snap(x) if isinstance(x, TypedBox) else x) for k, x in b._data.items()]


def base(h, x, v, g, w):
    name(h, x, g)
    assume(h != g)
    return Box({h: {x: v}, g: w})


def close(box):
    box._status.root = "closed"


@L(h=Str, x=Str, v=Int, g=Str, w=Int)
def built_from_a_mapping(h, x, v, g, w):
    box = base(h, x, v, g, w)
    assert snap(box) == [(h, [(x, v)]), (g, w)]
    assert len(box) == 2 and list(box) == [h, g]
    assert box[g] == w and box[h][x] == v and box[f"{h}.{x}"] == v
    assert isinstance(box[h], Box)


@L(h=Str, x=Str, v=Int, g=Str, w=Int)
def built_from_dotted_names(h, x, v, g, w):
    name(h, x, g)
    assume(h != g)
    box = Box()
    box[f"{h}.{x}"] = v
    box[g] = w
    assert snap(box) == [(h, [(x, v)]), (g, w)]


@L(h=Str, x=Str, v=Int, p=Str, q=Str, u=Int)
def assigning_a_dotted_name_is_walking(h, x, v, p, q, u):
    name(h, x, p, q)
    one, two = Box({h: {x: v}}), Box({h: {x: v}})

    def walk():
        two[p][q] = u

    def dotted():
        one[f"{p}.{q}"] = u

    a, b = outcome(dotted), outcome(walk)
    assert a == b
    assert snap(one) == snap(two)
    if p == h and q == x:
        assert a[0] == "raises"
    else:
        assert a[0] == "ok"
        assert one[p][q] == u and one[f"{p}.{q}"] == u
    assert one[f"{h}.{x}"] == v


@L(h=Str, x=Str, v=Int, g=Str, w=Int, p=Str, u=Int)
def a_value_is_never_replaced(h, x, v, g, w, p, u):
    box = base(h, x, v, g, w)
    before = snap(box)

    def assign(key, value):
        box[key] = value

    assert raises(ValueError, assign, g, u)
    assert raises(ValueError, assign, g, {p: u})
    assert raises(ValueError, assign, h, u)
    assert raises(ValueError, assign, f"{h}.{x}", u)
    assert raises(ValueError, assign, h, {x: u})
    assert snap(box) == before


@L(h=Str, x=Str, v=Int, g=Str, w=Int, p=Str, u=Int)
def a_mapping_merges_into_a_nested_namespace(h, x, v, g, w, p, u):
    box = base(h, x, v, g, w)
    name(p)
    assume(p != x)
    inner = box[h]
    box[h] = {p: u}
    assert box[h] is inner
    assert snap(box) == [(h, [(x, v), (p, u)]), (g, w)]


@L(h=Str, x=Str, v=Int, g=Str, w=Int, p=Str, q=Str, closed=Bool)
def membership_changes_nothing(h, x, v, g, w, p, q, closed):
    box = base(h, x, v, g, w)
    name(p, q)
    if closed:
        close(box)
    before = snap(box)
    assert (p in box) == (p == h or p == g)
    assert (f"{p}.{q}" in box) == (p == h and q == x)
    assert (f"{h}.{x}.{q}" in box) == False  # noqa: E712
    assert snap(box) == before


@L(h=Str, x=Str, v=Int, g=Str, w=Int, p=Str, q=Str)
def reading_a_missing_name_opens_a_namespace(h, x, v, g, w, p, q):
    box = base(h, x, v, g, w)
    name(p, q)
    assume(p != h and p != g)
    r = box[p]
    assert isinstance(r, Box) and len(r) == 0 and r is box[p]
    assert snap(box) == [(h, [(x, v)]), (g, w), (p, [])]


@L(h=Str, x=Str, v=Int, g=Str, w=Int, p=Str, u=Int)
def closed_is_fixed(h, x, v, g, w, p, u):
    box = base(h, x, v, g, w)
    name(p)
    inner = box[h]
    close(box)
    before = snap(box)

    def assign(b, key, value):
        b[key] = value

    assert raises(ValueError, assign, box, p, u)
    assert raises(ValueError, assign, box, p, {x: u})
    assert raises(ValueError, assign, inner, p, u)
    assert raises(ValueError, assign, box, f"{h}.{p}", u)
    assert raises(ValueError, assign, box, h, {p: u})
    if p != h and p != g:
        assert raises(KeyError, lambda: box[p])
        assert raises(KeyError, lambda: box[f"{p}.{x}"])
    if p != x:
        assert raises(KeyError, lambda: box[f"{h}.{p}"])
        assert raises(KeyError, lambda: inner[p])
    assert snap(box) == before
    box._status.root = "open"
    if p != h and p != g:
        box[p] = u
        assert snap(box) == [*before, (p, u)]


@L(h=Str, x=Str, v=Int, p=Str, q=Str, u=Int)
def implicit_namespaces_close_with_the_whole(h, x, v, p, q, u):
    name(h, x, p, q)
    box = Box()
    inner = box[h]
    deep = inner[x]
    deep["leaf"] = v
    close(box)
    before = snap(box)

    def assign(b, key):
        b[key] = u

    for b in (box, inner, deep):
        assert raises(ValueError, assign, b, p)
    assert raises(ValueError, assign, box, f"{h}.{x}.{p}")
    if q != "leaf":
        assert raises(KeyError, lambda: deep[q])
    assert snap(box) == before
    assert before == [(h, [(x, [("leaf", v)])])]
    box._status.root = "open"
    assume(p != "leaf")
    deep[p] = u
    assert box[f"{h}.{x}.{p}"] == u


@L(h=Str, x=Str, v=Int, p=Str, u=Int)
def an_assigned_namespace_closes_with_the_whole(h, x, v, p, u):
    name(h, x, p)
    given, box = Box({x: v}), Box()
    box[h] = given
    assert snap(box) == [(h, [(x, v)])]
    close(box)

    def assign(b, key):
        b[key] = u

    assert raises(ValueError, assign, box, f"{h}.{p}")
    assert raises(ValueError, assign, box[h], p)
    outcome(lambda: assign(given, p))  # its own part, which is still open
    assert snap(box) == [(h, [(x, v)])]


@L(h=Str, x=Str, v=Int, p=Str, u=Int)
def a_namespace_given_at_first_closes_with_the_whole(h, x, v, p, u):
    name(h, x, p)
    given = Box({x: v})
    box = Box({h: given})
    close(box)

    def assign(b, key):
        b[key] = u

    assert raises(ValueError, assign, box[h], p)
    outcome(lambda: assign(given, p))
    assert snap(box) == [(h, [(x, v)])]


@L(h=Str, x=Str, v=Int, g=Str, w=Int, p=Str, u=Int, closed=Bool)
def underscore_names_are_rejected(h, x, v, g, w, p, u, closed):
    box = base(h, x, v, g, w)
    name(h)
    assume("." not in p)
    if closed:
        close(box)
    before = snap(box)

    def assign(key):
        box[key] = u

    for key in (f"_{p}", f"{h}._{p}"):
        assert raises(InvalidKeyError, assign, key)
        assert raises(InvalidKeyError, lambda: box[key])
        assert raises(InvalidKeyError, lambda: key in box)
    assert snap(box) == before


@L(h=Str, x=Str, v=Int, g=Str, w=Int)
def walking_lists_every_value_once(h, x, v, g, w):
    box = base(h, x, v, g, w)
    found = list(box.walk())
    assert found == [(f"{h}.{x}", v), (g, w)]
    for k, y in found:
        assert box[k] == y


@L(h=Str, s=Str)
def values_of_another_type_are_rejected(h, s):
    name(h)
    box = Box()

    def assign(value):
        box[h] = value

    assert raises(TypeError, assign, s)
    assert raises(TypeError, assign, None)
    assert raises(TypeError, assign, {h: s})
    assert snap(box) == []


class Wrapped:
    """A value type with a cast of its own (arbitrary: it may give anything)."""

    def __init__(self, n):
        self.n = n

    @classmethod
    def cast(cls, x):
        if x > 10:
            return cls(x)
        if x > 5:
            raise ValueError(x)
        return x


class CastBox(TypedBox[Wrapped]):
    pass


@L(h=Str, v=Int)
def casting_gives_the_value_type_or_fails(h, v):
    name(h)
    box = CastBox()
    w = Wrapped(v)

    def assign(value):
        box[h] = value

    if v > 10:
        assign(v)
        assert isinstance(box[h], Wrapped) and box[h].n == v
        assert [k for k, _ in box.walk()] == [h]
    else:
        assert raises((TypeError, ValueError), assign, v)
        assert list(box) == []
        assign(w)
        assert box[h] is w


@L(h=Str, v=Int, w=Int, u=Int)
def attributes_are_items(h, v, w, u):
    name(h)
    assume(h != "left" and h != "right" and h != "other")
    box = Box({h: v}, left=w)
    assert snap(box) == [(h, v), ("left", w)]
    assert box.left == w and box["left"] == w
    box.right = u
    assert box["right"] == u and box.right == u
    before = snap(box)

    def again():
        box.left = u

    def private():
        box._private = u

    def new():
        box.other = u

    assert raises(ValueError, again)
    assert raises(InvalidKeyError, private)
    assert raises(InvalidKeyError, lambda: box._private)
    assert snap(box) == before
    close(box)
    assert raises(ValueError, new)
    assert raises(ValueError, again)
    assert raises(InvalidKeyError, private)
    assert raises(AttributeError, lambda: box.other)
    assert snap(box) == before and box.left == w


# ------------------------------------------------------------------ bounded stand-ins (real code, sampled)


class V:
    """A value type with a cast: numbers are wrapped, other things are refused (or cast badly)."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, V) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"V({self.n})"

    @classmethod
    def cast(cls, x):
        if isinstance(x, int):
            return cls(x)
        if x == "bad":
            return "not a V"
        raise ValueError(x)


class VBox(TypedBox[V]):
    pass


class SubBox(VBox):
    pass


class Refused(Exception):
    pass


class Model_:
    """The reference: nested dictionaries, walked part by part."""

    def __init__(self):
        self.d, self.open = {}, True

    def at(self, parts, d=None):
        d = self.d if d is None else d
        for p in parts:
            if p.startswith("_") or not isinstance(d, dict):
                raise Refused(p)
            if p not in d:
                if not self.open:
                    raise Refused(p)
                d[p] = {}
            d = d[p]
        return d

    def put(self, parts, value, d=None):
        *head, tail = parts
        d = self.at(head, d)
        if tail.startswith("_") or not isinstance(d, dict):
            raise Refused(tail)
        if not self.open:
            raise Refused("closed")
        if isinstance(value, dict):
            if tail in d and not isinstance(d[tail], dict):
                raise Refused("set")
            if tail in d:
                for k, v in value.items():
                    self.put(k.split("."), v, d[tail])
            else:
                new = {}
                for k, v in value.items():
                    self.put(k.split("."), v, new)
                d[tail] = new
            return
        if tail in d:
            raise Refused("set")
        if isinstance(value, int):
            value = V(value)
        if not isinstance(value, V):
            raise Refused("type")
        d[tail] = value

    def has(self, parts):
        d = self.d
        for p in parts:
            if isinstance(d, dict) and p.startswith("_"):
                raise Refused(p)
            if not isinstance(d, dict) or p not in d:
                return False
            d = d[p]
        return True


def image(b):
    return {k: image(x) if isinstance(x, TypedBox) else x for k, x in b.items()}


def image_list(b):
    return [(k, image_list(x) if isinstance(x, TypedBox) else x) for k, x in b.items()]


def model_list(d):
    return [(k, model_list(x) if isinstance(x, dict) else x) for k, x in d.items()]


def leaves(d, root=()):
    for k, x in d.items():
        if isinstance(x, dict):
            yield from leaves(x, (*root, k))
        else:
            yield ".".join((*root, k)), x


def boxes(b):
    yield b
    for x in b.values():
        if isinstance(x, TypedBox):
            yield from boxes(x)


NAMES = ["a", "b", "c", "a_", "é", "h-1", "items", "0"]


def _name_(rng):
    return "_u" if rng.random() < 0.04 else rng.choice(NAMES[:4] if rng.random() < 0.8 else NAMES)


def _path(rng):
    return [_name_(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))]


def _val(rng, depth=0):
    r = rng.random()
    if r < 0.35 and depth < 3:
        return {".".join(_path(rng)) if rng.random() < 0.3 else rng.choice(NAMES): _val(rng, depth + 1) for _ in range(rng.randint(0, 3))}
    if r < 0.6:
        return V(rng.randint(0, 5))
    return rng.randint(0, 5) if r < 0.93 else rng.choice(["bad", "worse", None])


@scenario("C05", runs=600, bound="histories of up to 25 operations, names from 8, nesting up to 5, values with a cast")
def histories_agree_with_nested_dictionaries(rng, tmp):
    import copy
    import pickle

    cls = rng.choice([VBox, SubBox])
    box, m = cls(), Model_()
    log = []
    if rng.random() < 0.5:
        init = {}
        for _ in range(rng.randint(0, 3)):
            init[rng.choice(NAMES)] = _val(rng)
        log.append(("init", init))
        try:
            for k, v in init.items():
                m.put([k], v)
            ok = True
        except Refused:
            ok = False
        try:
            if rng.random() < 0.5:
                box = cls(init)
            else:
                box = cls(list(init.items()))
            assert ok, f"accepted {init}"
        except Refused:
            raise
        except Exception as e:
            assert not ok, f"refused {init}: {e!r}"
            return log
    for _ in range(rng.randint(1, 25)):
        if len(list(boxes(box))) > 60:
            break
        op = rng.choice(["set", "set", "set", "get", "has", "has", "close", "open", "attr", "setattr", "nested", "walk", "eq", "copy"])
        path = _path(rng)
        key = ".".join(path)
        log.append((op, key))
        before, was_open = image_list(box), m.open
        want = got = None
        if op in ("set", "setattr"):
            v = _val(rng)
            log.append(v)
            if op == "setattr":
                if path[-1].startswith("_"):
                    continue
                path, key = path[:1], path[0]
                if key.startswith("_"):
                    continue
            saved = copy.deepcopy(m.d)
            try:
                m.put(path, v)
            except Refused:
                want = "refused"
            try:
                if op == "set":
                    box[key] = v
                else:
                    setattr(box, key, v)
            except Exception as e:  # noqa: BLE001
                got = "refused"
                assert want, f"{log}: {e!r}"
            assert want == got, log
            if want:
                # what a refused assignment leaves behind is not specified beyond: nothing was lost or replaced
                if not was_open:
                    assert image_list(box) == before, log
                old = dict(leaves(saved))
                now = dict(box.walk())
                assert all(now.get(k) is x or now.get(k) == x for k, x in old.items()), log
                m.d = _plain_of(box)
        elif op in ("get", "attr"):
            try:
                want = m.at(path)
            except Refused:
                want = None
            try:
                if op == "get":
                    r = box[key]
                else:
                    r = box
                    for p in path:
                        if hasattr(dict, p):
                            r = r[p]
                        else:
                            r = getattr(r, p)
            except (KeyError, AttributeError, TypeError):
                assert want is None or (op == "attr"), log
                m.d = _plain_of(box) if m.open else m.d
            else:
                if want is None:
                    assert op == "attr" and any(hasattr(V, p) or p == "n" for p in path), log
                elif isinstance(want, dict):
                    assert type(r) is cls and image_list(r) == model_list(want), log
                else:
                    assert r is want or r == want, log
            if not m.open:
                assert image_list(box) == before, log
        elif op == "has":
            try:
                want = m.has(path)
            except Refused:
                want = "refused"
            try:
                got = key in box
            except InvalidKeyError:
                got = "refused"
            assert got == want or (got in ("refused", False) and want in ("refused", False) and "_u" in path), (log, got, want)
            assert image_list(box) == before, log
        elif op in ("close", "open"):
            box._status.root = "closed" if op == "close" else "open"
            m.open = op == "open"
        elif op == "nested":
            b = rng.choice(list(boxes(box)))
            n = rng.choice(NAMES)
            v = V(rng.randint(0, 5))
            had = n in b
            try:
                b[n] = v
                assert m.open and not had, log
                assert b[n] is v
            except ValueError:
                assert had or not m.open, log
                assert image_list(box) == before, log
            m.d = _plain_of(box)
        elif op == "eq":
            other = cls(_plain_of(box))
            assert image_list(other) == image_list(box)
        elif op == "copy" and not m.open:
            twin = copy.deepcopy(box) if rng.random() < 0.5 else pickle.loads(pickle.dumps(box))
            assert image_list(twin) == before and type(twin) is cls
            assert all(b._status == "closed" for b in boxes(twin))
            twin._status.root = "open"
            twin["fresh1"] = V(9)
            assert image_list(box) == before and "fresh1" not in box
            for b in boxes(twin):
                if "fresh2" not in b:
                    b["fresh2"] = V(8)
            assert image_list(box) == before
        # invariants
        assert image_list(box) == model_list(m.d), (log, image_list(box), model_list(m.d))
        found = list(box.walk())
        assert found == list(leaves(m.d)), log
        for k, x in found:
            assert isinstance(x, V) and k in box and box[k] is x, log
        for b in boxes(box):
            assert isinstance(b, VBox) and type(b) is cls and all(isinstance(x, (V, VBox)) for x in b.values())
            assert len(b) == len(list(b)) and (b._status == "closed") == (not m.open)
    return log


def _plain_of(b):
    return {k: _plain_of(x) if isinstance(x, TypedBox) else x for k, x in b.items()}



@scenario("C05", runs=40, bound="the artifacts and producer outputs of one graph, nesting up to 3")
def graph_namespaces_are_fixed_after_definition(rng, tmp):
    from arti import Annotation, Artifact, Graph  # noqa: F401
    from arti.storage.literal import StringLiteral
    from arti.formats.json import JSON
    from arti.types import Int64

    class Num(Artifact):
        type: Int64 = Int64()
        format: JSON = JSON()
        storage: StringLiteral

    paths = sorted({".".join(rng.choice("abc") + str(j) for j in range(rng.randint(1, 3))) for _ in range(rng.randint(1, 5))})
    with Graph(name="g") as g:
        for j, p in enumerate(paths):
            try:
                g.artifacts[p] = Num(storage=StringLiteral(id=str(j), value=str(j)))
            except (ValueError, AttributeError, TypeError):
                continue
    found = dict(g.artifacts.walk())
    before = image_list(g.artifacts)
    assert found
    for k, a in found.items():
        assert isinstance(a, Num) and g.artifacts[k] is a and k in g.artifacts
        assert "zz" not in g.artifacts and f"{k}.zz" not in g.artifacts
        for bad in (lambda: g.artifacts.__setitem__("zz", a), lambda: g.artifacts["zz"], lambda: setattr(g.artifacts, "zz", a),
                    lambda: g.artifacts.zz, lambda: g.artifacts.__setitem__(k, a), lambda: g.artifacts["zz.y"]):
            try:
                bad()
            except (KeyError, AttributeError, ValueError):
                pass
            else:
                raise AssertionError(f"a sealed graph's namespace accepted a change ({k})")
    assert image_list(g.artifacts) == before
    return paths
