"""Probe functions for selftest.py: plain Python, run by CPython and by pyvc on the same inputs."""

import dataclasses
import functools
import itertools
from collections import defaultdict

from pyvc.spec import *

__lemmas__ = True

PROBES = []


def probe(*kinds, keep=True):
    def deco(f):
        PROBES.append((f, kinds))
        return f

    return deco


# kinds: i int, s str, b bool, I list of int, S list of str, D dict str->int, T set of int, O optional int


@probe("i", "i")
def arithmetic(a, b):
    return a + b * 2 - (a - b) % 7 + -a + abs(b)


@probe("i", "i")
def division(a, b):
    return a // b, a % b, divmod(a, b)


@probe("i", "i")
def comparisons(a, b):
    return a < b, a <= b, a == b, a != b, a > b, a < b < 3, a and b, a or b, not a


@probe("i")
def bits(a):
    return a & 255, a | 0, a << 2, a >> 1, ~a


@probe("i", "i")
def extremes(a, b):
    return min(a, b), max(a, b, 3), min((b, a), default=0)


@probe("s", "s")
def texts(a, b):
    return a + b, len(a), a == b, a in b, a.startswith(b), a.endswith(b), a.replace("a", "bc")


@probe("s", "s")
def text_order(a, b):
    return a + "/" + b, f"{a}-{b!s}", a < b


@probe("s", "i")
def text_index(a, n):
    return a[n]


@probe("s", "i")
def text_slices(a, n):
    return a[n:], a[:n], a[-2:], a[1:3]


@probe("s")
def text_split(a):
    return a.partition("/"), a.rpartition("/"), a.removeprefix("a"), a.removesuffix("b")


@probe("i", "b", "O")
def branches(a, b, o):
    if b and o is not None:
        return a + o
    elif o is None:
        return "none" if a > 0 else None
    return not b


@probe("O")
def truthiness(o):
    return (o or 5), bool(o), (o is None) == (o == None), [1] if o else []  # noqa: E711


@probe("i")
def handled_errors(a):
    try:
        if a < 0:
            raise ValueError("negative")
        if a > 5:
            raise KeyError("large")
        return 10 // a
    except (ValueError, ZeroDivisionError) as e:
        return type(e).__name__
    finally:
        a = 0


@probe("i")
def unhandled_errors(a):
    try:
        if a == 1:
            raise ValueError(a)
    finally:
        a += 1
    if a == 3:
        raise TypeError
    assert a != 5
    return a


@probe("i")
def reraised(a):
    try:
        try:
            if a:
                raise KeyError(a)
        except KeyError as e:
            raise ValueError from e
        else:
            return "fine"
    except ValueError:
        return "wrapped"


@probe("I")
def lengths(xs):
    return len(xs), not xs, bool(xs), len(xs) > 2


@probe("I", "i")
def indexing(xs, i):
    return xs[i]


@probe("I")
def ends(xs):
    return xs[0], xs[-1]


@probe("I", "I")
def concatenation(xs, ys):
    return xs + ys + [1], [*xs, 0, *ys], tuple(xs) + (2,)


@probe("I")
def mapped(xs):
    return [x + 1 for x in xs]


@probe("I")
def filtered(xs):
    return [x for x in xs if x > 0]


@probe("I")
def mapped_and_filtered(xs):
    out = []
    for x in xs:
        if x < 0:
            continue
        out.append(x * 2)
    return out


@probe("I")
def several_each(xs):
    out = []
    for x in xs:
        out.append(x)
        if x > 1:
            out.append(-x)
    return len(out) >= len(xs), out == [y for x in xs for y in ((x, -x) if x > 1 else (x,))]


@probe("I")
def quantified(xs):
    return all(x > 0 for x in xs), any(x > 2 for x in xs), all(xs), any(xs)


@probe("I", "i")
def member(xs, a):
    return a in xs, a not in xs


@probe("I")
def early_return(xs):
    for x in xs:
        if x == 3:
            return True
    return False


@probe("I")
def loop_else(xs):
    for x in xs:
        if x < 0:
            break
    else:
        return "none"
    return "some"


@probe("I")
def raising_loop(xs):
    for x in xs:
        if x == 0:
            raise ValueError(x)
    return "fine"


@probe("I")
def counting(xs):
    n = 0
    for _ in xs:
        n += 1
    return n


@probe("I")
def flag(xs):
    seen = False
    for x in xs:
        if x > 3:
            seen = True
    return seen


@probe("I", "I")
def compared(xs, ys):
    return xs == ys, tuple(xs) == tuple(ys), xs != ys


@probe("I")
def enumerated(xs):
    return [i for i, _ in enumerate(xs)], [i + x for i, x in enumerate(xs)]


@probe("I", "I")
def zipped(xs, ys):
    return [x - y for x, y in zip(xs, ys)]


@probe("I", "I")
def zipped_strictly(xs, ys):
    return [x - y for x, y in zip(xs, ys, strict=True)]


@probe("I", "I")
def chained(xs, ys):
    return list(itertools.chain(xs, ys)), list(itertools.chain.from_iterable([xs, ys]))


@probe("I")
def to_set(xs):
    s = set(xs)
    return 1 in s, 0 in s, s == {x for x in xs}, s <= set(xs) | {9}


@probe("T", "T")
def set_algebra(a, b):
    return a | b, a & b, a - b, a ^ b


@probe("T", "T")
def set_relations(a, b):
    return a <= b, a < b, a == b, a.isdisjoint(b), a >= b, bool(a), bool(a - b)


@probe("T", "i")
def set_changes(a, x):
    b = set(a)
    b.add(x)
    b.discard(1)
    return a, b, x in b


@probe("T", "i")
def set_removal(a, x):
    b = set(a)
    b.remove(x)
    return b


@probe("T")
def set_comprehension(a):
    return {x + 1 for x in a if x > 0}, frozenset(x for x in a)


@probe("D", "s")
def dict_lookup(d, k):
    return k in d, d.get(k), d.get(k, 7), d[k]


@probe("D", "s", "i")
def dict_changes(d, k, v):
    e = dict(d)
    e[k] = v
    del e["a"]
    return d, e


@probe("D", "s")
def dict_pop(d, k):
    e = {**d}
    x = e.pop(k, None)
    return x, e, "a" in e


@probe("D", "D")
def dict_merge(a, b):
    return a | b, {**a, **b}, a == b, {**a, "x": 1}


@probe("D", "D")
def dict_update(a, b):
    c = dict(a)
    c.update(b)
    c.setdefault("a", 9)
    return c == {"a": 9, **a, **b}


@probe("D")
def dict_comprehension(d):
    return {k: v + 1 for k, v in d.items()}, {k: v for k, v in d.items() if v > 0}


@probe("D")
def dict_views(d):
    return set(d), set(d.keys()), all(v > 0 for v in d.values()), all(d[k] == v for k, v in d.items())


@probe("S", "I")
def dict_built(ks, vs):
    return dict(zip(ks, vs)) == {k: v for k, v in zip(ks, vs)}


@probe("S")
def dict_of_keys(ks):
    out = {}
    for k in ks:
        out[k] = len(k)
    return set(out) == set(ks), all(v == len(k) for k, v in out.items()), out.get("a")


@probe("S")
def last_wins(ks):
    out = {}
    for i, k in enumerate(ks):
        out[k] = i
    return out.get("a"), "b" in out


@probe("S")
def joined(ks):
    return "/".join(ks) == "/".join(list(ks)), "".join(["a", *ks[:1]])


@probe("i", "i")
def closures(a, b):
    def f(x, *, y=b):
        nonlocal a
        a += x
        return a + y

    return f(1), f(2, y=0), a, (lambda z: z + a)(b)


@probe("i", "i")
def arguments(a, b):
    def f(x, /, y=1, *rest, z=2, **more):
        return x, y, rest, z, sorted(more)

    return f(a), f(a, b), f(a, b, 3, z=4, w=5), f(*[a, b], **{"z": 1})


@probe("i")
def wrong_arguments(a):
    def f(x, y=1):
        return x

    return f(a, z=1)


@probe("i", "i")
def unpacking(a, b):
    (x, y), *z = [(a, b), b, a]
    x, y = y, x
    return x, y, z


@probe("I")
def unpacking_some(xs):
    first, *rest = xs
    return first, rest


@probe("I")
def unpacking_two(xs):
    a, b = xs
    return a - b


@probe("i", "O")
def matched(a, o):
    match (a, o):
        case (0, _):
            return "zero"
        case (x, None):
            return x
        case (x, y) if x > y:
            return "more"
    return "other"


@probe("i")
def walrus(a):
    if (b := a + 1) > 3:
        return b
    return [y for x in (a, b) if (y := x * 2) > 0]


class Point:
    scale = 2

    def __init__(self, x, y=0):
        self.x, self.y = x, y

    def __eq__(self, other):
        return isinstance(other, Point) and (self.x, self.y) == (other.x, other.y)

    @property
    def total(self):
        return self.x + self.y

    @functools.cached_property
    def once(self):
        self.y += 1
        return self.y

    @classmethod
    def both(cls, a):
        return cls(a, a)

    @staticmethod
    def double(a):
        return a * 2


class Point3(Point):
    scale = 3

    def __init__(self, x, y=0, z=0):
        super().__init__(x, y)
        self.z = z

    @property
    def total(self):
        return super().total + self.z


@probe("i", "i")
def instances(a, b):
    p, q = Point(a, b), Point3(a, b, 1)
    p.y += 1
    return p.total, q.total, p == Point(a, b + 1), q != p, Point.both(b).x, q.double(a), q.scale * p.scale


@probe("i")
def aliasing(a):
    p = Point(a)
    q = p
    q.x = 5
    xs = ys = [a]
    ys.append(a)
    ys += [1]
    zs = xs + []
    zs.append(2)
    return p.x, xs, zs, xs is ys, p.once, p.once, p.y


@probe("i")
def attributes(a):
    p = Point(a)
    return hasattr(p, "x"), hasattr(p, "z"), getattr(p, "z", a), isinstance(p, (int, Point)), isinstance(a, int), type(p).__name__


@probe("i")
def missing_attribute(a):
    return Point(a).nothing


def numbers(n):
    if n > 0:
        yield n
        n += 1
    yield n
    yield from (n, 3)


@probe("i")
def generators(a):
    return list(numbers(a)), next(iter(numbers(a))), sum(numbers(a))


@probe("i", "i")
def sorting(a, b):
    return sorted([a, b]), sorted([a, b], reverse=True), sorted([a, b], key=lambda x: -x)


@probe("i", "i")
def conversions(a, b):
    return int(a), str(a) == str(b), bool(b), tuple([a, b]), list((a, b)), float(1), isinstance(True, int)


@probe("s")
def numbers_from_texts(a):
    return int(a)


@probe("i")
def numbers_to_texts(a):
    return str(a), f"{a}", repr(a)


@probe("i")
def padded(a):
    return f"{a:02}", f"{a:03}"


@probe("i", "s")
def defaults(a, s):
    d = defaultdict(list)
    d[s].append(a)
    d["a"].append(1)
    return dict(d), len(d)


@probe("b", "b")
def logic(a, b):
    return a and b, a or b, a ^ b, a is b, a == (not b), int(a) + b


@probe("I", "i")
def slices(xs, n):
    return xs[1:], xs[:1], xs[:-1], xs[n:], xs[::-1][:1]


@probe("i", "i", "i")
def while_loop(a, b, c):
    n = 0
    while n < 3:
        if n == a:
            break
        n += 1
    else:
        return "full"
    return n


@probe("S")
def nested_loops(ks):
    return [(a, n) for a in ks for n in (1, 2)]


@probe("I")
def nested_any(xs):
    return any(x == y + 1 for x in xs for y in xs)


@probe("I")
def partial_calls(xs):
    f = functools.partial(max, 2)
    return [f(x) for x in xs]


@probe("s", "S", "i")
def known_group(s, ks, n):
    groups = defaultdict[str, set[int]](set)
    groups[s].add(n + 1)
    groups["a"].add(n)
    here = groups["a"]
    for k in ks:
        here.add(len(k))
    return all(len(k) in groups["a"] for k in ks), 1 in groups["a"], n + 1 in groups[s], s in groups, "zz" in groups


@probe("S", "s")
def grouped_sets(ks, a):
    groups = defaultdict[str, set[int]](set)
    for k in ks:
        groups[k].add(len(k) + 1)
    return a in groups, "b" in groups, (len(a) + 1 in groups[a]), groups["zz"] == set()


@probe("I", "i")
def grouped_lists(xs, a):
    groups = defaultdict[int, list[int]](list)
    groups[0].append(7)
    for x in xs:
        groups[x].append(x + 1)
    return groups[0][0], a in groups, len(groups[a]) > 0, all(y == a + 1 for y in groups[a]), groups[5][:1]


@probe("I")
def grouped_pairs(xs):
    groups = defaultdict[int, list[tuple[int, int]]](list)
    for n, x in enumerate(xs):
        if x > 0:
            groups[x].append((n, x))
    return {k: tuple(n for n, _ in sorted(v, key=lambda o: o[0])) for k, v in groups.items()} == {
        x: tuple(n for n, y in enumerate(xs) if y == x) for x in xs if x > 0
    }


@probe("s", "i")
def aliased_groups(s, n):
    groups = defaultdict[str, list[int]](list)
    first = groups["a"]
    groups[s].append(n)
    first.append(5)
    plain = {"a": first}
    plain[s] = []
    first.append(6)
    return groups["a"], first, plain["a"]


@probe("s", "i")
def aliased_lists(s, n):
    inner = [n]
    d = {"a": inner}
    d["b"] = inner
    inner.append(1)
    e = dict(d)
    e["a"].append(2)
    f = [inner, inner]
    f[0].append(3)
    return d, e, f, inner is d["a"], f[1] is e["b"]


@probe("I")
def loop_aliases(xs):
    a = [0]
    d = {"n": []}
    best = a
    for x in xs:
        d["n"] = a
        best = [x]
    a.append(9)
    return d["n"], best


@probe("S", "I", "i")
def nested_adds(ks, xs, a):
    found = set[int]()
    for k in ks:
        if k == "zz":
            found.add(-1)
        else:
            for x in xs:
                if x > 1:
                    found.add(x)
                else:
                    found.add(len(k))
    return a in found, -1 in found, 2 in found, 0 in found


@probe("S", "I", "s")
def set_displays(ks, xs, a):
    found = {*ks, a, "b"}
    return a in found, "b" in found, "zz" in found, all(k in found for k in ks), {*xs} == set(xs)


def agrees(f, xs, vs, wanted):
    for x, v in zip(xs, vs):
        assume(x == v)
    assert outcome(f, *xs) == wanted


def never(f, xs, vs, wanted):
    for x, v in zip(xs, vs):
        assume(x == v)
    assert outcome(f, *xs) != wanted


@probe("S")
def sorting_is_stable(xs):
    by_length = sorted(xs, key=lambda x: len(x))
    return len(by_length) == len(xs), by_length == sorted(xs, key=len), all(len(a) <= len(b) for a, b in zip(by_length, by_length[1:])), by_length[:1]


@probe("I", "i")
def sorting_by_a_captured_value(xs, a):
    def far(x):
        return abs(x - a)

    near = sorted(xs, key=far)
    a = 5
    again = sorted(xs, key=far)
    return near[:1], again[:1], near == again, sorted(xs, key=lambda x: -x)[:1]


@probe("I")
def sorting_pairs(xs):
    pairs = [(x % 3, i) for i, x in enumerate(xs)]
    last = sorted(pairs, key=lambda o: o[0], reverse=True)
    return last[:1], [i for _, i in last][:2], len(last)


@probe("S", "s")
def sorting_groups(xs, a):
    groups = defaultdict[str, list[tuple[int, str]]](list)
    for i, x in enumerate(xs):
        if x != a:
            groups[x[:1]].append((-i, x))
    listed = {k: tuple(x for _, x in sorted(v, key=lambda o: o[0])) for k, v in groups.items()}
    return "a" in listed, a[:1] in listed, listed.get("a", ())[:1], len(listed.get("", ()))


@probe("I", "i", "i")
def slices(xs, a, b):
    return xs[:1], xs[1:3], xs[-2:], xs[:-1], xs[a:b], xs[a:], (*xs, a)[:b], xs[5:2]
