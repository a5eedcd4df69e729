"""C02: combining fingerprints is an order-independent group operation on 64 bits."""

from arti.fingerprints import Fingerprint
from arti.internal.utils import int64, uint64
from pyvc.spec import *

__lemmas__ = True

Int, Str, I64, U64, FP = KInt(), KStr(), KInt(int64), KInt(uint64), KInt(Fingerprint)
FPs = KSeq(FP)


@lemma("C02", params=dict(a=FP, xs=FPs))
def combine_in_range(a, xs):
    r = a.combine(*xs)
    assert type(r) is Fingerprint
    assert -(2**63) <= int(r) <= 2**63 - 1


@lemma("C02", params=dict(a=FP, b=FP))
def combine_is_exclusive_or(a, b):
    assert int(a.combine(b)) == int(a) ^ int(b)
    assert a.combine() == a


@lemma("C02", params=dict(a=FP, b=FP))
def receiver_and_argument_exchange(a, b):
    assert a.combine(b) == b.combine(a)


@lemma("C02", params=dict(a=FP, x=FP, y=FP, xs=FPs, ys=FPs))
def adjacent_arguments_exchange(a, x, y, xs, ys):
    # adjacent exchanges generate every permutation
    assert a.combine(*xs, x, y, *ys) == a.combine(*xs, y, x, *ys)


@lemma("C02", params=dict(a=FP, x=FP, xs=FPs))
def receiver_exchanges_with_first(a, x, xs):
    assert a.combine(x, *xs) == x.combine(a, *xs)


@lemma("C02", params=dict(a=FP, xs=FPs, ys=FPs))
def grouping_of_a_prefix(a, xs, ys):
    assert a.combine(*xs, *ys) == a.combine(*xs).combine(*ys)


@lemma("C02", params=dict(a=FP, b=FP, c=FP))
def grouping(a, b, c):
    assert a.combine(b).combine(c) == a.combine(b.combine(c))
    assert a.combine(b, c) == a.combine(b.combine(c))


@lemma("C02", params=dict(a=FP))
def identity_and_inverse(a):
    e = Fingerprint.identity()
    assert type(e) is Fingerprint
    assert e.is_identity
    assert e.combine(a) == a and a.combine(e) == a
    assert a.combine(a).is_identity
    assert a.is_identity == (int(a) == 0)


@lemma("C02", params=dict(a=FP, b=FP))
def only_the_identity_changes_nothing(a, b):
    assert (a.combine(b) == a) == b.is_identity


@lemma("C02", params=dict(a=FP, b=FP, c=FP))
def cancellation(a, b, c):
    assert (a.combine(b) == a.combine(c)) == (b == c)


@lemma("C02", params=dict(i=Int))
def from_plain_integer(i):
    try:
        f = Fingerprint.from_int(i)
    except ValueError:
        assert i > 2**63 - 1 or i < -(2**63)
        return
    assert type(f) is Fingerprint and int(f) == i
    assert -(2**63) <= int(f) <= 2**63 - 1


@lemma("C02", params=dict(s=I64, u=U64))
def from_sized_integers(s, u):
    f, g = Fingerprint.from_int64(s), Fingerprint.from_uint64(u)
    assert type(f) is Fingerprint and int(f) == int(s)
    assert type(g) is Fingerprint
    assert int(g) == (int(u) if int(u) < 2**63 else int(u) - 2**64)
    assert int(uint64(g)) == int(u)
    assert -(2**63) <= int(g) <= 2**63 - 1


@lemma("C02", params=dict(s=Str))
def from_text(s):
    import farmhash

    f = Fingerprint.from_string(s)
    assert type(f) is Fingerprint
    assert -(2**63) <= int(f) <= 2**63 - 1
    h = farmhash.fingerprint64(s)
    assert int(f) == (h if h < 2**63 else h - 2**64)
    assert Fingerprint.from_string(s) == f


@lemma("C02", params=dict(xs=FPs, a=FP, b=FP), prove=False, samples=300)
def any_permutation(xs, a, b):
    import random

    ys = [a, b, *xs]
    random.Random(len(ys)).shuffle(ys)
    zs = [*xs, b, a]
    want = 0
    for z in zs:
        want ^= int(z)
    assert int(ys[0].combine(*ys[1:])) == want
    assert ys[0].combine(*ys[1:]) == zs[0].combine(*zs[1:])
    assert Fingerprint.identity().combine(*ys) == want
