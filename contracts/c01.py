"""C01: fixed-width integers never leave their range and never silently wrap."""

import operator

from arti.fingerprints import Fingerprint
from arti.internal.utils import int64, uint64
from pyvc.spec import *

__lemmas__ = True

Int, I64, U64 = KInt(), KInt(int64), KInt(uint64)
LIMITS = {int64: (-(2**63), 2**63 - 1), uint64: (0, 2**64 - 1)}


@lemma("C01", params=dict(i=Int))
def int64_construct(i):
    try:
        x = int64(i)
    except ValueError:
        assert i > 2**63 - 1 or i < -(2**63)
        return
    assert type(x) is int64
    assert -(2**63) <= int(x) <= 2**63 - 1
    assert int(x) == i


@lemma("C01", params=dict(i=Int))
def uint64_construct(i):
    try:
        x = uint64(i)
    except ValueError:
        assert i > 2**64 - 1 or i < 0
        return
    assert type(x) is uint64
    assert 0 <= int(x) <= 2**64 - 1
    assert int(x) == i


@lemma("C01", params=dict(u=U64))
def unsigned_to_signed(u):
    x = int64(u)
    assert type(x) is int64
    assert int(x) == (int(u) if int(u) < 2**63 else int(u) - 2**64)
    back = uint64(x)
    assert type(back) is uint64
    assert int(back) == int(u)


@lemma("C01", params=dict(s=I64))
def signed_to_unsigned(s):
    x = uint64(s)
    assert type(x) is uint64
    assert int(x) == (int(s) if int(s) >= 0 else int(s) + 2**64)
    back = int64(x)
    assert type(back) is int64
    assert int(back) == int(s)


@lemma("C01", params=dict(s=I64, u=U64))
def same_type_copies(s, u):
    assert type(int64(s)) is int64 and int(int64(s)) == int(s)
    assert type(uint64(u)) is uint64 and int(uint64(u)) == int(u)


@lemma("C01", params=dict(s=I64, u=U64, i=Int))
def compare_like_plain(s, u, i):
    assert (s == i) == (int(s) == i) and (i == s) == (int(s) == i) and (s != i) == (int(s) != i)
    assert (u == i) == (int(u) == i) and (i == u) == (int(u) == i)
    assert (s == u) == (int(s) == int(u))
    assert (s < i) == (int(s) < i) and (i < u) == (i < int(u)) and (s <= u) == (int(s) <= int(u))
    assert hash(s) == hash(int(s)) and hash(u) == hash(int(u))
    assert str(s) == str(int(s)) and str(u) == str(int(u))
    assert f"{s}" == f"{int(s)}" and f"{u}" == f"{int(u)}"
    assert repr(s) == "int64(" + str(int(s)) + ")"
    assert repr(u) == "uint64(" + str(int(u)) + ")"


def binary(cls, op, x, y):
    lo, hi = LIMITS[cls]
    try:
        exact = op(int(x), int(y))
    except (ZeroDivisionError, ValueError):
        assert raises((ZeroDivisionError, ValueError), op, x, y)
        return
    try:
        r = op(x, y)
    except ValueError:
        assert not (lo <= exact <= hi)
        return
    assert type(r) is cls
    assert int(r) == exact
    assert lo <= int(r) <= hi


def binary_reflected(cls, op, x, y):
    lo, hi = LIMITS[cls]
    try:
        exact = op(y, int(x))
    except (ZeroDivisionError, ValueError):
        assert raises((ZeroDivisionError, ValueError), op, y, x)
        return
    try:
        r = op(y, x)
    except ValueError:
        assert not (lo <= exact <= hi)
        return
    assert type(r) is cls
    assert int(r) == exact
    assert lo <= int(r) <= hi


def unary(cls, op, x):
    lo, hi = LIMITS[cls]
    exact = op(int(x))
    try:
        r = op(x)
    except ValueError:
        assert not (lo <= exact <= hi)
        return
    assert type(r) is cls
    assert int(r) == exact
    assert lo <= int(r) <= hi


def gen_for(cls, op, ky, shift_of=None):
    def gen(rng):
        x, y = native_value(KInt(cls), rng), native_value(ky, rng)
        if shift_of == "y":
            y = type(y)(rng.choice([0, 1, 2, 31, 62, 63, 64, 70, rng.randint(0, 100)] + ([-1] if type(y) is not uint64 else [])))
            if rng.random() < 0.5:
                x = cls(rng.choice([0, 1, 2, 3]))
        if shift_of == "x":
            x = cls(rng.choice([0, 1, 2, 31, 62, 63, 64, 70]))
            if rng.random() < 0.5:
                y = rng.choice([0, 1, 2, 3, -1])
        return dict(cls=cls, op=op, x=x, y=y)

    return gen


NAMES = ("add", "sub", "mul", "floordiv", "mod", "and_", "or_", "xor", "lshift", "rshift")
for _cls, _k, _other in ((int64, I64, U64), (uint64, U64, I64)):
    for _n in NAMES:
        _op = getattr(operator, _n)
        _sh = _n in ("lshift", "rshift")
        for _ky, _t in ((Int, "int"), (_k, "same"), (_other, "other")):
            lemma("C01", name=f"{_cls.__name__}_{_n}_{_t}", params=dict(cls=KConst(_cls), op=KConst(_op), x=_k, y=_ky),
                  gen=gen_for(_cls, _op, _ky, "y" if _sh else None), samples=60)(binary)
        lemma("C01", name=f"{_cls.__name__}_r{_n}", params=dict(cls=KConst(_cls), op=KConst(_op), x=_k, y=Int),
              gen=gen_for(_cls, _op, Int, "x" if _sh else None), samples=60)(binary_reflected)
    for _op in (operator.neg, operator.pos, operator.invert, round):
        lemma("C01", name=f"{_cls.__name__}_{_op.__name__}", params=dict(cls=KConst(_cls), op=KConst(_op), x=_k),
              gen=(lambda c, k, o: lambda rng: dict(cls=c, op=o, x=native_value(k, rng)))(_cls, _k, _op))(unary)
    import math
    for _op in (math.floor, math.ceil, math.trunc):
        lemma("C01", name=f"{_cls.__name__}_{_op.__name__}", params=dict(cls=KConst(_cls), op=KConst(_op), x=_k),
              gen=(lambda c, k, o: lambda rng: dict(cls=c, op=o, x=native_value(k, rng)))(_cls, _k, _op))(unary)
