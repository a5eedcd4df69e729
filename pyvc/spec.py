"""The contract language: lemmas over the real code, bounded scenarios, and known findings.

A lemma is a plain Python function whose parameters range over declared kinds.  Its body calls the
real functions; `assume` states preconditions, `assert` states what must follow.  The verifier
executes the body symbolically, for all parameter values, and turns every `assert` (and the absence
of unexpected exceptions) into proof obligations.  The same function runs natively on concrete
arguments: to replay a counterexample, and as a bounded stand-in.
"""

from __future__ import annotations

import inspect
from contextlib import nullcontext
from dataclasses import dataclass, field
from typing import Any, Callable

from .values import *


class Skip(Exception):
    """The concrete arguments do not satisfy the preconditions."""


class BadValue(Exception):
    """A value every lemma relies on (an integer within its type's range) cannot even be constructed."""

    def __init__(self, text, value):
        super().__init__(text)
        self.value = value


def assume(c):
    if not c:
        raise Skip


def choice(n):
    """An arbitrary number in range(n) (only meaningful symbolically; natively set by the driver)."""
    return _choice(n)


def _choice(n):
    import random

    return random.randrange(n)


def raises(exc, fn, *args, **kw):
    """Does the call raise (an instance of) `exc`?  Any other exception propagates."""
    try:
        fn(*args, **kw)
    except exc:
        return True
    return False


def outcome(fn, *args, **kw):
    """("ok", value) or ("raises", None)."""
    try:
        return ("ok", fn(*args, **kw))
    except Exception:
        return ("raises", None)


def implies(a, b):
    return (not a) or b


@dataclass
class Lemma:
    prop: str
    name: str
    fn: Callable
    params: dict
    gen: Callable | None
    prove: bool
    setup: Callable | None  # configures the engine (contracts, attribute kinds, hints)
    budget: float
    samples: int
    contracts: tuple
    note: str
    max_paths: int = 3000
    cover: bool = True
    modular: Callable | None = None  # contracts of callees proved by other lemmas
    around: Callable = nullcontext  # entered for native runs only (lets collaborators note their calls)


@dataclass
class Scenario:
    prop: str
    name: str
    fn: Callable  # fn(rng, tmp) -> None | description of the checked case
    runs: int
    bound: str
    why: str = ""


@dataclass
class Known:
    prop: str
    name: str
    fn: Callable  # returns a description if the finding (still) reproduces, else None
    what: str


LEMMAS: dict[str, list[Lemma]] = {}
SCENARIOS: dict[str, list[Scenario]] = {}
KNOWN: dict[str, list[Known]] = {}


def lemma(prop, *, params=None, gen=None, prove=True, setup=None, budget=40.0, samples=150, contracts=(), note="",
          max_paths=3000, cover=True, name=None, modular=None, around=nullcontext):
    def deco(fn):
        LEMMAS.setdefault(prop, []).append(
            Lemma(prop, name or fn.__name__, fn, params or {}, gen, prove, setup, budget, samples, contracts, note, max_paths, cover, modular, around)
        )
        return fn

    return deco


def scenario(prop, *, runs=20, bound="", why=""):
    def deco(fn):
        SCENARIOS.setdefault(prop, []).append(Scenario(prop, fn.__name__, fn, runs, bound or (fn.__doc__ or "").strip(), why))
        return fn

    return deco


def known(prop, what):
    def deco(fn):
        KNOWN.setdefault(prop, []).append(Known(prop, fn.__name__, fn, what))
        return fn

    return deco


# ------------------------------------------------------------------------------ native values


def native_value(kind: Kind, rng, depth=0) -> Any:
    if isinstance(kind, KConst):
        return kind.value
    if isinstance(kind, KInt):
        lo, hi = getattr(kind.cls, "_min", None), getattr(kind.cls, "_max", None)
        r = rng.random()
        if lo is None:
            lo, hi = -(2**70), 2**70
        if r < 0.35:
            v = rng.choice([0, 1, -1, 2, 7, 63, 64, 65, -2, 10])
        elif r < 0.7:
            v = rng.choice([lo, lo + 1, hi, hi - 1, 2**63 - 1, 2**63, -(2**63), 2**64 - 1, 2**64, -(2**63) - 1, 2**32])
        else:
            v = rng.randint(lo, hi)
        v = min(max(v, lo), hi)
        if kind.cls is int:
            return v
        try:
            r = kind.cls(v)
        except Exception as e:
            raise BadValue(f"{kind.cls.__name__}({v}) raised {type(e).__name__}: {e}", {"value": v}) from None
        if type(r) is not kind.cls or int(r) != v:
            raise BadValue(f"{kind.cls.__name__}({v}) is {r!r}", {"value": v})
        return r
    if isinstance(kind, KBool):
        return rng.random() < 0.5
    if isinstance(kind, KStr):
        n = rng.choice([0, 1, 1, 2, 3, 5, 9])
        return "".join(rng.choice("ab_.{}-/0 9zX\u00e9") for _ in range(n))
    if isinstance(kind, KBytes):
        return rng.randbytes(rng.choice([0, 1, 3, 8, 100]))
    if isinstance(kind, KAlt):
        return native_value(rng.choice(kind.kinds), rng, depth + 1)
    if isinstance(kind, KTuple):
        return tuple(native_value(k, rng, depth + 1) for k in kind.kinds)
    if isinstance(kind, KSeq):
        return kind.cls(native_value(kind.ek, rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3, 5])))
    if isinstance(kind, KDict):
        return kind.cls(
            {native_value(kind.kk, rng, depth + 1): native_value(kind.vk, rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 4]))}
        )
    if isinstance(kind, KSet):
        return kind.cls(native_value(kind.kk, rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 4])))
    raise Skip(f"no native values for {kind}")


def as_declared(fn, handler, n):
    """`handler` for calls of `fn`, however they pass the arguments: the first n positionally, the others by name."""

    def run(e, args, kw):
        try:
            given = inspect.signature(fn).bind(*args, **kw).arguments
        except TypeError:
            return handler(e, args, kw)
        names = list(inspect.signature(fn).parameters.values())
        if "**" in kw or any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in names):
            return handler(e, args, kw)
        first = [given[p.name] for p in names[:n] if p.name in given]
        rest = {k: v for k, v in given.items() if k not in {p.name for p in names[:n]}}
        return handler(e, first, rest)

    return run
